From 53aa3338b9552ef74e7128a6d76584b53f8a4fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 01/27] fix: report the right line number for records with
 invalid UTF-8

---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8bb8952..6fa2274 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -258,7 +258,7 @@ impl<R: Read> RecordsIter for Reader<R> {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn next_string_record(&mut self) -> Option<Self::StringItem<'_>> {
-        let line = self.line;
+        let line = self.line + 1;
         match self.next_byte_record() {
             Some(Ok(record)) => match StringRecord::try_from(record) {
                 Ok(record) => Some(Ok(record)),
-- 
2.43.0


From 150d001616b0bf1b27e7dcbe981cf8fd4b9b9674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 02/27] fix: compare values of different byte length when
 ignoring case

---
 src/matcher/subfield/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/matcher/subfield/mod.rs b/src/matcher/subfield/mod.rs
index 5bd6da9..447a492 100644
--- a/src/matcher/subfield/mod.rs
+++ b/src/matcher/subfield/mod.rs
@@ -232,10 +232,6 @@ impl RelationMatcher {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn compare(&self, value: &[u8], options: &MatcherOptions) -> bool {
-        if value.len() != self.value.len() {
-            return false;
-        }
-
         if options.case_ignore {
             self.value.to_lowercase() == value.to_lowercase()
         } else {
-- 
2.43.0


From 47c52ea2a1729b0929a741ac152a5730f15addd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 03/27] fix: parse boolean expressions by precedence, without
 backtracking

'a && b ^ c || d' was rejected, and the time to parse an expression
grew by a factor of eight with each pair of parentheses.
---
 src/matcher/field/parser.rs    | 68 +++++++-------------------------
 src/matcher/subfield/parser.rs | 72 +++++++++-------------------------
 2 files changed, 33 insertions(+), 107 deletions(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 7581149..8e9812a 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -259,13 +259,7 @@ fn parse_field_group_matcher(
 ) -> ModalResult<FieldMatcher> {
     delimited(
         terminated(ws('('), group_level_inc),
-        alt((
-            parse_field_composite_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_group_matcher,
-        )),
+        parse_field_or_matcher,
         ws(')').map(|_| group_level_dec()),
     )
     .map(|matcher| FieldMatcher::Group(Box::new(matcher)))
@@ -290,20 +284,10 @@ fn parse_field_not_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
 }
 
 fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_and_matcher,
-            parse_field_xor_matcher,
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(ws("||"), atom)))
+    (
+        parse_field_xor_matcher,
+        repeat(0.., preceded(ws("||"), parse_field_xor_matcher)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev | next)
         })
@@ -311,19 +295,13 @@ fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
 }
 
 fn parse_field_xor_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_and_matcher,
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(alt(("^", "XOR")), atom)))
+    (
+        parse_field_and_matcher,
+        repeat(
+            0..,
+            preceded(alt(("^", "XOR")), parse_field_and_matcher),
+        ),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev ^ next)
         })
@@ -342,36 +320,18 @@ fn parse_field_and_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
         .parse_next(i)
     };
 
-    (atom, repeat(1.., preceded(ws("&&"), atom)))
+    (atom, repeat(0.., preceded(ws("&&"), atom)))
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev & next)
         })
         .parse_next(i)
 }
 
-#[inline(always)]
-fn parse_field_composite_matcher(
-    i: &mut &[u8],
-) -> ModalResult<FieldMatcher> {
-    alt((
-        parse_field_or_matcher,
-        parse_field_xor_matcher,
-        parse_field_and_matcher,
-    ))
-    .parse_next(i)
-}
-
 /// Parse a [FieldMatcher] expression.
 pub(crate) fn parse_field_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    ws(alt((
-        parse_field_composite_matcher,
-        parse_field_group_matcher,
-        parse_field_not_matcher,
-        parse_field_singleton_matcher,
-        parse_field_cardinality_matcher,
-    )))
+    ws(parse_field_or_matcher)
     .map(|matcher| {
         group_level_reset();
         matcher
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index 6ee7d52..62ffc4a 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -312,12 +312,7 @@ fn parse_subfield_group_matcher(
 ) -> ModalResult<SubfieldMatcher> {
     delimited(
         terminated(ws('('), group_level_inc),
-        alt((
-            parse_subfield_composite_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-            parse_subfield_group_matcher,
-        )),
+        parse_subfield_or_matcher,
         ws(')').map(|_| group_level_dec),
     )
     .map(|m| SubfieldMatcher::Group(Box::new(m)))
@@ -353,18 +348,10 @@ fn parse_subfield_not_matcher(
 fn parse_subfield_or_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_and_matcher,
-            parse_subfield_xor_matcher,
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded("||", atom)))
+    (
+        parse_subfield_xor_matcher,
+        repeat(0.., preceded("||", parse_subfield_xor_matcher)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev | next)
         })
@@ -374,17 +361,13 @@ fn parse_subfield_or_matcher(
 fn parse_subfield_xor_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_and_matcher,
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(alt(("^", "XOR")), atom)))
+    (
+        parse_subfield_and_matcher,
+        repeat(
+            0..,
+            preceded(alt(("^", "XOR")), parse_subfield_and_matcher),
+        ),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev ^ next)
         })
@@ -403,39 +386,22 @@ fn parse_subfield_and_matcher(
         .parse_next(i)
     };
 
-    (atom, repeat(1.., preceded("&&", atom)))
+    (atom, repeat(0.., preceded("&&", atom)))
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev & next)
         })
         .parse_next(i)
 }
 
-#[inline(always)]
-fn parse_subfield_composite_matcher(
-    i: &mut &[u8],
-) -> ModalResult<SubfieldMatcher> {
-    alt((
-        parse_subfield_or_matcher,
-        parse_subfield_xor_matcher,
-        parse_subfield_and_matcher,
-    ))
-    .parse_next(i)
-}
-
 pub(crate) fn parse_subfield_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    alt((
-        parse_subfield_composite_matcher,
-        parse_subfield_singleton_matcher,
-        parse_subfield_group_matcher,
-        parse_subfield_not_matcher,
-    ))
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
-    .parse_next(i)
+    parse_subfield_or_matcher
+        .map(|matcher| {
+            group_level_reset();
+            matcher
+        })
+        .parse_next(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 69fcf751b38d04944943234259ffff0cf0f9a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 04/27] fix: leave a group of subfield matchers again

---
 src/matcher/subfield/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index 62ffc4a..188961a 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -313,7 +313,7 @@ fn parse_subfield_group_matcher(
     delimited(
         terminated(ws('('), group_level_inc),
         parse_subfield_or_matcher,
-        ws(')').map(|_| group_level_dec),
+        ws(')').map(|_| group_level_dec()),
     )
     .map(|m| SubfieldMatcher::Group(Box::new(m)))
     .parse_next(i)
-- 
2.43.0


From 9aeb790fa23c4a90059c78c0bd55a1fa14f63418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 05/27] fix: start parsing a matcher at group level zero

The count of open groups was left behind by expressions that failed to
parse, so that valid expressions were rejected later on.
---
 src/matcher/field/parser.rs    | 9 +++------
 src/matcher/subfield/parser.rs | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 8e9812a..aef81c3 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -331,12 +331,9 @@ fn parse_field_and_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
 pub(crate) fn parse_field_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    ws(parse_field_or_matcher)
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
-    .parse_next(i)
+    // an expression that failed to parse leaves its groups open
+    group_level_reset();
+    ws(parse_field_or_matcher).parse_next(i)
 }
 
 #[cfg(test)]
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index 188961a..65d349b 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -396,12 +396,9 @@ fn parse_subfield_and_matcher(
 pub(crate) fn parse_subfield_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    parse_subfield_or_matcher
-        .map(|matcher| {
-            group_level_reset();
-            matcher
-        })
-        .parse_next(i)
+    // an expression that failed to parse leaves its groups open
+    group_level_reset();
+    parse_subfield_or_matcher.parse_next(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1a9f3cf3981104e7257be9a446a73ced50866fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 06/27] fix: write a record that was changed through its
 RecordRef as it is now

---
 src/record.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/record.rs b/src/record.rs
index b9776d9..720477c 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -222,6 +222,8 @@ impl<'a> Deref for ByteRecord<'a> {
 impl DerefMut for ByteRecord<'_> {
     #[inline]
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // the record may be changed through the reference
+        self.raw_data = None;
         &mut self.record
     }
 }
-- 
2.43.0


From 86cf28977ecc060e04f7ac8599ae5fff108e2986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 07/27] fix: start parsing a format at group level zero

---
 src/fmt/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fmt/parser.rs b/src/fmt/parser.rs
index 8882592..b8ebc21 100644
--- a/src/fmt/parser.rs
+++ b/src/fmt/parser.rs
@@ -16,6 +16,9 @@ use crate::matcher::tag::parse_tag_matcher;
 use crate::parser::{parse_string, parse_subfield_codes, ws};
 
 pub(crate) fn parse_format(i: &mut &[u8]) -> ModalResult<Format> {
+    // A previous parse may have failed inside of a group.
+    GROUP_LEVEL.set(0);
+
     (
         parse_tag_matcher,
         parse_occurrence_matcher,
-- 
2.43.0


From f720a02da2dab33eb6c194de4034cb73217d1899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 08/27] fix: parse the lists of a format in a single pass

---
 src/fmt/parser.rs | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/fmt/parser.rs b/src/fmt/parser.rs
index b8ebc21..3b6386b 100644
--- a/src/fmt/parser.rs
+++ b/src/fmt/parser.rs
@@ -46,12 +46,7 @@ pub(crate) fn parse_format(i: &mut &[u8]) -> ModalResult<Format> {
 }
 
 fn parse_fragments(i: &mut &[u8]) -> ModalResult<Fragments> {
-    alt((
-        ws(parse_list).map(Fragments::List),
-        ws(parse_group).map(Fragments::Group),
-        ws(parse_value).map(Fragments::Value),
-    ))
-    .parse_next(i)
+    ws(parse_list_cons).map(Fragments::from).parse_next(i)
 }
 
 thread_local! {
@@ -79,10 +74,8 @@ fn parse_group(i: &mut &[u8]) -> ModalResult<Group> {
     (
         terminated(ws('('), group_level_inc),
         parse_modifier,
-        alt((
-            ws(parse_list).map(Fragments::List),
-            ws(parse_value).map(Fragments::Value),
-        )),
+        parse_fragments
+            .verify(|fragments| !matches!(fragments, Fragments::Group(_))),
         ws(')').map(|_| group_level_dec()),
         alt((
             preceded(
@@ -138,19 +131,10 @@ fn parse_value(i: &mut &[u8]) -> ModalResult<Value> {
         .parse_next(i)
 }
 
-#[inline]
-fn parse_list(i: &mut &[u8]) -> ModalResult<List> {
-    alt((parse_list_cons, parse_list_and_then)).parse_next(i)
-}
-
 fn parse_list_cons(i: &mut &[u8]) -> ModalResult<List> {
     separated(
-        2..,
-        alt((
-            parse_list_and_then.map(Fragments::List),
-            parse_group.map(Fragments::Group),
-            parse_value.map(Fragments::Value),
-        )),
+        1..,
+        parse_list_and_then.map(Fragments::from),
         ws("<*>"),
     )
     .map(List::Cons)
@@ -159,7 +143,7 @@ fn parse_list_cons(i: &mut &[u8]) -> ModalResult<List> {
 
 fn parse_list_and_then(i: &mut &[u8]) -> ModalResult<List> {
     separated(
-        2..,
+        1..,
         alt((
             parse_group.map(Fragments::Group),
             parse_value.map(Fragments::Value),
@@ -170,6 +154,20 @@ fn parse_list_and_then(i: &mut &[u8]) -> ModalResult<List> {
     .parse_next(i)
 }
 
+/// A list with a single item is the same as the item itself.
+impl From<List> for Fragments {
+    fn from(list: List) -> Self {
+        match list {
+            List::AndThen(mut items) | List::Cons(mut items)
+                if items.len() == 1 =>
+            {
+                items.remove(0)
+            }
+            list => Self::List(list),
+        }
+    }
+}
+
 fn parse_modifier(i: &mut &[u8]) -> ModalResult<Option<Modifier>> {
     opt(preceded(
         '?',
-- 
2.43.0


From 71df483094f6bcfe4533010880985e0020cc0d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 09/27] fix: let slice --length count valid records only

---
 crates/pica-cli/src/commands/slice.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index a5d9372..b47f245 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -97,7 +97,7 @@ impl Slice {
             .append(self.append)
             .from_path_or_stdout(self.output)?;
 
-        let mut range = if self.end > 0 {
+        let range = if self.end > 0 {
             self.start..self.end
         } else if self.length > 0 {
             self.start..(self.start + self.length)
@@ -116,9 +116,6 @@ impl Slice {
                 match result {
                     Err(e) if e.skip_parse_err(skip_invalid) => {
                         progress.update(true);
-                        if self.length > 0 && range.end < usize::MAX {
-                            range.end += 1;
-                        }
                         continue;
                     }
                     Err(e) => return Err(e.into()),
-- 
2.43.0


From d228b418b81fe184a2f92f49d9f7818f89c51e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 10/27] fix: ignore records without an IDN in concat --unique

---
 crates/pica-cli/src/commands/concat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/concat.rs b/crates/pica-cli/src/commands/concat.rs
index 69da18a..0e71d9e 100644
--- a/crates/pica-cli/src/commands/concat.rs
+++ b/crates/pica-cli/src/commands/concat.rs
@@ -76,7 +76,9 @@ pub(crate) enum Strategy {
 #[inline]
 fn record_key(record: &ByteRecord, strategy: &Strategy) -> String {
     match strategy {
-        Strategy::Idn => record.ppn().expect("ppn").to_string(),
+        Strategy::Idn => {
+            record.ppn().map(ToString::to_string).unwrap_or_default()
+        }
         Strategy::Hash => {
             record.sha256().iter().fold(String::new(), |mut out, b| {
                 let _ = write!(out, "{b:02x}");
-- 
2.43.0


From 3a6bef5ef54cbaa934ec9db0fc41e1c8f9ed4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:44 +0000
Subject: [PATCH 11/27] fix: apply the threshold of frequency in either sort
 order

---
 crates/pica-cli/src/commands/frequency.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/pica-cli/src/commands/frequency.rs b/crates/pica-cli/src/commands/frequency.rs
index e53ae8f..b29cc25 100644
--- a/crates/pica-cli/src/commands/frequency.rs
+++ b/crates/pica-cli/src/commands/frequency.rs
@@ -216,15 +216,13 @@ impl Frequency {
         }
 
         let translit = crate::translit::translit(self.nf.clone());
+        ftable_sorted.retain(|(_, freq)| **freq >= self.threshold);
+
         for (i, (values, freq)) in ftable_sorted.iter().enumerate() {
             if self.num > 0 && i >= self.num {
                 break;
             }
 
-            if **freq < self.threshold {
-                break;
-            }
-
             let mut record = values
                 .iter()
                 .map(ToString::to_string)
-- 
2.43.0


From af8c0caa4c13f4ed24c354754cbc8c3bd2d3f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:44 +0000
Subject: [PATCH 12/27] fix: let count respect --limit

---
 crates/pica-cli/src/commands/count.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/count.rs b/crates/pica-cli/src/commands/count.rs
index 7e99f11..853efef 100644
--- a/crates/pica-cli/src/commands/count.rs
+++ b/crates/pica-cli/src/commands/count.rs
@@ -86,7 +86,7 @@ impl Count {
         let mut fields = 0;
         let mut subfields = 0;
 
-        for filename in self.filenames {
+        'outer: for filename in self.filenames {
             let mut reader =
                 ReaderBuilder::new().from_path(filename)?;
 
@@ -117,6 +117,12 @@ impl Count {
                             .iter()
                             .map(|field| field.subfields().len())
                             .sum::<usize>();
+
+                        if self.filter_opts.limit > 0
+                            && records >= self.filter_opts.limit
+                        {
+                            break 'outer;
+                        }
                     }
                 }
             }
-- 
2.43.0


From cb012c7039316bdfa911ee0612d11b47f55cdc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 13/27] fix: print records whose values are not valid UTF-8

---
 crates/pica-cli/src/commands/print.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/commands/print.rs b/crates/pica-cli/src/commands/print.rs
index 0e80e67..fce578d 100644
--- a/crates/pica-cli/src/commands/print.rs
+++ b/crates/pica-cli/src/commands/print.rs
@@ -3,7 +3,6 @@ use std::fs::File;
 use std::io::{self, BufWriter, Write};
 use std::process::ExitCode;
 
-use bstr::ByteSlice;
 use clap::Parser;
 use pica_record::prelude::*;
 
@@ -89,7 +88,7 @@ impl Print {
                                 write!(writer, " ${code}")?;
 
                                 let value = translit(
-                                    subfield.value().to_str().unwrap(),
+                                    subfield.value().to_string(),
                                 );
                                 write!(writer, " {value}")?;
                             }
-- 
2.43.0


From ecf792a6a78283bbef922c0f319208b0d445940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 14/27] fix: convert records whose values are not valid UTF-8
 to XML

---
 crates/pica-cli/src/commands/convert/xml.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/pica-cli/src/commands/convert/xml.rs b/crates/pica-cli/src/commands/convert/xml.rs
index 27bead9..2acf10e 100644
--- a/crates/pica-cli/src/commands/convert/xml.rs
+++ b/crates/pica-cli/src/commands/convert/xml.rs
@@ -73,10 +73,9 @@ impl ByteRecordWrite for XmlWriter {
                                             .as_str(),
                                     ))
                                     .write_text_content(BytesText::new(
-                                        subfield
+                                        &subfield
                                             .value()
-                                            .to_str()
-                                            .unwrap(),
+                                            .to_str_lossy(),
                                     ))
                                     .unwrap();
                             }
-- 
2.43.0


From e9bc5da614e3fa98190a273d54969c7a322f2696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 15/27] fix: do not overflow on slice --start with --length

---
 crates/pica-cli/src/commands/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index b47f245..563a17f 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -100,7 +100,7 @@ impl Slice {
         let range = if self.end > 0 {
             self.start..self.end
         } else if self.length > 0 {
-            self.start..(self.start + self.length)
+            self.start..self.start.saturating_add(self.length)
         } else {
             self.start..usize::MAX
         };
-- 
2.43.0


From bf1b45500423d61d48ab8d2cf49231d73ad44978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 16/27] fix: report a failure to write the end of an XML file

---
 crates/pica-cli/src/commands/convert/xml.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/convert/xml.rs b/crates/pica-cli/src/commands/convert/xml.rs
index 2acf10e..6e3d202 100644
--- a/crates/pica-cli/src/commands/convert/xml.rs
+++ b/crates/pica-cli/src/commands/convert/xml.rs
@@ -96,6 +96,7 @@ impl ByteRecordWrite for XmlWriter {
         self.writer
             .write_event(Event::End(BytesEnd::new("collection")))
             .unwrap();
-        Ok(())
+
+        self.writer.get_mut().flush()
     }
 }
-- 
2.43.0


From 58d766590343d43212911a2704cbe54ae43751fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 17/27] fix: let partition --limit count records

---
 crates/pica-cli/src/commands/partition.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/partition.rs b/crates/pica-cli/src/commands/partition.rs
index cf60513..90fa75d 100644
--- a/crates/pica-cli/src/commands/partition.rs
+++ b/crates/pica-cli/src/commands/partition.rs
@@ -110,7 +110,7 @@ impl Partition {
                         values.sort_unstable();
                         values.dedup();
 
-                        for value in values {
+                        for value in values.iter() {
                             let mut entry =
                                 writers.entry(value.to_vec());
                             let writer = match entry {
@@ -134,12 +134,16 @@ impl Partition {
                             };
 
                             writer.write_byte_record(record)?;
+                        }
+
+                        if !values.is_empty() {
                             count += 1;
-                            if self.filter_opts.limit > 0
-                                && count >= self.filter_opts.limit
-                            {
-                                break 'outer;
-                            }
+                        }
+
+                        if self.filter_opts.limit > 0
+                            && count >= self.filter_opts.limit
+                        {
+                            break 'outer;
                         }
                     }
                 }
-- 
2.43.0


From b7ba145de00f835589c18e287c07e9e2636dcf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:22 +0000
Subject: [PATCH 18/27] fix: apply the rules of a rule set in a fixed order

---
 crates/pica-cli/src/commands/check/checks/duplicates.rs | 5 +++--
 crates/pica-cli/src/commands/check/checks/link.rs       | 6 ++++--
 crates/pica-cli/src/commands/check/set.rs               | 4 ++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/duplicates.rs b/crates/pica-cli/src/commands/check/checks/duplicates.rs
index d5950e0..5da5a96 100644
--- a/crates/pica-cli/src/commands/check/checks/duplicates.rs
+++ b/crates/pica-cli/src/commands/check/checks/duplicates.rs
@@ -1,4 +1,5 @@
-use hashbrown::HashMap;
+use std::collections::BTreeMap;
+
 use pica_record::prelude::*;
 
 #[inline(always)]
@@ -38,7 +39,7 @@ impl Duplicates {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let mut freqs = HashMap::new();
+        let mut freqs = BTreeMap::new();
 
         for row in record.query(&self.query, &options).iter() {
             let values =
diff --git a/crates/pica-cli/src/commands/check/checks/link.rs b/crates/pica-cli/src/commands/check/checks/link.rs
index ed5f14b..487da85 100644
--- a/crates/pica-cli/src/commands/check/checks/link.rs
+++ b/crates/pica-cli/src/commands/check/checks/link.rs
@@ -1,5 +1,7 @@
+use std::collections::BTreeMap;
+
 use bstr::{BString, ByteSlice};
-use hashbrown::{HashMap, HashSet};
+use hashbrown::HashSet;
 use pica_record::prelude::*;
 
 #[derive(Debug, serde::Deserialize)]
@@ -15,7 +17,7 @@ pub(crate) struct Link {
     case_ignore: bool,
 
     #[serde(skip, default)]
-    unseen: HashMap<BString, Vec<BString>>,
+    unseen: BTreeMap<BString, Vec<BString>>,
 
     #[serde(skip, default)]
     seen: HashSet<BString>,
diff --git a/crates/pica-cli/src/commands/check/set.rs b/crates/pica-cli/src/commands/check/set.rs
index d12c244..567ddde 100644
--- a/crates/pica-cli/src/commands/check/set.rs
+++ b/crates/pica-cli/src/commands/check/set.rs
@@ -1,7 +1,7 @@
+use std::collections::BTreeMap;
 use std::fs::read_to_string;
 use std::path::Path;
 
-use hashbrown::HashMap;
 use pica_record::prelude::*;
 use unicode_normalization::UnicodeNormalization;
 
@@ -18,7 +18,7 @@ pub(crate) struct RuleSet {
     pub(crate) termination: Termination,
 
     #[serde(rename = "rule", default)]
-    pub(crate) rules: HashMap<String, Rule>,
+    pub(crate) rules: BTreeMap<String, Rule>,
 }
 
 #[derive(Debug, PartialEq, Default, serde::Deserialize)]
-- 
2.43.0


From 3c3b2b3b938a0351ab84424c941f690b80196671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:22 +0000
Subject: [PATCH 19/27] fix: report empty values that a check does not allow

---
 crates/pica-cli/src/commands/check/checks/allow.rs  | 5 ++---
 crates/pica-cli/src/commands/check/checks/iso639.rs | 5 ++---
 crates/pica-cli/src/commands/check/checks/jelc.rs   | 5 ++---
 crates/pica-cli/src/commands/check/checks/link.rs   | 5 ++---
 4 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/allow.rs b/crates/pica-cli/src/commands/check/checks/allow.rs
index 9a8032d..33b5f5e 100644
--- a/crates/pica-cli/src/commands/check/checks/allow.rs
+++ b/crates/pica-cli/src/commands/check/checks/allow.rs
@@ -58,11 +58,10 @@ impl Allow {
             .path(&self.path, &options)
             .filter(|value| !self.values.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
         if !message.is_empty() {
-            (true, Some(message))
+            (true, Some(message.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/iso639.rs b/crates/pica-cli/src/commands/check/checks/iso639.rs
index ae39956..2761ee0 100644
--- a/crates/pica-cli/src/commands/check/checks/iso639.rs
+++ b/crates/pica-cli/src/commands/check/checks/iso639.rs
@@ -94,11 +94,10 @@ impl Iso639 {
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
         if !message.is_empty() {
-            (true, Some(message))
+            (true, Some(message.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/jelc.rs b/crates/pica-cli/src/commands/check/checks/jelc.rs
index aa09efa..b00d920 100644
--- a/crates/pica-cli/src/commands/check/checks/jelc.rs
+++ b/crates/pica-cli/src/commands/check/checks/jelc.rs
@@ -153,11 +153,10 @@ impl Jel {
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
         if !message.is_empty() {
-            (true, Some(message))
+            (true, Some(message.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/link.rs b/crates/pica-cli/src/commands/check/checks/link.rs
index 487da85..a922af9 100644
--- a/crates/pica-cli/src/commands/check/checks/link.rs
+++ b/crates/pica-cli/src/commands/check/checks/link.rs
@@ -93,11 +93,10 @@ impl Link {
                 .iter()
                 .filter(|k| !self.seen.contains(k.as_bstr()))
                 .map(ToString::to_string)
-                .collect::<Vec<_>>()
-                .join(", ");
+                .collect::<Vec<_>>();
 
             if !message.is_empty() {
-                result.push((ppn.to_owned(), Some(message)));
+                result.push((ppn.to_owned(), Some(message.join(", "))));
             }
         }
 
-- 
2.43.0


From 198bab586e0f8c6825610cddc2770cec089b75b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:22 +0000
Subject: [PATCH 20/27] fix: report ISNIs with letters in place of digits

---
 crates/pica-cli/src/commands/check/checks/isni.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/check/checks/isni.rs b/crates/pica-cli/src/commands/check/checks/isni.rs
index 9dc8a9d..630e704 100644
--- a/crates/pica-cli/src/commands/check/checks/isni.rs
+++ b/crates/pica-cli/src/commands/check/checks/isni.rs
@@ -42,7 +42,9 @@ impl Isni {
                 })
                 .collect();
 
-            if digits.len() != 16 {
+            if digits.len() != 16
+                || digits[0..15].iter().any(|digit| *digit > 9)
+            {
                 messages.push(value.to_string());
                 retval = true;
                 continue;
-- 
2.43.0


From 1904d74915a96ba7cd445903a093a2c5bcd02a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:49 +0000
Subject: [PATCH 21/27] fix: read all members of a gzip file

---
 crates/pica-cli/src/commands/invalid.rs | 4 ++--
 src/reader.rs                           | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/pica-cli/src/commands/invalid.rs b/crates/pica-cli/src/commands/invalid.rs
index d93fe15..13882b8 100644
--- a/crates/pica-cli/src/commands/invalid.rs
+++ b/crates/pica-cli/src/commands/invalid.rs
@@ -7,7 +7,7 @@ use std::path::{Path, PathBuf};
 use std::process::ExitCode;
 
 use clap::Parser;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use pica_record::ByteRecord;
 
 use crate::config::Config;
@@ -38,7 +38,7 @@ fn reader(filename: &OsString) -> io::Result<BufReader<Box<dyn Read>>> {
     let path = PathBuf::from(filename);
     let ext = path.extension().and_then(OsStr::to_str);
     let inner: Box<dyn Read> = match ext {
-        Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
+        Some("gz") => Box::new(MultiGzDecoder::new(File::open(path)?)),
         _ => {
             if path.to_str() != Some("-") {
                 Box::new(File::open(path)?)
diff --git a/src/reader.rs b/src/reader.rs
index 6fa2274..5931e04 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4,7 +4,7 @@ use std::io::{self, BufRead, BufReader, Read, stdin};
 use std::path::Path;
 use std::str::Utf8Error;
 
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 
 use crate::primitives::ParsePicaError;
 use crate::{ByteRecord, StringRecord};
@@ -105,7 +105,9 @@ impl ReaderBuilder {
             .extension()
             .and_then(OsStr::to_str)
         {
-            Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
+            Some("gz") => {
+                Box::new(MultiGzDecoder::new(File::open(path)?))
+            }
             _ => {
                 if path.to_str() != Some("-") {
                     Box::new(File::open(path)?)
-- 
2.43.0


From 9ba15aada100d4dc99a128bd8796fc1f70056708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:49 +0000
Subject: [PATCH 22/27] fix: partitions with the same filename don't overwrite
 each other

---
 crates/pica-cli/src/commands/partition.rs | 30 ++++++++++++-----------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/crates/pica-cli/src/commands/partition.rs b/crates/pica-cli/src/commands/partition.rs
index 90fa75d..7182bc2 100644
--- a/crates/pica-cli/src/commands/partition.rs
+++ b/crates/pica-cli/src/commands/partition.rs
@@ -78,7 +78,7 @@ impl Partition {
             fs::create_dir_all(&self.outdir)?;
         }
 
-        let mut writers: HashMap<Vec<u8>, Box<dyn ByteRecordWrite>> =
+        let mut writers: HashMap<String, Box<dyn ByteRecordWrite>> =
             HashMap::new();
 
         'outer: for filename in self.filenames {
@@ -105,21 +105,23 @@ impl Partition {
                             continue;
                         }
 
-                        let mut values: Vec<_> =
-                            record.path(&self.path, &options).collect();
-                        values.sort_unstable();
-                        values.dedup();
-
-                        for value in values.iter() {
+                        // Distinct values may result in the same
+                        // filename, which must be opened only once.
+                        let mut filenames: Vec<_> = record
+                            .path(&self.path, &options)
+                            .map(|value| {
+                                template
+                                    .replace("{}", &value.to_string())
+                            })
+                            .collect();
+                        filenames.sort_unstable();
+                        filenames.dedup();
+
+                        for filename in filenames.iter() {
                             let mut entry =
-                                writers.entry(value.to_vec());
+                                writers.entry(filename.clone());
                             let writer = match entry {
                                 Entry::Vacant(vacant) => {
-                                    let filename = template.replace(
-                                        "{}",
-                                        &value.to_string(),
-                                    );
-
                                     let path =
                                         self.outdir.join(filename);
                                     let writer = WriterBuilder::new()
@@ -136,7 +138,7 @@ impl Partition {
                             writer.write_byte_record(record)?;
                         }
 
-                        if !values.is_empty() {
+                        if !filenames.is_empty() {
                             count += 1;
                         }
 
-- 
2.43.0


From 232b9c527baa38736a0261836c26f256db64472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:23 +0000
Subject: [PATCH 23/27] fix: an unreadable configuration is not ignored

---
 crates/pica-cli/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/main.rs b/crates/pica-cli/src/main.rs
index a530bd4..205e39c 100644
--- a/crates/pica-cli/src/main.rs
+++ b/crates/pica-cli/src/main.rs
@@ -20,7 +20,12 @@ fn run() -> CliResult {
 
     #[allow(unused_mut)]
     let mut config = if let Some(ref path) = args.config {
-        Config::from_path(path).unwrap_or(Config::new(path))
+        match Config::from_path(path) {
+            Err(e) if e.kind() == ErrorKind::NotFound => {
+                Config::new(path)
+            }
+            result => result?,
+        }
     } else {
         Config::discover()?
     };
-- 
2.43.0


From 135203550fc124978af08bb24870ef82026b5a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:23 +0000
Subject: [PATCH 24/27] fix: a configuration that is malformed or lacks an
 option doesn't panic

---
 crates/pica-cli/src/config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/config.rs b/crates/pica-cli/src/config.rs
index 9905247..d6ff01d 100644
--- a/crates/pica-cli/src/config.rs
+++ b/crates/pica-cli/src/config.rs
@@ -7,7 +7,7 @@ use serde::{Deserialize, Serialize};
 use crate::prelude::*;
 
 #[derive(Debug, Default, Serialize, Deserialize)]
-#[serde(rename_all = "kebab-case")]
+#[serde(rename_all = "kebab-case", default)]
 pub(crate) struct Config {
     /// The path of the config.
     #[serde(skip)]
@@ -55,7 +55,7 @@ impl Config {
         let path = path.as_ref().into();
         let content = fs::read_to_string(&path)?;
         let mut config: Self =
-            toml::from_str(&content).expect("valid config");
+            toml::from_str(&content).map_err(io::Error::other)?;
         config.path = path;
 
         Ok(config)
-- 
2.43.0


From fd1de08a974e6b1d4a2e284c58367eeb3884438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:29 +0000
Subject: [PATCH 25/27] fix: a large sample size doesn't abort

The reservoir was allocated for the requested number of records up
front; for a number far above the size of the input the allocation
fails and the process aborts. The reservoir now grows with the records
that are read.
---
 crates/pica-cli/src/commands/sample.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/commands/sample.rs b/crates/pica-cli/src/commands/sample.rs
index d764f8d..a46d0d5 100644
--- a/crates/pica-cli/src/commands/sample.rs
+++ b/crates/pica-cli/src/commands/sample.rs
@@ -66,8 +66,7 @@ impl Sample {
             None => StdRng::from_rng(&mut rng()),
         };
 
-        let mut reservoir: Vec<Vec<u8>> =
-            Vec::with_capacity(sample_size);
+        let mut reservoir: Vec<Vec<u8>> = vec![];
 
         'outer: for filename in self.filenames {
             let mut reader =
-- 
2.43.0


From a2dba465d6aee7bee851ef818e67fbd6a9de6878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:54 +0000
Subject: [PATCH 26/27] fix: failing to write compressed output to stdout is an
 error

The gzip writer only handed its last bytes to the buffer of stdout,
which is flushed when the process ends, where errors are ignored. On a
full device the command ended with success. The writer now flushes what
it wrote.
---
 src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 0ed8669..2edc310 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -220,6 +220,6 @@ impl<W: Write> ByteRecordWrite for GzipWriter<W> {
     #[inline(always)]
     fn finish(&mut self) -> io::Result<()> {
         self.0.try_finish()?;
-        Ok(())
+        self.0.get_mut().flush()
     }
 }
-- 
2.43.0


From 50e06ad420712111ff638dbf1c7b9a0a48da475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 27/27] fix: a regex that is too large with others or ignoring
 case doesn't panic

---
 src/matcher/subfield/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/matcher/subfield/mod.rs b/src/matcher/subfield/mod.rs
index 447a492..5b48bc2 100644
--- a/src/matcher/subfield/mod.rs
+++ b/src/matcher/subfield/mod.rs
@@ -555,8 +555,11 @@ impl RegexMatcher {
         subfields: impl IntoIterator<Item = &'a SubfieldRef<'a>>,
         options: &MatcherOptions,
     ) -> bool {
+        // The parser has checked the regex case-sensitively; ignoring
+        // case, it may exceed the default size limit.
         let re = RegexBuilder::new(&self.regex)
             .case_insensitive(options.case_ignore)
+            .size_limit(usize::MAX)
             .build()
             .unwrap();
 
@@ -660,8 +663,11 @@ impl RegexSetMatcher {
         subfields: impl IntoIterator<Item = &'a SubfieldRef<'a>>,
         options: &MatcherOptions,
     ) -> bool {
+        // The parser has checked each regex alone; together, they may
+        // exceed the default size limit.
         let re = RegexSetBuilder::new(&self.regex)
             .case_insensitive(options.case_ignore)
+            .size_limit(usize::MAX)
             .build()
             .unwrap();
 
-- 
2.43.0

