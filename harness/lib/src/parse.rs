use crate::sym::{self, *};
use pica_record::matcher::subfield::SubfieldMatcher;
use pica_record::matcher::*;
use pica_record::prelude::*;

/// parse a text of some kind; its text form if it is accepted
fn parse(kind: usize, t: &str) -> Option<String> {
    match kind {
        0 => TagMatcher::new(t).ok().map(|x| x.to_string()),
        1 => OccurrenceMatcher::new(t).ok().map(|x| x.to_string()),
        2 => SubfieldMatcher::new(t).ok().map(|x| x.to_string()),
        3 => RecordMatcher::new(t).ok().map(|x| x.to_string()),
        4 => Path::new(t).ok().map(|x| x.to_string()),
        5 => Query::new(t).ok().map(|x| x.to_string()),
        _ => Format::new(t).ok().map(|x| x.to_string()),
    }
}
const T0: [&str; 2] = ["01[1-3][A@]", ".2..@"];
const T1: [&str; 4] = ["/01-13", "/*", "/001", "/00"];
const T2: [&str; 8] = [
    "a == 'x\\'y' && !b?", "ALL [a-c0] =^ \"q\" || #d >= 12", "a in ['x', \"y\"] ^ b not in ['z']",
    "!(a? || (b? && c !$ '2'))", "* =? ['u', 'v']", "ANY a !^ 'x'&&b =$ 'y'", "$abc =* 'x'", "#[ab] != 3 XOR (c?)",
];
const T3: [&str; 9] = [
    "012A.a == 'x' && 003@?", "012A/*{ a? && b == '1' } || ....?", "!012A$a? ^ (003@.0 != 'x')", "#012A/01-03{a?} >= 2", "ALL 01[2-3]A.a =^ 'x'",
    "012A{(a?||b?)&&!c?}", "!(012A? && !(003@?))", "#013. <= 10", "012A/*.* in ['x'] XOR 002@.0 !~ '^T'",
];
const T4: [&str; 6] = ["012A.a", " 01[1-2]A/*.[a-c] ", "012A/01{(a, [bc]) | a? && #b > 1}", "012A$ab", "012A{ a , * | (c == 'x') }", "003@{$0,$ab}"];
const T5: [&str; 5] = ["003@.0, 'x\\n', 012A/*{(a,b) | c?}", "\"a\",012A{ a <$> b }, 003@.0", "012A{'p' a.. 's'}", "'x'", "012A$a,013A.b"];
const T6: [&str; 7] = [
    "012A{a}", "028[A@]{[aP] <$> (', ' d <*> ' ' c) | !U? || U == 'L'}", "012A{?w 'x' 0..3 | S?}", "012A/*{(?lu a <*> 'q\\t' [bc].. ')')..2 <$> d}",
    "012A{a <$> b <*> c <$> d}", "012A{ ( ?to a ) }", "012A{'' a ''<*>(b)..}",
];
fn templates(kind: usize) -> &'static [&'static str] {
    match kind { 0 => &T0, 1 => &T1, 2 => &T2, 3 => &T3, 4 => &T4, 5 => &T5, _ => &T6 }
}
/// deeply nested text
fn nested(kind: usize, d: usize) -> String {
    match kind {
        2 => format!("{}a?{}", "(".repeat(d), ")".repeat(d)),
        3 => format!("{}012A?{}", "(".repeat(d), ")".repeat(d)),
        4 => format!("012A{{a|{}a?{}}}", "(".repeat(d), ")".repeat(d)),
        _ => format!("012A{{{}a{}}}", "(a <$> ".repeat(d), ")".repeat(d)),
    }
}
/// the greatest depth that is accepted
fn depth(kind: usize) -> usize {
    let mut d = 1;
    while d < 1024 && parse(kind, &nested(kind, d)).is_some() { d *= 2 }
    let mut a = d / 2;
    while a + 1 < d {
        let m = (a + d) / 2;
        if parse(kind, &nested(kind, m)).is_some() { a = m } else { d = m }
    }
    a
}
fn total(kind: usize, text: &[u8]) {
    let Ok(t) = std::str::from_utf8(text) else { return };
    let x = parse(kind, t);
    reach(x.is_some() as u64);
    // the text form is accepted, and is its own text form
    if let Some(x) = &x {
        note(x.as_bytes());
        match parse(kind, x) {
            None => check(false, 1),
            Some(y) => check(&y == x || (kind == 2 || kind == 3) && strip(&y) == strip(x), 2),
        }
    }
    // the same answer when asked again
    check(parse(kind, t) == x, 3);
}
fn strip(t: &str) -> String {
    t.split_ascii_whitespace().collect()
}
fn ascii(n: usize) -> Vec<u8> {
    let v = bytes(n);
    let mut ok = true;
    for c in &v { ok &= *c < 128 }
    assume(ok);
    v
}
/// what a quoted string denotes; None: not a string
fn unquote(q: u8, t: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] == q { return None }
        if t[i] != b'\\' { o.push(t[i]); i += 1; continue }
        i += 1;
        if i == t.len() { return None }
        let c = t[i];
        if c == q { o.push(c) }
        else {
            match c {
                b'n' => o.push(10),
                b'r' => o.push(13),
                b't' => o.push(9),
                b'b' => o.push(8),
                b'f' => o.push(12),
                b'\\' | b'/' => o.push(c),
                b' ' | 9 | 10 | 13 => while i + 1 < t.len() && matches!(t[i + 1], b' ' | 9 | 10 | 13) { i += 1 }
                _ => return None,
            }
        }
        i += 1;
    }
    Some(o)
}

harness! {
    // any text: kind, length
    h_text { let t = ascii(sym::param(1)); total(sym::param(0), &t) }
    // a window of a template replaced: kind, template, position, width removed, width put in
    h_tmpl {
        let (kind, p, w) = (sym::param(0), sym::param(2), sym::param(3));
        let t = templates(kind);
        if sym::param(1) >= t.len() { return }
        let t = t[sym::param(1)].as_bytes();
        if p + w > t.len() { return }
        total(kind, &[&t[..p], &ascii(sym::param(4)), &t[p + w..]].concat());
    }
    // any two- or three-byte character put in: kind, template, position, its length
    h_wide {
        let (kind, p, n) = (sym::param(0), sym::param(2), sym::param(3));
        let t = templates(kind);
        if sym::param(1) >= t.len() { return }
        let t = t[sym::param(1)].as_bytes();
        if p > t.len() { return }
        let c = bytes(n);
        if n == 2 {
            assume((c[0] >= 0xc2) & (c[0] < 0xe0) & (c[1] & 0xc0 == 0x80));
        } else {
            assume((c[0] > 0xe0) & (c[0] < 0xed) & (c[1] & 0xc0 == 0x80) & (c[2] & 0xc0 == 0x80));
        }
        total(kind, &[&t[..p], &c, &t[p..]].concat());
    }
    // parsing does not depend on what was parsed before: kind, kind before, template, window, width
    h_before {
        let (kind, other, p, w) = (sym::param(0), sym::param(1), sym::param(3), sym::param(4));
        let d = depth(kind);
        let t = templates(other);
        if sym::param(2) >= t.len() { return }
        let t = t[sym::param(2)].as_bytes();
        if p + w > t.len() { return }
        let t = [&t[..p], &ascii(w), &t[p + w..]].concat();
        if let Ok(t) = std::str::from_utf8(&t) {
            let x = parse(other, t).is_some();
            reach(x as u64);
            parse(other, t);
        }
        check(parse(kind, &nested(kind, d)).is_some(), 4);
        check(parse(kind, &nested(kind, d + 1)).is_none(), 5);
    }
    // quoted strings: quote, length
    h_string {
        let q = if sym::param(0) == 0 { b'\'' } else { b'"' };
        let t = ascii(sym::param(1));
        let text = [&[q][..], &t, &[q]].concat();
        let w = unquote(q, &t);
        reach(w.is_some() as u64);
        let Ok(s) = std::str::from_utf8(&text) else { return };
        let rec = ByteRecord::from_bytes(b"012A \x1fax\x1e\n").unwrap();
        match (Query::new(s), w) {
            (Ok(x), Some(w)) => {
                let v = rec.query(&x, &QueryOptions::new()).into_inner();
                check(v.len() == 1 && v[0].len() == 1 && &v[0][0][..] == &w[..], 6);
                // the same in a comparison
                let mut plain = true;
                for c in &w { plain &= (*c != 0x1e) & (*c != 0x1f) }
                if !plain { return }
                let b = [&b"012A \x1fa"[..], &w, b"\x1e\n"].concat();
                if let (Ok(rec), Ok(m)) = (ByteRecord::from_bytes(&b), RecordMatcher::new(format!("012A.a == {}", s))) {
                    check(m.is_match(&rec, &MatcherOptions::new()), 7);
                }
                check(RecordMatcher::new(format!("012A.a == {}", s)).is_ok(), 8);
            }
            (Err(_), None) => {}
            // more than one string, separated by a comma
            (Ok(_), None) => {
                let mut inner = false;
                for c in &t { inner |= *c == b',' }
                check(inner, 9);
            }
            (Err(_), Some(_)) => check(false, 10),
        }
    }
    // a number: leading digits, arbitrary digits
    h_number {
        let pre = ["", "00", "1844674407370955161", "18446744073709551", "000000000000000000000", "99999999999999999999", "42949672"][sym::param(0)];
        let n = sym::param(1);
        let mut d = pre.as_bytes().to_vec();
        for _ in 0..n { d.push(pick(b"0123456789")) }
        let t = format!("#012A == {}", std::str::from_utf8(&d).unwrap());
        let m = RecordMatcher::new(&t);
        let (mut v, mut big) = (0u128, d.is_empty());
        for c in &d { v = v.wrapping_mul(10).wrapping_add((c - b'0') as u128) }
        big |= v > u64::MAX as u128;
        reach(m.is_ok() as u64);
        check(m.is_ok() != big, 11);
        let Ok(m) = m else { return };
        let rec = ByteRecord::from_bytes(b"012A \x1fax\x1e012A \x1fax\x1e\n").unwrap();
        check(m.is_match(&rec, &MatcherOptions::new()) == (v == 2), 12);
    }
}
