use crate::refm::{self, Fld, Rec, fld, sub};
use crate::sym::{self, *};
use pica_record::matcher::*;
use pica_record::prelude::*;
use pica_record::primitives::*;

fn s(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
/// the class parser of refm forks on members; this one only reports
/// membership of `c` in the class text without building it
fn opts(ci: bool) -> MatcherOptions {
    MatcherOptions::new().case_ignore(ci)
}
/// `n` arbitrary bytes as a value (ASCII only, if so wanted)
pub fn value(n: usize, ascii: bool) -> Vec<u8> {
    let v = bytes(n);
    for b in &v {
        assume((*b != 0x1e) & (*b != 0x1f) & (*b != b'\n') & (!ascii | (*b < 128)));
    }
    v
}
/// printable text that needs no escape in a quoted string
pub fn literal(n: usize) -> Vec<u8> {
    let v = bytes(n);
    for b in &v {
        assume((*b >= 0x20) & (*b < 0x7f) & (*b != b'\'') & (*b != b'"') & (*b != b'\\'));
    }
    v
}
pub fn any_code() -> u8 {
    let c = byte();
    assume(refm::code(c));
    c
}
pub fn any_tag() -> Vec<u8> {
    let t = bytes(4);
    assume(((t[0] >= b'0') & (t[0] <= b'2')) & refm::dig(t[1]) & refm::dig(t[2]) & (refm::up(t[3]) | (t[3] == b'@')));
    t
}
/// an occurrence of n digits (0: none)
pub fn any_occ(n: usize) -> Option<Vec<u8>> {
    if n == 0 {
        return None;
    }
    let o = bytes(n);
    for b in &o {
        assume(refm::dig(*b));
    }
    Some(o)
}
/// how a list of subfield codes can be written, and the test for membership
pub fn codes(form: usize) -> (&'static str, fn(u8) -> bool) {
    match form {
        0 => ("a", |c| c == b'a'),
        1 => ("[ab]", |c| (c == b'a') | (c == b'b')),
        2 => ("[a-c]", |c| (c >= b'a') & (c <= b'c')),
        3 => ("*", |_| true),
        4 => ("[a-cX0-2]", |c| ((c >= b'a') & (c <= b'c')) | (c == b'X') | ((c >= b'0') & (c <= b'2'))),
        _ => ("Z", |c| c == b'Z'),
    }
}
/// all or any of the values for the matching codes satisfy the test
fn quant(q: usize, f: &Fld, inc: fn(u8) -> bool, t: &dyn Fn(&[u8]) -> bool) -> bool {
    let mut any = false;
    let mut all = true;
    for x in &f.subs {
        let sel = inc(x.code);
        let r = t(&x.value);
        any |= sel & r;
        all &= !sel | r;
    }
    if q == 2 { all } else { any }
}
const QUANT: [&str; 3] = ["", "ANY ", "ALL "];
/// many values, which are fixed
pub const MANY: usize = 299;
pub fn nth(i: usize) -> Vec<u8> { format!("w{i}").into_bytes() }
/// that many subfields, if n is 100 or more, and the rest of n
pub fn bulk(n: usize) -> (usize, Vec<refm::Sub>) {
    (n % 100, (0..if n >= 100 { MANY } else { 0 }).map(|i| sub(b"acX"[i % 3 * (n / 200)], &nth(i))).collect())
}
/// a one-field record with `ns` subfields of arbitrary codes and values of at most `vl` bytes
fn one(ns: usize, vl: usize, ascii: bool) -> Rec {
    let (ns, mut subs) = bulk(ns);
    subs.extend((0..ns).map(|_| sub(any_code(), &value(choose(vl + 1), ascii))));
    vec![fld(b"012A", None, subs)]
}
/// evaluates an expression on a record
pub fn eval(e: &[u8], r: &[Fld], ci: bool) -> Option<bool> {
    let b = refm::put(r);
    let rec = ByteRecord::from_bytes(&b);
    check(rec.is_ok(), 98);
    let rec = rec.ok()?;
    let m = RecordMatcher::new(s(e));
    match m {
        Ok(m) => {
            let x = m.is_match(&rec, &opts(ci));
            note(&[x as u8]);
            Some(x)
        }
        Err(_) => None,
    }
}
/// the expression is accepted, and its value on the record is the expected one
pub fn expect(e: &[u8], r: &[Fld], ci: bool, w: bool) {
    match eval(e, r, ci) {
        None => check(false, 90),
        Some(x) => {
            reach(x as u64);
            check(x == w, 1);
        }
    }
}
fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}
const CMP: [&str; 6] = ["==", "!=", ">=", ">", "<=", "<"];
fn cmp(op: usize, a: u64, b: u64) -> bool {
    match op {
        0 => a == b,
        1 => a != b,
        2 => a >= b,
        3 => a > b,
        4 => a <= b,
        _ => a < b,
    }
}
/// strings whose lower case is tricky, each with its lower case
const FOLD: [(&str, &str); 9] = [
    ("\u{212a}", "k"),
    ("K", "k"),
    ("k", "k"),
    ("\u{c4}", "\u{e4}"),
    ("\u{e4}", "\u{e4}"),
    ("\u{1e9e}", "\u{df}"),
    ("\u{130}", "i\u{307}"),
    ("i\u{307}", "i\u{307}"),
    ("\u{df}", "\u{df}"),
];
/// Levenshtein distance (insert, delete, substitute)
fn lev(a: &[u8], b: &[u8]) -> usize {
    let mut row: Vec<usize> = (0..=b.len()).collect();
    for i in 0..a.len() {
        let mut prev = row[0];
        row[0] = i + 1;
        for j in 0..b.len() {
            let c = if a[i] == b[j] { prev } else { 1 + prev.min(row[j]).min(row[j + 1]) };
            prev = row[j + 1];
            row[j + 1] = c;
        }
    }
    row[b.len()]
}

/// regular expressions and what they denote (on values that are ASCII, or any
/// bytes if the last is set); without and with ignoring case
type Pat = (&'static str, fn(&[u8]) -> bool, fn(&[u8]) -> bool, bool);
fn xi(c: u8) -> bool { (c == b'x') | (c == b'X') }
fn some(v: &[u8], f: fn(u8) -> bool) -> bool { let mut m = false; for c in v { m |= f(*c) } m }
fn every(v: &[u8], f: fn(u8) -> bool) -> bool { let mut m = true; for c in v { m &= f(*c) } m }
fn seq(v: &[u8], f: &[fn(u8) -> bool]) -> bool {
    let mut m = false;
    for i in 0..(v.len() + 1).saturating_sub(f.len()) {
        let mut a = true;
        for j in 0..f.len() { a &= f[j](v[i + j]) }
        m |= a;
    }
    m
}
const PAT: [Pat; 16] = [
    ("x", |v| some(v, |c| c == b'x'), |v| some(v, xi), true),
    ("^x", |v| v.len() > 0 && v[0] == b'x', |v| v.len() > 0 && xi(v[0]), true),
    ("x$", |v| v.len() > 0 && v[v.len() - 1] == b'x', |v| v.len() > 0 && xi(v[v.len() - 1]), true),
    ("^x$", |v| v.len() == 1 && v[0] == b'x', |v| v.len() == 1 && xi(v[0]), true),
    ("x|1z", |v| some(v, |c| c == b'x') | seq(v, &[|c| c == b'1', |c| c == b'z']), |v| some(v, xi) | seq(v, &[|c| c == b'1', |c| (c == b'z') | (c == b'Z')]), true),
    ("^(x|1)+$", |v| (v.len() > 0) & every(v, |c| (c == b'x') | (c == b'1')), |v| (v.len() > 0) & every(v, |c| xi(c) | (c == b'1')), true),
    ("[a-cX]", |v| some(v, |c| (c >= b'a') & (c <= b'c') | (c == b'X')), |v| some(v, |c| (c >= b'a') & (c <= b'c') | (c >= b'A') & (c <= b'C') | xi(c)), true),
    ("^..$", |v| v.len() == 2, |v| v.len() == 2, false),
    ("", |_| true, |_| true, true),
    ("^[^x]*$", |v| !some(v, |c| c == b'x'), |v| !some(v, xi), false),
    ("(?i)x", |v| some(v, xi), |v| some(v, xi), true),
    ("^[0-9]{2}", |v| v.len() > 1 && refm::dig(v[0]) & refm::dig(v[1]), |v| v.len() > 1 && refm::dig(v[0]) & refm::dig(v[1]), true),
    ("\u{e4}", |v| seq(v, &[|c| c == 0xc3, |c| c == 0xa4]), |v| seq(v, &[|c| c == 0xc3, |c| (c == 0xa4) | (c == 0x84)]), true),
    ("x.1", |v| seq(v, &[|c| c == b'x', |_| true, |c| c == b'1']), |v| seq(v, &[xi, |_| true, |c| c == b'1']), false),
    ("^x?1*$", |v| v.len() == 0 || ((v[0] == b'x') | (v[0] == b'1')) & every(&v[1..], |c| c == b'1'), |v| v.len() == 0 || (xi(v[0]) | (v[0] == b'1')) & every(&v[1..], |c| c == b'1'), true),
    ("^(?-i)x", |v| v.len() > 0 && v[0] == b'x', |v| v.len() > 0 && v[0] == b'x', true),
];
harness! {
    // regular expressions: pattern, second pattern of a set, quantifier, negated, ignore case, subfields, longest value
    h_regex {
        let (p, p2, q, neg, ci, ns, vl) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3) == 1, sym::param(4) == 1, sym::param(5), sym::param(6));
        let set: Vec<Pat> = if p2 == 99 { vec![PAT[p]] } else { vec![PAT[p], PAT[p2]] };
        let r = one(ns, vl, set.iter().any(|x| !x.3));
        let t = if p2 == 99 { format!("'{}'", PAT[p].0) } else { format!("['{}', '{}']", PAT[p].0, PAT[p2].0) };
        let e = cat(&[b"012A.", QUANT[q].as_bytes(), b"[ab] ", if neg { b"!~ " } else { b"=~ " }, t.as_bytes()]);
        let w = quant(q, &r[0], |c| (c == b'a') | (c == b'b'), &|v| {
            let mut m = false;
            for x in &set { m |= if ci { x.2(v) } else { x.1(v) } }
            m != neg
        });
        expect(&e, &r, ci, w);
    }
    // relations: op, quantifier, ignore case, literal length, subfields, longest value, codes
    h_rel {
        let (op, q, ci, ll, ns, vl, cf) = (sym::param(0), sym::param(1), sym::param(2) == 1, sym::param(3), sym::param(4), sym::param(5), sym::param(6));
        let l = literal(ll);
        let r = one(ns, vl, ci);
        let (ct, inc) = codes(cf);
        let e = cat(&[b"012A.", QUANT[q].as_bytes(), ct.as_bytes(), b" ", ["==", "!=", "=^", "!^", "=$", "!$"][op].as_bytes(), b" '", &l, b"'"]);
        let w = quant(q, &r[0], inc, &|v| {
            let (a, b) = if ci { (refm::lower(v), refm::lower(&l)) } else { (v.to_vec(), l.clone()) };
            let pre = a.len() >= b.len() && a[..b.len()] == b[..];
            let suf = a.len() >= b.len() && a[a.len() - b.len()..] == b[..];
            match op { 0 => a == b, 1 => a != b, 2 => pre, 3 => !pre, 4 => suf, _ => !suf }
        });
        expect(&e, &r, ci, w);
    }
    // non-ASCII letters, ignoring case
    h_fold {
        let op = sym::param(0);
        let (a, al) = FOLD[choose(FOLD.len())];
        let (b, bl) = FOLD[choose(FOLD.len())];
        let r = vec![fld(b"012A", None, vec![sub(b'a', a.as_bytes())])];
        let (o, w) = match op {
            0 => ("== '#'", al == bl),
            1 => ("!= '#'", al != bl),
            2 => ("=^ '#'", al.starts_with(bl)),
            3 => ("=$ '#'", al.ends_with(bl)),
            4 => ("=? '#'", al.contains(bl)),
            5 => ("in ['#', 'zz']", al == bl),
            6 => ("not in ['zz', '#']", al != bl),
            _ => ("=? ['zz', '#']", al.contains(bl)),
        };
        let e = format!("012A.a {}", o.replace("#", b));
        expect(e.as_bytes(), &r, true, w);
    }
    // membership: negated, quantifier, ignore case, subfields, longest value, form of the list
    h_in {
        let (neg, q, ci, ns, vl, lf) = (sym::param(0) == 1, sym::param(1), sym::param(2) == 1, sym::param(3), sym::param(4), sym::param(5));
        let r = one(ns, vl, ci);
        let (x, y) = (literal(1), literal(2));
        let lower = |v: &[u8]| if ci { refm::lower(v) } else { v.to_vec() };
        let (t, set): (Vec<u8>, Vec<Vec<u8>>) = match lf {
            0 => (cat(&[b"['", &x, b"', \"", &y, b"\"]"]), vec![x.clone(), y.clone()]),
            1 => (cat(&[b"'", &y, b"'"]), vec![y[..1].to_vec(), y[1..].to_vec()]),
            2 => (cat(&[b"[ '", &y, b"' , ]"]), vec![y.clone()]),
            _ => (cat(&[b"['', '", &x, b"']"]), vec![vec![], x.clone()]),
        };
        let e = cat(&[b"012A.", QUANT[q].as_bytes(), b"[ab] ", if neg { b"not in " } else { b"in " }, &t]);
        let w = quant(q, &r[0], |c| (c == b'a') | (c == b'b'), &|v| {
            let mut m = false;
            for z in &set { m |= lower(v) == lower(z) }
            m != neg
        });
        expect(&e, &r, ci, w);
    }
    // substrings: quantifier, ignore case, subfields, longest value, form
    h_contains {
        let (q, ci, ns, vl, lf) = (sym::param(0), sym::param(1) == 1, sym::param(2), sym::param(3), sym::param(4));
        let r = one(ns, vl, ci);
        let (x, y) = (literal(1), literal(2));
        let lower = |v: &[u8]| if ci { refm::lower(v) } else { v.to_vec() };
        let (t, set): (Vec<u8>, Vec<Vec<u8>>) = match lf {
            0 => (cat(&[b"'", &x, b"'"]), vec![x.clone()]),
            1 => (cat(&[b"'", &y, b"'"]), vec![y.clone()]),
            2 => (cat(&[b"['", &x, b"', '", &y, b"']"]), vec![x.clone(), y.clone()]),
            _ => (b"''".to_vec(), vec![vec![]]),
        };
        let e = cat(&[b"012A.", QUANT[q].as_bytes(), b"a =? ", &t]);
        let w = quant(q, &r[0], |c| c == b'a', &|v| {
            let mut m = false;
            for z in &set { m |= refm::contains(&lower(v), &lower(z)) }
            m
        });
        expect(&e, &r, ci, w);
    }
    // similarity over a small alphabet (concrete: the score is a floating point number)
    h_similar {
        let (ci, n, m, q) = (sym::param(0) == 1, sym::param(1), sym::param(2), sym::param(3));
        let al = b"aAb";
        let l: Vec<u8> = (0..n).map(|_| al[choose(3)]).collect();
        let v: Vec<u8> = (0..m).map(|_| al[choose(3)]).collect();
        let r = vec![fld(b"012A", None, vec![sub(b'b', b"zz"), sub(b'a', &v), sub(b'a', if q == 0 { b"zz" } else { &l })])];
        let (a, b) = if ci { (refm::lower(&v), refm::lower(&l)) } else { (v.clone(), l.clone()) };
        let d = lev(&a, &b);
        let k = a.len().max(b.len());
        // 1 - d/k > 0.8
        let w = k == 0 || 10 * (k - d) > 8 * k;
        let e = cat(&[b"012A.", if q == 0 { b"" } else { b"ALL " }, b"a =* '", &l, b"'"]);
        expect(&e, &r, ci, w || (q == 0 && l.len() > 0 && lev(b"zz", &b) == 0));
    }
    // number of subfields, of fields
    h_card {
        let (op, ns, cf) = (sym::param(0), sym::param(1), sym::param(2));
        let n = byte();
        assume(refm::dig(n));
        let r = one(ns, 0, true);
        let (ct, inc) = codes(cf);
        let mut k = 0u64;
        for x in &r[0].subs { k += inc(x.code) as u64 }
        let e = cat(&[b"012A{ #", ct.as_bytes(), b" ", CMP[op].as_bytes(), b" ", if sym::param(3) == 1 { b"0" } else { b"" }, &[n], b" }"]);
        expect(&e, &r, false, cmp(op, k, (n - b'0') as u64));
    }
    h_fcard {
        let (op, nf, form) = (sym::param(0), sym::param(1), sym::param(2));
        let n = byte();
        assume(refm::dig(n));
        let mut r = vec![];
        let mut k = 0u64;
        for _ in 0..nf {
            let o = any_occ(choose(2) * 2);
            let t = pick(b"AB");
            let c = any_code();
            let om = match &o { None => true, Some(o) => (o[0] == b'0') & (o[1] == b'0') };
            k += match form { 0 => (t == b'A') & om, 1 => t == b'A', _ => (c == b'x') & om } as u64;
            r.push(fld(&[b'0', b'1', b'2', t], o.as_deref(), vec![sub(c, b"v")]));
        }
        let e = cat(&[b"#", [&b"012A"[..], b"012A/*", b"012[AB]{x?}"][form], b" ", CMP[op].as_bytes(), b" ", &[n]]);
        expect(&e, &r, false, cmp(op, k, (n - b'0') as u64));
    }
    // large numbers: operator, fields or subfields, how many of them may match
    h_many {
        let (op, what, k) = (sym::param(0), sym::param(1), sym::param(2));
        let (mut n, mut subs, mut r) = (MANY as u64, vec![], vec![]);
        for i in 0..MANY { if what == 0 { subs.push(sub(b'a', &nth(i))) } else { r.push(fld(b"012A", None, vec![sub(b'a', &nth(i))])) } }
        for _ in 0..k {
            let c = any_code();
            n += (c == b'a') as u64;
            if what == 0 { subs.push(sub(c, b"")) } else { r.push(fld(b"012A", None, vec![sub(c, b"")])) }
        }
        if what == 0 { r.push(fld(b"012A", None, subs)) }
        let d = bytes(3);
        for x in &d { assume(refm::dig(*x)) }
        let m = (d[0] - b'0') as u64 * 100 + (d[1] - b'0') as u64 * 10 + (d[2] - b'0') as u64;
        expect(&cat(&[if what == 0 { b"012A{#a " } else { b"#012A{a?} " }, CMP[op].as_bytes(), b" ", &d, if what == 0 { b"}" } else { b"" }]), &r, false, cmp(op, n, m));
    }
    h_exists {
        let (cf, ns) = (sym::param(0), sym::param(1));
        let r = one(ns, 0, true);
        let (ct, inc) = codes(cf);
        let mut w = false;
        for x in &r[0].subs { w |= inc(x.code) }
        expect(&cat(&[b"012A.", ct.as_bytes(), b"?"]), &r, false, w);
    }
    // fields: selection by tag and occurrence, quantifier over fields and subfields, notation
    h_field {
        let (fq, tf, of, form, nf) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4));
        // fields of another occurrence
        let mut r: Rec = (0..if nf >= 100 { MANY } else { 0 }).map(|i| fld(b"012A", Some(b"99"), vec![sub(b'a', &nth(i))])).collect();
        let nf = nf % 100;
        let (mut any, mut all, mut exists) = (r.len() > 0 && of == 0 && tf < 2 && false, r.is_empty() || of != 0 || tf == 2, r.len() > 0 && of == 0 && tf < 2);
        for i in 0..nf {
            // further fields vary less
            let t = if i == 0 { any_tag() } else { vec![b'0', b'1', b'2', any_tag()[3]] };
            let o = any_occ(if i == 0 { [0, 2, 3][choose(3)] } else { 2 * choose(2) });
            let (c, v) = if i == 0 { (any_code(), byte()) } else { (b'a', byte()) };
            assume((v != 0x1e) & (v != 0x1f) & (v != b'\n'));
            let tm = match tf {
                0 => t == b"012A",
                1 => (t[0] == b'0') & (t[1] == b'1'),
                _ => ((t[0] == b'1') | (t[0] == b'2')) & (t[1] == b'0') & ((t[2] >= b'2') & (t[2] <= b'5')) & ((t[3] == b'@') | ((t[3] >= b'B') & (t[3] <= b'D'))),
            };
            let om = match (&o, of) {
                (None, 0 | 1 | 2) => true,
                (None, _) => false,
                (Some(_), 0) => true,
                (Some(o), 1 | 2) => o == b"00",
                (Some(o), 3) => o == b"01",
                (Some(o), 4) => { assume(o.len() == 2); (o[0] == b'0') & (o[1] >= b'2') | (o[0] == b'1') & (o[1] == b'0') }
                (Some(o), _) => { assume(o.len() == 3); (o[0] == b'0') & (o[1] == b'0') & (o[2] >= b'1') & (o[2] <= b'3') }
            };
            let sel = tm & om;
            let ok = (c == b'a') & (v == b'x');
            exists |= sel;
            any |= sel & ok;
            all &= !sel | ok;
            r.push(fld(&t, o.as_deref(), vec![sub(c, &[v])]));
        }
        let e = cat(&[if form == 3 { "" } else { QUANT[fq] }.as_bytes(), [&b"012A"[..], b"01..", b"[12]0[2-5][@B-D]"][tf],
            [&b"/*"[..], b"", b"/00", b"/01", b"/02-10", b"/001-003"][of],
            [&b".a == 'x'"[..], b"{a == 'x'}", b"$a == 'x'", b"?"][form]]);
        expect(&e, &r, false, if form == 3 { exists } else if fq == 2 { all } else { any });
    }
    // tag pattern grammar: an arbitrary text; what it accepts and what it matches
    h_tagpat {
        let p = bytes(sym::param(0));
        for b in &p { assume(*b < 128) }
        tagpat(&p);
    }
    // a bracket somewhere in the pattern
    h_tagpat_br {
        let n = sym::param(1);
        let mut p = vec![];
        for i in 0..4 {
            if i == sym::param(0) { p.push(b'['); let b = bytes(n); for c in &b { assume(*c < 128) } p.extend_from_slice(&b); p.push(b']') }
            else { p.push(b"012A"[i]) }
        }
        tagpat(&p);
    }
    h_occpat {
        let p = bytes(sym::param(0));
        for b in &p { assume(*b < 128) }
        let m = OccurrenceMatcher::new(s(&p));
        let d = |i: usize| i < p.len() && refm::dig(p[i]);
        // 0 invalid, 1 none, 2 any, 3 exact, 4 range
        let n = p.len();
        let mut k = 0;
        if n == 0 { k = 1 } else if p[0] == b'/' {
            if n == 2 && p[1] == b'*' { k = 2 }
            else if (n == 3 || n == 4) && (1..n).all(|i| d(i)) { k = if n == 3 && p[1..] == *b"00" { 1 } else { 3 } }
            else if (n == 6 || n == 8) && p[n / 2] == b'-' && (1..n).all(|i| i == n / 2 || d(i)) && p[1..n / 2] < p[n / 2 + 1..] { k = 4 }
        }
        check(m.is_ok() == (k != 0), 2);
        let Ok(m) = m else { reach(2); return };
        reach(3 + k);
        let text = m.to_string();
        check(OccurrenceMatcher::new(&text).is_ok_and(|x| x == m), 3);
        let o = any_occ([0, 2, 3][choose(3)]);
        let w = match &o {
            None => k == 1 || k == 2,
            Some(o) => match k {
                1 => o == b"00",
                2 => true,
                3 => p[1..] == o[..],
                // a range says nothing about occurrences of another length
                _ => { assume(o.len() == n / 2 - 1); p[1..n / 2] <= o[..] && o[..] <= p[n / 2 + 1..] }
            }
        };
        let or = o.as_ref().map(|o| OccurrenceRef::from_bytes(o).unwrap());
        let x = m.is_match(or.as_ref());
        reach(x as u64);
        note(&[x as u8]);
        check(x == w, 1);
    }
}
fn tagpat(p: &[u8]) {
    let sets: [&dyn Fn(u8) -> bool; 4] = [&|c| (c >= b'0') & (c <= b'2'), &refm::dig, &refm::dig, &|c| refm::up(c) | (c == b'@')];
    let mut i = 0;
    let mut cl = vec![];
    let mut ok = true;
    for k in 0..4 {
        match refm::class(&p[i..], sets[k], b'.') {
            Some((v, n)) => { cl.push(v); i += n }
            None => { ok = false; break }
        }
    }
    ok = ok && i == p.len();
    let m = TagMatcher::new(s(p));
    check(m.is_ok() == ok, 2);
    let Ok(m) = m else { reach(2); return };
    reach(3);
    check(TagMatcher::new(&m.to_string()).is_ok_and(|x| x == m), 3);
    let t = any_tag();
    let mut w = true;
    for k in 0..4 {
        w &= refm::in_class(&cl[k], t[k]);
    }
    let x = m.is_match(&TagRef::from_bytes(&t).unwrap());
    reach(x as u64);
    note(&[x as u8]);
    check(x == w, 1);
}
