use crate::matcher::{MANY, any_code, any_occ, bulk, nth, value};
use crate::refm::{self, Fld, Rec, fld, sub};
use crate::sym::{self, *};
use pica_record::matcher::*;
use pica_record::prelude::*;
use pica_record::primitives::*;

/// a path: its text, the fields it selects, and the groups of codes
struct P {
    text: &'static str,
    field: fn(&Fld) -> bool,
    groups: &'static [fn(u8) -> bool],
}
fn none(f: &Fld) -> bool {
    match &f.occ { None => true, Some(o) => o == b"00" }
}
fn occ(f: &Fld, o: &[u8]) -> bool {
    f.occ.as_ref().is_some_and(|x| x == o)
}
fn has(f: &Fld, c: u8) -> bool {
    let mut r = false;
    for s in &f.subs { r |= s.code == c }
    r
}
fn hasv(f: &Fld, c: u8, v: &[u8]) -> bool {
    let mut r = false;
    for s in &f.subs { r |= (s.code == c) & (s.value == v) }
    r
}
fn t012(f: &Fld) -> bool { f.tag == b"012A" }
const PATHS: [P; 11] = [
    P { text: "012A.a", field: |f| t012(f) & none(f), groups: &[|c| c == b'a'] },
    P { text: "012A/*.[ab]", field: |f| t012(f), groups: &[|c| (c == b'a') | (c == b'b')] },
    P { text: "01[1-2]./01.*", field: |f| (f.tag[0] == b'0') & (f.tag[1] == b'1') & ((f.tag[2] == b'1') | (f.tag[2] == b'2')) & occ(f, b"01"), groups: &[|_| true] },
    P { text: "012A{a | b?}", field: |f| t012(f) & none(f) & has(f, b'b'), groups: &[|c| c == b'a'] },
    P { text: "012A/*{ (a, [bc]) | c == 'x' }", field: |f| t012(f) & hasv(f, b'c', b"x"), groups: &[|c| c == b'a', |c| (c == b'b') | (c == b'c')] },
    P { text: "012A$ab", field: |f| t012(f) & none(f), groups: &[|c| (c == b'a') | (c == b'b')] },
    P { text: "....{b,a|!c?}", field: |f| none(f) & !has(f, b'c'), groups: &[|c| c == b'b', |c| c == b'a'] },
    P { text: "012A/00-03{c|#b > 0 && (c? || a == 'x')}", field: |f| t012(f) & f.occ.as_ref().is_some_and(|o| o.len() == 2 && (o[0] == b'0') & (o[1] <= b'3')) & has(f, b'b') & (has(f, b'c') | hasv(f, b'a', b"x")), groups: &[|c| c == b'c'] },
    P { text: "003@.0", field: |f| (f.tag == b"003@") & none(f), groups: &[|c| c == b'0'] },
    P { text: "012A{ $a , $bc }", field: |f| t012(f) & none(f), groups: &[|c| c == b'a', |c| (c == b'b') | (c == b'c')] },
    P { text: "012A/*{a, b, a}", field: |f| t012(f), groups: &[|c| c == b'a', |c| c == b'b', |c| c == b'a'] },
];
fn bytes<T: AsRef<[u8]> + ?Sized>(x: &T) -> &[u8] { x.as_ref() }
/// nf fields of ns subfields; further fields vary less
fn record(nf: usize, ns: usize, vl: usize, ascii: bool) -> Rec {
    // many fields, or one of many subfields, if nf or ns is 100 or more
    let mut r: Rec = (0..if nf >= 100 { MANY } else { 0 }).map(|i| fld(b"012A", None, vec![sub(b'a', &nth(i)), sub(b'b', b"y")])).collect();
    let (nf, (ns, many)) = (nf % 100, bulk(ns));
    if many.len() > 0 { r.push(fld(b"012A", None, many)) }
    for i in 0..nf {
        let t = if i == 0 { vec![b'0', b'1', pick(b"123"), pick(b"AB")] } else { vec![b'0', b'1', b'2', b'A'] };
        let o = if i == 0 { any_occ(2 * choose(2)) } else { [None, Some(b"01".to_vec())][choose(2)].clone() };
        let subs = (0..ns).map(|j| sub(if i + j == 0 { any_code() } else { pick(b"abc") }, &value(if i + j == 0 { choose(vl + 1) } else { vl.min(1) }, ascii))).collect();
        r.push(fld(&t, o.as_deref(), subs));
    }
    r
}
/// rows of a path query (None: the path selects nothing)
fn rows(p: &P, r: &[Fld], squash: Option<&[u8]>) -> Vec<Vec<Vec<u8>>> {
    let mut out = vec![];
    for f in r {
        if !(p.field)(f) { continue }
        let mut acc: Vec<Vec<Vec<u8>>> = vec![vec![]];
        for g in p.groups {
            let mut vals: Vec<Vec<u8>> = f.subs.iter().filter(|s| g(s.code)).map(|s| s.value.clone()).collect();
            if vals.is_empty() { vals.push(vec![]) }
            if let Some(sep) = squash { vals = vec![vals.join(sep)] }
            acc = cross(&acc, &vals.into_iter().map(|v| vec![v]).collect::<Vec<_>>());
        }
        out.extend(acc);
    }
    if out.is_empty() { out.push(vec![vec![]; p.groups.len()]) }
    out
}
fn cross(a: &[Vec<Vec<u8>>], b: &[Vec<Vec<u8>>]) -> Vec<Vec<Vec<u8>>> {
    let mut o = vec![];
    for x in a { for y in b { let mut z = x.clone(); z.extend(y.clone()); o.push(z) } }
    o
}
fn merged(a: Vec<Vec<Vec<u8>>>, sep: &[u8]) -> Vec<Vec<Vec<u8>>> {
    let k = a[0].len();
    vec![(0..k).map(|i| a.iter().map(|r| r[i].clone()).collect::<Vec<_>>().join(sep)).collect()]
}

/// a format
enum F {
    Val(&'static str, &'static str, fn(u8) -> bool, &'static str, usize, &'static str),
    And(&'static [F]),
    Cons(&'static [F]),
    Group(&'static str, &'static F),
}
fn modify(m: &str, v: Vec<u8>) -> Vec<u8> {
    let mut v = v;
    if m.contains('o') { strip(&mut v) }
    if m.contains('t') {
        while v.first().is_some_and(|c| white(*c)) { v.remove(0); }
        while v.last().is_some_and(|c| white(*c)) { v.pop(); }
    }
    if m.contains('w') { v.retain(|c| *c != b' ') }
    if m.contains('l') { v = refm::lower(&v) }
    if m.contains('u') { v = v.iter().map(|c| if (*c >= b'a') & (*c <= b'z') { c - 32 } else { *c }).collect() }
    v
}
fn white(c: u8) -> bool { (c == b' ') | ((c >= 9) & (c <= 13)) }
/// the first '@' is dropped
fn strip(v: &mut Vec<u8>) {
    if let Some(i) = v.iter().position(|c| *c == b'@') { v.remove(i); }
}
impl F {
    fn text(&self) -> String {
        match self {
            F::Val(m, pre, _, codes, n, suf) => {
                let q = |s: &str| if s.is_empty() { String::new() } else { format!("'{}' ", s) };
                let b = match n { 1 => String::new(), 99 => "..".to_string(), n => format!("..{}", n) };
                format!("{}{}{}{} {}", if m.is_empty() { String::new() } else { format!("?{} ", m) }, q(pre), codes, b, q(suf))
            }
            F::And(l) => l.iter().map(|f| f.text()).collect::<Vec<_>>().join("<$> "),
            F::Cons(l) => l.iter().map(|f| f.text()).collect::<Vec<_>>().join(" <*>"),
            F::Group(m, f) => format!("({}{})", if m.is_empty() { String::new() } else { format!("?{} ", m) }, f.text()),
        }
    }
    fn eval(&self, f: &Fld, over: bool) -> Vec<u8> {
        match self {
            F::Val(m, pre, codes, _, n, suf) => {
                let mut o = vec![];
                for s in f.subs.iter().filter(|s| codes(s.code)).take(if *n == 99 { usize::MAX } else { *n }) {
                    o.extend_from_slice(pre.as_bytes());
                    let mut v = s.value.clone();
                    if over { strip(&mut v) }
                    o.extend_from_slice(&v);
                    o.extend_from_slice(suf.as_bytes());
                }
                modify(m, o)
            }
            F::And(l) => {
                let mut o = vec![];
                for x in *l {
                    let v = x.eval(f, over);
                    if v.is_empty() { break }
                    o.extend(v);
                }
                o
            }
            F::Cons(l) => l.iter().flat_map(|x| x.eval(f, over)).collect(),
            F::Group(m, x) => modify(m, x.eval(f, over)),
        }
    }
}
const A: F = F::Val("", "", |c| c == b'a', "a", 1, "");
const B: F = F::Val("", ", ", |c| c == b'b', "b", 1, "");
const C: F = F::Val("", "(", |c| c == b'c', "c", 1, ")");
const FMTS: [F; 20] = [
    A,
    F::Val("", "<", |c| c == b'a', "a", 2, ">"),
    F::Val("", "", |c| (c == b'a') | (c == b'b'), "[ab]", 99, "; "),
    F::Val("l", "", |c| c == b'a', "a", 1, ""),
    F::Val("u", "x", |_| true, "*", 2, "z"),
    F::Val("w", " ", |c| c == b'b', "b", 1, " y"),
    F::Val("o", "", |c| c == b'a', "a", 99, ""),
    F::Val("ow", "@ ", |c| c == b'a', "a", 1, ""),
    F::And(&[A, B]),
    F::Cons(&[A, B]),
    F::Cons(&[F::And(&[A, B]), C]),
    F::And(&[A, F::Group("", &F::Cons(&[B, C]))]),
    F::Group("u", &F::And(&[A, F::Group("w", &F::Cons(&[B, F::Val("", " ", |c| c == b'c', "c", 2, " ")]))])),
    F::And(&[A, B, C]),
    F::Val("t", " ", |c| c == b'a', "a", 1, ""),
    F::Group("tl", &F::Cons(&[A, B])),
    F::Val("ot", "", |c| c == b'a', "a", 1, ""),
    F::Val("lu", "", |c| c == b'a', "a", 1, "x"),
    F::Group("ot", &F::And(&[A, B])),
    F::Group("owl", &F::Cons(&[F::Val("u", "x ", |c| c == b'b', "b", 1, ""), A])),
];
const CONDS: [(&str, &str, fn(&Fld) -> bool); 4] = [
    ("", "", |f| none(f)),
    ("/*", "", |_| true),
    ("", "| b?", |f| none(f) & has(f, b'b')),
    ("/01", " |c == 'x' || a?", |f| occ(f, b"01") & (hasv(f, b'c', b"x") | has(f, b'a'))),
];

harness! {
    // the values of a path, in the order they stand in the record: path, fields, subfields, longest value
    h_path {
        let p = &PATHS[sym::param(0)];
        let r = record(sym::param(1), sym::param(2), sym::param(3), false);
        let b = refm::put(&r);
        let rec = ByteRecord::from_bytes(&b).unwrap();
        let Ok(path) = Path::new(p.text) else { check(false, 90); return };
        let o = MatcherOptions::new();
        let v: Vec<&[u8]> = rec.path(&path, &o).map(|x| bytes(x)).collect();
        let mut w: Vec<&[u8]> = vec![];
        for f in &r {
            if !(p.field)(f) { continue }
            for s in &f.subs {
                let mut inc = false;
                for g in p.groups { inc |= g(s.code) }
                if inc { w.push(&s.value) }
            }
        }
        reach(w.is_empty() as u64);
        for x in &v { note(x) }
        check(v == w, 1);
        check(rec.first(&path, &o).map(|x| bytes(x)) == w.first().copied(), 2);
        check(Path::new(&path.to_string()).is_ok_and(|x| x == path), 3);
        let s = match StringRecord::try_from(ByteRecord::from_bytes(&b).unwrap()) { Ok(s) => s, Err(_) => return };
        let v: Vec<&[u8]> = s.path(&path, &o).map(|x| x.as_bytes()).collect();
        check(v == w, 4);
    }
    // the PPN is the first value of 003@ $0
    h_ppn {
        let k = sym::param(0);
        let mut r: Rec = (0..if sym::param(1) >= 100 { MANY } else { 0 }).map(|i| fld(b"002@", None, vec![sub(b'0', &nth(i))])).collect();
        for _ in 0..sym::param(1) % 100 {
            let t = [&b"003@"[..], b"003U", b"103@"][choose(k)];
            r.push(fld(t, None, (0..choose(3)).map(|_| sub(pick(b"01"), &value(1, true))).collect()));
        }
        let b = refm::put(&r);
        let rec = ByteRecord::from_bytes(&b).unwrap();
        let w = r.iter().filter(|f| f.tag == b"003@").flat_map(|f| f.subs.iter()).find(|s| s.code == b'0').map(|s| s.value.clone());
        reach(w.is_some() as u64);
        check(rec.ppn().map(|x| x.to_vec()) == w, 1);
    }
    // rows of a query: fragments (two paths, each may be absent), literal first, squash, merge, fields, subfields
    h_query {
        let (p, q, lit, squash, merge, nf, ns) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3) == 1, sym::param(4) == 1, sym::param(5), sym::param(6));
        let sep: &[u8] = if sym::param(7) == 0 { b"|" } else { b"; " };
        let r = record(nf, ns, 1, true);
        let b = refm::put(&r);
        let rec = ByteRecord::from_bytes(&b).unwrap();
        let mut text: Vec<&str> = vec![];
        let mut w: Vec<Vec<Vec<u8>>> = vec![vec![]];
        if lit == 1 { text.push("'l\\'t'"); w = cross(&w, &[vec![b"l't".to_vec()]]) }
        for i in [p, q] {
            if i < PATHS.len() {
                text.push(PATHS[i].text);
                let mut x = rows(&PATHS[i], &r, if squash { Some(sep) } else { None });
                if merge { x = merged(x, sep) }
                w = cross(&w, &x);
            }
        }
        if lit == 2 { text.push("\"\""); w = cross(&w, &[vec![vec![]]]) }
        let text = text.join(if lit == 0 { ", " } else { "," });
        let Ok(query) = Query::new(&text) else { check(false, 90); return };
        let o = QueryOptions::new().squash(squash).merge(merge).separator(std::str::from_utf8(sep).unwrap());
        let v = rec.query(&query, &o).into_inner();
        reach((v.len() > 1) as u64);
        for row in &v { for c in row { note(c) } }
        check(v.len() == w.len() && v.iter().zip(&w).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| &x[..] == &y[..])), 1);
        check(Query::new(&query.to_string()).is_ok_and(|x| x == query), 2);
        let s = StringRecord::try_from(ByteRecord::from_bytes(&b).unwrap()).unwrap();
        let v = s.query(&query, &o).into_inner();
        check(v.len() == w.len() && v.iter().zip(&w).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.as_bytes() == &y[..])), 3);
    }
    // formats: format, condition, ignore the overread character, fields, subfields, longest value
    h_format {
        let (i, c, over, nf, ns, vl) = (sym::param(0), sym::param(1), sym::param(2) == 1, sym::param(3), sym::param(4), sym::param(5));
        let (ot, ct, cond) = CONDS[c];
        let text = format!("012A{}{{{}{}}}", ot, FMTS[i].text(), ct);
        let mut r: Rec = (0..if nf >= 100 { MANY } else { 0 }).map(|i| fld(b"012A", None, vec![sub(b'a', &nth(i)), sub(b'b', b"y")])).collect();
        let (nf, (ns, many)) = (nf % 100, bulk(ns));
        if many.len() > 0 { r.push(fld(b"012A", None, many)) }
        for k in 0..nf {
            let o = [None, Some(&b"01"[..])][choose(2)];
            let subs = (0..ns).map(|j| sub(pick(b"abcd"), &value(if j + k == 0 { choose(vl + 1) } else { vl.min(1) }, true))).collect();
            r.push(fld(if k == 1 { [b"012A", b"012B"][choose(2)] } else { b"012A" }, o, subs));
        }
        let b = refm::put(&r);
        let rec = ByteRecord::from_bytes(&b).unwrap();
        let Ok(fmt) = Format::new(&text) else { check(false, 90); return };
        let v: Vec<Vec<u8>> = rec.format(&fmt, &FormatOptions::new().strip_overread_char(over)).map(|x| x.to_vec()).collect();
        let mut w: Vec<Vec<u8>> = vec![];
        for f in &r {
            if t012(f) & cond(f) {
                let x = FMTS[i].eval(f, over);
                if !x.is_empty() { w.push(x) }
            }
        }
        reach(w.is_empty() as u64);
        for x in &v { note(x) }
        check(v == w, 1);
        check(Format::new(&fmt.to_string()).is_ok_and(|x| x == fmt), 2);
        if !over && i != 0 {
            // the same as part of a query
            let Ok(q) = Query::new(format!("'x', {}", text)) else { check(false, 91); return };
            let v: Vec<Vec<Vec<u8>>> = rec.query(&q, &QueryOptions::new()).into_inner().iter().map(|r| r.iter().map(|c| c.to_vec()).collect()).collect();
            if w.is_empty() { w.push(vec![]) }
            check(v == w.into_iter().map(|c| vec![b"x".to_vec(), c]).collect::<Vec<_>>(), 3);
        }
    }
}
