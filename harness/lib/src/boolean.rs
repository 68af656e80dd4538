use crate::matcher::{eval, expect};
use crate::refm::{self, Fld, Rec, fld, sub};
use crate::sym::{self, *};
use pica_record::matcher::*;
use pica_record::prelude::*;

/// an expression being written, with the record it is about
pub struct Gen {
    /// leaves are subfield matchers inside one field
    inner: bool,
    style: usize,
    n: u8,
    rec: Rec,
}
const OPS: [&str; 4] = ["&&", "^", "XOR", "||"];
impl Gen {
    pub fn new(inner: bool, style: usize) -> Gen {
        Gen { inner, style, n: 0, rec: if inner { vec![fld(b"012A", None, vec![])] } else { vec![] } }
    }
    fn w(&self) -> &'static str {
        ["", "", " \t\r\n "][self.style]
    }
    fn add(&mut self, tag: &str, code: u8, v: u8) {
        if self.inner {
            self.rec[0].subs.push(sub(code, &[v]));
        } else {
            self.rec.push(fld(tag.as_bytes(), None, vec![sub(code, &[v])]));
        }
    }
    /// the next leaf; only one that may follow a negation, if so wanted
    fn leaf(&mut self, not: bool) -> (String, bool) {
        let i = self.n;
        self.n += 1;
        let c = (b'a' + i) as char;
        let t = format!("01{}A", i);
        if self.inner {
            if i % 4 == 0 || not {
                let s = pick(&[b'a' + i, b'z']);
                self.add("", s, b'v');
                return (format!("{}?", c), s != b'z');
            }
            let s = pick(b"xz");
            let e = match i % 4 {
                1 => { self.add("", b'a' + i, s); format!("{} == 'x'", c) }
                2 => { self.add("", b'a' + i, s); format!("ALL {} != 'z'", c) }
                _ => {
                    self.add("", b'a' + i, b'v');
                    let s = pick(&[b'a' + i, b'z']);
                    self.add("", s, b'v');
                    return (format!("#{} > 1", c), s != b'z');
                }
            };
            return (e, s == b'x');
        }
        if i % 4 == 0 {
            let s = pick(b"az");
            self.add(&t, s, b'v');
            return (format!("{}.a?", t), s == b'a');
        }
        let s = pick(b"xz");
        if i % 4 == 1 || not {
            self.add(&t, b'a', s);
            return (format!("{}{{a == 'x'}}", t), s == b'x');
        }
        self.add(&t, b'a', s);
        if i % 4 == 2 { (format!("#{}{{a == 'x'}} > 0", t), s == b'x') } else { (format!("{}.a in ['x', 'y']", t), s == b'x') }
    }
    pub fn operand(&mut self, kind: usize, ops: usize) -> (String, bool) {
        let w = self.w();
        match kind {
            0 => self.leaf(false),
            1 => { let (t, v) = self.leaf(true); (format!("!{}{}", w, t), !v) }
            2 => { let (t, v) = self.list(2, 1, ops); (format!("({}{}{})", w, t, w), v) }
            3 => { let (t, v) = self.list(2, 1, ops); (format!("!{}({}{}{})", w, w, t, w), !v) }
            4 => { let (t, v) = self.operand(2, ops); (format!("(({}{}))", t, w), v) }
            _ => { let (t, v) = self.operand(3, ops); (format!("!({})", t), !v) }
        }
    }
    /// `k` operands of chosen kinds joined by chosen operators
    pub fn list(&mut self, k: usize, kinds: usize, ops: usize) -> (String, bool) {
        let mut t = String::new();
        let (mut or, mut xor, mut and) = (false, false, true);
        for i in 0..k {
            let kind = if kinds == 1 { 0 } else { choose(kinds) };
            let (x, v) = self.operand(kind, ops);
            if i > 0 {
                let o = if ops == 3 { [0, 1, 3][choose(3)] } else { choose(4) };
                if o > 0 {
                    xor ^= and;
                    and = true;
                }
                if o == 3 {
                    or |= xor;
                    xor = false;
                }
                t = match self.style { 0 => format!("{} {} ", t, OPS[o]), 1 => format!("{}{}", t, OPS[o]), _ => format!("{}\n\t{}\r ", t, OPS[o]) };
            }
            and &= v;
            t.push_str(&x);
        }
        (t, or | (xor ^ and))
    }
    pub fn finish(&self, t: String) -> String {
        if self.inner { format!("012A{{{}}}", t) } else { t }
    }
}
/// the text form of a matcher is accepted and means the same, and is its own text form
fn roundtrip(m: &RecordMatcher, r: &[Fld], x: bool) {
    let t = m.to_string();
    note(t.as_bytes());
    match RecordMatcher::new(&t) {
        Err(_) => check(false, 3),
        Ok(m) => {
            let b = refm::put(r);
            let rec = ByteRecord::from_bytes(&b).unwrap();
            check(m.is_match(&rec, &MatcherOptions::new()) == x, 4);
            // up to white space
            let strip = |t: &str| t.split_whitespace().collect::<String>();
            check(strip(&m.to_string()) == strip(&t), 5);
        }
    }
}
fn both(e: &str, r: &[Fld], w: bool) {
    expect(e.as_bytes(), r, false, w);
    if let Ok(m) = RecordMatcher::new(e) {
        let b = refm::put(r);
        let rec = ByteRecord::from_bytes(&b).unwrap();
        let x = m.is_match(&rec, &MatcherOptions::new());
        roundtrip(&m, r, x);
    }
}
/// texts that are not matchers, some failing deep inside
const BAD: [&str; 5] = ["((((((012A.a? &&", "012A{ ((a? ", "012A{(((a? && b?) }", "(012A.a? || (012A{ (b? ) ) )", "!((012A.x?"];

harness! {
    // operators, operand kinds: level, white space, operands, kinds of operand, operators
    h_bool {
        let mut g = Gen::new(sym::param(0) == 1, sym::param(1));
        let (t, v) = g.list(sym::param(2), sym::param(3), sym::param(4));
        both(&g.finish(t), &g.rec, v);
    }
    // nested groups: level, depth, negated
    h_nest {
        let mut g = Gen::new(sym::param(0) == 1, 0);
        let (d, n) = (sym::param(1), sym::param(2));
        let (mut t, mut v) = g.list(1, 1, 4);
        for i in 0..d {
            match (n + i) % 3 {
                0 => t = format!("({})", t),
                1 => { t = format!("!({})", t); v = !v }
                _ => { let (u, w) = g.leaf(false); t = format!("({} || {})", u, t); v |= w }
            }
        }
        both(&g.finish(t), &g.rec, v);
    }
    // parsing does not depend on what was parsed before: text, times, level, depth
    h_history {
        let (b, k) = (sym::param(0), sym::param(1));
        for _ in 0..k {
            check(RecordMatcher::new(BAD[b]).is_err(), 6);
        }
        let mut g = Gen::new(sym::param(2) == 1, 0);
        let (mut t, v) = g.list(2, 1, 3);
        for _ in 0..sym::param(3) {
            t = format!("({})", t);
        }
        expect(g.finish(t).as_bytes(), &g.rec, false, v);
    }
    // combining matchers: two texts, and the way they are combined
    h_build {
        let k = sym::param(0);
        let mut g = Gen::new(false, 0);
        let (a, av) = g.list(sym::param(1), 1, 3);
        let (b, bv) = g.list(sym::param(2), 1, 3);
        let neg = choose(2) == 1;
        let (a, av) = if neg { (format!("!({})", a), !av) } else { (a, av) };
        let (ma, mb) = (RecordMatcher::new(&a), RecordMatcher::new(&b));
        check(ma.is_ok() & mb.is_ok(), 90);
        let (Ok(ma), Ok(mb)) = (ma, mb) else { return };
        let (m, w) = match k {
            0 => (ma & mb, av & bv),
            1 => (ma | mb, av | bv),
            2 => (ma ^ mb, av ^ bv),
            3 => (!mb & ma, !bv & av),
            4 => { let mut m = ma; m &= mb; (m, av & bv) }
            5 => { let mut m = ma; m |= mb; (m, av | bv) }
            6 => { let mut m = ma; m ^= mb; (m, av ^ bv) }
            7 => (RecordMatcherBuilder::new(a).unwrap().and(vec![b]).unwrap().build(), av & bv),
            8 => (RecordMatcherBuilder::new(a).unwrap().or(vec![b]).unwrap().build(), av | bv),
            9 => (RecordMatcherBuilder::new(a).unwrap().not(vec![b]).unwrap().build(), av & !bv),
            10 => (RecordMatcherBuilder::with_transform(b.clone(), move |s| format!("({}) || {}", a, s)).unwrap().not(vec![b]).unwrap().build(), {
                // the transformation applies to every predicate
                (av | bv) & !(av | bv)
            }),
            11 => (!!ma ^ !mb, av ^ !bv),
            13..16 => {
                let (c, cv) = g.list(1, 1, 3);
                let x = RecordMatcherBuilder::new(a).unwrap();
                match k {
                    13 => (x.and(vec![b, c]).unwrap().build(), av & bv & cv),
                    14 => (x.or(vec![b, c]).unwrap().build(), av | bv | cv),
                    _ => (x.not(vec![b, c]).unwrap().build(), av & !bv & !cv),
                }
            }
            _ => { let c = format!("{} || 019A?", b); (RecordMatcherBuilder::new(a.clone()).unwrap().and(vec![c.clone(), b.clone()]).unwrap().or(vec![b, a]).unwrap().not(vec![c]).unwrap().build(), ((av & bv) | bv | av) & !bv) }
        };
        let bs = refm::put(&g.rec);
        let rec = ByteRecord::from_bytes(&bs).unwrap();
        let x = m.is_match(&rec, &MatcherOptions::new());
        note(&[x as u8]);
        reach(x as u64);
        check(x == w, 1);
        roundtrip(&m, &g.rec, x);
    }
}
