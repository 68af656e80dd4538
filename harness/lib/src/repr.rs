use crate::matcher::{MANY, any_code, any_occ, nth, value};
use crate::refm::{self, Fld, Rec, fld, sub};
use crate::sym::{self, *};
use pica_record::matcher::*;
use pica_record::prelude::*;
use pica_record::primitives::*;
use std::hash::{Hash, Hasher};

/// a hasher that keeps what it is given
#[derive(Default)]
struct Keep(Vec<u8>);
impl Hasher for Keep {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
fn hashed(r: &ByteRecord) -> Vec<u8> {
    let mut k = Keep::default();
    r.hash(&mut k);
    k.0
}
fn written(r: &ByteRecord) -> Vec<u8> {
    let mut v = vec![];
    r.write_to(&mut v).unwrap();
    v
}
/// arbitrary bytes that may stand in a value
fn raw(n: usize) -> Vec<u8> {
    let v = bytes(n);
    for b in &v {
        assume((*b != 0x1e) & (*b != 0x1f));
    }
    v
}
/// one or two fields around a value and a code
fn rec(v: &[u8], c: u8, o: Option<Vec<u8>>) -> Rec {
    vec![fld(b"003@", None, vec![sub(b'0', b"1")]), fld(b"012A", o.as_deref(), vec![sub(c, v), sub(b'b', b"")])]
}
/// tag and occurrence matchers with the fields they select
const PRED: [(&str, &str); 7] = [("012A", ""), ("012A", "/*"), ("012A", "/01"), ("01[2-3].", "/02-05"), ("2...", "/*"), ("003@", ""), ("...A", "/00")];
fn sel(i: usize, f: &Fld) -> bool {
    let none = match &f.occ { None => true, Some(o) => o == b"00" };
    let t = &f.tag;
    match i {
        0 => (t == b"012A") & none,
        1 => t == b"012A",
        2 => (t == b"012A") & f.occ.as_ref().is_some_and(|o| o == b"01"),
        3 => (t[0] == b'0') & (t[1] == b'1') & ((t[2] == b'2') | (t[2] == b'3')) & f.occ.as_ref().is_some_and(|o| (o[0] == b'0') & (o[1] >= b'2') & (o[1] <= b'5')),
        4 => t[0] == b'2',
        5 => (t == b"003@") & none,
        _ => (t[3] == b'A') & none,
    }
}

harness! {
    // values of n arbitrary bytes: exactly the valid UTF-8 ones make a string record
    h_utf8 {
        let (n, m) = (sym::param(0), sym::param(1));
        let r = vec![fld(b"003@", None, vec![sub(b'0', &raw(n))]), fld(b"012A", None, vec![sub(b'a', b"\xc3\xa9"), sub(b'b', &raw(m))])];
        let b = refm::put(&r);
        let w = refm::rec_utf8(&r);
        let Ok(x) = ByteRecord::from_bytes(&b) else { check(false, 90); return };
        check(x.validate().is_ok() == w, 1);
        match StringRecord::try_from(x) {
            Ok(s) => {
                reach(1);
                check(w, 1);
                check(written(&s) == b, 2);
                let o = MatcherOptions::new();
                for (p, v) in [("003@.0", &r[0].subs[0].value), ("012A.b", &r[1].subs[1].value)] {
                    check(s.first(&Path::new(p).unwrap(), &o).is_some_and(|x| x.as_bytes() == &v[..]), 3);
                }
                check(s.ppn().is_some_and(|x| x.as_bytes() == &r[0].subs[0].value[..]), 3);
            }
            Err(_) => { reach(0); check(!w, 1) }
        }
    }
    // equality and hash: exactly the records written alike are equal, however they were made
    h_same {
        let (n, m, k) = (sym::param(0), sym::param(1), sym::param(2));
        let (ca, cb) = (any_code(), any_code());
        let oc = |i: usize| any_occ([0, 2, 3][(k / i) % 3]);
        let (a, b) = (rec(&raw(n), ca, oc(1)), rec(&raw(m), cb, oc(3)));
        let (ab, bb) = (refm::put(&a), refm::put(&b));
        let w = ab == bb;
        reach(w as u64);
        let (x, y) = (ByteRecord::from_bytes(&ab).unwrap(), ByteRecord::from_bytes(&bb).unwrap());
        check((x == y) == w, 1);
        let (xr, yr) = (RecordRef::from_bytes(&ab).unwrap(), RecordRef::from_bytes(&bb).unwrap());
        check((xr == yr) == w, 2);
        check((xr == Record::from(yr.clone())) == w, 3);
        check((Record::from(xr.clone()) == yr) == w, 3);
        let (xu, yu) = (ByteRecord::from(xr), ByteRecord::from(yr));
        check((xu == y) == w && (x == yu) == w && (xu == yu) == w, 4);
        // equal records have equal hashes
        check(hashed(&x) == hashed(&xu), 5);
        if w { check(hashed(&x) == hashed(&y), 5) }
        check(written(&xu) == ab, 6);
    }
    // parts: equality across the kinds of representation
    h_parts {
        let (n, m) = (sym::param(0), sym::param(1));
        let f = |n| {
            let v = value(n, true);
            (fld(b"012A", any_occ([0, 2, 3][choose(3)]).as_deref(), vec![sub(pick(b"ab"), &v)]), v)
        };
        let ((a, av), (b, bv)) = (f(n), f(m));
        let (mut ab, mut bb) = (vec![], vec![]);
        a.put(&mut ab);
        b.put(&mut bb);
        let w = ab == bb;
        reach(w as u64);
        let (x, y) = (FieldRef::from_bytes(&ab).unwrap(), FieldRef::from_bytes(&bb).unwrap());
        check((x == y) == w, 1);
        check((x == Field::from(y.clone())) == w, 2);
        check((Field::from(x.clone()) == y) == w, 2);
        check((Field::from(x.clone()) == Field::from(y.clone())) == w, 2);
        let (s, t) = (&x.subfields()[0], &y.subfields()[0]);
        let ws = a.subs == b.subs;
        check((s == t) == ws, 3);
        check((*s == Subfield::from(t.clone())) == ws, 3);
        check((Subfield::from(s.clone()) == Subfield::from(t.clone())) == ws, 3);
        let wv = av == bv;
        check((s.value() == t.value()) == wv, 4);
        check((*s.value() == SubfieldValue::from(t.value().clone())) == wv, 4);
        check((SubfieldValue::from(s.value().clone()) == *t.value()) == wv, 4);
        check((*s.value() == &bv[..]) == wv, 4);
        if let (Some(p), Some(q)) = (x.occurrence(), y.occurrence()) {
            let wo = a.occ == b.occ;
            check((p == q) == wo, 5);
            check((*p == Occurrence::from(q.clone())) == wo, 5);
            check(*p == &a.occ.as_ref().unwrap()[..], 5);
        }
        check(x.contains('a') == (a.subs[0].code == b'a'), 6);
        check(x.find(|s| *s.code() == 'b').is_some() == (a.subs[0].code == b'b'), 6);
    }
    // dropping fields: predicates, fields, keep or discard, how many of the fields' bytes are arbitrary
    h_edit {
        let (p, q, nf, k) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
        let mut r: Rec = (0..if nf >= 100 { MANY } else { 0 }).map(|i| fld([b"012A", b"003@", b"101@"][i % 3], None, vec![sub(b'a', &nth(i))])).collect();
        let nf = nf % 100;
        for i in 0..nf {
            let t = match i { 0 => vec![b'0', b'1', byte(), byte()], 1 => vec![pick(b"02"), b'1', b'2', b'A'], _ => b"003@".to_vec() };
            assume(refm::tag(&t));
            let o = any_occ(if i < 2 { 2 * choose(2) } else { 0 });
            r.push(fld(&t, o.as_deref(), vec![sub(b'a', &value(1, false)), sub(any_code(), b"")]));
        }
        let b = refm::put(&r);
        let mut x = ByteRecord::from_bytes(&b).unwrap();
        let mut preds = vec![];
        for i in [p, q] {
            if i < PRED.len() { preds.push((TagMatcher::new(PRED[i].0).unwrap(), OccurrenceMatcher::new(PRED[i].1).unwrap())) }
        }
        let hit = |f: &Fld| (p < PRED.len() && sel(p, f)) | (q < PRED.len() && sel(q, f));
        let none = preds.is_empty();
        let w: Rec = match k {
            0 => { x.keep(&preds); r.iter().filter(|f| none || hit(f)).cloned().collect() }
            1 => { x.discard(&preds); r.iter().filter(|f| none || !hit(f)).cloned().collect() }
            2 => { x.retain(|f| preds.iter().any(|(t, o)| t.is_match(f.tag()) && o.is_match(f.occurrence()))); r.iter().filter(|f| hit(f)).cloned().collect() }
            3 => { x.keep(&preds[..1]); x.discard(&preds[1..]); r.iter().filter(|f| sel(p, f) & !sel(q, f)).cloned().collect() }
            // through the underlying record
            _ => { let y: &mut RecordRef = &mut x; y.retain(|f| !preds.iter().any(|(t, o)| t.is_match(f.tag()) && o.is_match(f.occurrence()))); r.iter().filter(|f| !hit(f)).cloned().collect() }
        };
        reach(w.is_empty() as u64);
        // a record left without fields is not written at all
        let wb = if w.is_empty() { vec![] } else { refm::put(&w) };
        let v = written(&x);
        note(&v);
        check(v == wb, 1);
        check(x.fields().len() == w.len(), 2);
        check(x.is_empty() == w.is_empty(), 2);
        if !w.is_empty() {
            let y = ByteRecord::from_bytes(&wb).unwrap();
            check(x == y && y == x, 3);
            check(hashed(&x) == hashed(&y), 4);
            check((x == ByteRecord::from_bytes(&b).unwrap()) == (w.len() == r.len()), 5);
        }
    }
}
