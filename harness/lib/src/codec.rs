use crate::refm::{self, Fld};
use crate::sym::{self, *};
use pica_record::prelude::*;
use pica_record::primitives::*;
use std::io::Read;

/// does the decoded record consist of exactly these fields?
fn same(r: &RecordRef, w: &[Fld]) -> bool {
    r.fields().len() == w.len() && r.fields().iter().zip(w).all(|(f, g)| same_field(f, g))
}
fn same_field(f: &FieldRef, g: &Fld) -> bool {
    let mut t = vec![];
    f.tag().write_to(&mut t).unwrap();
    let o = f.occurrence().map(|o| o.as_bytes().to_vec());
    t == g.tag
        && o == g.occ
        && f.subfields().len() == g.subs.len()
        && f.subfields().iter().zip(&g.subs).all(|(s, x)| s.code().as_byte() == x.code && s.value().as_bytes() == &x.value[..])
}
fn codec(b: &[u8]) {
    let w = refm::record(b);
    match ByteRecord::from_bytes(&b) {
        Ok(r) => {
            reach(0);
            check(w.is_some(), 1);
            let w = w.unwrap();
            check(same(&r, &w), 2);
            let mut v = vec![];
            r.write_to(&mut v).unwrap();
            note(&v);
            check(v == b, 3);
            // the record as a structure, without the bytes it was read from
            match RecordRef::from_bytes(b) {
                Ok(s) => {
                    check(same(&s, &w), 2);
                    let mut v = vec![];
                    s.write_to(&mut v).unwrap();
                    check(v == b, 3);
                    let mut v = vec![];
                    Record::from(s).write_to(&mut v).unwrap();
                    check(v == b, 4);
                }
                Err(_) => check(false, 1),
            }
        }
        Err(_) => {
            reach(1);
            check(w.is_none(), 1);
            check(RecordRef::from_bytes(b).is_err(), 1);
        }
    }
}
/// a well-formed record of nf fields; occurrence kinds, subfield counts and
/// value lengths are chosen, all bytes arbitrary within their class
fn any_rec(nf: usize, ns: usize, vl: usize) -> Vec<u8> {
    let mut o = vec![];
    for _ in 0..nf {
        o.push(pick(b"012"));
        let b = bytes(3);
        assume(refm::dig(b[0]) & refm::dig(b[1]) & (refm::up(b[2]) | (b[2] == b'@')));
        o.extend_from_slice(&b);
        let n = [0, 2, 3][choose(3)];
        if n > 0 {
            o.push(b'/');
            for _ in 0..n {
                let d = byte();
                assume(refm::dig(d));
                o.push(d);
            }
        }
        o.push(b' ');
        for _ in 0..choose(ns + 1) {
            o.push(0x1f);
            let c = byte();
            assume(refm::code(c));
            o.push(c);
            for b in bytes(choose(vl + 1)) {
                assume((b != 0x1e) & (b != 0x1f));
                o.push(b);
            }
        }
        o.push(0x1e);
    }
    o.push(b'\n');
    o
}
const BASE: &[u8] = b"003@ \x1f0123\x1e012A/01 \x1fa\x1fb\xc3\xa9\x1e101@ \x1e203@/123 \x1fZ$x\x1fZ\x1f9y\x1e\n";

/// a reader that hands out the data in arbitrary pieces
struct Pieces {
    data: Vec<u8>,
    pos: usize,
    left: usize,
    max: usize,
}
impl Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let rest = self.data.len() - self.pos;
        let mut n = rest.min(b.len());
        if self.left > 0 && n > 1 {
            self.left -= 1;
            n = 1 + choose(n.min(self.max));
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn line_no(msg: &str) -> Option<usize> {
    let i = msg.find("on line ")? + 8;
    let mut n = 0;
    let mut k = 0;
    for c in msg.as_bytes()[i..].iter() {
        if !c.is_ascii_digit() {
            break;
        }
        n = n * 10 + (*c - b'0') as usize;
        k += 1;
    }
    if k > 0 { Some(n) } else { None }
}
/// what the reader delivers for a stream
fn reader(b: &[u8], max: usize, splits: usize, string: bool) {
    let ls = refm::lines(b);
    let mut rd = ReaderBuilder::new().from_reader(Pieces { data: b.to_vec(), pos: 0, left: splits, max }, Some("src".into()));
    for (i, l) in ls.iter().enumerate() {
        let w = refm::record(l);
        let mut v: Option<Vec<u8>> = None;
        let mut e: Option<(bool, usize)> = None;
        if string {
            match rd.next_string_record() {
                None => check(false, 1),
                Some(Ok(r)) => {
                    let mut x = vec![];
                    r.write_to(&mut x).unwrap();
                    v = Some(x);
                }
                Some(Err(ReadPicaError::Parse { msg, .. })) => e = Some((true, line_no(&msg).unwrap_or(0))),
                Some(Err(ReadPicaError::Utf8 { msg, .. })) => e = Some((false, line_no(&msg).unwrap_or(0))),
                Some(Err(_)) => check(false, 5),
            }
        } else {
            match rd.next_byte_record() {
                None => check(false, 1),
                Some(Ok(r)) => {
                    check(w.is_some() && same(&r, w.as_ref().unwrap()), 2);
                    let mut x = vec![];
                    r.write_to(&mut x).unwrap();
                    v = Some(x);
                }
                Some(Err(err)) => {
                    check(err.skip_parse_err(true) && !err.skip_parse_err(false), 6);
                    match err {
                        ReadPicaError::Parse { msg, .. } => e = Some((true, line_no(&msg).unwrap_or(0))),
                        _ => check(false, 5),
                    }
                }
            }
        }
        match (&v, &e) {
            (Some(x), _) => {
                reach(0);
                check(w.is_some() && x == l, 2);
                check(!string || refm::rec_utf8(w.as_ref().unwrap()), 7);
                note(x);
            }
            (_, Some((parse, n))) => {
                reach(if *parse { 1 } else { 2 });
                check(if *parse { w.is_none() } else { w.is_some() && !refm::rec_utf8(w.as_ref().unwrap()) }, 3);
                check(*n == i + 1, if *parse { 4 } else { 8 });
                note(&[*n as u8]);
            }
            _ => check(false, 5),
        }
    }
    // and then the end, repeatedly
    for _ in 0..2 {
        if string { check(rd.next_string_record().is_none(), 1) } else { check(rd.next_byte_record().is_none(), 1) }
    }
}

harness! {
    h_codec { codec(&bytes(sym::param(0))) }
    // an arbitrary window in a longer record
    h_codec_win {
        let (p, n) = (sym::param(0), sym::param(1));
        let mut b = BASE.to_vec();
        for (i, x) in bytes(n).into_iter().enumerate() {
            if p + i < b.len() { b[p + i] = x }
        }
        codec(&b)
    }
    // inserted, removed bytes
    h_codec_ins {
        let (p, n) = (sym::param(0), sym::param(1));
        let mut b = BASE[..p].to_vec();
        b.extend_from_slice(&bytes(n));
        b.extend_from_slice(&BASE[p + sym::param(2)..]);
        codec(&b)
    }
    h_codec_any {
        let b = any_rec(sym::param(0), sym::param(1), sym::param(2));
        reach(2);
        check(ByteRecord::from_bytes(&b).is_ok(), 1);
        codec(&b)
    }
    // the parts on their own
    h_codec_parts {
        let b = bytes(sym::param(0));
        let t = TagRef::from_bytes(&b);
        check(t.is_ok() == (b.len() == 4 && refm::tag(&b)), 1);
        let o = OccurrenceRef::from_bytes(&b);
        check(o.is_ok() == ((b.len() == 2 || b.len() == 3) && b.iter().all(|c| refm::dig(*c))), 2);
        let v = SubfieldValueRef::from_bytes(&b);
        check(v.is_ok() == b.iter().all(|c| (*c != 0x1e) & (*c != 0x1f)), 3);
        if let Ok(t) = t { reach(0);
            let mut o = vec![]; t.write_to(&mut o).unwrap(); check(o == b, 5);
            check(t.level() == [Level::Main, Level::Local, Level::Copy][(conc(b[0] as u64) - 48) as usize], 6) }
        if let Ok(o) = o { reach(1); check(o.as_bytes() == b, 5) }
        if let Ok(v) = v { reach(2); check(v.as_bytes() == b, 5) }
        let s = SubfieldRef::from_bytes(&b);
        let w = b.len() >= 2 && b[0] == 0x1f && refm::code(b[1]) && b[2..].iter().all(|c| (*c != 0x1e) & (*c != 0x1f));
        check(s.is_ok() == w, 4);
        if let Ok(s) = s { reach(3); let mut o = vec![]; s.write_to(&mut o).unwrap(); check(o == b, 5) }
        let f = FieldRef::from_bytes(&b);
        let w = refm::field(&b, 0).filter(|x| x.1 == b.len());
        check(f.is_ok() == w.is_some(), 7);
        if let Ok(f) = f { reach(4); check(same_field(&f, &w.unwrap().0), 8); let mut o = vec![]; f.write_to(&mut o).unwrap(); check(o == b, 5);
            let mut o = vec![]; Field::from(f).write_to(&mut o).unwrap(); check(o == b, 5) }
        if let Ok(x) = std::str::from_utf8(&b) {
            reach(5);
            check(Tag::new(x).is_ok() == (b.len() == 4 && refm::tag(&b)), 1);
            check(Occurrence::new(x).is_ok() == OccurrenceRef::from_bytes(&b).is_ok(), 2);
            check(SubfieldValue::new(x).is_ok() == b.iter().all(|c| (*c != 0x1e) & (*c != 0x1f)), 3);
        }
    }
    // constructing a record from parts: accepted iff every part is valid, and what is written decodes to the same
    h_codec_new {
        let t = bytes(4);
        let o = bytes(sym::param(0));
        let c = byte();
        let v = bytes(sym::param(1));
        for x in [&t, &o, &v] { for b in x { assume(*b < 128) } }
        assume(c < 128);
        let (ts, os, vs) = unsafe { (std::str::from_utf8_unchecked(&t), std::str::from_utf8_unchecked(&o), std::str::from_utf8_unchecked(&v)) };
        let occ = if o.is_empty() { None } else { Some(os) };
        let ok = refm::tag(&t) && (o.is_empty() || ((o.len() == 2 || o.len() == 3) && o.iter().all(|c| refm::dig(*c)))) && refm::code(c)
            && v.iter().all(|c| (*c != 0x1e) & (*c != 0x1f));
        let r = RecordRef::new(vec![("003@", None, vec![('0', "x")]), (ts, occ, vec![(c as char, vs), ('a', "")])]);
        check(r.is_ok() == ok, 1);
        let own = Field::new(ts, occ, vec![(c as char, vs), ('a', "")]);
        check(own.is_ok() == ok, 1);
        if let Ok(r) = r {
            reach(0);
            let mut b = vec![];
            r.write_to(&mut b).unwrap();
            let w = [Fld { tag: b"003@".to_vec(), occ: None, subs: vec![refm::Sub { code: b'0', value: b"x".to_vec() }] },
                Fld { tag: t.clone(), occ: if o.is_empty() { None } else { Some(o.clone()) }, subs: vec![refm::Sub { code: c, value: v.clone() }, refm::Sub { code: b'a', value: vec![] }] }];
            check(b == refm::put(&w), 2);
            note(&b);
            match ByteRecord::from_bytes(&b) { Ok(q) => check(same(&q, &w), 3), Err(_) => check(false, 3) };
        } else { reach(1) }
    }
    // much that is fixed, and arbitrary bytes at its end: kind, how much, bytes
    h_codec_many {
        let (k, n) = (sym::param(0), sym::param(1));
        let x = bytes(sym::param(2));
        let mut b = b"003@ \x1f0123\x1e".to_vec();
        match k {
            // subfields
            0 => { b.extend(b"012A "); for i in 0..n { b.extend(format!("\x1faw{i}").bytes()) } b.extend(x); b.extend(b"\x1e\n") }
            // fields
            1 => { for i in 0..n { b.extend(format!("012A/01 \x1faw{i}\x1e").bytes()) } b.extend(x); b.extend(b" \x1faz\x1e\n") }
            // a long value
            2 => { b.extend(b"012A \x1fa"); b.resize(b.len() + n, b'w'); b.extend(x); b.extend(b"\x1e\n") }
            // empty fields
            3 => { for _ in 0..n { b.extend(b"012A \x1e") } b.extend(x); b.extend(b"\x1e\n") }
            // bytes at the start of a long record
            _ => { b = x; b.extend(b" \x1f0123\x1e"); for i in 0..n { b.extend(format!("012A/01 \x1faw{i}\x1e").bytes()) } b.push(b'\n') }
        }
        codec(&b)
    }
    // many lines: lines, strings, bytes
    h_reader_many {
        let mut b = vec![];
        for i in 0..sym::param(0) { b.extend(if i % 3 == 1 { b"x\n".to_vec() } else { format!("003@ \x1f0{i}\x1e\n").into_bytes() }) }
        b.extend(bytes(sym::param(2)));
        b.extend(b"\n003@ \x1f01\x1e\n");
        reader(&b, 2, 2, sym::param(1) == 1)
    }
    h_reader { reader(&bytes(sym::param(0)), sym::param(1), sym::param(2), false) }
    // lines from a set of shapes, each with arbitrary bytes at its critical places
    h_reader_mix {
        let n = sym::param(0);
        let string = sym::param(1) == 1;
        let mut b = vec![];
        for i in 0..n {
            let last = i + 1 == n;
            match choose(if last { 6 } else { 5 }) {
                0 => { b.extend_from_slice(b"003@ \x1f0"); b.push(pick(b"1X\x1f\x1e\n\x80")); b.extend_from_slice(b"\x1e\n") }
                1 => { b.extend_from_slice(b"012A/0"); b.push(byte()); b.extend_from_slice(b" \x1fa\x1e\n") }
                2 => b.push(b'\n'),
                3 => { b.extend_from_slice(b"003@ \x1fa"); b.extend_from_slice(&bytes(2)); b.extend_from_slice(b"\x1e\n") }
                4 => { b.push(byte()); b.push(b'\n') }
                _ => b.extend_from_slice(b"003@ \x1f0\x1e"),
            }
        }
        reader(&b, 2, sym::param(2), string)
    }
    // a record longer than the read buffer
    h_reader_long {
        let n = sym::param(0);
        let mut b = vec![];
        b.extend_from_slice(b"003@ \x1f0");
        b.push(byte());
        b.resize(b.len() + n, b'x');
        b.push(byte());
        b.extend_from_slice(b"\x1e\n003@ \x1f0y\x1e");
        b.push(byte());
        b.push(byte());
        b.extend_from_slice(b"003@ \x1f0z\x1e\n");
        reader(&b, 1, 0, sym::param(1) == 1)
    }
}
