//! inputs of the command line tool: lines that are records with arbitrary
//! parts, or not records at all
use crate::pica;
use crate::refm::{self, Fld, Rec, fld, sub};
use crate::sym::{self, *};

#[derive(Clone)]
pub struct Line {
    pub b: Vec<u8>,
    pub rec: Option<Rec>,
}
/// an arbitrary byte that can stand in a value on one line
pub fn vbyte(ascii: bool) -> u8 {
    let b = byte();
    let mut ok = (b != 0x1e) & (b != 0x1f) & (b != 10);
    if ascii { ok &= b < 128 }
    assume(ok);
    b
}
pub fn vbytes(n: usize, ascii: bool) -> Vec<u8> {
    (0..n).map(|_| vbyte(ascii)).collect()
}
/// how the records look
#[derive(Clone, Copy)]
pub struct Shape {
    /// digits the PPN is chosen from
    pub ppn: &'static [u8],
    /// bytes the values are chosen from (empty: any)
    pub val: &'static [u8],
    /// fields 012A: at most
    pub nf: usize,
    /// subfields of each
    pub ns: usize,
    pub codes: &'static [u8],
    /// with occurrences
    pub occ: bool,
    /// a record may lack a PPN
    pub noppn: bool,
    pub ascii: bool,
    /// a field may have fewer subfields, even none
    pub bare: bool,
    /// length of the values, from and to
    pub vl: (usize, usize),
    /// much that is fixed: 1: fields, 2: subfields of a field, 3: records
    /// before the others, 4: a long value
    pub bulk: usize,
}
/// how much
pub const MANY: usize = 299;
pub const LONG: usize = 70_000;
/// the shape of a parameter
pub fn shape(t: &[Shape], p: usize) -> Shape {
    Shape { bulk: p / 100, ..t[p % 100] }
}
pub const S: Shape = Shape { ppn: b"123", val: b"", nf: 1, ns: 1, codes: b"ab", occ: false, noppn: false, ascii: true, bare: false, vl: (1, 1), bulk: 0 };
impl Shape {
    pub fn rec(&self) -> Rec {
        let mut r = vec![];
        if !self.noppn || choose(2) == 0 {
            let p = if self.ppn.is_empty() { vbyte(self.ascii) } else { pick(self.ppn) };
            r.push(fld(b"003@", None, vec![sub(b'0', &[p])]));
        } else {
            r.push(fld(b"002@", None, vec![sub(b'0', b"Tp1")]));
        }
        let c = if self.codes.len() == 1 { self.codes[0] } else { b'a' };
        match self.bulk {
            1 => for i in 0..MANY { r.push(fld(b"012A", None, vec![sub(c, &nth(i))])) }
            2 => r.push(fld(b"012A", None, (0..MANY).map(|i| sub(c, &nth(i))).collect())),
            4 => r.push(fld(b"012A", None, vec![sub(c, &[b'w'; LONG])])),
            _ => {}
        }
        let nf = if self.nf > 1 { choose(self.nf + 1) } else { self.nf };
        for _ in 0..nf {
            let o: Option<&[u8]> = if self.occ { [None, Some(&b"01"[..])][choose(2)] } else { None };
            let ns = if self.bare { choose(self.ns + 1) } else { self.ns };
            let subs = (0..ns).map(|_| sub(if self.codes.len() == 1 { self.codes[0] } else { pick(self.codes) }, &self.value())).collect();
            r.push(fld(b"012A", o, subs));
        }
        r
    }
    fn value(&self) -> Vec<u8> {
        let (a, b) = self.vl;
        let n = if a < b { a + choose(b - a + 1) } else { a };
        (0..n).map(|_| if self.val.is_empty() { vbyte(self.ascii) } else { pick(self.val) }).collect()
    }
    pub fn line(&self) -> Line {
        let r = self.rec();
        Line { b: refm::put(&r), rec: Some(r) }
    }
    /// lines; each may be something that is not a record
    pub fn lines(&self, k: usize, mix: bool) -> Vec<Line> {
        let c = if self.codes.len() == 1 { self.codes[0] } else { b'a' };
        let many = if self.bulk == 3 { MANY } else { 0 };
        (0..many).map(|i| {
            let r = vec![fld(b"003@", None, vec![sub(b'0', &nth(i))]), fld(b"012A", None, vec![sub(c, &nth(i))])];
            Line { b: refm::put(&r), rec: Some(r) }
        }).chain((0..k).map(|_| if mix && choose(2) == 1 { bad() } else { self.line() })).collect()
    }
}
/// values of which most differ
fn nth(i: usize) -> Vec<u8> {
    format!("w{}", i % 280).into_bytes()
}
/// a line that is not a record
pub fn bad() -> Line {
    let b: Vec<u8> = match choose(3) {
        0 => b"\n".to_vec(),
        1 => { let c = byte(); assume(c != 10); vec![b'0', c, b'3', b'@', b' ', 0x1f, b'0', b'1', b'\n'] }
        _ => b"003@ \x1f01\x1e012A\x1e\n".to_vec(),
    };
    Line { b, rec: None }
}
pub fn cat(l: &[Line]) -> Vec<u8> {
    l.iter().flat_map(|x| x.b.clone()).collect()
}
pub fn recs(l: &[Line]) -> Vec<&Rec> {
    l.iter().filter_map(|x| x.rec.as_ref()).collect()
}
pub fn any_bad(l: &[Line]) -> bool {
    l.iter().any(|x| x.rec.is_none())
}
/// runs the tool; exit code and what it wrote to standard output
pub fn run(args: &[&str]) -> (u8, Vec<u8>) {
    let n = file_get("<stdout>").map_or(0, |b| b.len());
    let rc = pica(args);
    let o = file_get("<stdout>").unwrap_or_default()[n..].to_vec();
    note(&[rc]);
    note(&o);
    (rc, o)
}
/// a file that was written
pub fn got(name: &str) -> Vec<u8> {
    let o = file_get(name).unwrap_or_default();
    note(&o);
    o
}
pub fn none(f: &Fld) -> bool {
    match &f.occ { None => true, Some(o) => o == b"00" }
}
pub fn ppn(r: &Rec) -> Option<&[u8]> {
    r.iter().find(|f| f.tag == b"003@").map(|f| &f.subs[0].value[..])
}
/// the values of a subfield in fields 012A
pub fn vals(r: &Rec, any_occ: bool, c: u8) -> Vec<&[u8]> {
    r.iter().filter(|f| f.tag == b"012A" && (any_occ || none(f))).flat_map(|f| f.subs.iter()).filter(|s| s.code == c).map(|s| &s.value[..]).collect()
}
pub fn has(r: &Rec, any_occ: bool, c: u8, v: &[u8]) -> bool {
    let mut x = false;
    for f in r {
        if f.tag != b"012A" || !(any_occ || none(f)) { continue }
        for s in &f.subs { x |= (s.code == c) & (s.value == v) }
    }
    x
}
pub fn hasc(r: &Rec, any_occ: bool, c: u8) -> bool {
    let mut x = false;
    for f in r {
        if f.tag != b"012A" || !(any_occ || none(f)) { continue }
        for s in &f.subs { x |= s.code == c }
    }
    x
}
/// filter expressions and what they mean
pub const EXPRS: [(&str, fn(&Rec) -> bool); 5] = [
    ("012A.a == 'x'", |r| has(r, false, b'a', b"x")),
    ("003@.0 in ['1', '3']", |r| { let mut x = false; if let Some(p) = ppn(r) { x |= (p == b"1") | (p == b"3") } x }),
    ("!012A/*.b? || #012A/* >= 2", |r| !hasc(r, true, b'b') | (r.iter().filter(|f| f.tag == b"012A").count() >= 2)),
    ("012A/01{a? && b?}", |r| { let mut x = false; for f in r { if f.tag == b"012A" && f.occ.is_some() { let (mut a, mut b) = (false, false); for s in &f.subs { a |= s.code == b'a'; b |= s.code == b'b' } x |= a & b } } x }),
    ("003@?", |r| ppn(r).is_some()),
];

unsafe extern "C" { static mut foldhash_value: u64; }
/// the order in which hash tables are iterated: one of two
pub fn order(k: usize) {
    unsafe { foldhash_value = if k == 1 { !0 } else { 0 } }
}
