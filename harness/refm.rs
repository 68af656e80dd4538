//! Reference model of the record format, written from the format's
//! definition and sharing no code with the implementation.
#![allow(dead_code)]
#[derive(Clone, Debug, PartialEq)]
pub struct Sub {
    pub code: u8,
    pub value: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fld {
    pub tag: Vec<u8>,
    pub occ: Option<Vec<u8>>,
    pub subs: Vec<Sub>,
}
impl Fld {
    pub fn put(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.tag);
        if let Some(x) = &self.occ {
            o.push(b'/');
            o.extend_from_slice(x);
        }
        o.push(b' ');
        for s in &self.subs {
            o.push(0x1f);
            o.push(s.code);
            o.extend_from_slice(&s.value);
        }
        o.push(0x1e);
    }
    /// the values of the subfields with this code
    pub fn vals(&self, code: u8) -> Vec<&[u8]> {
        self.subs.iter().filter(|s| s.code == code).map(|s| &s.value[..]).collect()
    }
}
pub type Rec = Vec<Fld>;
pub fn put(r: &[Fld]) -> Vec<u8> {
    let mut o = vec![];
    for f in r {
        f.put(&mut o);
    }
    o.push(b'\n');
    o
}
pub fn dig(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}
pub fn up(c: u8) -> bool {
    c >= b'A' && c <= b'Z'
}
pub fn code(c: u8) -> bool {
    dig(c) | up(c) | ((c >= b'a') & (c <= b'z'))
}
/// the length of a tag at the start
pub fn tag(b: &[u8]) -> bool {
    b.len() >= 4 && ((b[0] >= b'0') & (b[0] <= b'2')) && dig(b[1]) && dig(b[2]) && (up(b[3]) | (b[3] == b'@'))
}
/// a field, from position `i`; the position after it
pub fn field(b: &[u8], mut i: usize) -> Option<(Fld, usize)> {
    if !tag(&b[i..]) {
        return None;
    }
    let t = b[i..i + 4].to_vec();
    i += 4;
    let mut occ = None;
    if i < b.len() && b[i] == b'/' {
        let s = i + 1;
        i = s;
        while i < b.len() && i < s + 3 && dig(b[i]) {
            i += 1;
        }
        if i - s < 2 {
            return None;
        }
        occ = Some(b[s..i].to_vec());
    }
    if i >= b.len() || b[i] != b' ' {
        return None;
    }
    i += 1;
    let mut subs = vec![];
    loop {
        if i >= b.len() {
            return None;
        }
        if b[i] == 0x1e {
            return Some((Fld { tag: t, occ, subs }, i + 1));
        }
        if b[i] != 0x1f || i + 1 >= b.len() || !code(b[i + 1]) {
            return None;
        }
        let c = b[i + 1];
        let s = i + 2;
        i = s;
        while i < b.len() && (b[i] != 0x1e) & (b[i] != 0x1f) {
            i += 1;
        }
        subs.push(Sub { code: c, value: b[s..i].to_vec() });
    }
}
pub fn record(b: &[u8]) -> Option<Rec> {
    let mut i = 0;
    let mut fs = vec![];
    while i < b.len() && (b[i] != b'\n' || fs.is_empty()) {
        let (f, j) = field(b, i)?;
        fs.push(f);
        i = j;
    }
    if fs.is_empty() || i + 1 != b.len() {
        return None;
    }
    Some(fs)
}
/// valid UTF-8 (by its definition: RFC 3629)
pub fn utf8(b: &[u8]) -> bool {
    let n = b.len();
    let mut i = 0;
    let cont = |i: usize, lo: u8, hi: u8| i < n && (b[i] >= lo) & (b[i] <= hi);
    while i < n {
        let c = b[i];
        if c < 0x80 {
            i += 1
        } else if (c >= 0xc2) & (c <= 0xdf) {
            if !cont(i + 1, 0x80, 0xbf) {
                return false;
            }
            i += 2
        } else if (c >= 0xe0) & (c <= 0xef) {
            let lo = if c == 0xe0 { 0xa0 } else { 0x80 };
            let hi = if c == 0xed { 0x9f } else { 0xbf };
            if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xbf) {
                return false;
            }
            i += 3
        } else if (c >= 0xf0) & (c <= 0xf4) {
            let lo = if c == 0xf0 { 0x90 } else { 0x80 };
            let hi = if c == 0xf4 { 0x8f } else { 0xbf };
            if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xbf) || !cont(i + 3, 0x80, 0xbf) {
                return false;
            }
            i += 4
        } else {
            return false;
        }
    }
    true
}
pub fn rec_utf8(r: &[Fld]) -> bool {
    r.iter().all(|f| f.subs.iter().all(|s| utf8(&s.value)))
}
/// the lines of a stream, each with its newline (the last may lack it)
pub fn lines(b: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut s = 0;
    for i in 0..b.len() {
        if b[i] == b'\n' {
            v.push(&b[s..i + 1]);
            s = i + 1;
        }
    }
    if s < b.len() {
        v.push(&b[s..]);
    }
    v
}
pub fn sub(code: u8, value: &[u8]) -> Sub {
    Sub { code, value: value.to_vec() }
}
pub fn fld(tag: &[u8], occ: Option<&[u8]>, subs: Vec<Sub>) -> Fld {
    Fld { tag: tag.to_vec(), occ: occ.map(|o| o.to_vec()), subs }
}
/// ASCII lower case
pub fn lower(b: &[u8]) -> Vec<u8> {
    b.iter().map(|c| if up(*c) { c + 32 } else { *c }).collect()
}
pub fn contains(h: &[u8], n: &[u8]) -> bool {
    let mut r = false;
    for i in 0..h.len() + 1 {
        if i + n.len() <= h.len() {
            r |= h[i..i + n.len()] == *n;
        }
    }
    r
}
pub const CODES: &[u8] = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

/// a character class of a pattern at the start of `b`: its ranges and the
/// length; all bounds must come from the set `is`
pub fn class(b: &[u8], is: &dyn Fn(u8) -> bool, any: u8) -> Option<(Vec<(u8, u8)>, usize)> {
    if b.is_empty() {
        return None;
    }
    if b[0] == any {
        return Some((vec![(0, 255)], 1));
    }
    if b[0] != b'[' {
        return if is(b[0]) { Some((vec![(b[0], b[0])], 1)) } else { None };
    }
    let mut i = 1;
    let mut v = vec![];
    loop {
        if i >= b.len() {
            return None;
        }
        if b[i] == b']' {
            return if v.is_empty() { None } else { Some((v, i + 1)) };
        }
        if !is(b[i]) {
            return None;
        }
        if i + 2 < b.len() && b[i + 1] == b'-' && is(b[i + 2]) && b[i] < b[i + 2] {
            v.push((b[i], b[i + 2]));
            i += 3;
        } else {
            v.push((b[i], b[i]));
            i += 1;
        }
    }
}
pub fn in_class(v: &[(u8, u8)], c: u8) -> bool {
    let mut r = false;
    for (a, b) in v {
        r |= (c >= *a) & (c <= *b);
    }
    r
}
