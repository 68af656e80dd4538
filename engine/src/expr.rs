//! Hash-consed bit-vector expression DAG with a local simplifier.
use std::cell::RefCell;
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

/// Support set: up to 512 symbolic bytes.
pub const NV: usize = 512;
pub type Sup = [u64; NV / 64];

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    tab: HashMap<Node, E, Fx>,
    /// index of the support set
    pub sup: Vec<u32>,
    pub sups: Vec<Sup>,
    suptab: HashMap<Sup, u32, Fx>,
    supor: HashMap<(u32, u32), u32, Fx>,
    /// number of vars in the support sets; 2 = many
    pub supn: Vec<u8>,
    pub sup1: Vec<u16>,
    // evaluation memo
    ev: Vec<u128>,
    evs: Vec<u32>,
    stamp: u32,
    cur_model: u64,
    tt: HashMap<E, [u64; 4], Fx>,
    u_val: Vec<u128>,
    u_st: Vec<u32>,
    u_stamp: u32,
}

#[derive(Clone, Copy, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
}

thread_local! {
    pub static A: RefCell<Arena> = RefCell::new(Arena::new());
}

pub fn ar<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    A.with(|a| f(&mut a.borrow_mut()))
}

pub fn eval_op(op: Op, w: u16, aw: u16, x: u128, y: u128, k: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                (if a < 0 { 1 } else { m }) & m
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            ((sext(x, w) >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, aw) < sext(y, aw)) as u128,
        Op::Sle => (sext(x, aw) <= sext(y, aw)) as u128,
        Op::Extract => (x >> k) & m,
        Op::ZExt => x,
        Op::SExt => (sext(x, aw) as u128) & m,
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            tab: HashMap::default(),
            sup: vec![],
            sups: vec![],
            suptab: HashMap::default(),
            supor: HashMap::default(),
            supn: vec![],
            sup1: vec![],
            ev: vec![],
            evs: vec![],
            stamp: 0,
            cur_model: !0,
            tt: HashMap::default(),
            u_val: vec![],
            u_st: vec![],
            u_stamp: 0,
        };
        a.intern_sup([0; NV / 64]);
        // id 0 is reserved ("no expression")
        a.raw(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        a
    }
    fn intern_sup(&mut self, s: Sup) -> u32 {
        if let Some(&i) = self.suptab.get(&s) {
            return i;
        }
        let i = self.sups.len() as u32;
        self.sups.push(s);
        let n: u32 = s.iter().map(|x| x.count_ones()).sum();
        self.supn.push(n.min(2) as u8);
        let mut f = 0u16;
        for (j, x) in s.iter().enumerate() {
            if *x != 0 {
                f = (j * 64) as u16 + x.trailing_zeros() as u16;
                break;
            }
        }
        self.sup1.push(f);
        self.suptab.insert(s, i);
        i
    }
    fn sup_or(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.supor.get(&key) {
            return r;
        }
        let mut s = self.sups[a as usize];
        for (x, y) in s.iter_mut().zip(self.sups[b as usize].iter()) {
            *x |= *y;
        }
        let r = self.intern_sup(s);
        self.supor.insert(key, r);
        r
    }
    fn raw(&mut self, n: Node) -> E {
        if let Some(&e) = self.tab.get(&n) {
            return e;
        }
        let id = self.nodes.len() as E;
        let s = match n.op {
            Op::Const => 0,
            Op::Var => {
                let mut s = [0u64; NV / 64];
                let i = n.k as usize;
                s[i / 64] |= 1 << (i % 64);
                self.intern_sup(s)
            }
            Op::Ite => {
                let x = self.sup_or(self.sup[n.a as usize], self.sup[n.b as usize]);
                self.sup_or(x, self.sup[n.c as usize])
            }
            Op::Extract | Op::ZExt | Op::SExt => self.sup[n.a as usize],
            _ => self.sup_or(self.sup[n.a as usize], self.sup[n.b as usize]),
        };
        self.nodes.push(n);
        self.sup.push(s);
        self.ev.push(0);
        self.evs.push(0);
        self.u_val.push(0);
        self.u_st.push(0);
        self.tab.insert(n, id);
        id
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn supset(&self, e: E) -> Sup {
        self.sups[self.sup[e as usize] as usize]
    }
    /// Some(var) if the expression depends on exactly one symbolic byte
    #[inline]
    pub fn unary(&self, e: E) -> Option<u16> {
        let s = self.sup[e as usize] as usize;
        if self.supn[s] == 1 {
            Some(self.sup1[s])
        } else {
            None
        }
    }
    pub fn k(&mut self, v: u128, w: u16) -> E {
        self.raw(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn var(&mut self, i: usize) -> E {
        assert!(i < NV, "too many symbolic bytes");
        self.raw(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    #[inline]
    pub fn cst(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn not1(&mut self, e: E) -> E {
        debug_assert_eq!(self.w(e), 1);
        let n = self.n(e);
        match n.op {
            Op::Const => self.k(n.k ^ 1, 1),
            Op::Ult => self.bin(Op::Ule, n.b, n.a),
            Op::Ule => self.bin(Op::Ult, n.b, n.a),
            Op::Slt => self.bin(Op::Sle, n.b, n.a),
            Op::Sle => self.bin(Op::Slt, n.b, n.a),
            Op::Xor => {
                if self.cst(n.b) == Some(1) {
                    return n.a;
                }
                let o = self.k(1, 1);
                self.raw(Node { op: Op::Xor, w: 1, a: e, b: o, c: 0, k: 0 })
            }
            Op::And => {
                let x = self.not1(n.a);
                let y = self.not1(n.b);
                self.raw2(Op::Or, 1, x, y)
            }
            Op::Or => {
                let x = self.not1(n.a);
                let y = self.not1(n.b);
                self.raw2(Op::And, 1, x, y)
            }
            _ => {
                let o = self.k(1, 1);
                self.raw(Node { op: Op::Xor, w: 1, a: e, b: o, c: 0, k: 0 })
            }
        }
    }
    fn raw2(&mut self, op: Op, w: u16, a: E, b: E) -> E {
        self.raw(Node { op, w, a, b, c: 0, k: 0 })
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), _) => return self.or1(c, b),
                (Some(0), _) => {
                    let n = self.not1(c);
                    return self.and1(n, b);
                }
                (_, Some(0)) => return self.and1(c, a),
                (_, Some(1)) => {
                    let n = self.not1(c);
                    return self.or1(n, a);
                }
                _ => {}
            }
        }
        let na = self.n(a);
        let nb = self.n(b);
        // ite(c, ite(c,x,_), y) = ite(c,x,y)
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            let cc = self.or1(c, nb.a);
            return self.ite(cc, a, nb.c);
        }
        self.raw(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w + nl.w;
        debug_assert!(w <= 128);
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.k((nh.k << nl.w) | nl.k, w);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(lo, w);
        }
        // merge adjacent extracts
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return self.extract(nh.a, nl.k as u16, w);
        }
        // reassociate to the right: concat(concat(a,b),c) => concat(a, concat(b,c))
        if nh.op == Op::Concat {
            let x = self.concat(nh.b, lo);
            return self.concat(nh.a, x);
        }
        if nh.op == Op::ZExt {
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        // merge constants / extracts at the seam
        if nl.op == Op::Concat {
            let m = self.n(nl.a);
            if nh.op == Op::Const && m.op == Op::Const {
                let x = self.concat(hi, nl.a);
                return self.concat(x, nl.b);
            }
            if nh.op == Op::Extract && m.op == Op::Extract && nh.a == m.a && nh.k == m.k + m.w as u128 {
                let x = self.extract(nh.a, m.k as u16, nh.w + m.w);
                return self.concat(x, nl.b);
            }
        }
        self.raw2(Op::Concat, w, hi, lo)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        debug_assert!(n.w < w);
        match n.op {
            Op::Const => self.k(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.raw(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => {
                let v = sext(n.k, n.w) as u128;
                self.k(v, w)
            }
            Op::ZExt => self.zext(n.a, w),
            Op::SExt => self.sext(n.a, w),
            _ => {
                if n.w == 1 {
                    let x = self.k(!0, w);
                    let y = self.k(0, w);
                    return self.ite(a, x, y);
                }
                self.raw(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
            }
        }
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n(a);
        if lo == 0 && n.w == w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => self.k(n.k >> lo, w),
            Op::Extract => self.extract(n.a, lo + n.k as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else {
                    let x = self.extract(n.b, lo, lw - lo);
                    let y = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(y, x)
                }
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.k(0, w)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.zext(x, w)
                }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else {
                    self.raw(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                self.ite(n.a, x, y)
            }
            _ => self.raw(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 }),
        }
    }
    /// split at a bit position if the node has structure there
    fn seam(&self, e: E) -> Option<u16> {
        let n = self.n(e);
        match n.op {
            Op::Concat => Some(self.w(n.b)),
            Op::ZExt => Some(self.w(n.a)),
            _ => None,
        }
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let aw = na.w;
        debug_assert_eq!(na.w, nb.w, "{:?} {:?} {:?}", op, na, nb);
        let w = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => aw,
        };
        if na.op == Op::Const && nb.op == Op::Const {
            let v = eval_op(op, w, aw, na.k, nb.k, 0);
            return self.k(v, w);
        }
        // commutative: constant to the right
        let (a, b, na, nb) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq if na.op == Op::Const => (b, a, nb, na),
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq if nb.op != Op::Const && a > b => (b, a, nb, na),
            _ => (a, b, na, nb),
        };
        let m = mask(aw);
        let kb = if nb.op == Op::Const { Some(nb.k) } else { None };
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let (Op::Add, Some(k)) = (na.op, kb) {
                    if let Some(k2) = self.cst(na.b) {
                        let c = self.k(k.wrapping_add(k2), aw);
                        return self.bin(Op::Add, na.a, c);
                    }
                }
                if let (Op::Ite, Some(_)) = (na.op, kb) {
                    if self.cst(na.b).is_some() || self.cst(na.c).is_some() {
                        let x = self.bin(Op::Add, na.b, b);
                        let y = self.bin(Op::Add, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if aw == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Sub => {
                if let Some(k) = kb {
                    let c = self.k(k.wrapping_neg(), aw);
                    return self.bin(Op::Add, a, c);
                }
                if a == b {
                    return self.k(0, aw);
                }
                // (x + k) - x
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
            }
            Op::Mul => {
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.k(k.trailing_zeros() as u128, aw);
                        return self.bin(Op::Shl, a, s);
                    }
                    if na.op == Op::Ite && (self.cst(na.b).is_some() && self.cst(na.c).is_some()) {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
            }
            Op::UDiv => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.k(k.trailing_zeros() as u128, aw);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.k(k - 1, aw);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if a == b {
                    return if op == Op::Xor { self.k(0, aw) } else { a };
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return if op == Op::And { b } else { a };
                    }
                    if k == m {
                        match op {
                            Op::And => return a,
                            Op::Or => return b,
                            _ => {
                                if aw == 1 {
                                    return self.not1(a);
                                }
                            }
                        }
                    }
                    if na.op == op {
                        if let Some(k2) = self.cst(na.b) {
                            let v = eval_op(op, aw, aw, k, k2, 0);
                            let c = self.k(v, aw);
                            return self.bin(op, na.a, c);
                        }
                    }
                    if na.op == Op::Ite && self.cst(na.b).is_some() && self.cst(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                    if op == Op::And {
                        // leading zeros: zext(and(extract))
                        let hb = 128 - k.leading_zeros() as u16;
                        let tz = k.trailing_zeros() as u16;
                        if hb < aw || tz > 0 {
                            let x = self.extract(a, tz, hb - tz);
                            let kk = self.k(k >> tz, hb - tz);
                            let x = self.bin(Op::And, x, kk);
                            let x = if tz > 0 {
                                let z = self.k(0, tz);
                                self.concat(x, z)
                            } else {
                                x
                            };
                            return self.zext(x, aw);
                        }
                    }
                }
                if aw == 1 {
                    // complement
                    let nota = self.not1(a);
                    if nota == b {
                        return match op {
                            Op::And => self.k(0, 1),
                            _ => self.k(1, 1),
                        };
                    }
                    if op == Op::And && nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if op == Op::And && na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if op == Op::Or && nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if op == Op::Or && na.op == Op::Or && (na.a == b || na.b == b) {
                        return a;
                    }
                }
                // piecewise on concatenations
                if let Some(s) = self.seam(a).or(self.seam(b)) {
                    let both = self.seam(a).is_some() && self.seam(b).is_some();
                    if both || kb.is_some() {
                        let ah = self.extract(a, s, aw - s);
                        let al = self.extract(a, 0, s);
                        let bh = self.extract(b, s, aw - s);
                        let bl = self.extract(b, 0, s);
                        let h = self.bin(op, ah, bh);
                        let l = self.bin(op, al, bl);
                        return self.concat(h, l);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= aw as u128 {
                        return self.k(0, aw);
                    }
                    let k = k as u16;
                    let x = self.extract(a, 0, aw - k);
                    let z = self.k(0, k);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= aw as u128 {
                        return self.k(0, aw);
                    }
                    let k = k as u16;
                    let x = self.extract(a, k, aw - k);
                    return self.zext(x, aw);
                }
            }
            Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = (k.min(aw as u128 - 1)) as u16;
                    let x = self.extract(a, k, aw - k);
                    return self.sext(x, aw);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.k(1, 1);
                }
                if aw == 1 {
                    return match kb {
                        Some(0) => self.not1(a),
                        Some(_) => a,
                        None => {
                            let x = self.bin(Op::Xor, a, b);
                            self.not1(x)
                        }
                    };
                }
                if let Some(k) = kb {
                    match na.op {
                        Op::Add => {
                            if let Some(k2) = self.cst(na.b) {
                                let c = self.k(k.wrapping_sub(k2), aw);
                                return self.eq(na.a, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.cst(na.b) {
                                let c = self.k(k ^ k2, aw);
                                return self.eq(na.a, c);
                            }
                            if k == 0 {
                                return self.eq(na.a, na.b);
                            }
                        }
                        Op::Or if k == 0 => {
                            let x = self.eq(na.a, b);
                            let y = self.eq(na.b, b);
                            return self.and1(x, y);
                        }
                        Op::Ite => {
                            let (x, y) = (self.cst(na.b), self.cst(na.c));
                            if x.is_some() || y.is_some() {
                                let p = self.eq(na.b, b);
                                let q = self.eq(na.c, b);
                                return self.ite(na.a, p, q);
                            }
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let lowk = k & mask(iw);
                            if (sext(lowk, iw) as u128) & m != k {
                                return self.k(0, 1);
                            }
                            let c = self.k(lowk, iw);
                            return self.eq(na.a, c);
                        }
                        _ => {}
                    }
                }
                if let Some(s) = self.seam(a).or(self.seam(b)) {
                    let ah = self.extract(a, s, aw - s);
                    let bh = self.extract(b, s, aw - s);
                    let h = self.eq(ah, bh);
                    if self.cst(h) == Some(0) {
                        return h;
                    }
                    let al = self.extract(a, 0, s);
                    let bl = self.extract(b, 0, s);
                    let l = self.eq(al, bl);
                    return self.and1(h, l);
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.k((op == Op::Ule) as u128, 1);
                }
                let ka = if na.op == Op::Const { Some(na.k) } else { None };
                if op == Op::Ult {
                    if kb == Some(0) || ka == Some(m) {
                        return self.k(0, 1);
                    }
                    if kb == Some(1) {
                        let z = self.k(0, aw);
                        return self.eq(a, z);
                    }
                    if ka == Some(0) {
                        let x = self.eq(b, a);
                        return self.not1(x);
                    }
                } else {
                    if kb == Some(m) || ka == Some(0) {
                        return self.k(1, 1);
                    }
                    if kb == Some(0) {
                        return self.eq(a, b);
                    }
                }
                // strip common zero extension
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if let Some(k) = kb {
                        if k > mask(iw) {
                            return self.k(1, 1);
                        }
                        let c = self.k(k, iw);
                        return self.bin(op, na.a, c);
                    }
                    if nb.op == Op::ZExt && self.w(nb.a) == iw {
                        return self.bin(op, na.a, nb.a);
                    }
                }
                if nb.op == Op::ZExt {
                    if let Some(k) = ka {
                        let iw = self.w(nb.a);
                        if k > mask(iw) {
                            return self.k(0, 1);
                        }
                        let c = self.k(k, iw);
                        return self.bin(op, c, nb.a);
                    }
                }
                if na.op == Op::Ite && kb.is_some() && self.cst(na.b).is_some() && self.cst(na.c).is_some() {
                    let x = self.bin(op, na.b, b);
                    let y = self.bin(op, na.c, b);
                    return self.ite(na.a, x, y);
                }
                if nb.op == Op::Ite && ka.is_some() && self.cst(nb.b).is_some() && self.cst(nb.c).is_some() {
                    let x = self.bin(op, a, nb.b);
                    let y = self.bin(op, a, nb.c);
                    return self.ite(nb.a, x, y);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.k((op == Op::Sle) as u128, 1);
                }
                let uop = if op == Op::Slt { Op::Ult } else { Op::Ule };
                let nonneg = |s: &Self, n: &Node| match n.op {
                    Op::Const => n.k >> (n.w - 1) == 0,
                    Op::ZExt => true,
                    Op::Ite => {
                        s.cst(n.b).map_or(false, |k| k >> (n.w - 1) == 0)
                            && s.cst(n.c).map_or(false, |k| k >> (n.w - 1) == 0)
                    }
                    _ => false,
                };
                if nonneg(self, &na) && nonneg(self, &nb) {
                    return self.bin(uop, a, b);
                }
                // sign test
                if op == Op::Slt && kb == Some(0) {
                    let x = self.extract(a, aw - 1, 1);
                    return x;
                }
                if op == Op::Slt && na.op == Op::Const && na.k == m {
                    let x = self.extract(b, aw - 1, 1);
                    return self.not1(x);
                }
                if op == Op::Sle && na.op == Op::Const && na.k == 0 {
                    let x = self.extract(b, aw - 1, 1);
                    return self.not1(x);
                }
                if op == Op::Sle && kb == Some(m) {
                    return self.extract(a, aw - 1, 1);
                }
                if na.op == Op::Ite && kb.is_some() && (self.cst(na.b).is_some() || self.cst(na.c).is_some()) {
                    let x = self.bin(op, na.b, b);
                    let y = self.bin(op, na.c, b);
                    return self.ite(na.a, x, y);
                }
                if nb.op == Op::Ite && na.op == Op::Const && (self.cst(nb.b).is_some() || self.cst(nb.c).is_some()) {
                    let x = self.bin(op, a, nb.b);
                    let y = self.bin(op, a, nb.c);
                    return self.ite(nb.a, x, y);
                }
            }
            _ => {}
        }
        self.raw2(op, w, a, b)
    }

    // ---- evaluation -----------------------------------------------------
    pub fn eval(&mut self, e: E, model_id: u64, model: &[u8]) -> u128 {
        if model_id != self.cur_model {
            self.cur_model = model_id;
            self.stamp += 1;
        }
        self.ev_rec(e, model)
    }
    /// evaluation under a throw-away model
    pub fn eval_tmp(&mut self, e: E, model: &[u8]) -> u128 {
        self.cur_model = !0;
        self.stamp += 1;
        self.ev_rec(e, model)
    }
    /// further evaluation under the model of the last eval_tmp
    pub fn eval_again(&mut self, e: E, model: &[u8]) -> u128 {
        self.ev_rec(e, model)
    }
    fn ev_rec(&mut self, e: E, model: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if self.evs[e as usize] == self.stamp {
            return self.ev[e as usize];
        }
        let v = match n.op {
            Op::Ite => {
                if self.ev_rec(n.a, model) == 1 {
                    self.ev_rec(n.b, model)
                } else {
                    self.ev_rec(n.c, model)
                }
            }
            Op::Concat => {
                let h = self.ev_rec(n.a, model);
                let l = self.ev_rec(n.b, model);
                (h << self.w(n.b)) | l
            }
            Op::Extract | Op::ZExt | Op::SExt => {
                let x = self.ev_rec(n.a, model);
                eval_op(n.op, n.w, self.w(n.a), x, 0, n.k)
            }
            _ => {
                let x = self.ev_rec(n.a, model);
                let y = self.ev_rec(n.b, model);
                eval_op(n.op, n.w, self.w(n.a), x, y, 0)
            }
        };
        self.ev[e as usize] = v;
        self.evs[e as usize] = self.stamp;
        v
    }
    fn uev(&mut self, e: E, x: u128) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return x,
            _ => {}
        }
        if self.u_st[e as usize] == self.u_stamp {
            return self.u_val[e as usize];
        }
        let v = match n.op {
            Op::Ite => {
                if self.uev(n.a, x) == 1 {
                    self.uev(n.b, x)
                } else {
                    self.uev(n.c, x)
                }
            }
            Op::Concat => {
                let h = self.uev(n.a, x);
                let l = self.uev(n.b, x);
                (h << self.w(n.b)) | l
            }
            Op::Extract | Op::ZExt | Op::SExt => {
                let p = self.uev(n.a, x);
                eval_op(n.op, n.w, self.w(n.a), p, 0, n.k)
            }
            _ => {
                let p = self.uev(n.a, x);
                let q = self.uev(n.b, x);
                eval_op(n.op, n.w, self.w(n.a), p, q, 0)
            }
        };
        self.u_val[e as usize] = v;
        self.u_st[e as usize] = self.u_stamp;
        v
    }
    /// evaluate a unary expression with its only variable = x
    pub fn eval_unary(&mut self, e: E, x: u8) -> u128 {
        self.u_stamp += 1;
        self.uev(e, x as u128)
    }
    /// the set of byte values that satisfy a unary boolean expression
    pub fn truth(&mut self, e: E) -> [u64; 4] {
        if let Some(t) = self.tt.get(&e) {
            return *t;
        }
        let mut t = [0u64; 4];
        for x in 0..256usize {
            if self.eval_unary(e, x as u8) == 1 {
                t[x / 64] |= 1 << (x % 64);
            }
        }
        self.tt.insert(e, t);
        t
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        if depth == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("b{}", n.k),
            Op::Ite => format!(
                "(ite {} {} {})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
            Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a, depth - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
