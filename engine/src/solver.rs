//! Path-condition solver: byte domains for one-variable constraints (a complete
//! decision procedure for them), z3 (QF_BV) for everything else.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[allow(dead_code)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, d: *mut c_uint, e: *mut c_uint);
}

extern "C" fn z3err(_c: P, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::abort();
}

pub fn z3_version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{}.{}.{}", a, b, c)
}

pub type Dom = [u64; 4];
pub const FULL: Dom = [!0; 4];
fn dand(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn dempty(a: &Dom) -> bool {
    a.iter().all(|x| *x == 0)
}
pub fn dcount(a: &Dom) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn dhas(a: &Dom, x: u8) -> bool {
    a[x as usize / 64] >> (x % 64) & 1 == 1
}
fn dfirst(a: &Dom) -> u8 {
    // prefer printable values: nicer counterexamples
    for x in (b'0'..=b'9').chain(b'A'..=b'Z').chain(b'a'..=b'z').chain(0x20..=0x7e) {
        if dhas(a, x) {
            return x;
        }
    }
    for i in 0..4 {
        if a[i] != 0 {
            return (i * 64) as u8 + a[i].trailing_zeros() as u8;
        }
    }
    0
}

#[derive(Clone)]
pub struct Cons {
    pub dom: Rc<Vec<Dom>>,
    pub multi: Rc<Vec<E>>,
    pub model: Rc<Vec<u8>>,
    pub mid: u64,
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct Key {
    es: Vec<E>,
    doms: Vec<(u16, Dom)>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub q_model: u64,
    pub q_dom: u64,
    pub q_probe: u64,
    pub q_cache: u64,
    pub q_z3: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_secs: f64,
    pub z3_max: f64,
    pub unknown: u64,
    pub xcheck: u64,
}

pub struct Solver {
    ctx: P,
    s: P,
    memo: Vec<P>,
    bmemo: Vec<P>,
    sorts: HashMap<u16, P>,
    cache: HashMap<Key, Option<Vec<(u16, u8)>>, Fx>,
    pub st: Stats,
    next_mid: u64,
    /// cross-check every decision of the byte-domain procedure with z3
    pub xcheck: bool,
    pub verbose: bool,
}

pub enum Sat {
    Yes(Rc<Vec<u8>>, u64),
    No,
    Unknown,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(z3err));
            let s = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let ts = CString::new("rlimit").unwrap();
            let _ = timeout_ms;
            // deterministic resource limit instead of a timer thread
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, ts.as_ptr()), 2_000_000_000);
            Z3_solver_set_params(ctx, s, p);
            Solver {
                ctx,
                s,
                memo: vec![],
                bmemo: vec![],
                sorts: HashMap::new(),
                cache: HashMap::default(),
                st: Stats::default(),
                next_mid: 1,
                xcheck: false,
                verbose: false,
            }
        }
    }
    fn sort(&mut self, w: u16) -> P {
        let ctx = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(ctx, w as c_uint) })
    }
    fn tb(&mut self, e: E) -> P {
        if self.bmemo.len() <= e as usize {
            self.bmemo.resize(e as usize + 64, std::ptr::null_mut());
        }
        if !self.bmemo[e as usize].is_null() {
            return self.bmemo[e as usize];
        }
        let n = ar(|a| a.n(e));
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq => {
                    if ar(|a| a.w(n.a)) == 1 {
                        let (x, y) = (self.tb(n.a), self.tb(n.b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.tv(n.a), self.tv(n.b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Op::Ult => {
                    let (x, y) = (self.tv(n.a), self.tv(n.b));
                    Z3_mk_bvult(c, x, y)
                }
                Op::Ule => {
                    let (x, y) = (self.tv(n.a), self.tv(n.b));
                    Z3_mk_bvule(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.tv(n.a), self.tv(n.b));
                    Z3_mk_bvslt(c, x, y)
                }
                Op::Sle => {
                    let (x, y) = (self.tv(n.a), self.tv(n.b));
                    Z3_mk_bvsle(c, x, y)
                }
                Op::And => {
                    let v = [self.tb(n.a), self.tb(n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.tb(n.a), self.tb(n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    let (x, y) = (self.tb(n.a), self.tb(n.b));
                    Z3_mk_xor(c, x, y)
                }
                Op::Ite => {
                    let (x, y, z) = (self.tb(n.a), self.tb(n.b), self.tb(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.tv(e);
                    let s1 = self.sort(1);
                    let one = Z3_mk_unsigned_int64(c, 1, s1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bmemo[e as usize] = r;
        r
    }
    fn tv(&mut self, e: E) -> P {
        if self.memo.len() <= e as usize {
            self.memo.resize(e as usize + 64, std::ptr::null_mut());
        }
        if !self.memo[e as usize].is_null() {
            return self.memo[e as usize];
        }
        let n = ar(|a| a.n(e));
        let c = self.ctx;
        let r = unsafe {
            macro_rules! b {
                ($f:ident) => {{
                    let (x, y) = (self.tv(n.a), self.tv(n.b));
                    $f(c, x, y)
                }};
            }
            match n.op {
                Op::Const => {
                    let s = self.sort(n.w);
                    if n.w <= 64 {
                        Z3_mk_unsigned_int64(c, n.k as u64, s)
                    } else {
                        let t = CString::new(format!("{}", n.k)).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                Op::Var => {
                    let s = self.sort(8);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), s)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let x = self.tb(e);
                    let s = self.sort(1);
                    Z3_mk_ite(c, x, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                Op::Add => b!(Z3_mk_bvadd),
                Op::Sub => b!(Z3_mk_bvsub),
                Op::Mul => b!(Z3_mk_bvmul),
                Op::UDiv => b!(Z3_mk_bvudiv),
                Op::SDiv => b!(Z3_mk_bvsdiv),
                Op::URem => b!(Z3_mk_bvurem),
                Op::SRem => b!(Z3_mk_bvsrem),
                Op::And => b!(Z3_mk_bvand),
                Op::Or => b!(Z3_mk_bvor),
                Op::Xor => b!(Z3_mk_bvxor),
                Op::Shl => b!(Z3_mk_bvshl),
                Op::LShr => b!(Z3_mk_bvlshr),
                Op::AShr => b!(Z3_mk_bvashr),
                Op::Concat => b!(Z3_mk_concat),
                Op::Ite => {
                    let (x, y, z) = (self.tb(n.a), self.tv(n.b), self.tv(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Extract => {
                    let x = self.tv(n.a);
                    Z3_mk_extract(c, (n.k as c_uint) + n.w as c_uint - 1, n.k as c_uint, x)
                }
                Op::ZExt => {
                    let x = self.tv(n.a);
                    Z3_mk_zero_ext(c, (n.w - ar(|a| a.w(n.a))) as c_uint, x)
                }
                Op::SExt => {
                    let x = self.tv(n.a);
                    Z3_mk_sign_ext(c, (n.w - ar(|a| a.w(n.a))) as c_uint, x)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.memo[e as usize] = r;
        r
    }

    pub fn fresh(&self) -> Cons {
        Cons { dom: Rc::new(vec![]), multi: Rc::new(vec![]), model: Rc::new(vec![]), mid: 0 }
    }
    pub fn new_var(&mut self, c: &mut Cons) -> E {
        let i = c.model.len();
        Rc::make_mut(&mut c.dom).push(FULL);
        Rc::make_mut(&mut c.model).push(0);
        self.next_mid += 1;
        c.mid = self.next_mid;
        ar(|a| a.var(i))
    }
    fn flatten(e: E, out: &mut Vec<E>) {
        let n = ar(|a| a.n(e));
        if n.op == Op::And && n.w == 1 {
            Self::flatten(n.a, out);
            Self::flatten(n.b, out);
        } else {
            out.push(e);
        }
    }
    pub fn holds(&self, c: &Cons, e: E) -> bool {
        ar(|a| a.eval(e, c.mid, &c.model) == 1)
    }
    pub fn value(&self, c: &Cons, e: E) -> u128 {
        ar(|a| a.eval(e, c.mid, &c.model))
    }
    /// adds a constraint that the current model satisfies
    pub fn add(&mut self, c: &mut Cons, e: E) {
        let mut v = vec![];
        Self::flatten(e, &mut v);
        for x in v {
            if ar(|a| a.cst(x)).is_some() {
                continue;
            }
            match ar(|a| a.unary(x)) {
                Some(i) => {
                    let t = ar(|a| a.truth(x));
                    let d = &mut Rc::make_mut(&mut c.dom)[i as usize];
                    *d = dand(d, &t);
                }
                None => {
                    if !c.multi.contains(&x) {
                        Rc::make_mut(&mut c.multi).push(x)
                    }
                }
            }
        }
    }
    /// decided by domains alone: Some(true) = always true, Some(false) = always false
    pub fn quick(&mut self, c: &Cons, e: E) -> Option<bool> {
        if let Some(k) = ar(|a| a.cst(e)) {
            return Some(k == 1);
        }
        if let Some(i) = ar(|a| a.unary(e)) {
            let t = ar(|a| a.truth(e));
            let d = &c.dom[i as usize];
            let r = dand(d, &t);
            if dempty(&r) {
                return Some(false);
            }
            if r == *d {
                return Some(true);
            }
        }
        None
    }
    pub fn check(&mut self, c: &Cons, e: E) -> Sat {
        self.check_x(c, e, false)
    }
    /// force_z3: the negative verdict has to come from z3
    pub fn check_x(&mut self, c: &Cons, e: E, force_z3: bool) -> Sat {
        if self.holds(c, e) {
            self.st.q_model += 1;
            return Sat::Yes(c.model.clone(), c.mid);
        }
        let mut conj = vec![];
        Self::flatten(e, &mut conj);
        let mut tdom: Vec<(u16, Dom)> = vec![];
        let mut rest: Vec<E> = vec![];
        let mut dom_unsat = false;
        for &x in &conj {
            if let Some(k) = ar(|a| a.cst(x)) {
                if k == 0 {
                    return Sat::No;
                }
                continue;
            }
            match ar(|a| a.unary(x)) {
                Some(i) => {
                    let t = ar(|a| a.truth(x));
                    let pos = match tdom.iter().position(|y| y.0 == i) {
                        Some(p) => p,
                        None => {
                            tdom.push((i, c.dom[i as usize]));
                            tdom.len() - 1
                        }
                    };
                    tdom[pos].1 = dand(&tdom[pos].1, &t);
                    if dempty(&tdom[pos].1) {
                        dom_unsat = true;
                    }
                }
                None => rest.push(x),
            }
        }
        if dom_unsat && !force_z3 {
            self.st.q_dom += 1;
            if self.xcheck {
                self.xcheck_unsat(c, e);
            }
            return Sat::No;
        }
        // slice
        let mut sup = ar(|a| a.supset(e));
        let mut slice: Vec<E> = vec![];
        let mut used = vec![false; c.multi.len()];
        loop {
            let mut ch = false;
            for (i, &m) in c.multi.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = ar(|a| a.supset(m));
                if s.iter().zip(sup.iter()).any(|(x, y)| x & y != 0) {
                    used[i] = true;
                    ch = true;
                    slice.push(m);
                    for (x, y) in sup.iter_mut().zip(s.iter()) {
                        *x |= *y;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let set_model = |me: &mut Self, ch: &[(u16, u8)]| {
            let mut m = (*c.model).clone();
            for (i, v) in ch {
                m[*i as usize] = *v;
            }
            me.next_mid += 1;
            Sat::Yes(Rc::new(m), me.next_mid)
        };
        if !dom_unsat && rest.is_empty() && slice.is_empty() {
            self.st.q_dom += 1;
            let ch: Vec<(u16, u8)> = tdom
                .iter()
                .map(|(i, d)| {
                    let cur = c.model[*i as usize];
                    (*i, if dhas(d, cur) { cur } else { dfirst(d) })
                })
                .collect();
            return set_model(self, &ch);
        }
        let mut vars: Vec<u16> = vec![];
        for (j, x) in sup.iter().enumerate() {
            let mut x = *x;
            while x != 0 {
                vars.push((j * 64) as u16 + x.trailing_zeros() as u16);
                x &= x - 1;
            }
        }
        let mut es = slice.clone();
        es.extend(rest.iter().copied());
        es.sort_unstable();
        es.dedup();
        let doms: Vec<(u16, Dom)> = vars
            .iter()
            .map(|&i| (i, tdom.iter().find(|x| x.0 == i).map(|x| x.1).unwrap_or(c.dom[i as usize])))
            .filter(|x| x.1 != FULL)
            .collect();
        let key = Key { es, doms };
        if let Some(r) = self.cache.get(&key) {
            self.st.q_cache += 1;
            return match r.clone() {
                Some(ch) => set_model(self, &ch),
                None => Sat::No,
            };
        }
        // probing: vary one variable at a time
        if !dom_unsat {
            let mut m = (*c.model).clone();
            for (i, d) in &tdom {
                if !dhas(d, m[*i as usize]) {
                    m[*i as usize] = dfirst(d);
                }
            }
            let all: Vec<E> = key.es.clone();
            let ok = |m: &Vec<u8>| {
                ar(|a| {
                    let mut first = true;
                    for &x in all.iter().rev() {
                        let v = if first { a.eval_tmp(x, m) } else { a.eval_again(x, m) };
                        first = false;
                        if v != 1 {
                            return false;
                        }
                    }
                    true
                })
            };
            let mut found = ok(&m);
            if !found {
                let esup = ar(|a| a.supset(e));
                let mut budget = 600;
                'o: for &i in &vars {
                    if esup[i as usize / 64] >> (i % 64) & 1 == 0 {
                        continue;
                    }
                    let d = key.doms.iter().find(|x| x.0 == i).map(|x| x.1).unwrap_or(FULL);
                    let old = m[i as usize];
                    // try values of other variables and constants first
                    let mut cand: Vec<u8> = vars.iter().map(|&j| m[j as usize]).collect();
                    cand.push(dfirst(&d));
                    for x in [b'0', b'1', b'A', b'a', b' ', 0x1f, 0x1e, 10, 0, 255] {
                        cand.push(x);
                    }
                    if vars.len() <= 4 {
                        cand.extend(0..=255u8);
                    }
                    let mut tried = [0u64; 4];
                    for v in cand {
                        if !dhas(&d, v) || dhas(&tried, v) {
                            continue;
                        }
                        tried[v as usize / 64] |= 1 << (v % 64);
                        m[i as usize] = v;
                        budget -= 1;
                        if ok(&m) {
                            found = true;
                            break 'o;
                        }
                        if budget == 0 {
                            m[i as usize] = old;
                            break 'o;
                        }
                    }
                    m[i as usize] = old;
                }
            }
            if found {
                self.st.q_probe += 1;
                let ch: Vec<(u16, u8)> = vars.iter().map(|&i| (i, m[i as usize])).collect();
                self.cache.insert(key, Some(ch.clone()));
                return set_model(self, &ch);
            }
        }
        // z3
        let t0 = Instant::now();
        self.st.q_z3 += 1;
        let r = unsafe {
            let (c_, s_) = (self.ctx, self.s);
            Z3_solver_push(c_, s_);
            if dom_unsat {
                // hand over the raw query
                for &x in &conj {
                    let t = self.tb(x);
                    Z3_solver_assert(c_, s_, t);
                }
                for &v in &vars {
                    let d = c.dom[v as usize];
                    if d != FULL {
                        let t = self.dom_ast(v, &d);
                        Z3_solver_assert(c_, s_, t);
                    }
                }
                for &x in &slice {
                    let t = self.tb(x);
                    Z3_solver_assert(c_, s_, t);
                }
            } else {
                for &x in &key.es {
                    let t = self.tb(x);
                    Z3_solver_assert(c_, s_, t);
                }
                for (v, d) in &key.doms {
                    let t = self.dom_ast(*v, d);
                    Z3_solver_assert(c_, s_, t);
                }
            }
            let r = Z3_solver_check(c_, s_);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c_, s_);
                    Z3_model_inc_ref(c_, m);
                    let mut ch = vec![];
                    for &v in &vars {
                        let x = ar(|a| a.var(v as usize));
                        let t = self.tv(x);
                        let mut o: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        if Z3_model_eval(c_, m, t, true, &mut o) && Z3_get_numeral_uint64(c_, o, &mut val) {
                            ch.push((v, val as u8));
                        }
                    }
                    Z3_model_dec_ref(c_, m);
                    Some(Some(ch))
                }
                -1 => Some(None),
                _ => None,
            };
            Z3_solver_pop(c_, s_, 1);
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.st.z3_secs += dt;
        if dt > self.st.z3_max {
            self.st.z3_max = dt;
            if self.verbose && dt > 1.0 {
                eprintln!("slow query {:.1}s: {}", dt, ar(|a| a.show(e, 8)));
            }
        }
        match r {
            Some(Some(ch)) => {
                self.st.z3_sat += 1;
                // the model is re-evaluated: a translation error must not go unnoticed
                let mut m = (*c.model).clone();
                for (i, v) in &ch {
                    m[*i as usize] = *v;
                }
                let good = ar(|a| {
                    a.eval_tmp(e, &m) == 1 && slice.iter().all(|&x| a.eval_again(x, &m) == 1)
                }) && vars.iter().all(|&i| dhas(&c.dom[i as usize], m[i as usize]));
                if !good || dom_unsat {
                    eprintln!("internal error: z3 model does not satisfy the query");
                    std::process::abort();
                }
                self.cache.insert(key, Some(ch.clone()));
                set_model(self, &ch)
            }
            Some(None) => {
                self.st.z3_unsat += 1;
                if !dom_unsat {
                    self.cache.insert(key, None);
                }
                Sat::No
            }
            None => {
                self.st.unknown += 1;
                Sat::Unknown
            }
        }
    }
    fn xcheck_unsat(&mut self, c: &Cons, e: E) {
        self.xcheck = false;
        self.st.xcheck += 1;
        let r = self.check_x(c, e, true);
        self.xcheck = true;
        if !matches!(r, Sat::No) {
            eprintln!("internal error: z3 disagrees with the byte-domain procedure");
            std::process::abort();
        }
    }
    fn dom_ast(&mut self, v: u16, d: &Dom) -> P {
        let mut parts: Vec<P> = vec![];
        let x = ar(|a| a.var(v as usize));
        let t = self.tv(x);
        let s8 = self.sort(8);
        let mut i = 0usize;
        unsafe {
            while i < 256 {
                if dhas(d, i as u8) {
                    let lo = i;
                    while i < 256 && dhas(d, i as u8) {
                        i += 1;
                    }
                    let hi = i - 1;
                    let l = Z3_mk_unsigned_int64(self.ctx, lo as u64, s8);
                    if lo == hi {
                        parts.push(Z3_mk_eq(self.ctx, t, l));
                    } else {
                        let h = Z3_mk_unsigned_int64(self.ctx, hi as u64, s8);
                        let v = [Z3_mk_bvule(self.ctx, l, t), Z3_mk_bvule(self.ctx, t, h)];
                        parts.push(Z3_mk_and(self.ctx, 2, v.as_ptr()));
                    }
                } else {
                    i += 1;
                }
            }
            Z3_mk_or(self.ctx, parts.len() as c_uint, parts.as_ptr())
        }
    }
}
