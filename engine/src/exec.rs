//! The symbolic interpreter: path exploration by forking, copy-on-write memory.
use crate::expr::*;
use crate::ll::Ty;
use crate::prog::*;
use crate::solver::*;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Obj {
    pub d: Vec<u8>,
    /// expressions of symbolic bytes (0 = concrete); empty if all bytes are concrete
    pub s: Vec<E>,
    pub ro: bool,
}

const CH: usize = 32;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    ch: Rc<Vec<Rc<Chunk>>>,
    next: u32,
    sfree: Vec<u32>,
    hfree: Rc<std::collections::VecDeque<u32>>,
}

impl Mem {
    pub fn new() -> Self {
        Mem { ch: Rc::new(vec![]), next: 0, sfree: vec![], hfree: Rc::new(Default::default()) }
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let c = self.ch.get(id as usize / CH)?;
        c[id as usize % CH].as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let v = Rc::make_mut(&mut self.ch);
        let c = v.get_mut(id as usize / CH)?;
        let c = Rc::make_mut(c);
        c[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn set(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let v = Rc::make_mut(&mut self.ch);
        while v.len() <= id as usize / CH {
            v.push(Rc::new(std::array::from_fn(|_| None)));
        }
        let c = Rc::make_mut(&mut v[id as usize / CH]);
        c[id as usize % CH] = o;
        if id >= self.next {
            self.next = id + 1;
        }
    }
    fn new_id(&mut self) -> u32 {
        let i = self.next;
        self.next += 1;
        i
    }
    pub fn alloc_heap(&mut self, size: u64) -> u64 {
        let id = if self.hfree.len() > 2048 {
            Rc::make_mut(&mut self.hfree).pop_front().unwrap()
        } else {
            self.new_id()
        };
        // of a huge object only the first part exists; touching the rest is
        // out of bounds, which stops the run with an error
        let size = if size > 1 << 30 { 1 << 24 } else { size };
        self.set(id, Some(Rc::new(Obj { d: vec![0; size as usize], s: vec![], ro: false })));
        (id as u64) << 32
    }
    pub fn note_free(&mut self, id: u32) {
        Rc::make_mut(&mut self.hfree).push_back(id);
    }
    fn alloc_stack(&mut self, size: u64) -> u32 {
        let id = self.sfree.pop().unwrap_or_else(|| {
            let i = self.next;
            self.next += 1;
            i
        });
        // of a huge object only the first part exists; touching the rest is
        // out of bounds, which stops the run with an error
        let size = if size > 1 << 30 { 1 << 24 } else { size };
        self.set(id, Some(Rc::new(Obj { d: vec![0; size as usize], s: vec![], ro: false })));
        id
    }
    fn free_stack(&mut self, id: u32) {
        self.set(id, None);
        self.sfree.push(id);
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub pc: u32,
    pub regs: Vec<V>,
    pub base: u32,
    pub dst: u32,
    pub edge: u32,
    pub dyns: Vec<u32>,
}

#[derive(Clone, Default)]
pub struct Buf {
    pub d: Vec<u8>,
    pub s: Vec<E>,
}
impl Buf {
    pub fn write_at(&mut self, pos: usize, b: &[(u8, E)]) {
        if self.d.len() < pos + b.len() {
            self.d.resize(pos + b.len(), 0);
            if !self.s.is_empty() {
                self.s.resize(self.d.len(), 0);
            }
        }
        for (i, (c, e)) in b.iter().enumerate() {
            self.d[pos + i] = *c;
            if *e != 0 && self.s.is_empty() {
                self.s.resize(self.d.len(), 0);
            }
            if !self.s.is_empty() {
                self.s[pos + i] = *e;
            }
        }
    }
    pub fn get(&self, i: usize) -> (u8, E) {
        (self.d[i], if self.s.is_empty() { 0 } else { self.s[i] })
    }
}

#[derive(Clone)]
pub struct Fd {
    pub file: usize,
    pub pos: usize,
    pub append: bool,
    pub broken: bool,
}

#[derive(Clone)]
pub struct Fs {
    pub files: Vec<(Vec<u8>, Rc<Buf>)>,
    pub fds: Vec<Option<Fd>>,
    pub dirs: Vec<Vec<u8>>,
    pub chunk: usize,
    /// what may happen to the next calls (bits: EINTR, short, failure), how often, and how many failed
    pub fault: (u64, u64, u64),
    /// the byte that decides what happens to the current call
    pub pend: E,
}
impl Fs {
    pub fn new() -> Self {
        let f = |n: &str| (n.as_bytes().to_vec(), Rc::new(Buf::default()));
        let d = |i| Some(Fd { file: i, pos: 0, append: i > 0, broken: false });
        Fs { files: vec![f("<stdin>"), f("<stdout>"), f("<stderr>")], fds: vec![d(0), d(1), d(2)], dirs: vec![], chunk: 0, fault: (0, 0, 0), pend: 0 }
    }
    pub fn is_dir(&self, n: &[u8]) -> bool {
        n == b"." || n == b"/" || self.dirs.iter().any(|d| d == n)
    }
    /// the directory a name is in exists
    pub fn has_parent(&self, n: &[u8]) -> bool {
        match n.iter().rposition(|b| *b == b'/') {
            None => !n.is_empty(),
            Some(0) => true,
            Some(i) => i + 1 < n.len() && self.is_dir(&n[..i]),
        }
    }
}

#[derive(Clone)]
pub struct State {
    pub job: u32,
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub cons: Cons,
    pub fs: Rc<Fs>,
    pub notes: Rc<Vec<Vec<(u8, E)>>>,
    pub reach: u64,
    pub instrs: u64,
    pub forks: u32,
    pub panic_ok: bool,
    pub asserted: u32,
    pub errno: u64,
}

pub enum Stop {
    Done,
    Pruned,
    Panic(String),
    Mem(String),
    Exit(u64),
    Inc(String),
}
pub type X<T> = Result<T, Stop>;

#[derive(Default, Clone)]
pub struct JobStat {
    pub paths: u64,
    pub done: u64,
    pub pruned: u64,
    pub panics_ok: u64,
    pub forks: u64,
    pub instrs: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub reach: u64,
    pub exits: u64,
}

pub struct Exec<'p> {
    pub p: &'p Prog,
    pub sv: Solver,
    pub pending: Vec<State>,
    pub limit: u64,
    pub jobs: Vec<JobStat>,
    pub params: Vec<Vec<u64>>,
    pub viols: Vec<(u32, String, u64, String, Vec<u8>)>,
    pub covered: Vec<bool>,
    pub total_instrs: u64,
    pub total_forks: u64,
    pub prof: std::collections::HashMap<(u32, u32), u64>,
    pub do_prof: bool,
    pub iprof: Vec<u64>,
    pub tlog: bool,
}

#[inline]
pub fn te(v: &V, w: u16) -> E {
    match v {
        V::C(c) => ar(|a| a.k(*c as u128, w)),
        V::W(c) => ar(|a| a.k(*c, w)),
        V::S(e) => *e,
        V::A(_) => panic!("aggregate as scalar"),
    }
}
#[inline]
pub fn fe(e: E) -> V {
    ar(|a| match a.cst(e) {
        Some(k) => {
            if a.w(e) <= 64 {
                V::C(k as u64)
            } else {
                V::W(k)
            }
        }
        None => V::S(e),
    })
}
#[inline]
fn m64(w: u16) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
fn wide(v: &V) -> Option<u128> {
    match v {
        V::C(c) => Some(*c as u128),
        V::W(c) => Some(*c),
        _ => None,
    }
}
pub fn mk(v: u128, w: u16) -> V {
    cval(v, w as u32)
}

pub fn bin(op: Op, w: u16, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        if w <= 64 {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let r = match op {
                Op::Add => x.wrapping_add(y) & m,
                Op::Sub => x.wrapping_sub(y) & m,
                Op::Mul => x.wrapping_mul(y) & m,
                Op::And => x & y,
                Op::Or => x | y,
                Op::Xor => x ^ y,
                Op::Shl => {
                    if y >= 64 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                Op::LShr => {
                    if y >= 64 {
                        0
                    } else {
                        x >> y
                    }
                }
                _ => eval_op(op, w, w, x as u128, y as u128, 0) as u64,
            };
            return V::C(r);
        }
    }
    if let (Some(x), Some(y)) = (wide(a), wide(b)) {
        return mk(eval_op(op, w, w, x, y, 0), w);
    }
    let (x, y) = (te(a, w), te(b, w));
    fe(ar(|s| s.bin(op, x, y)))
}

pub fn cmp(p: Pred, w: u16, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let s = 64 - w.min(64) as u32;
        let sx = ((x << s) as i64) >> s;
        let sy = ((y << s) as i64) >> s;
        let r = match p {
            Pred::Eq => x == y,
            Pred::Ne => x != y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            Pred::Ugt => x > y,
            Pred::Uge => x >= y,
            Pred::Slt => sx < sy,
            Pred::Sle => sx <= sy,
            Pred::Sgt => sx > sy,
            Pred::Sge => sx >= sy,
        };
        return V::C(r as u64);
    }
    let (x, y) = (te(a, w), te(b, w));
    fe(ar(|s| match p {
        Pred::Eq => s.bin(Op::Eq, x, y),
        Pred::Ne => {
            let e = s.bin(Op::Eq, x, y);
            s.not1(e)
        }
        Pred::Ult => s.bin(Op::Ult, x, y),
        Pred::Ule => s.bin(Op::Ule, x, y),
        Pred::Ugt => s.bin(Op::Ult, y, x),
        Pred::Uge => s.bin(Op::Ule, y, x),
        Pred::Slt => s.bin(Op::Slt, x, y),
        Pred::Sle => s.bin(Op::Sle, x, y),
        Pred::Sgt => s.bin(Op::Slt, y, x),
        Pred::Sge => s.bin(Op::Sle, y, x),
    }))
}

pub fn ite(c: E, w: u16, a: &V, b: &V) -> V {
    match (a, b) {
        (V::A(x), V::A(_)) if x.is_empty() => a.clone(),
        _ => {
            let (x, y) = (te(a, w), te(b, w));
            fe(ar(|s| s.ite(c, x, y)))
        }
    }
}
pub fn resize(v: &V, from: u16, to: u16, signed: bool) -> V {
    if from == to {
        return v.clone();
    }
    match wide(v) {
        Some(x) => {
            let x = if signed && to > from { sext(x, from) as u128 } else { x };
            mk(x, to)
        }
        None => {
            let e = te(v, from);
            fe(ar(|a| {
                if to < from {
                    a.extract(e, 0, to)
                } else if signed {
                    a.sext(e, to)
                } else {
                    a.zext(e, to)
                }
            }))
        }
    }
}

impl<'p> Exec<'p> {
    pub fn new(p: &'p Prog, njobs: usize) -> Self {
        Exec {
            p,
            sv: Solver::new(0),
            pending: vec![],
            limit: 200_000_000,
            jobs: vec![JobStat::default(); njobs],
            params: vec![vec![]; njobs],
            viols: vec![],
            covered: vec![false; p.funs.len()],
            total_instrs: 0,
            total_forks: 0,
            prof: Default::default(),
            do_prof: false,
            iprof: vec![],
            tlog: false,
        }
    }

    pub fn base_mem(&self) -> Mem {
        let mut m = Mem::new();
        for (i, g) in self.p.globals.iter().enumerate() {
            let id = self.p.gbase + i as u32;
            m.set(id, Some(Rc::new(Obj { d: g.data.clone(), s: vec![], ro: g.ro })));
        }
        m
    }

    pub fn init_state(&mut self, job: u32, mem: Mem, func: u32) -> State {
        let f = &self.p.funs[func as usize];
        let mut st = State {
            job,
            cur: Frame { f: func, pc: 0, regs: vec![V::C(0); f.nregs as usize], base: 0, dst: NONE, edge: NONE, dyns: vec![] },
            stack: vec![],
            mem,
            cons: self.sv.fresh(),
            fs: Rc::new(Fs::new()),
            notes: Rc::new(vec![]),
            reach: 0,
            instrs: 0,
            forks: 0,
            panic_ok: false,
            asserted: 0,
            errno: 0,
        };
        if f.frame > 0 {
            st.cur.base = st.mem.alloc_stack(f.frame);
        }
        st.errno = st.mem.alloc_heap(8);
        st
    }

    // ---- solver access --------------------------------------------------
    /// direction of the current state and, if feasible, the constraints of the other side
    fn split(&mut self, st: &mut State, c: E) -> X<(bool, Option<Cons>)> {
        if let Some(b) = self.sv.quick(&st.cons, c) {
            return Ok((b, None));
        }
        let b = self.sv.holds(&st.cons, c);
        let nc = ar(|a| a.not1(c));
        let (mine, other) = if b { (c, nc) } else { (nc, c) };
        let r = self.sv.check(&st.cons, other);
        let oc = match r {
            Sat::Yes(m, id) => {
                let mut oc = st.cons.clone();
                oc.model = m;
                oc.mid = id;
                self.sv.add(&mut oc, other);
                Some(oc)
            }
            Sat::No => None,
            Sat::Unknown => return Err(Stop::Inc("solver gave up".into())),
        };
        if oc.is_some() {
            self.sv.add(&mut st.cons, mine);
        }
        Ok((b, oc))
    }
    fn note_fork(&mut self, st: &mut State) {
        self.total_forks += 1;
        self.jobs[st.job as usize].forks += 1;
        st.forks += 1;
        if self.do_prof {
            *self.prof.entry((st.cur.f, st.cur.pc)).or_default() += 1;
        }
    }
    /// decides a condition, forking if both sides are feasible (re-executing the instruction)
    pub fn decide(&mut self, st: &mut State, c: E) -> X<bool> {
        let (b, oc) = self.split(st, c)?;
        if let Some(oc) = oc {
            self.note_fork(st);
            let mut o = st.clone();
            o.cons = oc;
            self.pending.push(o);
        }
        Ok(b)
    }
    pub fn conc(&mut self, st: &mut State, v: &V) -> X<u128> {
        match v {
            V::C(c) => Ok(*c as u128),
            V::W(c) => Ok(*c),
            V::A(_) => Err(Stop::Inc("concretising an aggregate".into())),
            V::S(e) => {
                let x = self.sv.value(&st.cons, *e);
                let w = ar(|a| a.w(*e));
                let c = ar(|a| {
                    let k = a.k(x, w);
                    a.eq(*e, k)
                });
                let r = self.decide(st, c)?;
                if !r {
                    return Err(Stop::Inc("internal: concretisation".into()));
                }
                Ok(x)
            }
        }
    }
    pub fn conc64(&mut self, st: &mut State, v: &V) -> X<u64> {
        if let V::C(c) = v {
            return Ok(*c);
        }
        self.conc(st, v).map(|x| x as u64)
    }

    // ---- memory ---------------------------------------------------------
    fn where_(&self, st: &State, addr: u64) -> String {
        let id = (addr >> 32) as u32;
        let n = if id >= self.p.gbase && id < self.p.gbase + self.p.globals.len() as u32 {
            self.p.globals[(id - self.p.gbase) as usize].name.clone()
        } else {
            format!("object {}", id)
        };
        format!("{:#x} ({}, size {:?})", addr, n, st.mem.get(id).map(|o| o.d.len()))
    }
    #[inline]
    fn obj<'a>(&self, st: &'a State, addr: u64, n: usize) -> X<(&'a Obj, usize)> {
        let off = addr as u32 as usize;
        match st.mem.get((addr >> 32) as u32) {
            Some(o) if off + n <= o.d.len() => Ok((o, off)),
            _ => Err(Stop::Mem(format!("access of {} bytes at {}", n, self.where_(st, addr)))),
        }
    }
    fn byte_expr(&mut self, st: &State, e: E) -> (u8, E) {
        // a byte whose variable has one possible value left is concrete
        if let Some(i) = ar(|a| a.unary(e)) {
            let d = &st.cons.dom[i as usize];
            if dcount(d) == 1 {
                let x = self.sv.value(&st.cons, e);
                return (x as u8, 0);
            }
        }
        (0, e)
    }
    pub fn read_byte(&mut self, st: &State, addr: u64) -> X<(u8, E)> {
        let (d, e) = {
            let (o, off) = self.obj(st, addr, 1)?;
            (o.d[off], if o.s.is_empty() { 0 } else { o.s[off] })
        };
        if e == 0 {
            return Ok((d, 0));
        }
        Ok(self.byte_expr(st, e))
    }
    pub fn read_bytes(&mut self, st: &State, addr: u64, n: usize) -> X<Vec<(u8, E)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let v: Vec<(u8, E)> = {
            let (o, off) = self.obj(st, addr, n)?;
            if o.s.is_empty() {
                o.d[off..off + n].iter().map(|x| (*x, 0)).collect()
            } else {
                (off..off + n).map(|i| (o.d[i], o.s[i])).collect()
            }
        };
        Ok(v.into_iter().map(|(d, e)| if e == 0 { (d, 0) } else { self.byte_expr(st, e) }).collect())
    }
    pub fn write_bytes(&mut self, st: &mut State, addr: u64, b: &[(u8, E)]) -> X<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (o, off) = self.obj_mut(st, addr, b.len())?;
        if o.s.is_empty() && b.iter().any(|x| x.1 != 0) {
            o.s = vec![0; o.d.len()];
        }
        for (i, (d, e)) in b.iter().enumerate() {
            o.d[off + i] = *d;
            if !o.s.is_empty() {
                o.s[off + i] = *e;
            }
        }
        Ok(())
    }
    #[inline]
    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: usize) -> X<(&'a mut Obj, usize)> {
        let off = addr as u32 as usize;
        let id = (addr >> 32) as u32;
        let ok = match st.mem.get(id) {
            Some(o) => off + n <= o.d.len() && !o.ro,
            _ => false,
        };
        if !ok {
            return Err(Stop::Mem(format!("write of {} bytes at {}", n, self.where_(st, addr))));
        }
        Ok((st.mem.get_mut(id).unwrap(), off))
    }
    pub fn load_int(&mut self, st: &State, addr: u64, w: u16) -> X<V> {
        let n = (w as usize + 7) / 8;
        let sym: Vec<(u8, E)>;
        {
            let (o, off) = self.obj(st, addr, n)?;
            if o.s.is_empty() || o.s[off..off + n].iter().all(|x| *x == 0) {
                if n <= 8 {
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(&o.d[off..off + n]);
                    return Ok(V::C(u64::from_le_bytes(b) & m64(w)));
                }
                let mut b = [0u8; 16];
                b[..n].copy_from_slice(&o.d[off..off + n]);
                return Ok(mk(u128::from_le_bytes(b), w));
            }
            sym = (off..off + n).map(|i| (o.d[i], o.s[i])).collect();
        }
        let mut acc: Option<E> = None;
        for (d, e) in sym.into_iter().rev() {
            let (d, e) = if e == 0 { (d, 0) } else { self.byte_expr(st, e) };
            let b = if e == 0 { ar(|a| a.k(d as u128, 8)) } else { e };
            acc = Some(match acc {
                None => b,
                Some(h) => ar(|a| a.concat(h, b)),
            });
        }
        let e = acc.unwrap();
        Ok(fe(ar(|a| a.extract(e, 0, w))))
    }
    pub fn store_int(&mut self, st: &mut State, addr: u64, w: u16, v: &V) -> X<()> {
        let n = (w as usize + 7) / 8;
        match v {
            V::C(x) => {
                let (o, off) = self.obj_mut(st, addr, n)?;
                let b = x.to_le_bytes();
                if n <= 8 {
                    o.d[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    let b = (*x as u128).to_le_bytes();
                    o.d[off..off + n].copy_from_slice(&b[..n]);
                }
                if !o.s.is_empty() {
                    o.s[off..off + n].fill(0);
                }
                Ok(())
            }
            V::W(x) => {
                let b = x.to_le_bytes();
                let (o, off) = self.obj_mut(st, addr, n)?;
                o.d[off..off + n].copy_from_slice(&b[..n]);
                if !o.s.is_empty() {
                    o.s[off..off + n].fill(0);
                }
                Ok(())
            }
            V::S(e) => {
                let bytes: Vec<(u8, E)> = ar(|a| {
                    let full = a.zext(*e, n as u16 * 8);
                    (0..n)
                        .map(|i| {
                            let b = a.extract(full, i as u16 * 8, 8);
                            match a.cst(b) {
                                Some(k) => (k as u8, 0),
                                None => (0, b),
                            }
                        })
                        .collect()
                });
                self.write_bytes(st, addr, &bytes)
            }
            V::A(_) => Err(Stop::Inc("store of aggregate as scalar".into())),
        }
    }
    fn load_at(&mut self, st: &State, addr: u64, ty: &Ty) -> X<V> {
        match ty {
            Ty::Int(w) => self.load_int(st, addr, *w as u16),
            Ty::Ptr | Ty::F64 => self.load_int(st, addr, 64),
            Ty::F32 => self.load_int(st, addr, 32),
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let w = (*n * t.bits()) as u16;
                let v = self.load_int(st, addr, w)?;
                self.bits_to(&v, w, ty)
            }
            Ty::Arr(n, t) => {
                let mut r = vec![];
                for i in 0..*n {
                    r.push(self.load_at(st, addr + i * t.size(), t)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            Ty::Vec(n, t) => {
                let mut r = vec![];
                for i in 0..*n as u64 {
                    r.push(self.load_at(st, addr + i * t.size(), t)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            Ty::Struct(f, _) => {
                let mut r = vec![];
                for i in 0..f.len() {
                    r.push(self.load_at(st, addr + ty.field_off(i), &f[i])?);
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => Err(Stop::Inc(format!("load of {:?}", ty))),
        }
    }
    fn store_at(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> X<()> {
        match (ty, v) {
            (Ty::Int(w), _) => self.store_int(st, addr, *w as u16, v),
            (Ty::Ptr, _) | (Ty::F64, _) => self.store_int(st, addr, 64, v),
            (Ty::F32, _) => self.store_int(st, addr, 32, v),
            (Ty::Vec(n, t), _) if t.bits() % 8 != 0 => {
                let w = (*n * t.bits()) as u16;
                let x = self.to_bits(v, ty)?;
                self.store_int(st, addr, w, &fe(x))
            }
            (_, V::A(x)) => {
                for i in 0..x.len() {
                    self.store_at(st, addr + ty.field_off(i), &ty.elem(i), &x[i])?;
                }
                Ok(())
            }
            _ => Err(Stop::Inc(format!("store of {:?}", ty))),
        }
    }
    /// leaves of a symbolic address: (condition, address)
    fn ite_leaves(e: E, cond: E, out: &mut Vec<(E, u64)>) -> bool {
        let n = ar(|a| a.n(e));
        if n.op == Op::Const {
            out.push((cond, n.k as u64));
            return out.len() <= 64;
        }
        if n.op == Op::Ite {
            let c1 = ar(|a| a.and1(cond, n.a));
            let c2 = ar(|a| {
                let x = a.not1(n.a);
                a.and1(cond, x)
            });
            return Self::ite_leaves(n.b, c1, out) && Self::ite_leaves(n.c, c2, out);
        }
        false
    }
    fn addr_cases(&mut self, st: &State, e: E) -> Option<Vec<(E, u64)>> {
        if let Some(i) = ar(|a| a.unary(e)) {
            let d = st.cons.dom[i as usize];
            let mut by: Vec<(u64, [u64; 4])> = vec![];
            for x in 0..=255u8 {
                if dhas(&d, x) {
                    let ad = ar(|a| a.eval_unary(e, x)) as u64;
                    match by.iter_mut().find(|y| y.0 == ad) {
                        Some(y) => y.1[x as usize / 64] |= 1 << (x % 64),
                        None => {
                            let mut t = [0u64; 4];
                            t[x as usize / 64] |= 1 << (x % 64);
                            by.push((ad, t));
                        }
                    }
                }
            }
            let v = ar(|a| a.var(i as usize));
            return Some(by.into_iter().map(|(ad, t)| (set_expr(v, &t, &d), ad)).collect());
        }
        let mut out = vec![];
        let one = ar(|a| a.k(1, 1));
        if Self::ite_leaves(e, one, &mut out) {
            return Some(out);
        }
        None
    }
    fn load(&mut self, st: &mut State, addr: &V, ty: &Ty, w: u16) -> X<V> {
        match addr {
            V::C(a) => {
                if w > 0 {
                    self.load_int(st, *a, w)
                } else {
                    self.load_at(st, *a, ty)
                }
            }
            V::S(e) if w > 0 => {
                if let Some(x) = self.table_load(st, *e, w)? {
                    return Ok(x);
                }
                if let Some(cs) = self.addr_cases(st, *e) {
                    // group by loaded value
                    let mut groups: Vec<(E, E)> = vec![]; // (value, cond)
                    for (c, a) in cs {
                        match self.load_int(st, a, w) {
                            Ok(v) => {
                                let v = te(&v, w);
                                match groups.iter_mut().find(|g| g.0 == v) {
                                    Some(g) => g.1 = ar(|x| x.or1(g.1, c)),
                                    None => groups.push((v, c)),
                                }
                            }
                            Err(s) => {
                                // is the invalid address reachable?
                                match self.sv.check(&st.cons, c) {
                                    Sat::No => {}
                                    Sat::Yes(m, id) => {
                                        st.cons.model = m;
                                        st.cons.mid = id;
                                        return Err(s);
                                    }
                                    Sat::Unknown => return Err(Stop::Inc("solver gave up".into())),
                                }
                            }
                        }
                    }
                    let mut it = groups.into_iter().rev();
                    let mut acc = it.next().map(|g| g.0).ok_or(Stop::Inc("no address".into()))?;
                    for (v, c) in it {
                        acc = ar(|x| x.ite(c, v, acc));
                    }
                    return Ok(fe(acc));
                }
                let a = self.conc64(st, addr)?;
                self.load_int(st, a, w)
            }
            _ => {
                let a = self.conc64(st, addr)?;
                self.load_at(st, a, ty)
            }
        }
    }
    /// load at base + index*scale with a unary index: one pass over the domain
    fn table_load(&mut self, st: &mut State, e: E, w: u16) -> X<Option<V>> {
        let i = match ar(|a| a.unary(e)) {
            Some(i) => i,
            None => return Ok(None),
        };
        let d = st.cons.dom[i as usize];
        let mut groups: Vec<(E, [u64; 4])> = vec![];
        for x in 0..=255u8 {
            if !dhas(&d, x) {
                continue;
            }
            let ad = ar(|a| a.eval_unary(e, x)) as u64;
            let v = match self.load_int(st, ad, w) {
                Ok(v) => te(&v, w),
                Err(_) => return Ok(None),
            };
            match groups.iter_mut().find(|g| g.0 == v) {
                Some(g) => g.1[x as usize / 64] |= 1 << (x % 64),
                None => {
                    let mut t = [0u64; 4];
                    t[x as usize / 64] |= 1 << (x % 64);
                    groups.push((v, t));
                }
            }
        }
        // the largest group last (it needs no condition)
        groups.sort_by_key(|g| dcount(&g.1));
        let v = ar(|a| a.var(i as usize));
        let mut it = groups.into_iter().rev();
        let mut acc = it.next().unwrap().0;
        for (val, t) in it {
            let c = set_expr(v, &t, &d);
            acc = ar(|x| x.ite(c, val, acc));
        }
        Ok(Some(fe(acc)))
    }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (did, sid) = ((dst >> 32) as u32, (src >> 32) as u32);
        let soff = src as u32 as usize;
        {
            self.obj(st, src, n)?;
        }
        if did != sid {
            let so = st.mem.get(sid).unwrap().clone();
            let (o, off) = self.obj_mut(st, dst, n)?;
            o.d[off..off + n].copy_from_slice(&so.d[soff..soff + n]);
            let any = !so.s.is_empty() && so.s[soff..soff + n].iter().any(|x| *x != 0);
            if any {
                if o.s.is_empty() {
                    o.s = vec![0; o.d.len()];
                }
                o.s[off..off + n].copy_from_slice(&so.s[soff..soff + n]);
            } else if !o.s.is_empty() {
                o.s[off..off + n].fill(0);
            }
            Ok(())
        } else {
            let (o, off) = self.obj_mut(st, dst, n)?;
            o.d.copy_within(soff..soff + n, off);
            if !o.s.is_empty() {
                o.s.copy_within(soff..soff + n, off);
            }
            Ok(())
        }
    }
    fn to_bits(&mut self, v: &V, ty: &Ty) -> X<E> {
        match (ty, v) {
            (Ty::Vec(_, t), V::A(x)) => {
                let ew = t.bits() as u16;
                let mut acc: Option<E> = None;
                for y in x.iter().rev() {
                    let e = te(y, ew);
                    acc = Some(match acc {
                        None => e,
                        Some(h) => {
                            if ar(|a| a.w(h)) + ew > 128 {
                                return Err(Stop::Inc("vector wider than 128 bits".into()));
                            }
                            ar(|a| a.concat(h, e))
                        }
                    });
                }
                Ok(acc.unwrap())
            }
            (_, V::A(_)) => Err(Stop::Inc("bitcast of aggregate".into())),
            _ => Ok(te(v, ty.bits() as u16)),
        }
    }
    fn bits_to(&mut self, v: &V, w: u16, ty: &Ty) -> X<V> {
        match ty {
            Ty::Vec(n, t) => {
                let ew = t.bits() as u16;
                let e = te(v, w);
                let mut r = vec![];
                for i in 0..*n as u16 {
                    r.push(fe(ar(|a| a.extract(e, i * ew, ew))));
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => Ok(v.clone()),
        }
    }

    // ---- main loop ------------------------------------------------------
    #[inline]
    fn val<'a>(fr: &'a Frame, o: &'a Opd) -> &'a V {
        match o {
            Opd::R(r) => &fr.regs[*r as usize],
            Opd::K(v) => v,
        }
    }
    #[inline]
    fn jump(&self, st: &mut State, edge: u32) {
        let e = &self.p.funs[st.cur.f as usize].edges[edge as usize];
        let fr = &mut st.cur;
        match e.moves.len() {
            0 => {}
            1 => {
                let v = Self::val(fr, &e.moves[0].1).clone();
                fr.regs[e.moves[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<V> = e.moves.iter().map(|m| Self::val(fr, &m.1).clone()).collect();
                for (m, v) in e.moves.iter().zip(vs) {
                    fr.regs[m.0 as usize] = v;
                }
            }
        }
        fr.pc = e.pc;
    }
    /// runs one state to the end of its path
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.steps(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }
    pub fn trace(&self, st: &State) -> String {
        let mut s = vec![];
        let f = |fr: &Frame| self.p.funs[fr.f as usize].name.clone();
        s.push(f(&st.cur));
        for x in st.stack.iter().rev().take(12) {
            s.push(f(x));
        }
        s.join(" < ")
    }
    fn steps(&mut self, st: &mut State) -> X<()> {
        let p = self.p;
        'outer: loop {
            let fun = &p.funs[st.cur.f as usize];
            let code = &fun.code;
            loop {
                st.instrs += 1;
                if st.instrs > self.limit {
                    return Err(Stop::Inc(format!("instruction limit in {}", self.trace(st))));
                }
                let ins = &code[st.cur.pc as usize];
                macro_rules! v {
                    ($o:expr) => {
                        Self::val(&st.cur, $o)
                    };
                }
                macro_rules! set {
                    ($d:expr, $x:expr) => {{
                        let x = $x;
                        st.cur.regs[*$d as usize] = x;
                    }};
                }
                match ins {
                    Ins::Bin(op, w, d, a, b) => set!(d, bin(*op, *w, v!(a), v!(b))),
                    Ins::Cmp(pr, w, d, a, b) => set!(d, cmp(*pr, *w, v!(a), v!(b))),
                    Ins::Gep(d, base, off, ix) => {
                        let b = v!(base);
                        if let V::C(b0) = b {
                            let mut acc = b0.wrapping_add(*off);
                            let mut symx: Option<V> = None;
                            for (o, w, sc) in ix {
                                match v!(o) {
                                    V::C(i) => {
                                        let s = 64 - (*w).min(64) as u32;
                                        let i = ((i << s) as i64) >> s;
                                        acc = acc.wrapping_add((i as u64).wrapping_mul(*sc));
                                    }
                                    x => {
                                        let x = resize(x, *w, 64, true);
                                        let x = bin(Op::Mul, 64, &x, &V::C(*sc));
                                        symx = Some(match symx {
                                            None => x,
                                            Some(y) => bin(Op::Add, 64, &y, &x),
                                        });
                                    }
                                }
                            }
                            let r = match symx {
                                None => V::C(acc),
                                Some(x) => bin(Op::Add, 64, &x, &V::C(acc)),
                            };
                            set!(d, r);
                        } else {
                            let mut acc = bin(Op::Add, 64, b, &V::C(*off));
                            for (o, w, sc) in ix {
                                let x = resize(v!(o), *w, 64, true);
                                let x = bin(Op::Mul, 64, &x, &V::C(*sc));
                                acc = bin(Op::Add, 64, &acc, &x);
                            }
                            set!(d, acc);
                        }
                    }
                    Ins::Load(d, ty, w, a) => {
                        let x = match v!(a) {
                            V::C(ad) if *w > 0 => {
                                let ad = *ad;
                                self.load_int(st, ad, *w)?
                            }
                            a => {
                                let a = a.clone();
                                self.load(st, &a, ty, *w)?
                            }
                        };
                        set!(d, x);
                    }
                    Ins::Store(ty, w, x, a) => {
                        let x = v!(x).clone();
                        let a = v!(a).clone();
                        let ad = self.conc64(st, &a)?;
                        if *w > 0 {
                            self.store_int(st, ad, *w, &x)?;
                        } else {
                            self.store_at(st, ad, ty, &x)?;
                        }
                    }
                    Ins::Jmp(e) => {
                        self.jump(st, *e);
                        continue;
                    }
                    Ins::Cond(c, t, f) => {
                        match v!(c) {
                            V::C(c) => {
                                let e = if *c & 1 == 1 { *t } else { *f };
                                self.jump(st, e);
                            }
                            V::S(e) => {
                                let e = *e;
                                let (b, oc) = self.split(st, e)?;
                                if let Some(oc) = oc {
                                    self.note_fork(st);
                                    let mut o = st.clone();
                                    o.cons = oc;
                                    self.jump(&mut o, if b { *f } else { *t });
                                    self.pending.push(o);
                                }
                                self.jump(st, if b { *t } else { *f });
                            }
                            _ => return Err(Stop::Inc("condition".into())),
                        }
                        continue;
                    }
                    Ins::Switch(w, o, def, cs) => {
                        match v!(o) {
                            V::C(x) => {
                                let x = *x as u128;
                                let e = cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def);
                                self.jump(st, e);
                            }
                            V::S(e) => {
                                let e = *e;
                                self.switch(st, e, *w, *def, cs)?;
                            }
                            _ => return Err(Stop::Inc("switch".into())),
                        }
                        continue;
                    }
                    Ins::Select(d, c, ty, a, b) => {
                        let x = match v!(c) {
                            V::C(c) => {
                                if *c & 1 == 1 {
                                    v!(a).clone()
                                } else {
                                    v!(b).clone()
                                }
                            }
                            V::S(e) => {
                                let e = *e;
                                let (x, y) = (v!(a).clone(), v!(b).clone());
                                match (&x, &y) {
                                    (V::A(_), _) | (_, V::A(_)) => {
                                        if self.decide(st, e)? {
                                            x
                                        } else {
                                            y
                                        }
                                    }
                                    _ => match self.sv.quick(&st.cons, e) {
                                        Some(true) => x,
                                        Some(false) => y,
                                        None => ite(e, ty.bits() as u16, &x, &y),
                                    },
                                }
                            }
                            _ => return Err(Stop::Inc("select".into())),
                        };
                        set!(d, x);
                    }
                    Ins::Cast(k, d, t, o, t2) => {
                        let x = v!(o).clone();
                        let r = self.cast(st, k, t, &x, t2)?;
                        set!(d, r);
                    }
                    Ins::Mov(d, o) => set!(d, v!(o).clone()),
                    Ins::Alloca(d, off) => set!(d, V::C(((st.cur.base as u64) << 32) + off)),
                    Ins::DynAlloca(d, sz, n) => {
                        let n = v!(n).clone();
                        let n = self.conc64(st, &n)?;
                        let a = st.mem.alloc_heap(n * sz);
                        st.cur.dyns.push((a >> 32) as u32);
                        set!(d, V::C(a));
                    }
                    Ins::Ret(o) => {
                        let r = o.as_ref().map(|o| v!(o).clone());
                        self.total_instrs += 0;
                        if st.cur.base != 0 {
                            st.mem.free_stack(st.cur.base);
                        }
                        for x in std::mem::take(&mut st.cur.dyns) {
                            st.mem.set(x, None);
                        }
                        let (dst, edge) = (st.cur.dst, st.cur.edge);
                        match st.stack.pop() {
                            None => return Err(Stop::Done),
                            Some(fr) => {
                                st.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                                if dst != NONE {
                                    if let Some(r) = r {
                                        st.cur.regs[dst as usize] = r;
                                    }
                                }
                                if edge != NONE {
                                    self.jump(st, edge);
                                } else {
                                    st.cur.pc += 1;
                                }
                            }
                        }
                        continue 'outer;
                    }
                    Ins::Call(d, t, args, edge) => {
                        let fi = match t {
                            Target::Fn(f) => *f,
                            Target::Ptr(o) => {
                                let o = v!(o).clone();
                                let a = self.conc64(st, &o)?;
                                if a >> 32 != FN_OBJ || (a & 0xffff_ffff) < 64 {
                                    return Err(Stop::Mem(format!("call through {:#x}", a)));
                                }
                                ((a - fn_addr(0)) / 16) as u32
                            }
                            Target::Asm(s) => {
                                if *d != NONE {
                                    // cpuid and friends: no optional CPU features
                                    let n = 4;
                                    if !s.contains("cpuid") {
                                        return Err(Stop::Inc(format!("inline asm {}", s)));
                                    }
                                    set!(d, V::A(Rc::new(vec![V::C(0); n])));
                                }
                                if *edge != NONE {
                                    self.jump(st, *edge);
                                } else {
                                    st.cur.pc += 1;
                                }
                                continue;
                            }
                        };
                        let f = &p.funs[fi as usize];
                        let av: Vec<V> = args.iter().map(|a| v!(a).clone()).collect();
                        match f.hook {
                            Hook::None => {
                                self.covered[fi as usize] = true;
                                let mut regs = vec![V::C(0); f.nregs as usize];
                                for (i, pr) in f.params.iter().enumerate() {
                                    if i < av.len() {
                                        regs[*pr as usize] = av[i].clone();
                                    }
                                }
                                let base = if f.frame > 0 { st.mem.alloc_stack(f.frame) } else { 0 };
                                let fr = Frame { f: fi, pc: 0, regs, base, dst: *d, edge: *edge, dyns: vec![] };
                                let old = std::mem::replace(&mut st.cur, fr);
                                st.stack.push(Rc::new(old));
                                if st.stack.len() > 4000 {
                                    return Err(Stop::Panic("stack overflow (call depth 4000)".into()));
                                }
                                continue 'outer;
                            }
                            Hook::Panic => {
                                let m = self.panic_msg(st, f, &av);
                                return Err(Stop::Panic(m));
                            }
                            Hook::Debug | Hook::Ext => {
                                let r = if f.hook == Hook::Debug { V::C(0) } else { self.external(st, f, &av)? };
                                let r = match (r, &f.ret) {
                                    (V::C(c), Ty::Int(w)) if *w < 64 => V::C(c & ((1 << w) - 1)),
                                    (r, _) => r,
                                };
                                if *d != NONE {
                                    set!(d, r);
                                }
                                if *edge != NONE {
                                    self.jump(st, *edge);
                                } else {
                                    st.cur.pc += 1;
                                }
                                continue;
                            }
                        }
                    }
                    Ins::Intr(d, name, args, tys, rt) => {
                        let av: Vec<V> = args.iter().map(|a| v!(a).clone()).collect();
                        let r = self.intrinsic(st, name, &av, tys, rt)?;
                        if *d != NONE {
                            set!(d, r);
                        }
                    }
                    Ins::ExtractVal(d, o, ix) => {
                        let mut x = v!(o).clone();
                        for i in ix {
                            x = match &x {
                                V::A(a) => a[*i as usize].clone(),
                                _ => return Err(Stop::Inc("extractvalue".into())),
                            };
                        }
                        set!(d, x);
                    }
                    Ins::InsertVal(d, o, x, ix) => {
                        let a = v!(o).clone();
                        let x = v!(x).clone();
                        set!(d, insert(a, &x, ix));
                    }
                    Ins::ExtractElem(d, o, i) => {
                        let i = v!(i).clone();
                        let i = self.conc64(st, &i)? as usize;
                        let x = match v!(o) {
                            V::A(a) => a.get(i).cloned().unwrap_or(V::C(0)),
                            _ => return Err(Stop::Inc("extractelement".into())),
                        };
                        set!(d, x);
                    }
                    Ins::InsertElem(d, o, x, i) => {
                        let i = v!(i).clone();
                        let i = self.conc64(st, &i)? as u32;
                        let a = v!(o).clone();
                        let x = v!(x).clone();
                        set!(d, insert(a, &x, &[i]));
                    }
                    Ins::Shuffle(d, a, b, m) => {
                        let (x, y) = match (v!(a), v!(b)) {
                            (V::A(x), V::A(y)) => (x.clone(), y.clone()),
                            _ => return Err(Stop::Inc("shufflevector".into())),
                        };
                        let r: Vec<V> = m
                            .iter()
                            .map(|i| {
                                if *i < 0 {
                                    V::C(0)
                                } else if (*i as usize) < x.len() {
                                    x[*i as usize].clone()
                                } else {
                                    y[*i as usize - x.len()].clone()
                                }
                            })
                            .collect();
                        set!(d, V::A(Rc::new(r)));
                    }
                    Ins::VBin(op, w, d, a, b) => {
                        let r = match (v!(a), v!(b)) {
                            (V::A(x), V::A(y)) => x.iter().zip(y.iter()).map(|(p, q)| bin(*op, *w, p, q)).collect(),
                            _ => return Err(Stop::Inc("vector op".into())),
                        };
                        set!(d, V::A(Rc::new(r)));
                    }
                    Ins::VCmp(pr, w, d, a, b) => {
                        let r = match (v!(a), v!(b)) {
                            (V::A(x), V::A(y)) => x.iter().zip(y.iter()).map(|(p, q)| cmp(*pr, *w, p, q)).collect(),
                            _ => return Err(Stop::Inc("vector cmp".into())),
                        };
                        set!(d, V::A(Rc::new(r)));
                    }
                    Ins::VSelect(d, c, w, a, b) => {
                        let r = match (v!(c), v!(a), v!(b)) {
                            (V::A(c), V::A(x), V::A(y)) => (0..c.len())
                                .map(|i| match &c[i] {
                                    V::C(1) => x[i].clone(),
                                    V::C(_) => y[i].clone(),
                                    V::S(e) => ite(*e, *w, &x[i], &y[i]),
                                    _ => V::C(0),
                                })
                                .collect(),
                            _ => return Err(Stop::Inc("vector select".into())),
                        };
                        set!(d, V::A(Rc::new(r)));
                    }
                    Ins::FBin(op, dbl, d, a, b) => {
                        let (a, b) = (v!(a).clone(), v!(b).clone());
                        let x = self.conc64(st, &a)?;
                        let y = self.conc64(st, &b)?;
                        let r = if *dbl {
                            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                            match op {
                                0 => x + y,
                                1 => x - y,
                                2 => x * y,
                                3 => x / y,
                                _ => x % y,
                            }
                            .to_bits()
                        } else {
                            let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op {
                                0 => x + y,
                                1 => x - y,
                                2 => x * y,
                                3 => x / y,
                                _ => x % y,
                            })
                            .to_bits() as u64
                        };
                        set!(d, V::C(r));
                    }
                    Ins::FNeg(dbl, d, a) => {
                        let a = v!(a).clone();
                        let x = self.conc64(st, &a)?;
                        set!(d, V::C(if *dbl { x ^ (1 << 63) } else { x ^ (1 << 31) }));
                    }
                    Ins::FCmp(pr, dbl, d, a, b) => {
                        let (a, b) = (v!(a).clone(), v!(b).clone());
                        let x = self.conc64(st, &a)?;
                        let y = self.conc64(st, &b)?;
                        let (x, y) = if *dbl {
                            (f64::from_bits(x), f64::from_bits(y))
                        } else {
                            (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                        };
                        let un = x.is_nan() || y.is_nan();
                        let r = match pr.as_str() {
                            "oeq" => !un && x == y,
                            "ogt" => !un && x > y,
                            "oge" => !un && x >= y,
                            "olt" => !un && x < y,
                            "ole" => !un && x <= y,
                            "one" => !un && x != y,
                            "ord" => !un,
                            "uno" => un,
                            "ueq" => un || x == y,
                            "ugt" => un || x > y,
                            "uge" => un || x >= y,
                            "ult" => un || x < y,
                            "ule" => un || x <= y,
                            "une" => un || x != y,
                            "true" => true,
                            _ => false,
                        };
                        set!(d, V::C(r as u64));
                    }
                    Ins::Rmw(d, op, ty, a, x) => {
                        let (a, x) = (v!(a).clone(), v!(x).clone());
                        let ad = self.conc64(st, &a)?;
                        let w = ty.bits() as u16;
                        let old = self.load_int(st, ad, w)?;
                        let new = match op.as_str() {
                            "xchg" => x,
                            "add" => bin(Op::Add, w, &old, &x),
                            "sub" => bin(Op::Sub, w, &old, &x),
                            "and" => bin(Op::And, w, &old, &x),
                            "or" => bin(Op::Or, w, &old, &x),
                            "xor" => bin(Op::Xor, w, &old, &x),
                            "umax" | "umin" => {
                                let o = self.conc64(st, &old)?;
                                let n = self.conc64(st, &x)?;
                                V::C(if op == "umax" { o.max(n) } else { o.min(n) })
                            }
                            _ => return Err(Stop::Inc(format!("atomicrmw {}", op))),
                        };
                        self.store_int(st, ad, w, &new)?;
                        set!(d, old);
                    }
                    Ins::CmpXchg(d, ty, a, x, y) => {
                        let (a, x, y) = (v!(a).clone(), v!(x).clone(), v!(y).clone());
                        let ad = self.conc64(st, &a)?;
                        let w = ty.bits() as u16;
                        let old = self.load_int(st, ad, w)?;
                        let ok = match cmp(Pred::Eq, w, &old, &x) {
                            V::C(c) => c == 1,
                            V::S(e) => self.decide(st, e)?,
                            _ => false,
                        };
                        if ok {
                            self.store_int(st, ad, w, &y)?;
                        }
                        set!(d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
                    }
                    Ins::Unreach => return Err(Stop::Mem(format!("unreachable executed in {}", self.trace(st)))),
                    Ins::Nop => {}
                }
                st.cur.pc += 1;
            }
        }
    }

    fn switch(&mut self, st: &mut State, e: E, w: u16, def: u32, cs: &[(u128, u32)]) -> X<()> {
        // condition per distinct target
        let mut groups: Vec<(u32, E)> = vec![];
        let mut none = ar(|a| a.k(1, 1));
        for (k, t) in cs {
            let c = ar(|a| {
                let kk = a.k(*k, w);
                a.eq(e, kk)
            });
            let nc = ar(|a| a.not1(c));
            none = ar(|a| a.and1(none, nc));
            match groups.iter_mut().find(|g| g.0 == *t) {
                Some(g) => g.1 = ar(|a| a.or1(g.1, c)),
                None => groups.push((*t, c)),
            }
        }
        match groups.iter_mut().find(|g| g.0 == def) {
            Some(g) => g.1 = ar(|a| a.or1(g.1, none)),
            None => groups.push((def, none)),
        }
        // the side of the current model continues here, the others are forked off
        let mut mine: Option<(u32, E)> = None;
        let mut others = vec![];
        for (t, c) in groups {
            if ar(|a| a.cst(c)) == Some(0) {
                continue;
            }
            if mine.is_none() && self.sv.holds(&st.cons, c) {
                mine = Some((t, c));
                continue;
            }
            match self.sv.check(&st.cons, c) {
                Sat::Yes(m, id) => {
                    let mut oc = st.cons.clone();
                    oc.model = m;
                    oc.mid = id;
                    self.sv.add(&mut oc, c);
                    others.push((t, oc));
                }
                Sat::No => {}
                Sat::Unknown => return Err(Stop::Inc("solver gave up".into())),
            }
        }
        let (t, c) = mine.ok_or(Stop::Inc("internal: switch".into()))?;
        for (t, oc) in others {
            self.note_fork(st);
            let mut o = st.clone();
            o.cons = oc;
            self.jump(&mut o, t);
            self.pending.push(o);
        }
        self.sv.add(&mut st.cons, c);
        self.jump(st, t);
        Ok(())
    }

    fn cast(&mut self, st: &mut State, k: &CastK, t: &Ty, v: &V, t2: &Ty) -> X<V> {
        if let (Ty::Vec(_, et), Ty::Vec(_, et2), V::A(x)) = (t, t2, v) {
            if !matches!(k, CastK::Bits) {
                let mut r = vec![];
                for y in x.iter() {
                    r.push(self.cast(st, k, et, y, et2)?);
                }
                return Ok(V::A(Rc::new(r)));
            }
        }
        let (w, w2) = (t.bits() as u16, t2.bits() as u16);
        Ok(match k {
            CastK::Trunc | CastK::Zext => resize(v, w, w2, false),
            CastK::Sext => resize(v, w, w2, true),
            CastK::Same => v.clone(),
            CastK::Bits => match (t, t2) {
                (Ty::Vec(..), _) | (_, Ty::Vec(..)) => {
                    let e = self.to_bits(v, t)?;
                    self.bits_to(&fe(e), w, t2)?
                }
                _ => v.clone(),
            },
            CastK::FpToUi | CastK::FpToSi => {
                let x = self.conc64(st, v)?;
                let f = if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                if matches!(k, CastK::FpToUi) {
                    mk(f as u128, w2)
                } else {
                    mk(f as i128 as u128, w2)
                }
            }
            CastK::UiToFp | CastK::SiToFp => {
                let x = self.conc(st, v)?;
                if w2 == 64 {
                    let f = if matches!(k, CastK::UiToFp) { x as f64 } else { sext(x, w) as f64 };
                    V::C(f.to_bits())
                } else {
                    let f = if matches!(k, CastK::UiToFp) { x as f32 } else { sext(x, w) as f32 };
                    V::C(f.to_bits() as u64)
                }
            }
            CastK::FpExt => {
                let x = self.conc64(st, v)?;
                V::C((f32::from_bits(x as u32) as f64).to_bits())
            }
            CastK::FpTrunc => {
                let x = self.conc64(st, v)?;
                V::C((f64::from_bits(x) as f32).to_bits() as u64)
            }
        })
    }

    fn panic_msg(&mut self, st: &State, f: &Fun, args: &[V]) -> String {
        // a core::panic::Location is {ptr, len, line, col}
        let mut loc = String::new();
        for a in args {
            if let V::C(a) = a {
                let r = (|| -> X<String> {
                    let p = self.load_int(st, *a, 64)?;
                    let n = self.load_int(st, *a + 8, 64)?;
                    let l = self.load_int(st, *a + 16, 32)?;
                    if let (V::C(p), V::C(n), V::C(l)) = (p, n, l) {
                        if n > 3 && n < 300 {
                            let b = self.read_bytes(st, p, n as usize)?;
                            let s: String = b.iter().map(|x| x.0 as char).collect();
                            if s.trim_end_matches('\0').ends_with(".rs") {
                                return Ok(format!("{}:{}", s.trim_end_matches('\0'), l));
                            }
                        }
                    }
                    Err(Stop::Done)
                })();
                if let Ok(s) = r {
                    loc = s;
                }
            }
        }
        format!("panic ({}) at {} in {}", f.name, loc, self.trace(st))
    }
}

/// an expression for "v in set", given that v is in dom
pub fn set_expr(v: E, t: &[u64; 4], dom: &[u64; 4]) -> E {
    let mut acc = ar(|a| a.k(0, 1));
    let mut i = 0usize;
    while i < 256 {
        if dhas(t, i as u8) {
            let lo = i;
            let mut hi = i;
            // extend over values outside of the domain
            let mut j = i + 1;
            while j < 256 && (dhas(t, j as u8) || !dhas(dom, j as u8)) {
                if dhas(t, j as u8) {
                    hi = j;
                }
                j += 1;
            }
            i = hi + 1;
            let c = ar(|a| {
                if lo == hi {
                    let k = a.k(lo as u128, 8);
                    a.eq(v, k)
                } else {
                    let (l, h) = (a.k(lo as u128, 8), a.k(hi as u128, 8));
                    let x = a.bin(Op::Ule, l, v);
                    let y = a.bin(Op::Ule, v, h);
                    a.and1(x, y)
                }
            });
            acc = ar(|a| a.or1(acc, c));
        } else {
            i += 1;
        }
    }
    acc
}

fn insert(a: V, x: &V, ix: &[u32]) -> V {
    match a {
        V::A(mut v) => {
            let m = Rc::make_mut(&mut v);
            let i = ix[0] as usize;
            if ix.len() == 1 {
                m[i] = x.clone();
            } else {
                let old = std::mem::replace(&mut m[i], V::C(0));
                m[i] = insert(old, x, &ix[1..]);
            }
            V::A(v)
        }
        o => o,
    }
}
