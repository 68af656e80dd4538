//! Decoded program: constants resolved, globals laid out, phi nodes turned into edge moves.
use crate::expr::*;
use crate::ll::{self, Callee, Const, Inst, Module, Ty, Val};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    W(u128),
    S(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub enum CastK {
    Trunc,
    Zext,
    Sext,
    Same,
    Bits,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Ret(Option<Opd>),
    Jmp(u32),
    Cond(Opd, u32, u32),
    Switch(u16, Opd, u32, Vec<(u128, u32)>),
    Unreach,
    Bin(Op, u16, u32, Opd, Opd),
    VBin(Op, u16, u32, Opd, Opd),
    FBin(u8, bool, u32, Opd, Opd),
    Cmp(Pred, u16, u32, Opd, Opd),
    VCmp(Pred, u16, u32, Opd, Opd),
    FCmp(String, bool, u32, Opd, Opd),
    FNeg(bool, u32, Opd),
    Select(u32, Opd, Ty, Opd, Opd),
    VSelect(u32, Opd, u16, Opd, Opd),
    Cast(CastK, u32, Ty, Opd, Ty),
    Mov(u32, Opd),
    Alloca(u32, u64),
    DynAlloca(u32, u64, Opd),
    Load(u32, Ty, u16, Opd),
    Store(Ty, u16, Opd, Opd),
    /// dst, base, constant offset, (index, width, scale)*
    Gep(u32, Opd, u64, Vec<(Opd, u16, u64)>),
    ExtractVal(u32, Opd, Vec<u32>),
    InsertVal(u32, Opd, Opd, Vec<u32>),
    ExtractElem(u32, Opd, Opd),
    InsertElem(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<i32>),
    Call(u32, Target, Vec<Opd>, u32),
    Intr(u32, String, Vec<Opd>, Vec<Ty>, Ty),
    Rmw(u32, String, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Nop,
}

#[derive(Clone, Debug)]
pub enum Target {
    Fn(u32),
    Ptr(Opd),
    Asm(String),
}

pub const NONE: u32 = u32::MAX;

pub struct Edge {
    pub pc: u32,
    pub moves: Vec<(u32, Opd)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hook {
    /// Debug rendering of bytes (error message text): renders nothing
    Debug,
    None,
    Panic,
    Ext,
}

pub struct Fun {
    pub name: String,
    pub params: Vec<u32>,
    pub code: Vec<Ins>,
    pub edges: Vec<Edge>,
    pub nregs: u32,
    pub frame: u64,
    pub decl: bool,
    pub hook: Hook,
    pub ret: Ty,
}

pub struct GObj {
    pub data: Vec<u8>,
    pub ro: bool,
    pub name: String,
}

pub struct Prog {
    pub funs: Vec<Fun>,
    pub by_name: HashMap<String, u32>,
    pub globals: Vec<GObj>,
    /// first object id of the globals
    pub gbase: u32,
}

pub const FN_OBJ: u64 = 1;
pub fn fn_addr(i: u32) -> u64 {
    (FN_OBJ << 32) + 64 + (i as u64) * 16
}

pub fn cval(v: u128, w: u32) -> V {
    let v = v & mask(w.max(1) as u16);
    if w <= 64 {
        V::C(v as u64)
    } else {
        V::W(v)
    }
}

/// targets of relative pointers, which are stored as mark plus index
pub static RELATIVE: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(vec![]);
pub const REL_MARK: u64 = 0x5a00_0000;

struct Res<'a> {
    gaddr: &'a HashMap<String, u64>,
}

impl<'a> Res<'a> {
    fn int(&self, ty: &Ty, c: &Const) -> Result<u128, String> {
        Ok(match c {
            Const::Int(x) => *x,
            Const::Undef | Const::Zero => 0,
            Const::Global(g) => *self.gaddr.get(g).ok_or_else(|| format!("unknown global {}", g))? as u128,
            Const::Off(b, o) => (self.int(&Ty::Ptr, b)? as u64).wrapping_add(*o as u64) as u128,
            Const::Cast(k, t, c, t2) => {
                // a relative pointer: remember its target
                if let (32, Const::Bin(op, bt, a, b)) = (t2.bits(), &**c) {
                    if op == "sub" && k == "trunc" {
                        let (x, y) = (self.int(bt, a)? as u64, self.int(bt, b)? as u64);
                        if x >> 32 != y >> 32 {
                            let mut r = RELATIVE.lock().unwrap();
                            r.push(x);
                            return Ok((REL_MARK | (r.len() - 1) as u64) as u128);
                        }
                    }
                }
                let v = self.int(t, c)?;
                v & mask(t2.bits() as u16)
            }
            Const::Bin(op, t, a, b) => {
                let (x, y) = (self.int(t, a)?, self.int(t, b)?);
                let w = t.bits() as u16;
                let o = match op.as_str() {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => return Err(format!("const op {}", op)),
                };
                eval_op(o, w, w, x, y, 0)
            }
            _ => return Err(format!("constant of type {:?}: {:?}", ty, c)),
        })
    }
    fn val(&self, ty: &Ty, c: &Const) -> Result<V, String> {
        Ok(match ty {
            Ty::Arr(n, t) => {
                let n = *n as usize;
                self.agg(n, |_| (**t).clone(), c)?
            }
            Ty::Vec(n, t) => self.agg(*n as usize, |_| (**t).clone(), c)?,
            Ty::Struct(f, _) => self.agg(f.len(), |i| f[i].clone(), c)?,
            Ty::Meta | Ty::Void | Ty::Opaque | Ty::Label => V::C(0),
            _ => cval(self.int(ty, c)?, ty.bits()),
        })
    }
    fn agg(&self, n: usize, t: impl Fn(usize) -> Ty, c: &Const) -> Result<V, String> {
        let mut v = vec![];
        match c {
            Const::Agg(x) => {
                for (t, c) in x {
                    v.push(self.val(t, c)?);
                }
            }
            Const::Bytes(b) => {
                for x in b {
                    v.push(V::C(*x as u64));
                }
            }
            _ => {
                for i in 0..n {
                    v.push(self.val(&t(i), &Const::Zero)?);
                }
            }
        }
        Ok(V::A(Rc::new(v)))
    }
    fn write(&self, ty: &Ty, c: &Const, out: &mut [u8]) -> Result<(), String> {
        match (ty, c) {
            (_, Const::Zero) | (_, Const::Undef) => {}
            (Ty::Arr(..), Const::Bytes(b)) => out[..b.len()].copy_from_slice(b),
            (Ty::Arr(..), Const::Agg(v)) | (Ty::Struct(..), Const::Agg(v)) | (Ty::Vec(..), Const::Agg(v)) => {
                for (i, (t, c)) in v.iter().enumerate() {
                    let o = ty.field_off(i) as usize;
                    let s = t.store_size() as usize;
                    self.write(t, c, &mut out[o..o + s])?;
                }
            }
            _ => {
                let v = self.int(ty, c)?;
                let s = ty.store_size() as usize;
                out[..s].copy_from_slice(&v.to_le_bytes()[..s]);
            }
        }
        Ok(())
    }
}

fn pred(p: &str) -> Pred {
    match p {
        "eq" => Pred::Eq,
        "ne" => Pred::Ne,
        "ult" => Pred::Ult,
        "ule" => Pred::Ule,
        "ugt" => Pred::Ugt,
        "uge" => Pred::Uge,
        "slt" => Pred::Slt,
        "sle" => Pred::Sle,
        "sgt" => Pred::Sgt,
        _ => Pred::Sge,
    }
}

fn sw(ty: &Ty) -> u16 {
    match ty {
        Ty::Int(n) => *n as u16,
        Ty::Ptr | Ty::F64 => 64,
        Ty::F32 => 32,
        _ => 0,
    }
}

pub fn decode(m: Module) -> Result<Prog, String> {
    let mut by_name = HashMap::new();
    let mut gaddr = HashMap::new();
    for (i, f) in m.funcs.iter().enumerate() {
        by_name.insert(f.name.clone(), i as u32);
        gaddr.insert(f.name.clone(), fn_addr(i as u32));
    }
    let gbase = 16u32;
    for (i, g) in m.globals.iter().enumerate() {
        gaddr.insert(g.name.clone(), ((gbase as u64 + i as u64) << 32) + 0);
    }
    // extern_weak functions resolve to null
    {
        let r = Res { gaddr: &gaddr };
        let mut add = vec![];
        for (n, c) in &m.aliases {
            add.push((n.clone(), r.int(&Ty::Ptr, c)? as u64));
        }
        for (n, a) in add {
            if a >> 32 == FN_OBJ {
                by_name.insert(n.clone(), ((a - fn_addr(0)) / 16) as u32);
            }
            gaddr.insert(n, a);
        }
    }
    let res = Res { gaddr: &gaddr };
    let mut globals = vec![];
    for g in &m.globals {
        let s = g.ty.size() as usize;
        let mut data = vec![0u8; s.max(if g.init.is_none() { 16 } else { 0 })];
        if let Some(c) = &g.init {
            res.write(&g.ty, c, &mut data[..g.ty.store_size() as usize])
                .map_err(|e| format!("global {}: {}", g.name, e))?;
        }
        // memchr's table of byte frequencies only guides where a substring search
        // looks first; a constant table keeps that choice from forking
        if data.len() == 256 && data[..10] == [55, 52, 51, 50, 49, 48, 47, 46, 45, 103] {
            data.fill(0);
        }
        globals.push(GObj { data, ro: g.constant, name: g.name.clone() });
    }
    let mut funs = vec![];
    for f in &m.funcs {
        let mut hook = if f.decl { Hook::Ext } else { Hook::None };
        if f.name.contains("4core9panicking") || f.name.contains("3std9panicking11begin_panic") {
            hook = Hook::Panic;
        }
        if is_byte_debug(&f.name) {
            hook = Hook::Debug;
        }
        let fun = decode_fun(f, &res, &by_name, hook).map_err(|e| format!("{}: {}", f.name, e))?;
        funs.push(fun);
    }
    Ok(Prog { funs, by_name, globals, gbase })
}

/// `<T as Debug>::fmt` for T one of u8, [u8], Vec<u8> or references to them
fn is_byte_debug(n: &str) -> bool {
    let Some(i) = n.find("4core3fmt") else { return false };
    if !n.starts_with("_RNvX") || !n.contains("5Debug3fmt") {
        return false;
    }
    let t = n[i + 9..].trim_start_matches('R');
    t.starts_with("hNt") || t.starts_with("ShNt") || (t.starts_with("INt") && t.contains("5alloc3vec3VechENt"))
}

fn decode_fun(f: &ll::Func, res: &Res, by_name: &HashMap<String, u32>, hook: Hook) -> Result<Fun, String> {
    let mut code: Vec<Ins> = vec![];
    let mut edges: Vec<Edge> = vec![];
    let mut edge_tab: HashMap<(u32, u32), u32> = HashMap::new();
    let mut starts = vec![0u32; f.blocks.len()];
    let mut frame = 0u64;
    let o = |ty: &Ty, v: &Val| -> Result<Opd, String> {
        Ok(match v {
            Val::Reg(r) => Opd::R(*r),
            Val::Const(c) => Opd::K(res.val(ty, c)?),
        })
    };
    let mut edge_pairs: Vec<(u32, u32)> = vec![];
    for (bi, b) in f.blocks.iter().enumerate() {
        starts[bi] = code.len() as u32;
        let bi = bi as u32;
        let mut edge = |to: u32| -> u32 {
            *edge_tab.entry((bi, to)).or_insert_with(|| {
                edge_pairs.push((bi, to));
                edge_pairs.len() as u32 - 1
            })
        };
        for i in b {
            let ins = match i {
                Inst::Ret(None) => Ins::Ret(None),
                Inst::Ret(Some((t, v))) => Ins::Ret(Some(o(t, v)?)),
                Inst::Br(l) => Ins::Jmp(edge(*l)),
                Inst::CondBr(v, a, b) => {
                    let (x, y) = (edge(*a), edge(*b));
                    Ins::Cond(o(&Ty::Int(1), v)?, x, y)
                }
                Inst::Switch(t, v, d, cs) => {
                    let d = edge(*d);
                    let cs = cs.iter().map(|(k, l)| (*k, edge(*l))).collect();
                    Ins::Switch(sw(t), o(t, v)?, d, cs)
                }
                Inst::Unreachable | Inst::LandingPad => Ins::Unreach,
                Inst::Bin(op, t, d, a, b) => {
                    if let Some(fo) = ["fadd", "fsub", "fmul", "fdiv", "frem"].iter().position(|x| x == op) {
                        if !matches!(t, Ty::F64 | Ty::F32) {
                            // vector float arithmetic: refused at run time
                            Ins::Intr(*d, format!("vector {}", op), vec![], vec![], t.clone())
                        } else {
                            Ins::FBin(fo as u8, *t == Ty::F64, *d, o(t, a)?, o(t, b)?)
                        }
                    } else {
                        let k = match op.as_str() {
                            "add" => Op::Add,
                            "sub" => Op::Sub,
                            "mul" => Op::Mul,
                            "udiv" => Op::UDiv,
                            "sdiv" => Op::SDiv,
                            "urem" => Op::URem,
                            "srem" => Op::SRem,
                            "shl" => Op::Shl,
                            "lshr" => Op::LShr,
                            "ashr" => Op::AShr,
                            "and" => Op::And,
                            "or" => Op::Or,
                            _ => Op::Xor,
                        };
                        match t {
                            Ty::Vec(_, e) => Ins::VBin(k, sw(e), *d, o(t, a)?, o(t, b)?),
                            _ => Ins::Bin(k, sw(t), *d, o(t, a)?, o(t, b)?),
                        }
                    }
                }
                Inst::FNeg(t, d, v) => Ins::FNeg(*t == Ty::F64, *d, o(t, v)?),
                Inst::Cmp(p, t, d, a, b) => match t {
                    Ty::Vec(_, e) => Ins::VCmp(pred(p), sw(e), *d, o(t, a)?, o(t, b)?),
                    _ => Ins::Cmp(pred(p), sw(t), *d, o(t, a)?, o(t, b)?),
                },
                Inst::FCmp(p, t, d, a, b) => Ins::FCmp(p.clone(), *t == Ty::F64, *d, o(t, a)?, o(t, b)?),
                Inst::Select(d, ct, c, t, a, b) => match ct {
                    Ty::Vec(..) => Ins::VSelect(*d, o(ct, c)?, sw(&t.elem(0)), o(t, a)?, o(t, b)?),
                    _ => Ins::Select(*d, o(ct, c)?, t.clone(), o(t, a)?, o(t, b)?),
                },
                Inst::Cast(k, d, t, v, t2) => {
                    let kk = match k.as_str() {
                        "trunc" => CastK::Trunc,
                        "zext" => CastK::Zext,
                        "sext" => CastK::Sext,
                        "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                            if t2.bits() < t.bits() {
                                CastK::Trunc
                            } else if t2.bits() > t.bits() {
                                CastK::Zext
                            } else {
                                CastK::Same
                            }
                        }
                        "addrspacecast" => CastK::Same,
                        "bitcast" => CastK::Bits,
                        "fptoui" => CastK::FpToUi,
                        "fptosi" => CastK::FpToSi,
                        "uitofp" => CastK::UiToFp,
                        "sitofp" => CastK::SiToFp,
                        "fpext" => CastK::FpExt,
                        _ => CastK::FpTrunc,
                    };
                    Ins::Cast(kk, *d, t.clone(), o(t, v)?, t2.clone())
                }
                Inst::Freeze(d, t, v) => Ins::Mov(*d, o(t, v)?),
                Inst::Alloca(d, t, n, al) => {
                    let k = match n {
                        None => Some(1),
                        Some((_, Val::Const(Const::Int(k)))) => Some(*k as u64),
                        _ => None,
                    };
                    match k {
                        Some(k) => {
                            frame = ll::round_up(frame, (*al).max(8));
                            let off = frame;
                            frame += (t.size() * k).max(1);
                            // a guard gap, so that neighbouring slots do not touch
                            frame += 8;
                            Ins::Alloca(*d, off)
                        }
                        None => {
                            let (nt, v) = n.as_ref().unwrap();
                            Ins::DynAlloca(*d, t.size(), o(nt, v)?)
                        }
                    }
                }
                Inst::Load(d, t, p) => Ins::Load(*d, t.clone(), sw(t), o(&Ty::Ptr, p)?),
                Inst::Store(t, v, p) => Ins::Store(t.clone(), sw(t), o(t, v)?, o(&Ty::Ptr, p)?),
                Inst::Gep(d, t, p, ix) => {
                    let mut off = 0u64;
                    let mut dynv = vec![];
                    let mut cur = t.clone();
                    for (j, (it, v)) in ix.iter().enumerate() {
                        let w = sw(it);
                        if j > 0 {
                            if let Ty::Struct(..) = cur {
                                let k = match v {
                                    Val::Const(c) => res.int(it, c)? as usize,
                                    _ => return Err("struct gep".into()),
                                };
                                off = off.wrapping_add(cur.field_off(k));
                                cur = cur.elem(k);
                                continue;
                            }
                            cur = cur.elem(0);
                        }
                        let sc = cur.size();
                        match v {
                            Val::Const(c) => {
                                let k = sext(res.int(it, c)?, w) as i64;
                                off = off.wrapping_add((k as u64).wrapping_mul(sc));
                            }
                            Val::Reg(r) => dynv.push((Opd::R(*r), w, sc)),
                        }
                    }
                    Ins::Gep(*d, o(&Ty::Ptr, p)?, off, dynv)
                }
                Inst::Phi(..) => continue,
                Inst::ExtractVal(d, t, v, ix) => Ins::ExtractVal(*d, o(t, v)?, ix.clone()),
                Inst::InsertVal(d, t, v, t2, v2, ix) => Ins::InsertVal(*d, o(t, v)?, o(t2, v2)?, ix.clone()),
                Inst::ExtractElem(d, t, v, i) => Ins::ExtractElem(*d, o(t, v)?, o(&Ty::Int(64), i)?),
                Inst::InsertElem(d, t, v, x, i) => {
                    Ins::InsertElem(*d, o(t, v)?, o(&t.elem(0), x)?, o(&Ty::Int(64), i)?)
                }
                Inst::Shuffle(d, t, a, b, m) => Ins::Shuffle(*d, o(t, a)?, o(t, b)?, m.clone()),
                Inst::Call(d, rt, c, args, norm) => {
                    let mut av = vec![];
                    for (t, v) in args {
                        av.push(o(t, v)?);
                    }
                    let e = norm.map(|l| edge(l)).unwrap_or(NONE);
                    let d = d.unwrap_or(NONE);
                    match c {
                        Callee::Name(n) if n.starts_with("llvm.") => {
                            let tys = args.iter().map(|x| x.0.clone()).collect();
                            let ins = Ins::Intr(d, n[5..].to_string(), av, tys, rt.clone());
                            if e != NONE {
                                code.push(ins);
                                Ins::Jmp(e)
                            } else {
                                ins
                            }
                        }
                        Callee::Name(n) => {
                            let t = *by_name.get(n).ok_or_else(|| format!("unknown function {}", n))?;
                            Ins::Call(d, Target::Fn(t), av, e)
                        }
                        Callee::Reg(v) => Ins::Call(d, Target::Ptr(o(&Ty::Ptr, v)?), av, e),
                        Callee::Asm(s) => Ins::Call(d, Target::Asm(s.clone()), av, e),
                    }
                }
                Inst::AtomicRmw(d, op, t, p, v) => Ins::Rmw(*d, op.clone(), t.clone(), o(&Ty::Ptr, p)?, o(t, v)?),
                Inst::CmpXchg(d, t, p, a, b) => Ins::CmpXchg(*d, t.clone(), o(&Ty::Ptr, p)?, o(t, a)?, o(t, b)?),
                Inst::Fence => Ins::Nop,
            };
            code.push(ins);
        }
    }
    for (from, to) in edge_pairs {
        let mut moves = vec![];
        for i in &f.blocks[to as usize] {
            if let Inst::Phi(d, t, vs) = i {
                match vs.iter().find(|x| x.1 == from) {
                    Some((v, _)) => {
                        let v = o(t, v)?;
                        if let Opd::R(r) = v {
                            if r == *d {
                                continue;
                            }
                        }
                        moves.push((*d, v))
                    }
                    None => return Err("phi without incoming value".into()),
                }
            }
        }
        edges.push(Edge { pc: starts[to as usize], moves });
    }
    Ok(Fun {
        name: f.name.clone(),
        params: f.params.iter().map(|x| x.1).collect(),
        code,
        edges,
        nregs: f.nregs,
        frame,
        decl: f.decl,
        hook,
        ret: f.ret.clone(),
    })
}
