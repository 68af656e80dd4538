//! Parser for textual LLVM IR (the subset rustc emits) into a pre-decoded form.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Meta,
    Label,
    Opaque,
}

pub fn round_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => (*n as u64 + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = round_up(o, t.align());
                    }
                    o += t.size();
                }
                if !packed {
                    o = round_up(o, self.align());
                }
                o
            }
            Ty::Vec(n, t) => match **t {
                Ty::Int(b) => (*n as u64 * b as u64 + 7) / 8,
                _ => *n as u64 * t.size(),
            },
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 {
        round_up(self.store_size(), self.align())
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        o = round_up(o, t.align());
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Undef,
    Zero,
    Global(String),
    /// base + byte offset
    Off(Box<Const>, i64),
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Const)>),
    Bin(String, Ty, Box<Const>, Box<Const>),
    Cast(String, Ty, Box<Const>, Ty),
}

#[derive(Clone, Debug)]
pub enum Val {
    Reg(u32),
    Const(Const),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Ret(Option<(Ty, Val)>),
    Br(u32),
    CondBr(Val, u32, u32),
    Switch(Ty, Val, u32, Vec<(u128, u32)>),
    Unreachable,
    Bin(String, Ty, u32, Val, Val),
    FNeg(Ty, u32, Val),
    Cmp(String, Ty, u32, Val, Val),
    FCmp(String, Ty, u32, Val, Val),
    Select(u32, Ty, Val, Ty, Val, Val),
    Cast(String, u32, Ty, Val, Ty),
    Freeze(u32, Ty, Val),
    Alloca(u32, Ty, Option<(Ty, Val)>, u64),
    Load(u32, Ty, Val),
    Store(Ty, Val, Val),
    Gep(u32, Ty, Val, Vec<(Ty, Val)>),
    Phi(u32, Ty, Vec<(Val, u32)>),
    ExtractVal(u32, Ty, Val, Vec<u32>),
    InsertVal(u32, Ty, Val, Ty, Val, Vec<u32>),
    ExtractElem(u32, Ty, Val, Val),
    InsertElem(u32, Ty, Val, Val, Val),
    Shuffle(u32, Ty, Val, Val, Vec<i32>),
    /// dst, ret type, callee, args, normal successor (invoke)
    Call(Option<u32>, Ty, Callee, Vec<(Ty, Val)>, Option<u32>),
    AtomicRmw(u32, String, Ty, Val, Val),
    CmpXchg(u32, Ty, Val, Val, Val),
    Fence,
    LandingPad,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(String),
    Reg(Val),
    Asm(String),
}

pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub blocks: Vec<Vec<Inst>>,
    pub nregs: u32,
    pub decl: bool,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub aliases: Vec<(String, Const)>,
}

#[derive(Clone, PartialEq, Debug)]
enum T {
    Local(String),
    Global(String),
    Word(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Meta,
    Nl,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    p: usize,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn quoted(&mut self) -> Vec<u8> {
        // at the opening quote
        self.p += 1;
        let mut v = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                let h = |c: u8| (c as char).to_digit(16);
                if self.s[self.p + 1] == b'\\' {
                    v.push(b'\\');
                    self.p += 2;
                    continue;
                }
                if let (Some(a), Some(b)) = (h(self.s[self.p + 1]), h(self.s[self.p + 2])) {
                    v.push((a * 16 + b) as u8);
                    self.p += 3;
                    continue;
                }
            }
            v.push(self.s[self.p]);
            self.p += 1;
        }
        self.p += 1;
        v
    }
    fn next(&mut self) -> T {
        let s = self.s;
        while self.p < s.len() && (s[self.p] == b' ' || s[self.p] == b'\t') {
            self.p += 1;
        }
        if self.p >= s.len() {
            return T::Eof;
        }
        let c = s[self.p];
        match c {
            b'\n' => {
                self.p += 1;
                T::Nl
            }
            b';' => {
                while self.p < s.len() && s[self.p] != b'\n' {
                    self.p += 1;
                }
                self.next()
            }
            b'%' | b'@' => {
                self.p += 1;
                let name = if s[self.p] == b'"' {
                    String::from_utf8_lossy(&self.quoted()).into_owned()
                } else {
                    let st = self.p;
                    while self.p < s.len() && idc(s[self.p]) {
                        self.p += 1;
                    }
                    String::from_utf8_lossy(&s[st..self.p]).into_owned()
                };
                if c == b'%' {
                    T::Local(name)
                } else {
                    T::Global(name)
                }
            }
            b'!' => {
                self.p += 1;
                if self.p < s.len() && s[self.p] == b'"' {
                    self.quoted();
                } else {
                    while self.p < s.len() && (idc(s[self.p]) || s[self.p] == b'\\') {
                        self.p += 1;
                    }
                }
                T::Meta
            }
            b'#' => {
                self.p += 1;
                while self.p < s.len() && s[self.p].is_ascii_digit() {
                    self.p += 1;
                }
                T::Meta
            }
            b'"' => T::Str(self.quoted()),
            b'-' | b'0'..=b'9' => {
                let st = self.p;
                self.p += 1;
                while self.p < s.len() && (s[self.p].is_ascii_alphanumeric() || matches!(s[self.p], b'.' | b'+' | b'-')) {
                    self.p += 1;
                }
                T::Num(String::from_utf8_lossy(&s[st..self.p]).into_owned())
            }
            b'c' if self.p + 1 < s.len() && s[self.p + 1] == b'"' => {
                self.p += 1;
                T::CStr(self.quoted())
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = self.p;
                while self.p < s.len() && idc(s[self.p]) {
                    self.p += 1;
                }
                T::Word(String::from_utf8_lossy(&s[st..self.p]).into_owned())
            }
            _ => {
                self.p += 1;
                T::P(c as char)
            }
        }
    }
}

struct Ps<'a> {
    lx: Lex<'a>,
    t: T,
    types: HashMap<String, Ty>,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

type R<X> = Result<X, String>;

impl<'a> Ps<'a> {
    fn adv(&mut self) -> T {
        let n = self.lx.next();
        std::mem::replace(&mut self.t, n)
    }
    fn err<X>(&self, m: &str) -> R<X> {
        let p = self.lx.p;
        let s = &self.lx.s[p.saturating_sub(160)..(p + 80).min(self.lx.s.len())];
        Err(format!("{} at token {:?} near: {}", m, self.t, String::from_utf8_lossy(s)))
    }
    fn is(&self, c: char) -> bool {
        self.t == T::P(c)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(&self.t, T::Word(x) if x == w)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            self.err(&format!("expected '{}'", c))
        }
    }
    fn skip_line(&mut self) {
        while self.t != T::Nl && self.t != T::Eof {
            self.adv();
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.adv() {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => return,
                _ => {}
            }
        }
    }
    fn is_type(&self) -> bool {
        match &self.t {
            T::Word(w) => {
                matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "opaque")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P('{') | T::P('[') | T::P('<') => true,
            T::Local(n) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn skip_attrs_to_type(&mut self) {
        while !self.is_type() {
            match &self.t {
                T::Word(_) | T::Str(_) | T::Meta | T::Num(_) | T::P('=') => {
                    self.adv();
                    if self.is('(') {
                        self.skip_parens();
                    }
                }
                _ => return,
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.adv() {
            T::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "opaque" | "token" | "half" | "fp128" | "x86_fp80" => Ty::Opaque,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
                _ => return self.err(&format!("type {}", w)),
            },
            T::Local(n) => match self.types.get(&n) {
                Some(t) => t.clone(),
                None => return self.err(&format!("unknown type {}", n)),
            },
            T::P('[') => {
                let n = self.num()? as u64;
                if !self.eatw("x") {
                    return self.err("x");
                }
                let t = self.ty()?;
                self.exp(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            T::P('{') => {
                let f = self.tylist('}')?;
                Ty::Struct(Rc::new(f), false)
            }
            T::P('<') => {
                if self.eat('{') {
                    let f = self.tylist('}')?;
                    self.exp('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num()? as u32;
                    if !self.eatw("x") {
                        return self.err("x");
                    }
                    let t = self.ty()?;
                    self.exp('>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            x => return self.err(&format!("type {:?}", x)),
        };
        Ok(t)
    }
    fn tylist(&mut self, end: char) -> R<Vec<Ty>> {
        let mut f = vec![];
        if self.eat(end) {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eat(end) {
                return Ok(f);
            }
            self.exp(',')?;
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.adv() {
            T::Num(s) => s.parse::<i128>().map_err(|_| format!("number {}", s)),
            _ => self.err("number"),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn blk(&mut self, n: &str) -> u32 {
        let l = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(l)
    }
    fn cst(&mut self, ty: &Ty) -> R<Const> {
        match self.adv() {
            T::Num(s) => self.numc(&s, ty),
            T::Global(g) => Ok(Const::Global(g)),
            T::CStr(b) => Ok(Const::Bytes(b)),
            T::P('[') => {
                let v = self.clist(']')?;
                Ok(Const::Agg(v))
            }
            T::P('{') => {
                let v = self.clist('}')?;
                Ok(Const::Agg(v))
            }
            T::P('<') => {
                if self.eat('{') {
                    let v = self.clist('}')?;
                    self.exp('>')?;
                    Ok(Const::Agg(v))
                } else {
                    let v = self.clist('>')?;
                    Ok(Const::Agg(v))
                }
            }
            T::Word(w) => match w.as_str() {
                "true" => Ok(Const::Int(1)),
                "false" => Ok(Const::Int(0)),
                "null" | "zeroinitializer" | "none" => Ok(Const::Zero),
                "undef" | "poison" => Ok(Const::Undef),
                "splat" => {
                    self.exp('(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    self.exp(')')?;
                    let n = match ty {
                        Ty::Vec(n, _) => *n as usize,
                        Ty::Arr(n, _) => *n as usize,
                        _ => return self.err("splat"),
                    };
                    Ok(Const::Agg(vec![(t, c); n]))
                }
                "getelementptr" => {
                    while matches!(&self.t, T::Word(_)) {
                        self.adv();
                    }
                    self.exp('(')?;
                    if self.is('(') {
                        self.skip_parens();
                        self.exp('(')?;
                    }
                    let mut t = self.ty()?;
                    self.exp(',')?;
                    let pt = self.ty()?;
                    let base = self.cst(&pt)?;
                    let mut off = 0i64;
                    let mut first = true;
                    while self.eat(',') {
                        let it = self.ty()?;
                        let i = match self.cst(&it)? {
                            Const::Int(x) => crate::expr::sext(x, it.bits() as u16) as i64,
                            Const::Zero => 0,
                            _ => return self.err("gep index"),
                        };
                        if first {
                            off += i * t.size() as i64;
                            first = false;
                        } else {
                            off += match &t {
                                Ty::Struct(..) => t.field_off(i as usize) as i64,
                                _ => i * t.elem(0).size() as i64,
                            };
                            t = t.elem(if let Ty::Struct(..) = t { i as usize } else { 0 });
                        }
                    }
                    self.exp(')')?;
                    Ok(Const::Off(Box::new(base), off))
                }
                "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "addrspacecast" | "zext" | "ptrtoaddr" => {
                    self.exp('(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    if !self.eatw("to") {
                        return self.err("to");
                    }
                    let t2 = self.ty()?;
                    self.exp(')')?;
                    Ok(Const::Cast(w, t, Box::new(c), t2))
                }
                "sub" | "add" | "and" | "or" | "xor" | "shl" | "lshr" | "mul" => {
                    while matches!(&self.t, T::Word(_)) {
                        self.adv();
                    }
                    self.exp('(')?;
                    let t = self.ty()?;
                    let a = self.cst(&t)?;
                    self.exp(',')?;
                    let t2 = self.ty()?;
                    let b = self.cst(&t2)?;
                    self.exp(')')?;
                    Ok(Const::Bin(w, t, Box::new(a), Box::new(b)))
                }
                "dso_local_equivalent" | "no_cfi" => self.cst(ty),
                "inf" => Ok(Const::Int(if *ty == Ty::F32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 })),
                "nan" | "qnan" => Ok(Const::Int(if *ty == Ty::F32 { 0x7fc0_0000 } else { 0x7ff8_0000_0000_0000 })),
                _ if w.starts_with("f0x") => Ok(Const::Int(u128::from_str_radix(&w[3..], 16).map_err(|_| w.clone())?)),
                _ => self.err(&format!("constant {}", w)),
            },
            T::P('+') => self.cst(ty),
            T::P('-') => match self.cst(ty)? {
                Const::Int(x) => Ok(Const::Int(x ^ 1 << (ty.bits() - 1))),
                _ => self.err("negated constant"),
            },
            x => self.err(&format!("constant {:?}", x)),
        }
    }
    fn clist(&mut self, end: char) -> R<Vec<(Ty, Const)>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            let c = self.cst(&t)?;
            v.push((t, c));
            if self.eat(end) {
                return Ok(v);
            }
            self.exp(',')?;
        }
    }
    fn numc(&mut self, s: &str, ty: &Ty) -> R<Const> {
        match ty {
            Ty::F64 | Ty::F32 => {
                let bits = if let Some(h) = s.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).map_err(|_| format!("float {}", s))?
                } else {
                    s.parse::<f64>().map_err(|_| format!("float {}", s))?.to_bits()
                };
                if *ty == Ty::F32 {
                    Ok(Const::Int((f64::from_bits(bits) as f32).to_bits() as u128))
                } else {
                    Ok(Const::Int(bits as u128))
                }
            }
            _ => {
                let v: u128 = if let Ok(x) = s.parse::<i128>() {
                    x as u128
                } else if let Ok(x) = s.parse::<u128>() {
                    x
                } else {
                    return self.err(&format!("integer {}", s));
                };
                let b = ty.bits();
                Ok(Const::Int(v & crate::expr::mask(b.max(1) as u16)))
            }
        }
    }
    fn val(&mut self, ty: &Ty) -> R<Val> {
        if let T::Local(_) = &self.t {
            if let T::Local(n) = self.adv() {
                return Ok(Val::Reg(self.reg(&n)));
            }
        }
        Ok(Val::Const(self.cst(ty)?))
    }
    /// skips parameter attributes, then parses a value
    fn arg(&mut self, ty: &Ty) -> R<Val> {
        loop {
            match &self.t {
                T::Word(w)
                    if !matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr"
                            | "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "addrspacecast" | "sub" | "add" | "and" | "or"
                            | "xor" | "dso_local_equivalent" | "no_cfi"
                    ) =>
                {
                    let al = w == "align";
                    self.adv();
                    if self.is('(') {
                        self.skip_parens();
                    } else if al {
                        self.adv();
                    }
                }
                T::Str(_) => {
                    self.adv();
                    if self.eat('=') {
                        self.adv();
                    }
                }
                _ => break,
            }
        }
        self.val(ty)
    }
    fn label(&mut self) -> R<u32> {
        if !self.eatw("label") {
            return self.err("label");
        }
        match self.adv() {
            T::Local(n) => Ok(self.blk(&n)),
            _ => self.err("label name"),
        }
    }
    fn skip_flags(&mut self, fl: &[&str]) {
        while let T::Word(w) = &self.t {
            if fl.contains(&w.as_str()) {
                self.adv();
            } else {
                break;
            }
        }
    }
    fn inst(&mut self) -> R<Option<Inst>> {
        let mut dst = None;
        if let T::Local(n) = &self.t {
            let n = n.clone();
            self.adv();
            self.exp('=')?;
            dst = Some(self.reg(&n));
        }
        let mut w = match self.adv() {
            T::Word(w) => w,
            x => return self.err(&format!("opcode {:?}", x)),
        };
        if matches!(w.as_str(), "tail" | "musttail" | "notail") {
            w = match self.adv() {
                T::Word(w) => w,
                _ => return self.err("call"),
            };
        }
        let d = dst.unwrap_or(u32::MAX);
        let ff = ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
        let i = match w.as_str() {
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    let v = self.val(&t)?;
                    Inst::Ret(Some((t, v)))
                }
            }
            "br" => {
                if self.isw("label") {
                    Inst::Br(self.label()?)
                } else {
                    let t = self.ty()?;
                    let v = self.val(&t)?;
                    self.exp(',')?;
                    let a = self.label()?;
                    self.exp(',')?;
                    let b = self.label()?;
                    Inst::CondBr(v, a, b)
                }
            }
            "switch" => {
                let t = self.ty()?;
                let v = self.val(&t)?;
                self.exp(',')?;
                let def = self.label()?;
                self.exp('[')?;
                let mut cs = vec![];
                loop {
                    while self.t == T::Nl {
                        self.adv();
                    }
                    if self.eat(']') {
                        break;
                    }
                    let ct = self.ty()?;
                    let c = match self.cst(&ct)? {
                        Const::Int(x) => x,
                        Const::Zero => 0,
                        _ => return self.err("case"),
                    };
                    self.exp(',')?;
                    let l = self.label()?;
                    cs.push((c, l));
                }
                Inst::Switch(t, v, def, cs)
            }
            "unreachable" => Inst::Unreachable,
            "resume" => {
                self.skip_line();
                Inst::Unreachable
            }
            "landingpad" => {
                self.skip_line();
                // clause lines
                loop {
                    let save = self.lx.p;
                    let st = self.t.clone();
                    if self.t == T::Nl {
                        self.adv();
                        if self.isw("catch") || self.isw("filter") || self.isw("cleanup") {
                            self.skip_line();
                            continue;
                        }
                        self.lx.p = save;
                        self.t = st;
                    }
                    break;
                }
                Inst::LandingPad
            }
            "fneg" => {
                self.skip_flags(&ff);
                let t = self.ty()?;
                let v = self.val(&t)?;
                Inst::FNeg(t, d, v)
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor"
            | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_flags(&["nuw", "nsw", "exact", "disjoint"]);
                self.skip_flags(&ff);
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(',')?;
                let b = self.val(&t)?;
                Inst::Bin(w, t, d, a, b)
            }
            "icmp" => {
                self.skip_flags(&["samesign"]);
                let p = match self.adv() {
                    T::Word(p) => p,
                    _ => return self.err("pred"),
                };
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(',')?;
                let b = self.val(&t)?;
                Inst::Cmp(p, t, d, a, b)
            }
            "fcmp" => {
                self.skip_flags(&ff);
                let p = match self.adv() {
                    T::Word(p) => p,
                    _ => return self.err("pred"),
                };
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(',')?;
                let b = self.val(&t)?;
                Inst::FCmp(p, t, d, a, b)
            }
            "select" => {
                self.skip_flags(&ff);
                let ct = self.ty()?;
                let c = self.val(&ct)?;
                self.exp(',')?;
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(',')?;
                let t2 = self.ty()?;
                let b = self.val(&t2)?;
                Inst::Select(d, ct, c, t, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "fptoui" | "fptosi"
            | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "ptrtoaddr" => {
                self.skip_flags(&["nuw", "nsw", "nneg"]);
                let t = self.ty()?;
                let v = self.val(&t)?;
                if !self.eatw("to") {
                    return self.err("to");
                }
                let t2 = self.ty()?;
                Inst::Cast(w, d, t, v, t2)
            }
            "freeze" => {
                let t = self.ty()?;
                let v = self.val(&t)?;
                Inst::Freeze(d, t, v)
            }
            "alloca" => {
                self.skip_flags(&["inalloca", "swifterror"]);
                let t = self.ty()?;
                let mut n = None;
                let mut al = t.align();
                while self.eat(',') {
                    if self.eatw("align") {
                        al = self.num()? as u64;
                    } else if self.is_type() {
                        let nt = self.ty()?;
                        let v = self.val(&nt)?;
                        n = Some((nt, v));
                    } else {
                        break;
                    }
                }
                Inst::Alloca(d, t, n, al)
            }
            "load" => {
                self.skip_flags(&["atomic", "volatile"]);
                let t = self.ty()?;
                self.exp(',')?;
                let pt = self.ty()?;
                let p = self.val(&pt)?;
                Inst::Load(d, t, p)
            }
            "store" => {
                self.skip_flags(&["atomic", "volatile"]);
                let t = self.ty()?;
                let v = self.val(&t)?;
                self.exp(',')?;
                let pt = self.ty()?;
                let p = self.val(&pt)?;
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                while matches!(&self.t, T::Word(w) if matches!(w.as_str(), "inbounds" | "nuw" | "nusw" | "inrange")) {
                    self.adv();
                }
                let t = self.ty()?;
                self.exp(',')?;
                let pt = self.ty()?;
                let p = self.val(&pt)?;
                let mut ix = vec![];
                while self.eat(',') {
                    if !self.is_type() {
                        break;
                    }
                    let it = self.ty()?;
                    let v = self.val(&it)?;
                    ix.push((it, v));
                }
                Inst::Gep(d, t, p, ix)
            }
            "phi" => {
                self.skip_flags(&ff);
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    if !self.eat('[') {
                        break;
                    }
                    let x = self.val(&t)?;
                    self.exp(',')?;
                    let b = match self.adv() {
                        T::Local(n) => self.blk(&n),
                        _ => return self.err("phi block"),
                    };
                    self.exp(']')?;
                    v.push((x, b));
                    if !self.eat(',') {
                        break;
                    }
                }
                Inst::Phi(d, t, v)
            }
            "extractvalue" => {
                let t = self.ty()?;
                let v = self.val(&t)?;
                let mut ix = vec![];
                while self.eat(',') {
                    if let T::Num(_) = self.t {
                        ix.push(self.num()? as u32);
                    } else {
                        break;
                    }
                }
                Inst::ExtractVal(d, t, v, ix)
            }
            "insertvalue" => {
                let t = self.ty()?;
                let v = self.val(&t)?;
                self.exp(',')?;
                let t2 = self.ty()?;
                let v2 = self.val(&t2)?;
                let mut ix = vec![];
                while self.eat(',') {
                    if let T::Num(_) = self.t {
                        ix.push(self.num()? as u32);
                    } else {
                        break;
                    }
                }
                Inst::InsertVal(d, t, v, t2, v2, ix)
            }
            "extractelement" => {
                let t = self.ty()?;
                let v = self.val(&t)?;
                self.exp(',')?;
                let t2 = self.ty()?;
                let i = self.val(&t2)?;
                Inst::ExtractElem(d, t, v, i)
            }
            "insertelement" => {
                let t = self.ty()?;
                let v = self.val(&t)?;
                self.exp(',')?;
                let t2 = self.ty()?;
                let x = self.val(&t2)?;
                self.exp(',')?;
                let t3 = self.ty()?;
                let i = self.val(&t3)?;
                Inst::InsertElem(d, t, v, x, i)
            }
            "shufflevector" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(',')?;
                let t2 = self.ty()?;
                let b = self.val(&t2)?;
                self.exp(',')?;
                let mt = self.ty()?;
                let m = self.cst(&mt)?;
                let n = match &mt {
                    Ty::Vec(n, _) => *n as usize,
                    _ => return self.err("mask"),
                };
                let m = match m {
                    Const::Agg(v) => v
                        .into_iter()
                        .map(|x| match x.1 {
                            Const::Int(i) => i as i32,
                            Const::Zero => 0,
                            _ => -1,
                        })
                        .collect(),
                    Const::Zero => vec![0; n],
                    _ => vec![-1; n],
                };
                Inst::Shuffle(d, t, a, b, m)
            }
            "call" | "invoke" => {
                self.skip_attrs_to_type();
                let rt = self.ty()?;
                if self.is('(') {
                    self.skip_parens();
                }
                let callee = match &self.t {
                    T::Global(g) => {
                        let g = g.clone();
                        self.adv();
                        Callee::Name(g)
                    }
                    T::Word(x) if x == "asm" => {
                        self.adv();
                        self.skip_flags(&["sideeffect", "alignstack", "inteldialect", "unwind"]);
                        let mut s = String::new();
                        if let T::Str(b) = self.adv() {
                            s = String::from_utf8_lossy(&b).into_owned();
                        }
                        self.exp(',')?;
                        self.adv();
                        Callee::Asm(s)
                    }
                    _ => Callee::Reg(self.val(&Ty::Ptr)?),
                };
                self.exp('(')?;
                let mut args = vec![];
                if !self.eat(')') {
                    loop {
                        let t = self.ty()?;
                        if t == Ty::Meta {
                            while !self.is(',') && !self.is(')') {
                                if self.is('(') {
                                    self.skip_parens();
                                } else {
                                    self.adv();
                                }
                            }
                            args.push((t, Val::Const(Const::Undef)));
                        } else {
                            let v = self.arg(&t)?;
                            args.push((t, v));
                        }
                        if self.eat(')') {
                            break;
                        }
                        self.exp(',')?;
                    }
                }
                let mut norm = None;
                if w == "invoke" {
                    while !self.isw("to") {
                        self.adv();
                    }
                    self.adv();
                    norm = Some(self.label()?);
                    self.skip_line();
                }
                Inst::Call(dst, rt, callee, args, norm)
            }
            "atomicrmw" => {
                self.skip_flags(&["volatile"]);
                let op = match self.adv() {
                    T::Word(p) => p,
                    _ => return self.err("rmw"),
                };
                let pt = self.ty()?;
                let p = self.val(&pt)?;
                self.exp(',')?;
                let t = self.ty()?;
                let v = self.val(&t)?;
                Inst::AtomicRmw(d, op, t, p, v)
            }
            "cmpxchg" => {
                self.skip_flags(&["weak", "volatile"]);
                let pt = self.ty()?;
                let p = self.val(&pt)?;
                self.exp(',')?;
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(',')?;
                let t2 = self.ty()?;
                let b = self.val(&t2)?;
                Inst::CmpXchg(d, t, p, a, b)
            }
            "fence" => Inst::Fence,
            _ => return self.err(&format!("unknown opcode {}", w)),
        };
        self.skip_line();
        Ok(Some(i))
    }
}

const SKIP: [&str; 5] = [
    "@llvm.experimental.noalias.scope.decl",
    "@llvm.lifetime.",
    "@llvm.assume",
    "@llvm.dbg",
    "@llvm.invariant",
];

pub fn parse(src: &str) -> R<Module> {
    let mut m = Module { funcs: vec![], globals: vec![], aliases: vec![] };
    let bytes = src.as_bytes();
    let mut p = Ps {
        lx: Lex { s: bytes, p: 0 },
        t: T::Nl,
        types: HashMap::new(),
        regs: HashMap::new(),
        blocks: HashMap::new(),
    };
    let line_end = |pos: usize| src[pos..].find('\n').map(|x| pos + x).unwrap_or(src.len());
    let mut pos = 0;
    while pos < src.len() {
        let le = line_end(pos);
        let line = &src[pos..le];
        if line.starts_with('@') {
            p.lx.p = pos;
            p.t = T::Nl;
            p.adv();
            let name = match p.adv() {
                T::Global(g) => g,
                _ => return p.err("global"),
            };
            p.exp('=')?;
            let mut kind = String::new();
            let mut ext = false;
            loop {
                match p.adv() {
                    T::Word(w) => {
                        if matches!(w.as_str(), "global" | "constant" | "alias") {
                            kind = w;
                            break;
                        }
                        if w == "external" || w == "extern_weak" {
                            ext = true;
                        }
                        if p.is('(') {
                            p.skip_parens();
                        }
                    }
                    T::Nl | T::Eof => break,
                    _ => {}
                }
            }
            if kind == "alias" {
                let _ = p.ty()?;
                if p.is('(') {
                    p.skip_parens();
                }
                p.exp(',')?;
                let t = p.ty()?;
                let c = p.cst(&t)?;
                m.aliases.push((name, c));
            } else {
                let ty = p.ty()?;
                let init = if ext || p.is(',') || p.t == T::Nl { None } else { Some(p.cst(&ty)?) };
                m.globals.push(Global { name, ty, init, constant: kind == "constant" });
            }
        } else if line.starts_with('%') {
            p.lx.p = pos;
            p.t = T::Nl;
            p.adv();
            let name = match p.adv() {
                T::Local(g) => g,
                _ => return p.err("type"),
            };
            p.exp('=')?;
            p.eatw("type");
            let t = p.ty()?;
            p.types.insert(name, t);
        } else if line.starts_with("define") || line.starts_with("declare") {
            let decl = line.starts_with("declare");
            p.lx.p = pos;
            p.t = T::Nl;
            p.adv();
            p.adv();
            p.regs.clear();
            p.blocks.clear();
            // return type: first type-like token
            while !p.is_type() {
                if p.is('(') {
                    p.skip_parens();
                } else {
                    p.adv();
                }
            }
            let ret = p.ty()?;
            let name = match p.adv() {
                T::Global(g) => g,
                _ => return p.err("function name"),
            };
            p.exp('(')?;
            let mut params = vec![];
            let mut unnamed = 0;
            if !p.eat(')') {
                loop {
                    if p.is('.') || matches!(&p.t, T::Word(w) if w.starts_with('.')) {
                        p.adv();
                        while !p.is(')') {
                            p.adv();
                        }
                    } else {
                        let t = p.ty()?;
                        // attributes up to the name
                        let mut nm = None;
                        while !p.is(',') && !p.is(')') {
                            if p.is('(') {
                                p.skip_parens();
                                continue;
                            }
                            if let T::Local(n) = &p.t {
                                nm = Some(n.clone());
                            }
                            p.adv();
                        }
                        let r = match nm {
                            Some(n) => {
                                if n.bytes().all(|c| c.is_ascii_digit()) {
                                    unnamed += 1;
                                }
                                p.reg(&n)
                            }
                            None => {
                                let k = format!("\u{1}{}", params.len());
                                p.reg(&k)
                            }
                        };
                        params.push((t, r));
                    }
                    if p.eat(')') {
                        break;
                    }
                    p.exp(',')?;
                }
            }
            let mut blocks: Vec<Vec<Inst>> = vec![];
            if !decl {
                pos = le + 1;
                let mut cur: Option<u32> = None;
                let mut defs: HashMap<u32, Vec<Inst>> = HashMap::new();
                loop {
                    let le = line_end(pos);
                    let line = &src[pos..le];
                    if line.starts_with('}') {
                        pos = le;
                        break;
                    }
                    if line.is_empty() || line.starts_with(';') {
                        pos = le + 1;
                        continue;
                    }
                    if !line.starts_with(' ') {
                        // label
                        let nm = if line.starts_with('"') {
                            let mut lx = Lex { s: bytes, p: pos };
                            String::from_utf8_lossy(&lx.quoted()).into_owned()
                        } else {
                            line[..line.find(':').ok_or("label")?].to_string()
                        };
                        let b = p.blk(&nm);
                        cur = Some(b);
                        defs.entry(b).or_default();
                        pos = le + 1;
                        continue;
                    }
                    if line.contains("@llvm.") && SKIP.iter().any(|s| line.contains(s)) || line.trim_start().starts_with("#dbg") {
                        pos = le + 1;
                        continue;
                    }
                    if cur.is_none() {
                        // unnamed entry block
                        let b = p.blk(&unnamed.to_string());
                        cur = Some(b);
                        defs.entry(b).or_default();
                    }
                    p.lx.p = pos;
                    p.t = T::Nl;
                    p.adv();
                    let i = p.inst().map_err(|e| format!("{} (in {})", e, name))?;
                    if let Some(i) = i {
                        defs.get_mut(&cur.unwrap()).unwrap().push(i);
                    }
                    // position after the current newline token
                    pos = p.lx.p;
                    if p.t != T::Nl {
                        pos = line_end(pos) + 1;
                    }
                }
                for i in 0..p.blocks.len() as u32 {
                    blocks.push(defs.remove(&i).unwrap_or_default());
                }
                m.funcs.push(Func { name, params, ret, blocks, nregs: p.regs.len() as u32, decl });
                let le = line_end(pos);
                pos = le + 1;
                continue;
            }
            m.funcs.push(Func { name, params, ret, blocks, nregs: p.regs.len() as u32, decl });
        }
        pos = le + 1;
    }
    Ok(m)
}
