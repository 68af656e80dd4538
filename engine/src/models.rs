//! Models of intrinsics, libc functions and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ll::Ty;
use crate::prog::*;
use crate::solver::*;
use std::rc::Rc;

fn ew(t: &Ty) -> u16 {
    match t {
        Ty::Vec(_, e) => e.bits() as u16,
        _ => t.bits() as u16,
    }
}

/// an allocation of this size or more fails (natively: the address-space
/// limit check.py sets for a replay)
const BIG: u64 = 64 << 30;

impl<'p> Exec<'p> {
    pub fn intrinsic(&mut self, st: &mut State, name: &str, a: &[V], tys: &[Ty], rt: &Ty) -> X<V> {
        let base = name.split('.').next().unwrap_or("");
        // element-wise vector versions
        if let (Some(Ty::Vec(n, et)), false) = (tys.first(), name.starts_with("vector.")) {
            if matches!(base, "umin" | "umax" | "smin" | "smax" | "abs" | "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" | "fshl" | "fshr")
                || name.starts_with("usub.sat")
                || name.starts_with("uadd.sat")
            {
                let mut out = vec![];
                for i in 0..*n as usize {
                    let ai: Vec<V> = a
                        .iter()
                        .map(|x| match x {
                            V::A(v) => v[i].clone(),
                            o => o.clone(),
                        })
                        .collect();
                    let ti = vec![(**et).clone(); ai.len()];
                    out.push(self.intrinsic(st, name, &ai, &ti, et)?);
                }
                return Ok(V::A(Rc::new(out)));
            }
        }
        let w = tys.first().map(|t| t.bits() as u16).unwrap_or(0);
        match base {
            "memcpy" | "memmove" => {
                let d = self.conc64(st, &a[0])?;
                let s = self.conc64(st, &a[1])?;
                let n = self.conc64(st, &a[2])?;
                self.copy(st, d, s, n as usize)?;
                Ok(V::C(0))
            }
            "memset" => {
                let d = self.conc64(st, &a[0])?;
                let n = self.conc64(st, &a[2])?;
                let b = byte(&a[1]);
                self.write_bytes(st, d, &vec![b; n as usize])?;
                Ok(V::C(0))
            }
            "umin" | "umax" | "smin" | "smax" => {
                let p = match base {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                Ok(match cmp(p, w, &a[0], &a[1]) {
                    V::C(1) => a[0].clone(),
                    V::C(_) => a[1].clone(),
                    V::S(e) => ite(e, w, &a[0], &a[1]),
                    _ => unreachable!(),
                })
            }
            "abs" => {
                let neg = bin(Op::Sub, w, &mk(0, w), &a[0]);
                Ok(match cmp(Pred::Slt, w, &a[0], &mk(0, w)) {
                    V::C(1) => neg,
                    V::C(_) => a[0].clone(),
                    V::S(e) => ite(e, w, &neg, &a[0]),
                    _ => unreachable!(),
                })
            }
            "ctpop" => {
                if let V::C(x) = a[0] {
                    return Ok(V::C(x.count_ones() as u64));
                }
                let e = te(&a[0], w);
                Ok(fe(ar(|s| {
                    let mut acc = s.k(0, w);
                    for i in 0..w {
                        let b = s.extract(e, i, 1);
                        let z = if w == 1 { b } else { s.zext(b, w) };
                        acc = s.bin(Op::Add, acc, z);
                    }
                    acc
                })))
            }
            "cttz" | "ctlz" => {
                let e = te(&a[0], w);
                Ok(fe(ar(|s| {
                    let mut acc = s.k(w as u128, w);
                    for j in (0..w).rev() {
                        let i = if base == "cttz" { j } else { w - 1 - j };
                        let b = s.extract(e, i, 1);
                        let k = s.k(j as u128, w);
                        acc = s.ite(b, k, acc);
                    }
                    acc
                })))
            }
            "bswap" => {
                let e = te(&a[0], w);
                Ok(fe(ar(|s| {
                    let mut acc = s.extract(e, 0, 8);
                    for i in 1..w / 8 {
                        let b = s.extract(e, i * 8, 8);
                        acc = s.concat(acc, b);
                    }
                    acc
                })))
            }
            "bitreverse" => {
                let e = te(&a[0], w);
                Ok(fe(ar(|s| {
                    let mut acc = s.extract(e, 0, 1);
                    for i in 1..w {
                        let b = s.extract(e, i, 1);
                        acc = s.concat(acc, b);
                    }
                    acc
                })))
            }
            "fshl" | "fshr" => {
                let k = self.conc64(st, &a[2])? % w as u64;
                let k = k as u16;
                if k == 0 {
                    return Ok(if base == "fshl" { a[0].clone() } else { a[1].clone() });
                }
                let (x, y) = (te(&a[0], w), te(&a[1], w));
                let k = if base == "fshl" { k } else { w - k };
                // high w bits of (x:y) << k
                Ok(fe(ar(|s| {
                    let h = s.extract(x, 0, w - k);
                    let l = s.extract(y, w - k, k);
                    s.concat(h, l)
                })))
            }
            "usub" | "uadd" | "ssub" | "sadd" | "umul" | "smul" => {
                if name.contains(".sat") {
                    let r = match base {
                        "usub" => {
                            let d = bin(Op::Sub, w, &a[0], &a[1]);
                            let c = cmp(Pred::Ult, w, &a[0], &a[1]);
                            sel(&c, w, &mk(0, w), &d)
                        }
                        "uadd" => {
                            let d = bin(Op::Add, w, &a[0], &a[1]);
                            let c = cmp(Pred::Ult, w, &d, &a[0]);
                            sel(&c, w, &mk(mask(w), w), &d)
                        }
                        _ => return Err(Stop::Inc(format!("intrinsic {}", name))),
                    };
                    return Ok(r);
                }
                // with.overflow
                let ww = w * 2;
                if ww > 128 {
                    if let (Some(x), Some(y)) = (big(&a[0]), big(&a[1])) {
                        let (v, o) = match base {
                            "uadd" => x.overflowing_add(y),
                            "usub" => x.overflowing_sub(y),
                            "umul" => x.overflowing_mul(y),
                            _ => return Err(Stop::Inc(format!("intrinsic {}", name))),
                        };
                        return Ok(V::A(Rc::new(vec![mk(v, w), V::C(o as u64)])));
                    }
                    return Err(Stop::Inc(format!("symbolic intrinsic {}", name)));
                }
                let signed = base.starts_with('s');
                let op = match &base[1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let x = resize(&a[0], w, ww, signed);
                let y = resize(&a[1], w, ww, signed);
                let r = bin(op, ww, &x, &y);
                let lo = resize(&r, ww, w, false);
                let back = resize(&lo, w, ww, signed);
                let o = cmp(Pred::Ne, ww, &r, &back);
                Ok(V::A(Rc::new(vec![lo, o])))
            }
            "ucmp" | "scmp" => {
                let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let rw = rt.bits() as u16;
                let l = cmp(lt, w, &a[0], &a[1]);
                let g = cmp(gt, w, &a[0], &a[1]);
                let r = sel(&g, rw, &mk(1, rw), &mk(0, rw));
                Ok(sel(&l, rw, &mk(mask(rw), rw), &r))
            }
            "threadlocal" => Ok(a[0].clone()),
            "load" if name.starts_with("load.relative") => {
                let b = self.conc64(st, &a[0])?;
                let o = self.conc64(st, &a[1])?;
                let v = self.load_int(st, b.wrapping_add(o), 32)?;
                let v = self.conc64(st, &v)?;
                let r = crate::prog::RELATIVE.lock().unwrap();
                if v & !0xff_ffff == crate::prog::REL_MARK && ((v & 0xff_ffff) as usize) < r.len() {
                    Ok(V::C(r[(v & 0xff_ffff) as usize]))
                } else {
                    Ok(V::C(b.wrapping_add(v as u32 as i32 as i64 as u64)))
                }
            }
            "expect" => Ok(a[0].clone()),
            "is" => Ok(V::C(0)),
            "objectsize" => Ok(V::C(!0)),
            "trap" | "debugtrap" | "ubsantrap" => Err(Stop::Panic(format!("trap in {}", self.trace(st)))),
            "vector" if name.starts_with("vector.reduce.") => {
                let w = ew(&tys[0]);
                let v = match &a[0] {
                    V::A(v) => v.clone(),
                    _ => return Err(Stop::Inc(name.into())),
                };
                let op = match name.split('.').nth(2).unwrap_or("") {
                    "add" => Op::Add,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "mul" => Op::Mul,
                    k @ ("umin" | "umax" | "smin" | "smax") => {
                        let mut acc = v[0].clone();
                        for x in v.iter().skip(1) {
                            acc = self.intrinsic(st, k, &[acc, x.clone()], &[Ty::Int(w as u32), Ty::Int(w as u32)], rt)?;
                        }
                        return Ok(acc);
                    }
                    _ => return Err(Stop::Inc(format!("intrinsic {}", name))),
                };
                let mut acc = v[0].clone();
                for x in v.iter().skip(1) {
                    acc = bin(op, w, &acc, x);
                }
                Ok(acc)
            }
            "x86" if name.contains("pause") => Ok(V::C(0)),
            "x86" if name.contains("pmovmskb") => {
                if let V::A(v) = &a[0] {
                    let mut acc: Option<E> = None;
                    for x in v.iter().rev() {
                        let e = te(x, 8);
                        let b = ar(|s| s.extract(e, 7, 1));
                        acc = Some(match acc {
                            None => b,
                            Some(h) => ar(|s| s.concat(h, b)),
                        });
                    }
                    let n = v.len() as u16;
                    return Ok(resize(&fe(acc.unwrap()), n, rt.bits() as u16, false));
                }
                Err(Stop::Inc(name.into()))
            }
            "prefetch" | "va_start" | "va_end" | "donothing" | "sideeffect" => Ok(V::C(0)),
            "fabs" => {
                let x = self.conc64(st, &a[0])?;
                Ok(V::C(if w == 64 { x & !(1 << 63) } else { x & !(1 << 31) }))
            }
            "floor" | "ceil" | "trunc" | "rint" | "round" | "roundeven" | "sqrt" if w == 64 => {
                let x = f64::from_bits(self.conc64(st, &a[0])?);
                let r = match base {
                    "floor" => x.floor(),
                    "ceil" => x.ceil(),
                    "trunc" => x.trunc(),
                    "round" => x.round(),
                    "sqrt" => x.sqrt(),
                    _ => x.round_ties_even(),
                };
                Ok(V::C(r.to_bits()))
            }
            "minnum" | "maxnum" if w == 64 => {
                let x = f64::from_bits(self.conc64(st, &a[0])?);
                let y = f64::from_bits(self.conc64(st, &a[1])?);
                Ok(V::C(if base == "minnum" { x.min(y) } else { x.max(y) }.to_bits()))
            }
            "fptoui" | "fptosi" if name.contains(".sat") => {
                let x = self.conc64(st, &a[0])?;
                let f = if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let rw = rt.bits() as u16;
                Ok(if base == "fptoui" {
                    let m = mask(rw);
                    let v = if f.is_nan() || f <= 0.0 { 0 } else if f >= m as f64 { m } else { f as u128 };
                    mk(v, rw)
                } else {
                    let hi = (mask(rw) >> 1) as i128;
                    let v = if f.is_nan() { 0 } else if f >= hi as f64 { hi } else if f <= -(hi as f64) - 1.0 { -hi - 1 } else { f as i128 };
                    mk(v as u128, rw)
                })
            }
            _ => Err(Stop::Inc(format!("intrinsic {} in {}", name, self.trace(st)))),
        }
    }

    /// a file name; there is one directory
    fn fname(&mut self, st: &mut State, addr: u64) -> X<Vec<u8>> {
        let n = self.cstr(st, addr)?;
        let v: Vec<&[u8]> = n.split(|b| *b == b'/').filter(|c| !c.is_empty() && *c != b".").collect();
        let mut m = v.join(&b'/');
        if n.starts_with(b"/") {
            m.insert(0, b'/');
        } else if v.is_empty() && !n.is_empty() {
            m = b".".to_vec();
        }
        Ok(m)
    }
    fn cstr(&mut self, st: &mut State, addr: u64) -> X<Vec<u8>> {
        let mut v = vec![];
        loop {
            let b = self.read_byte(st, addr + v.len() as u64)?;
            let b = self.conc64(st, &bv(b))? as u8;
            if b == 0 {
                return Ok(v);
            }
            v.push(b);
        }
    }
    fn set_errno(&mut self, st: &mut State, e: u64) -> X<()> {
        let a = st.errno;
        self.store_int(st, a, 32, &V::C(e))
    }

    /// what happens to a call that reads or writes: 0 nothing special, 1
    /// interrupted, 2 short, 3 fails (now and from now on)
    fn io_fault(&mut self, st: &mut State, fd: usize) -> X<u64> {
        let (m, n, _) = st.fs.fault;
        if m == 0 || fd == 2 || !matches!(st.fs.fds.get(fd), Some(Some(_))) {
            return Ok(0);
        }
        if matches!(st.fs.fds.get(fd), Some(Some(d)) if d.broken) {
            return Ok(3);
        }
        if n == 0 {
            return Ok(0);
        }
        if st.fs.pend == 0 {
            if st.cons.model.len() >= NV {
                return Err(Stop::Inc("too many symbolic bytes".into()));
            }
            let e = self.sv.new_var(&mut st.cons);
            let ok = ar(|s| {
                let mut ok = s.k(0, 1);
                for k in 0..4 {
                    if k == 0 || m >> (k - 1) & 1 == 1 {
                        let z = s.k(k, 8);
                        let q = s.eq(e, z);
                        ok = s.or1(ok, q);
                    }
                }
                ok
            });
            match self.sv.check(&st.cons, ok) {
                Sat::Yes(m, id) => {
                    st.cons.model = m;
                    st.cons.mid = id;
                    self.sv.add(&mut st.cons, ok);
                }
                _ => return Err(Stop::Inc("internal: fault".into())),
            }
            Rc::make_mut(&mut st.fs).pend = e;
        }
        let e = st.fs.pend;
        let k = self.conc64(st, &bv((0, e)))?;
        Rc::make_mut(&mut st.fs).pend = 0;
        if k > 0 {
            let fs = Rc::make_mut(&mut st.fs);
            fs.fault.1 -= 1;
            if k == 3 {
                fs.fault.2 += 1;
                if let Some(Some(d)) = fs.fds.get_mut(fd) {
                    d.broken = true;
                }
            }
        }
        Ok(k)
    }

    pub fn external(&mut self, st: &mut State, f: &Fun, a: &[V]) -> X<V> {
        let neg1 = V::C(!0);
        match f.name.as_str() {
            // ---- harness interface ----
            "sym_bytes" => {
                let p = self.conc64(st, &a[0])?;
                let n = self.conc64(st, &a[1])? as usize;
                let mut b = vec![];
                for _ in 0..n {
                    if st.cons.model.len() >= NV {
                        return Err(Stop::Inc("too many symbolic bytes".into()));
                    }
                    b.push((0u8, self.sv.new_var(&mut st.cons)));
                }
                self.write_bytes(st, p, &b)?;
                Ok(V::C(0))
            }
            "sym_assume" => {
                match &a[0] {
                    V::C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Pruned);
                        }
                    }
                    V::S(e) => {
                        let e = bool_of(*e);
                        match self.sv.check(&st.cons, e) {
                            Sat::Yes(m, id) => {
                                st.cons.model = m;
                                st.cons.mid = id;
                                self.sv.add(&mut st.cons, e);
                            }
                            Sat::No => return Err(Stop::Pruned),
                            Sat::Unknown => return Err(Stop::Inc("solver gave up".into())),
                        }
                    }
                    _ => return Err(Stop::Inc("assume".into())),
                }
                Ok(V::C(0))
            }
            "sym_assert" => {
                let code = self.conc64(st, &a[1])?;
                self.jobs[st.job as usize].asserts += 1;
                st.asserted += 1;
                match &a[0] {
                    V::C(c) => {
                        if c & 1 == 0 {
                            let m = (*st.cons.model).clone();
                            self.violation(st, "assert", code, String::new(), m);
                            return Err(Stop::Pruned);
                        }
                    }
                    V::S(e) => {
                        let e = bool_of(*e);
                        let ne = ar(|x| x.not1(e));
                        self.jobs[st.job as usize].assert_queries += 1;
                        match self.sv.check_x(&st.cons, ne, true) {
                            Sat::No => {}
                            Sat::Yes(m, _) => {
                                let mv = (*m).clone();
                                self.violation(st, "assert", code, String::new(), mv);
                                match self.sv.check(&st.cons, e) {
                                    Sat::Yes(m, id) => {
                                        st.cons.model = m;
                                        st.cons.mid = id;
                                        self.sv.add(&mut st.cons, e);
                                    }
                                    Sat::No => return Err(Stop::Pruned),
                                    Sat::Unknown => return Err(Stop::Inc("solver gave up".into())),
                                }
                            }
                            Sat::Unknown => return Err(Stop::Inc("solver gave up".into())),
                        }
                    }
                    _ => return Err(Stop::Inc("assert".into())),
                }
                Ok(V::C(0))
            }
            "sym_conc" => {
                let x = self.conc64(st, &a[0])?;
                Ok(V::C(x))
            }
            "sym_note" => {
                let p = self.conc64(st, &a[0])?;
                let n = self.conc64(st, &a[1])? as usize;
                let b = self.read_bytes(st, p, n)?;
                Rc::make_mut(&mut st.notes).push(b);
                Ok(V::C(0))
            }
            "sym_reach" => {
                let k = self.conc64(st, &a[0])?;
                st.reach |= 1 << (k & 63);
                Ok(V::C(0))
            }
            "sym_param" => {
                let k = self.conc64(st, &a[0])? as usize;
                Ok(V::C(self.params[st.job as usize].get(k).copied().unwrap_or(0)))
            }
            "sym_panic_ok" => {
                let k = self.conc64(st, &a[0])?;
                st.panic_ok = k & 1 == 1;
                Ok(V::C(0))
            }
            "sym_stdin" => {
                let p = self.conc64(st, &a[0])?;
                let n = self.conc64(st, &a[1])? as usize;
                let b = self.read_bytes(st, p, n)?;
                let mut buf = Buf::default();
                buf.write_at(0, &b);
                let fs = Rc::make_mut(&mut st.fs);
                fs.files[0].1 = Rc::new(buf);
                if let Some(fd) = &mut fs.fds[0] {
                    fd.pos = 0;
                }
                Ok(V::C(0))
            }
            "sym_file_put" => {
                let p = self.conc64(st, &a[0])?;
                let n = self.conc64(st, &a[1])? as usize;
                let d = self.conc64(st, &a[2])?;
                let dn = self.conc64(st, &a[3])? as usize;
                let name = self.conc_bytes(st, p, n)?;
                let b = self.read_bytes(st, d, dn)?;
                let mut buf = Buf::default();
                buf.write_at(0, &b);
                let fs = Rc::make_mut(&mut st.fs);
                fs.files.retain(|f| f.0 != name || f.0.starts_with(b"<"));
                fs.files.push((name, Rc::new(buf)));
                Ok(V::C(0))
            }
            "sym_file_get" => {
                let p = self.conc64(st, &a[0])?;
                let n = self.conc64(st, &a[1])? as usize;
                let d = self.conc64(st, &a[2])?;
                let cap = self.conc64(st, &a[3])? as usize;
                let name = self.conc_bytes(st, p, n)?;
                let fs = st.fs.clone();
                match fs.files.iter().find(|f| f.0 == name) {
                    None => Ok(neg1),
                    Some(fl) => {
                        let k = fl.1.d.len().min(cap);
                        let b: Vec<(u8, E)> = (0..k).map(|i| fl.1.get(i)).collect();
                        self.write_bytes(st, d, &b)?;
                        Ok(V::C(fl.1.d.len() as u64))
                    }
                }
            }
            "sym_io_chunk" => {
                let n = self.conc64(st, &a[0])? as usize;
                Rc::make_mut(&mut st.fs).chunk = n;
                Ok(V::C(0))
            }
            "sym_io_fault" => {
                let m = self.conc64(st, &a[0])?;
                let n = self.conc64(st, &a[1])?;
                let fs = Rc::make_mut(&mut st.fs);
                let k = fs.fault.2;
                fs.fault = (m, n, 0);
                Ok(V::C(k))
            }
            // ---- memory ----
            "malloc" => {
                let n = self.conc64(st, &a[0])?;
                if n >= BIG {
                    return Ok(V::C(0));
                }
                Ok(V::C(st.mem.alloc_heap(n)))
            }
            "calloc" => {
                let x = self.conc64(st, &a[0])?;
                let y = self.conc64(st, &a[1])?;
                let n = x.saturating_mul(y);
                if n >= BIG {
                    return Ok(V::C(0));
                }
                Ok(V::C(st.mem.alloc_heap(n)))
            }
            "posix_memalign" => {
                let p = self.conc64(st, &a[0])?;
                let n = self.conc64(st, &a[2])?;
                if n >= BIG {
                    return Ok(V::C(12));
                }
                let m = st.mem.alloc_heap(n);
                self.store_int(st, p, 64, &V::C(m))?;
                Ok(V::C(0))
            }
            "aligned_alloc" | "memalign" => {
                let n = self.conc64(st, &a[1])?;
                if n >= BIG {
                    return Ok(V::C(0));
                }
                Ok(V::C(st.mem.alloc_heap(n)))
            }
            "free" => {
                let p = self.conc64(st, &a[0])?;
                self.free(st, p)?;
                Ok(V::C(0))
            }
            "realloc" => {
                let p = self.conc64(st, &a[0])?;
                let n = self.conc64(st, &a[1])?;
                if n >= BIG {
                    return Ok(V::C(0));
                }
                let q = st.mem.alloc_heap(n);
                if p != 0 {
                    let old = match st.mem.get((p >> 32) as u32) {
                        Some(o) => o.d.len() as u64,
                        None => return Err(Stop::Mem("realloc of a dead object".into())),
                    };
                    self.copy(st, q, p, old.min(n) as usize)?;
                    self.free(st, p)?;
                }
                Ok(V::C(q))
            }
            "memcpy" | "memmove" => {
                let d = self.conc64(st, &a[0])?;
                let s = self.conc64(st, &a[1])?;
                let n = self.conc64(st, &a[2])?;
                self.copy(st, d, s, n as usize)?;
                Ok(V::C(d))
            }
            "memset" => {
                let d = self.conc64(st, &a[0])?;
                let n = self.conc64(st, &a[2])?;
                let b = byte(&a[1]);
                self.write_bytes(st, d, &vec![b; n as usize])?;
                Ok(V::C(d))
            }
            "bcmp" | "memcmp" => {
                let p = self.conc64(st, &a[0])?;
                let q = self.conc64(st, &a[1])?;
                let n = self.conc64(st, &a[2])? as usize;
                let x = self.read_bytes(st, p, n)?;
                let y = self.read_bytes(st, q, n)?;
                if f.name == "bcmp" {
                    let mut acc = ar(|s| s.k(1, 1));
                    for (b, c) in x.iter().zip(y.iter()) {
                        if b.1 == 0 && c.1 == 0 {
                            if b.0 != c.0 {
                                return Ok(V::C(1));
                            }
                            continue;
                        }
                        let (l, r) = (be(*b), be(*c));
                        acc = ar(|s| {
                            let e = s.eq(l, r);
                            s.and1(acc, e)
                        });
                    }
                    if let Some(k) = ar(|s| s.cst(acc)) {
                        return Ok(V::C(1 - k as u64));
                    }
                    return Ok(ite(acc, 32, &V::C(0), &V::C(1)));
                }
                let mut acc = V::C(0);
                for (b, c) in x.iter().zip(y.iter()).rev() {
                    if b.1 == 0 && c.1 == 0 {
                        if b.0 != c.0 {
                            acc = V::C(if b.0 < c.0 { 0xffff_ffff } else { 1 });
                        }
                        continue;
                    }
                    let (l, r) = (be(*b), be(*c));
                    let (lt, eq) = ar(|s| (s.bin(Op::Ult, l, r), s.eq(l, r)));
                    let ne = sel(&fe(lt), 32, &V::C(0xffff_ffff), &V::C(1));
                    acc = sel(&fe(eq), 32, &acc, &ne);
                }
                Ok(acc)
            }
            "strlen" => {
                let p = self.conc64(st, &a[0])?;
                let s = self.cstr(st, p)?;
                Ok(V::C(s.len() as u64))
            }
            "memchr" | "memrchr" => {
                let p = self.conc64(st, &a[0])?;
                let n = self.conc64(st, &a[2])?;
                let needle = be(byte(&a[1]));
                let idx: Vec<u64> = if f.name == "memchr" { (0..n).collect() } else { (0..n).rev().collect() };
                for i in idx {
                    let b = be(self.read_byte(st, p + i)?);
                    let c = ar(|s| s.eq(b, needle));
                    if self.decide(st, c)? {
                        return Ok(V::C(p + i));
                    }
                }
                Ok(V::C(0))
            }
            // ---- files ----
            "read" => {
                let fd = self.conc64(st, &a[0])? as usize;
                let p = self.conc64(st, &a[1])?;
                let mut n = self.conc64(st, &a[2])? as usize;
                match self.io_fault(st, fd)? {
                    0 => {}
                    2 => n = n.min(1),
                    e => {
                        self.set_errno(st, if e == 1 { 4 } else { 5 })?;
                        return Ok(neg1);
                    }
                }
                let fs = Rc::make_mut(&mut st.fs);
                let chunk = fs.chunk;
                let (file, pos) = match fs.fds.get_mut(fd) {
                    Some(Some(d)) => (d.file, d),
                    _ => {
                        self.set_errno(st, 9)?;
                        return Ok(neg1);
                    }
                };
                let buf = fs.files[file].1.clone();
                let mut k = n.min(buf.d.len().saturating_sub(pos.pos));
                if chunk > 0 {
                    k = k.min(chunk);
                }
                let b: Vec<(u8, E)> = (0..k).map(|i| buf.get(pos.pos + i)).collect();
                pos.pos += k;
                self.write_bytes(st, p, &b)?;
                Ok(V::C(k as u64))
            }
            "write" => {
                let fd = self.conc64(st, &a[0])? as usize;
                let p = self.conc64(st, &a[1])?;
                let mut n = self.conc64(st, &a[2])? as usize;
                match self.io_fault(st, fd)? {
                    0 => {}
                    2 => n = n.min(1),
                    e => {
                        self.set_errno(st, if e == 1 { 4 } else { 28 })?;
                        return Ok(neg1);
                    }
                }
                let b = self.read_bytes(st, p, n)?;
                let fs = Rc::make_mut(&mut st.fs);
                match fs.fds.get_mut(fd) {
                    Some(Some(d)) => {
                        let buf = Rc::make_mut(&mut fs.files[d.file].1);
                        if d.append {
                            d.pos = buf.d.len();
                        }
                        buf.write_at(d.pos, &b);
                        d.pos += n;
                        Ok(V::C(n as u64))
                    }
                    _ => {
                        self.set_errno(st, 9)?;
                        Ok(neg1)
                    }
                }
            }
            "open64" | "open" => {
                let p = self.conc64(st, &a[0])?;
                let fl = self.conc64(st, &a[1])?;
                let name = self.fname(st, p)?;
                let fs = Rc::make_mut(&mut st.fs);
                let (creat, trunc, append, excl) = (fl & 0o100 != 0, fl & 0o1000 != 0, fl & 0o2000 != 0, fl & 0o200 != 0);
                let i = match fs.files.iter().position(|f| f.0 == name) {
                    Some(i) => {
                        if creat && excl {
                            self.set_errno(st, 17)?;
                            return Ok(neg1);
                        }
                        i
                    }
                    None => {
                        if fs.is_dir(&name) {
                            self.set_errno(st, 21)?;
                            return Ok(neg1);
                        }
                        if !creat || !fs.has_parent(&name) {
                            self.set_errno(st, 2)?;
                            return Ok(neg1);
                        }
                        fs.files.push((name, Rc::new(Buf::default())));
                        fs.files.len() - 1
                    }
                };
                if trunc {
                    fs.files[i].1 = Rc::new(Buf::default());
                }
                fs.fds.push(Some(Fd { file: i, pos: 0, append, broken: false }));
                Ok(V::C(fs.fds.len() as u64 - 1))
            }
            "close" => {
                let fd = self.conc64(st, &a[0])? as usize;
                let fs = Rc::make_mut(&mut st.fs);
                if fd < fs.fds.len() {
                    fs.fds[fd] = None;
                }
                Ok(V::C(0))
            }
            "lseek64" | "lseek" => {
                let fd = self.conc64(st, &a[0])? as usize;
                let off = self.conc64(st, &a[1])? as i64;
                let wh = self.conc64(st, &a[2])?;
                if fd < 3 {
                    self.set_errno(st, 29)?;
                    return Ok(neg1);
                }
                let fs = Rc::make_mut(&mut st.fs);
                if let Some(Some(d)) = fs.fds.get_mut(fd) {
                    let len = fs.files[d.file].1.d.len() as i64;
                    let np = match wh {
                        0 => off,
                        1 => d.pos as i64 + off,
                        _ => len + off,
                    };
                    d.pos = np as usize;
                    return Ok(V::C(np as u64));
                }
                Ok(neg1)
            }
            "fstat64" | "fstat" => {
                let fd = self.conc64(st, &a[0])? as usize;
                let p = self.conc64(st, &a[1])?;
                let size = match st.fs.fds.get(fd) {
                    Some(Some(d)) => st.fs.files[d.file].1.d.len() as u64,
                    _ => {
                        self.set_errno(st, 9)?;
                        return Ok(neg1);
                    }
                };
                self.stat_buf(st, p, size, fd >= 3)?;
                Ok(V::C(0))
            }
            "stat64" | "lstat64" => {
                let np = self.conc64(st, &a[0])?;
                let p = self.conc64(st, &a[1])?;
                let name = self.fname(st, np)?;
                match st.fs.files.iter().find(|f| f.0 == name).map(|f| f.1.d.len() as u64) {
                    Some(s) => {
                        self.stat_buf(st, p, s, true)?;
                        Ok(V::C(0))
                    }
                    None if st.fs.is_dir(&name) => {
                        self.stat_buf(st, p, 0, true)?;
                        self.store_int(st, p + 24, 32, &V::C(0o040755))?;
                        Ok(V::C(0))
                    }
                    None => {
                        self.set_errno(st, 2)?;
                        Ok(neg1)
                    }
                }
            }
            "statx" => {
                self.set_errno(st, 38)?;
                Ok(V::C(0xffff_ffff))
            }
            "fcntl" | "fcntl64" | "poll" | "fsync" | "fdatasync" | "ftruncate64" | "ioctl" | "isatty" => Ok(V::C(0)),
            "unlink" => {
                let p = self.conc64(st, &a[0])?;
                let name = self.fname(st, p)?;
                let fs = Rc::make_mut(&mut st.fs);
                if let Some(f) = fs.files.iter_mut().find(|f| f.0 == name) {
                    f.0 = b"<deleted>".to_vec();
                }
                Ok(V::C(0))
            }
            "mkdir" => {
                let p = self.conc64(st, &a[0])?;
                let name = self.fname(st, p)?;
                let fs = Rc::make_mut(&mut st.fs);
                let e = if fs.is_dir(&name) || fs.files.iter().any(|f| f.0 == name) {
                    17
                } else if !fs.has_parent(&name) {
                    2
                } else {
                    fs.dirs.push(name);
                    return Ok(V::C(0));
                };
                self.set_errno(st, e)?;
                Ok(neg1)
            }
            "mmap64" | "mmap" => {
                self.set_errno(st, 12)?;
                Ok(neg1)
            }
            // ---- environment ----
            "getenv" | "secure_getenv" => Ok(V::C(0)),
            "__xpg_strerror_r" => {
                let p = self.conc64(st, &a[1])?;
                let b: Vec<(u8, E)> = b"error\0".iter().map(|c| (*c, 0)).collect();
                self.write_bytes(st, p, &b)?;
                Ok(V::C(0))
            }
            "__errno_location" => Ok(V::C(st.errno)),
            "getrandom" => {
                let n = self.conc64(st, &a[1])?;
                let p = self.conc64(st, &a[0])?;
                self.write_bytes(st, p, &vec![(0x5a, 0); n as usize])?;
                Ok(V::C(n))
            }
            "syscall" => {
                let k = self.conc64(st, &a[0])?;
                match k {
                    318 => {
                        let p = self.conc64(st, &a[1])?;
                        let n = self.conc64(st, &a[2])?;
                        self.write_bytes(st, p, &vec![(0x5a, 0); n as usize])?;
                        Ok(V::C(n))
                    }
                    202 => Ok(V::C(0)),
                    _ => Err(Stop::Inc(format!("syscall {}", k))),
                }
            }
            "clock_gettime" => {
                let p = self.conc64(st, &a[1])?;
                self.store_int(st, p, 64, &V::C(1_700_000_000))?;
                self.store_int(st, p + 8, 64, &V::C(0))?;
                Ok(V::C(0))
            }
            "gettid" | "getpid" => Ok(V::C(4242)),
            "pthread_self" => Ok(V::C(1)),
            "sysconf" => {
                let n = self.conc64(st, &a[0])?;
                Ok(V::C(if n == 84 { 2 } else { 4096 }))
            }
            "sched_getaffinity" => {
                self.set_errno(st, 38)?;
                Ok(V::C(0xffff_ffff))
            }
            "getauxval" => Ok(V::C(0)),
            "sched_yield" | "pthread_key_create" | "pthread_setspecific" | "pthread_mutex_lock" | "pthread_mutex_unlock"
            | "__cxa_thread_atexit_impl" | "sigaction" | "signal" | "sigaltstack" | "pthread_attr_destroy" | "atexit" => Ok(V::C(0)),
            "abort" => Err(Stop::Panic(format!("abort in {}", self.trace(st)))),
            "exit" | "_exit" => {
                let k = self.conc64(st, &a[0])?;
                Err(Stop::Exit(k & 0xff))
            }
            "getcwd" => {
                let p = self.conc64(st, &a[0])?;
                self.write_bytes(st, p, &[(b'/', 0), (0, 0)])?;
                Ok(V::C(p))
            }
            _ => Err(Stop::Inc(format!("external function {} in {}", f.name, self.trace(st)))),
        }
    }

    fn conc_bytes(&mut self, st: &mut State, p: u64, n: usize) -> X<Vec<u8>> {
        let b = self.read_bytes(st, p, n)?;
        let mut v = vec![];
        for x in b {
            v.push(self.conc64(st, &bv(x))? as u8);
        }
        Ok(v)
    }
    fn stat_buf(&mut self, st: &mut State, p: u64, size: u64, regular: bool) -> X<()> {
        self.write_bytes(st, p, &vec![(0, 0); 144])?;
        let mode = if regular { 0o100644 } else { 0o010600 };
        self.store_int(st, p + 24, 32, &V::C(mode))?;
        self.store_int(st, p + 48, 64, &V::C(size))?;
        self.store_int(st, p + 56, 64, &V::C(4096))?;
        Ok(())
    }
    fn free(&mut self, st: &mut State, p: u64) -> X<()> {
        if p == 0 {
            return Ok(());
        }
        let id = (p >> 32) as u32;
        if p as u32 != 0 || st.mem.get(id).is_none() || id < self.p.gbase + self.p.globals.len() as u32 {
            return Err(Stop::Mem(format!("free of {:#x}", p)));
        }
        st.mem.set(id, None);
        st.mem.note_free(id);
        Ok(())
    }
    pub fn violation(&mut self, st: &State, kind: &str, code: u64, msg: String, model: Vec<u8>) {
        if self.viols.iter().filter(|v| v.0 == st.job && v.1 == kind && v.2 == code).count() < 3 {
            self.viols.push((st.job, kind.to_string(), code, msg, model));
        }
    }
}

fn bool_of(e: E) -> E {
    ar(|a| if a.w(e) == 1 { e } else { a.extract(e, 0, 1) })
}
fn big(v: &V) -> Option<u128> {
    match v {
        V::C(c) => Some(*c as u128),
        V::W(c) => Some(*c),
        _ => None,
    }
}
fn sel(c: &V, w: u16, a: &V, b: &V) -> V {
    match c {
        V::C(1) => a.clone(),
        V::C(_) => b.clone(),
        V::S(e) => ite(*e, w, a, b),
        _ => unreachable!(),
    }
}
pub fn bv(b: (u8, E)) -> V {
    if b.1 == 0 {
        V::C(b.0 as u64)
    } else {
        V::S(b.1)
    }
}
pub fn be(b: (u8, E)) -> E {
    if b.1 == 0 {
        ar(|a| a.k(b.0 as u128, 8))
    } else {
        b.1
    }
}
/// the low byte of a scalar
pub fn byte(v: &V) -> (u8, E) {
    match v {
        V::C(c) => (*c as u8, 0),
        V::S(e) => {
            let x = ar(|a| if a.w(*e) > 8 { a.extract(*e, 0, 8) } else { a.zext(*e, 8) });
            match ar(|a| a.cst(x)) {
                Some(k) => (k as u8, 0),
                None => (0, x),
            }
        }
        _ => (0, 0),
    }
}
