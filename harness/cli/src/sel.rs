use crate::g::*;
use crate::refm::{self, Fld, Rec};
use crate::sym::{self, *};
use crate::out::fixed;

fn data(r: &[&Rec]) -> Vec<u8> {
    let mut o = vec![];
    for r in r { if !r.is_empty() { o.extend(refm::put(r)) } }
    o
}
const SHAPES: [Shape; 7] = [
    S,
    Shape { nf: 2, occ: true, ..S },
    Shape { ns: 2, occ: true, noppn: true, ..S },
    Shape { ascii: false, nf: 1, ..S },
    Shape { nf: 2, ns: 2, occ: true, val: b"xX", ..S },
    Shape { nf: 2, ns: 1, occ: true, val: b"x", codes: b"a", noppn: true, bare: true, ..S },
    Shape { nf: 1, ns: 2, val: b"x", codes: b"ab", bare: true, vl: (0, 2), ..S },
];
harness! {
    // option, expression, lines, shape, with lines that are not records
    h_filter {
        let (opt, e, k, sh, mix) = (sym::param(0), sym::param(1), sym::param(2), shape(&SHAPES, sym::param(3)), sym::param(4) == 1);
        let l = sh.lines(k, mix);
        let (ex, f) = EXPRS[e];
        let (ex2, f2) = EXPRS[(e + 1) % 5];
        let (ex3, f3) = EXPRS[(e + 2) % 5];
        file_put("in.dat", &cat(&l));
        let mut a: Vec<&str> = vec!["filter", "-s"];
        let mut want: Vec<bool> = recs(&l).iter().map(|r| f(r)).collect();
        let mut limit = 0;
        let mut out = "";
        let mut old: &[u8] = b"";
        let mut edit: fn(&Fld) -> bool = |_| true;
        let mut file = vec!["in.dat"];
        let mut expr = vec![ex];
        let rs = recs(&l);
        let and = |w: &mut Vec<bool>, g: &dyn Fn(&Rec) -> bool| for (x, r) in w.iter_mut().zip(&rs) { *x &= g(r) };
        match opt {
            0 => {}
            1 => { a.push("-v"); for x in &mut want { *x = !*x } }
            2 => { a.push("--limit=1"); limit = 1 }
            3 => { a.extend(["-v", "-l", "2"]); for x in &mut want { *x = !*x } limit = 2 }
            4 => { a.extend(["-k", "012A/*"]); edit = |f| f.tag == b"012A" }
            5 => { a.extend(["--discard", "012A, 002@"]); edit = |f| !(f.tag == b"002@" || f.tag == b"012A" && none(f)) }
            6 => { a.extend(["-k", "0..@,012A/01", "-d", "00[23]@"]); edit = |f| f.tag == b"012A" && f.occ.is_some() }
            7 => { file_put("a.csv", b"ppn,x\n1,2\n2,3\n"); a.extend(["-A", "a.csv"]); and(&mut want, &|r| ppn(r).is_some_and(|p| (p == b"1") | (p == b"2"))) }
            8 => { file_put("d.csv", b"idn\n3\n1\n"); a.extend(["--deny-list", "d.csv"]); and(&mut want, &|r| !ppn(r).is_some_and(|p| (p == b"1") | (p == b"3"))) }
            9 => { file_put("a.csv", b"ppn\n1\n"); file_put("b.tsv", b"x\tppn\n9\t2\n"); file_put("d.txt", b"2\n"); a.extend(["-A", "a.csv", "-A", "b.tsv", "-D", "d.txt"]); and(&mut want, &|r| ppn(r).is_some_and(|p| p == b"1")) }
            10 => { file_put("a.csv", b"ppn\n"); a.extend(["-A", "a.csv"]); and(&mut want, &|_| false) }
            11 => { file_put("a.csv", b"ppn,x\n1,x\n2,y\n"); a.extend(["-A", "a.csv", "--filter-set-column", "x", "--filter-set-source", "012A/*.a"]); and(&mut want, &|r| has(r, true, b'a', b"x") | has(r, true, b'a', b"y")) }
            12 => { a.extend(["--and", ex2, "--and", ex3]); and(&mut want, &|r| f2(r) & f3(r)) }
            13 => { a.extend(["--or", ex2, "--or", ex3]); for (x, r) in want.iter_mut().zip(&rs) { *x |= f2(r) | f3(r) } }
            14 => { a.extend(["--not", ex2, "--not", ex3]); and(&mut want, &|r| !(f2(r) | f3(r))) }
            15 => a.extend(["--tee", "tee.dat"]),
            16 => { a.extend(["-o", "out.dat"]); file_put("out.dat", b"old\n"); out = "out.dat" }
            17 => { a.extend(["--append", "-o", "out.dat"]); file_put("out.dat", b"old\n"); out = "out.dat"; old = b"old\n" }
            18 => { file_put("expr.txt", ex.as_bytes()); a.extend(["-F", "expr.txt"]); expr.clear() }
            19 => { let m = l.len() / 2; file_put("in.dat", &cat(&l[..m])); file_put("in2.dat", &cat(&l[m..])); file.push("in2.dat") }
            20 => { a.extend(["-p", "--output", "out.dat"]); out = "out.dat" }
            21 => { stdin(&cat(&l)); file.clear() }
            22 => { a.push("-i"); if e == 0 { want = rs.iter().map(|r| has(r, false, b'a', b"x") | has(r, false, b'a', b"X")).collect() } }
            23 => { file_put("d.csv", b"ppn\n3\n"); a.extend(["-D", "d.csv", "-v", "--limit", "1"]); for x in &mut want { *x = !*x } and(&mut want, &|r| !ppn(r).is_some_and(|p| p == b"3")); limit = 1 }
            24 => { file_put("d.csv", b"ppn\n1\n"); a.extend(["-D", "d.csv", "-l", "1", "--and", ex2, "--not", ex3]); and(&mut want, &|r| f2(r) & !f3(r) & !ppn(r).is_some_and(|p| p == b"1")); limit = 1 }
            25 => { file_put("none.toml", b"skip-invalid = true\n"); a.pop(); }
            _ => { file_put("expr.txt", ex.as_bytes()); a.extend(["--file", "expr.txt"]); expr = vec!["in.dat", "in.dat"]; file.clear(); want.extend(want.clone()); }
        }
        a.extend(expr);
        a.extend(file);
        let (rc, o) = run(&a);
        check(rc == 0, 1);
        let all: Vec<&Rec> = if opt == 26 { rs.iter().chain(&rs).copied().collect() } else { rs.clone() };
        let mut w: Vec<Rec> = vec![];
        let mut n = 0;
        for (x, r) in want.iter().zip(&all) {
            if *x && (limit == 0 || n < limit) {
                w.push(r.iter().filter(|f| edit(f)).cloned().collect());
                n += 1;
            }
        }
        let w = [old, &data(&w.iter().collect::<Vec<_>>())].concat();
        reach(w.is_empty() as u64);
        if out.is_empty() { check(o == w, 2) } else { check(o.is_empty() && got(out) == w, 3) }
        if opt == 15 { check(got("tee.dat") == w, 4) }
    }
    // without skipping: the first line that is not a record ends it, with an error; lines, shape
    h_filter_err {
        let l = shape(&SHAPES, sym::param(1)).lines(sym::param(0), true);
        stdin(&cat(&l));
        let (rc, o) = run(&["filter", EXPRS[0].0]);
        let k = l.iter().position(|x| x.rec.is_none()).unwrap_or(l.len());
        let w = data(&recs(&l[..k]).into_iter().filter(|r| (EXPRS[0].1)(r)).collect::<Vec<_>>());
        reach((rc == 0) as u64);
        check((rc == 0) == (k == l.len()), 1);
        check(if rc == 0 { o == w } else { w.starts_with(&o) }, 2);
    }
    // slice: option, start, length or end, lines, shape, with lines that are not records
    h_slice {
        let (opt, start, len, k, sh, mix) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), shape(&SHAPES, sym::param(4)), sym::param(5) == 1);
        let l = sh.lines(k, mix);
        file_put("in.dat", &cat(&l));
        let (s, n, e) = (start.to_string(), len.to_string(), (start + len).to_string());
        let mut a = vec!["slice", "-s"];
        let mut rs = recs(&l);
        let mut m = if len == 0 { usize::MAX } else { len };
        let mut out = "";
        let mut old: &[u8] = b"";
        let mut file = vec!["in.dat"];
        if start > 0 { a.extend(["--start", &s]) }
        if len > 0 { if opt == 1 { a.extend(["--end", &e]) } else { a.extend(["--length", &n]) } }
        match opt {
            0 | 1 => {}
            2 => { a.extend(["--where", EXPRS[0].0]); rs.retain(|r| (EXPRS[0].1)(r)) }
            3 => { a.extend(["-l", "1"]); m = m.min(1) }
            4 => { file_put("d.csv", b"ppn\n2\n"); a.extend(["-D", "d.csv", "--where", EXPRS[1].0, "--not", EXPRS[0].0]); rs.retain(|r| (EXPRS[1].1)(r) & !(EXPRS[0].1)(r)) }
            5 => { a.extend(["-o", "out.dat"]); file_put("out.dat", b"old\n"); out = "out.dat" }
            6 => { a.extend(["--append", "-o", "out.dat"]); file_put("out.dat", b"old\n"); out = "out.dat"; old = b"old\n" }
            7 => { let m = l.len() / 2; file_put("in.dat", &cat(&l[..m])); file_put("in2.dat", &cat(&l[m..])); file.push("in2.dat") }
            _ => { stdin(&cat(&l)); file = vec!["-"] }
        }
        a.extend(file);
        let (rc, o) = run(&a);
        let w = data(&rs.into_iter().skip(start).take(m).collect::<Vec<_>>());
        let w = [old, &w].concat();
        reach(w.is_empty() as u64);
        check(rc == 0, 1);
        if out.is_empty() { check(o == w, 2) } else { check(o.is_empty() && got(out) == w, 3) }
    }
    // sample: size, lines, shape, with lines that are not records, condition
    h_sample {
        let (n, k, sh, mix, cond) = (sym::param(0), sym::param(1), shape(&SHAPES, sym::param(2)), sym::param(3) == 1, sym::param(4) == 1);
        let l = sh.lines(k, mix);
        file_put("in.dat", &cat(&l));
        let s = n.to_string();
        let mut a = vec!["sample", "-s"];
        let mut rs = recs(&l);
        if cond { a.extend(["--where", EXPRS[0].0]); rs.retain(|r| (EXPRS[0].1)(r)) }
        a.extend([&s[..], "in.dat"]);
        let (rc, o) = run(&a);
        check(rc == 0, 1);
        // each record of the sample is one of the input, none taken twice
        let mut left: Vec<Option<Vec<u8>>> = rs.iter().map(|r| Some(refm::put(r))).collect();
        let got = refm::lines(&o);
        reach((got.len() == n) as u64);
        check(got.len() == n.min(rs.len()), 2);
        let mut ok = true;
        for x in got {
            match left.iter().position(|y| y.as_deref() == Some(x)) { Some(i) => left[i] = None, None => ok = false }
        }
        check(ok, 3);
        // as many equally likely outcomes as it takes for each choice of n records to have the
        // same chance; code 4: the known way of not having that (one value too few in each draw)
        if rs.len() > n {
            let (mut d, mut known, mut ways) = (1u64, 1u64, 1u64);
            for (m, _) in rand::draws() { d *= m }
            for i in n..rs.len() {
                known *= i as u64;
                ways = ways * (i as u64 + 1) / (i - n + 1) as u64;
            }
            let fair = d % ways == 0;
            check(fair | (d != known), 4);
            check(fair | (d == known), 6);
        }
        if rs.len() <= n { check(o == data(&rs), 5) }
    }
    // split: chunk size, lines, shape, with lines that are not records, option
    h_split {
        let (n, k, sh, mix, opt) = (sym::param(0), sym::param(1), shape(&SHAPES, sym::param(2)), sym::param(3) == 1, sym::param(4));
        let l = sh.lines(k, mix);
        file_put("in.dat", &cat(&l));
        let s = n.to_string();
        let mut a = vec!["split", "-s"];
        let mut rs = recs(&l);
        let mut name = ("", ".dat");
        let mut file = vec!["in.dat"];
        match opt {
            0 => {}
            1 => { a.extend(["--where", EXPRS[0].0]); rs.retain(|r| (EXPRS[0].1)(r)) }
            2 => { a.extend(["--template", "c-{}-x.txt"]); name = ("c-", "-x.txt") }
            3 => { a.extend(["-l", "2"]); rs.truncate(2) }
            4 => { let m = l.len() / 2; file_put("in.dat", &cat(&l[..m])); file_put("in2.dat", &cat(&l[m..])); file.push("in2.dat") }
            _ => { file_put("d.csv", b"ppn\n1\n"); a.extend(["-D", "d.csv"]); rs.retain(|r| ppn(r) != Some(b"1")) }
        }
        a.push(&s);
        a.extend(file);
        let (rc, o) = run(&a);
        check(rc == 0 && o.is_empty(), 1);
        let chunks: Vec<Vec<u8>> = rs.chunks(n).map(data).collect();
        reach((chunks.len() > 1) as u64);
        let f = |i: usize| format!("{}{}{}", name.0, i, name.1);
        for i in 0..chunks.len().max(1) { check(got(&f(i)) == chunks.get(i).cloned().unwrap_or_default(), 2) }
        check(file_get(&f(chunks.len().max(1))).is_none(), 3);
    }
    // partition: lines, shape, with lines that are not records, option
    h_partition {
        let opt = sym::param(3);
        // values that are not UTF-8 have the same name
        let val: &[u8] = if opt == 6 { b"x\xff\xfe" } else { b"xyz" };
        let (k, sh, mix) = (sym::param(0), Shape { val, ..shape(&SHAPES, sym::param(1)) }, sym::param(2) == 1);
        let l = sh.lines(k, mix);
        file_put("in.dat", &cat(&l));
        let mut a = vec!["partition", "-s"];
        let mut rs = recs(&l);
        let mut name = ("", ".dat");
        let mut file = vec!["in.dat"];
        let mut any = false;
        let mut path = "012A.a";
        match opt {
            0 | 6 => {}
            1 => { a.extend(["--where", EXPRS[1].0]); rs.retain(|r| (EXPRS[1].1)(r)) }
            2 => { a.extend(["--template", "c-{}-x.txt"]); name = ("c-", "-x.txt"); any = true; path = "012A/*.a" }
            3 => { let m = l.len() / 2; file_put("in.dat", &cat(&l[..m])); file_put("in2.dat", &cat(&l[m..])); file.push("in2.dat") }
            // the limit is one of records that go somewhere
            4 => { a.extend(["-l", "1"]); rs.retain(|r| hasc(r, false, b'a')); rs.truncate(1) }
            _ => a.extend(["-t", "all.dat"]),
        }
        a.push(path);
        a.extend(file);
        let (rc, o) = run(&a);
        check(rc == 0 && o.is_empty(), 1);
        let files: &[(&str, &[&[u8]])] = match opt {
            5 => &[("all", &[b"x", b"y", b"z"])],
            6 => &[("x", &[b"x"]), ("\u{fffd}", &[b"\xff", b"\xfe"])],
            _ => &[("x", &[b"x"]), ("y", &[b"y"]), ("z", &[b"z"])],
        };
        for (c, vs) in files {
            let w: Vec<&Rec> = rs.iter().filter(|r| vs.iter().any(|v| has(r, any, b'a', v))).copied().collect();
            let g = file_get(&format!("{}{}{}", name.0, c, name.1));
            if let Some(g) = &g { note(g) }
            reach(g.is_some() as u64);
            check(g.is_some() != w.is_empty(), 2);
            check(g.unwrap_or_default() == data(&w), 3);
        }
    }
    // concat: lines, shape, with lines that are not records, option
    h_concat {
        let (k, sh, mix, opt) = (sym::param(0), shape(&SHAPES, sym::param(1)), sym::param(2) == 1, sym::param(3));
        let sh = if opt == 5 { Shape { val: b"xy", ppn: b"12", codes: b"a", ns: 1, ..sh } } else { sh };
        let mut l = sh.lines(k, mix);
        if opt == 5 { for x in &mut l { fixed(x) } }
        let m = l.len() / 2;
        file_put("in.dat", &cat(&l[..m]));
        file_put("in2.dat", &cat(&l[m..]));
        let mut a = vec!["concat", "-s"];
        let rs = recs(&l);
        let mut w = rs.clone();
        match opt {
            0 => {}
            1 | 2 | 5 => {
                a.push("--unique");
                if opt == 2 { a.extend(["--unique-strategy", "idn", "--tee", "tee.dat"]) }
                if opt == 5 { a.extend(["--unique-strategy", "hash"]) }
                w.clear();
                if opt == 5 { for r in &rs { if !w.iter().any(|x| x == r) { w.push(r) } } } else
                { for r in &rs { if let Some(p) = ppn(r) { if !w.iter().any(|x| ppn(x) == Some(p)) { w.push(r) } } } }
            }
            3 => a.extend(["--tee", "tee.dat"]),
            _ => { file_put("out.dat", b"old\n"); a.extend(["--append", "-o", "out.dat"]) }
        }
        a.extend(["in.dat", "in2.dat"]);
        let (rc, o) = run(&a);
        check(rc == 0, 1);
        let w = data(&w);
        reach((w.len() < cat(&l).len()) as u64);
        if opt == 4 { check(o.is_empty() && got("out.dat") == [b"old\n", &w[..]].concat(), 2) } else { check(o == w, 3) }
        if opt == 2 || opt == 3 { check(got("tee.dat") == w, 4) }
    }
    // invalid: lines, shape, files
    h_invalid {
        let (k, sh, opt) = (sym::param(0), shape(&SHAPES, sym::param(1)), sym::param(2));
        let l = sh.lines(k, true);
        let m = l.len() / 2;
        let w: Vec<u8> = l.iter().filter(|x| x.rec.is_none()).flat_map(|x| x.b.clone()).collect();
        let (rc, o) = match opt {
            0 => { stdin(&cat(&l)); run(&["invalid"]) }
            _ => { file_put("in.dat", &cat(&l[..m])); file_put("in2.dat", &cat(&l[m..])); let r = run(&["invalid", "-o", "out.dat", "in.dat", "in2.dat"]); (r.0, got("out.dat")) }
        };
        reach(w.is_empty() as u64);
        check(rc == 0, 1);
        check(o == w, 2);
    }
    // any bytes: what filter keeps and what invalid reports make up the input; bytes at the start, the end
    h_invalid_any {
        let b = [bytes(sym::param(0)), b"003@ \x1f01\x1e\n".to_vec(), bytes(sym::param(1))].concat();
        file_put("in.dat", &b);
        let (rc, x) = run(&["invalid", "in.dat"]);
        let (rc2, y) = run(&["filter", "-s", "....?||..../*?", "in.dat"]);
        check(rc == 0 && rc2 == 0, 1);
        let (mut wx, mut wy) = (vec![], vec![]);
        for l in refm::lines(&b) {
            match refm::record(l) {
                Some(_) if l.len() > 1 => wy.extend_from_slice(l),
                _ => wx.extend_from_slice(l),
            }
        }
        reach((x.len() > 1) as u64);
        check(x == wx, 2);
        check(y == wy, 3);
    }
}
