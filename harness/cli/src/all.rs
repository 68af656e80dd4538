//! what all commands have in common
use crate::g::*;
use crate::refm::{self, Fld, Rec, fld, sub};
use crate::sym::{self, *};
use crate::out::fixed;

/// commands, with the files they write
const CMDS: [(&[&str], &[&str]); 21] = [
    (&["filter", "012A.a?"], &[]),
    (&["slice", "--start", "1"], &[]),
    (&["split", "2"], &["0.dat", "1.dat", "2.dat"]),
    (&["partition", "012A.a"], &["x.dat", "y.dat"]),
    (&["concat"], &[]),
    (&["concat", "-u"], &[]),
    (&["count"], &[]),
    (&["frequency", "012A.a"], &[]),
    (&["select", "003@.0, 012A.a"], &[]),
    (&["explode", "main"], &[]),
    (&["print"], &[]),
    (&["convert", "--to", "plain"], &[]),
    (&["convert", "--to", "json", "-o", "o.x"], &["o.x"]),
    (&["describe", "-o", "o.csv"], &["o.csv"]),
    (&["hash"], &[]),
    (&["check", "-R", "r.toml"], &[]),
    (&["sample", "9"], &[]),
    (&["filter", "!(012A.a == 'x')", "--tee", "t.dat"], &["t.dat"]),
    (&["count", "--csv", "--where", "012A.a == 'x'", "-o", "o.csv"], &["o.csv"]),
    (&["explode", "copy", "-o", "o.dat"], &["o.dat"]),
    (&["invalid"], &[]),
];
/// more of them, for faults
const MORE: [(&[&str], &[&str]); 32] = [
    (&["filter", "012A.a?", "--gzip", "-o", "o.x"], &["o.x"]),
    (&["filter", "012A.a?", "--append", "-o", "o.x"], &["o.x"]),
    (&["filter", "012A.a?", "z.dat.gz"], &[]),
    (&["filter", "-F", "e.txt"], &[]),
    (&["convert", "--to", "xml", "-o", "o.x"], &["o.x"]),
    (&["convert", "--to", "xml"], &[]),
    (&["convert", "--to", "binary", "-o", "o.x"], &["o.x"]),
    (&["convert", "--to", "import"], &[]),
    (&["convert", "--to", "plain", "-o", "o.x"], &["o.x"]),
    (&["select", "003@.0, 012A.a", "-o", "o.csv"], &["o.csv"]),
    (&["frequency", "003@.0", "-o", "o.csv"], &["o.csv"]),
    (&["hash", "-o", "o.csv"], &["o.csv"]),
    (&["check", "-R", "r.toml", "-o", "o.csv"], &["o.csv"]),
    (&["check", "-R", "r.toml", "-o", "o.txt"], &["o.txt"]),
    (&["print", "-o", "o.x"], &["o.x"]),
    (&["invalid", "-o", "o.x"], &["o.x"]),
    (&["concat", "--tee", "t.x"], &["t.x"]),
    (&["split", "1", "--gzip"], &["0.dat.gz", "1.dat.gz"]),
    (&["partition", "003@.0", "--gzip"], &["1.dat.gz", "2.dat.gz"]),
    (&["slice", "-o", "o.gz"], &["o.gz"]),
    (&["sample", "9", "-o", "o.x"], &["o.x"]),
    (&["explode", "main", "-o", "o.gz"], &["o.gz"]),
    (&["count", "-o", "o.x"], &["o.x"]),
    (&["config", "--set", "skip-invalid", "true"], &["none.toml"]),
    (&["filter", "012A.a?", "--gzip"], &[]),
    (&["explode", "main", "--gzip"], &[]),
    (&["filter", "012A.a?", "--tee", "t.gz"], &["t.gz"]),
    (&["select", "003@.0, 012A.a", "--append", "-o", "o.csv"], &["o.csv"]),
    (&["count", "--append", "-o", "o.csv"], &["o.csv"]),
    (&["describe", "-o", "o.tsv"], &["o.tsv"]),
    (&["check", "-R", "r.toml", "-o", "o.tsv"], &["o.tsv"]),
    (&["frequency", "003@.0", "-p", "-o", "o.csv"], &["o.csv"]),
];
fn go(c: usize, extra: &[&str]) -> (u8, Vec<u8>, Vec<Option<Vec<u8>>>) {
    let (a, f) = if c < CMDS.len() { CMDS[c] } else { MORE[c - CMDS.len()] };
    let extra = if c == 44 { &[] } else if c == 36 || c == 20 && extra[0] == "-s" { &extra[1..] } else { extra };
    for x in f { file_put(x, b"") }
    // the query or expression comes first
    let (rc, o) = run(&a.iter().chain(extra).copied().collect::<Vec<_>>());
    (rc, o, f.iter().map(|x| file_get(x)).collect())
}
const A: [Shape; 2] = [
    Shape { val: b"xy", codes: b"a", ppn: b"12", ..S },
    Shape { val: b"xy", nf: 2, ns: 1, ppn: b"12", codes: b"ab", noppn: true, ..S },
];
fn input(c: usize, k: usize, sh: usize) -> Vec<Line> {
    let mut l = shape(&A, sh).lines(k, true);
    if c == 14 { for x in &mut l { fixed(x) } }
    if c == 19 { for x in &mut l { if let Some(r) = &mut x.rec { r.push(fld(b"101@", None, vec![sub(b'a', b"1")])); r.push(fld(b"203@", Some(b"01"), vec![sub(b'0', b"x")])); x.b = refm::put(r) } } }
    l
}
const RULES: &str = "[rule.R1]\ncheck = 'filter'\nfilter = '012A.a == \"x\"'\n[rule.R2]\ncheck = 'link'\nsource.path = '012A.a'\ntarget.path = '003@.0'\n";
harness! {
    // lines that are not records: command, how they are skipped, lines, shape
    h_skip {
        let (c, via, k, sh) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
        let l = input(c, k, sh);
        file_put("r.toml", RULES.as_bytes());
        file_put("in.dat", &cat(&l));
        if via == 2 {
            // not at all
            let (rc, _, _) = go(c, &["in.dat"]);
            reach((rc == 0) as u64);
            check((rc == 0) == !any_bad(&l), 1);
        } else {
            if via == 1 { file_put("none.toml", b"skip-invalid = true\n") }
            let x = if via == 1 { go(c, &["in.dat"]) } else { go(c, &["-s", "in.dat"]) };
            file_put("in.dat", &recs(&l).iter().flat_map(|r| refm::put(r)).collect::<Vec<u8>>());
            let y = go(c, &["in.dat"]);
            reach(any_bad(&l) as u64);
            check(x.0 == 0, 2);
            check(x == y, 3);
        }
    }
    // where the input comes from: command, how, lines, shape
    h_input {
        let (c, how, k, sh) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
        let mut l = input(c, k, sh);
        if how == 4 { for x in &mut l { fixed(x); if x.rec.is_none() { x.b = b"x\n".to_vec() } } }
        file_put("r.toml", RULES.as_bytes());
        file_put("in.dat", &cat(&l));
        let m = if how == 1 || how == 4 { 1 } else if l.len() > MANY { l.len() - choose(3) } else { choose(l.len() + 1) };
        if how == 3 && m < l.len() { file_put("in.dat", &cat(&l[..l.len() - 1])) }
        let x = go(c, &["-s", "in.dat"]);
        file_put("a.dat", &cat(&l[..m]));
        file_put("b.dat", &cat(&l[m..]));
        let y = match how {
            0 => go(c, &["-s", "a.dat", "b.dat"]),
            1 => { stdin(&cat(&l)); go(c, &["-s"]) }
            2 => { stdin(&cat(&l[m..])); go(c, &["-s", "a.dat", "-"]) }
            3 => {
                // a line without line feed at the end is not a record
                let mut b = cat(&l[m..]);
                if b.last() == Some(&b'\n') && b.len() > 1 { b.pop(); }
                file_put("b.dat", &b);
                go(c, &["a.dat", "--skip-invalid", "b.dat"])
            }
            _ => {
                // one member, or several as left by --append
                let b = cat(&l);
                let (n, mut z) = (b.len(), vec![]);
                for p in if choose(2) == 1 { vec![&b[..n / 2], &[], &b[n / 2..]] } else { vec![&b[..]] } {
                    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::default());
                    std::io::Write::write_all(&mut e, p).unwrap();
                    z.extend(e.finish().unwrap());
                }
                file_put("in.dat.gz", &z);
                go(c, &["-s", "in.dat.gz"])
            }
        };
        reach((m > 0) as u64);
        check(x.0 == 0, 1);
        check(x == y, 2);
    }
    // compressed output: command, how, lines, shape
    h_gzip {
        let (c, how, k, sh) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
        let mut l = shape(&A, sh).lines(k, true);
        for x in &mut l { fixed(x) }
        file_put("in.dat", &cat(&l));
        let cmd: &[&str] = [&["filter", "012A.a == 'x'"][..], &["slice", "--start", "1"], &["concat", "-u"], &["explode", "main"], &["sample", "9"], &["split", "1"], &["partition", "012A.a"], &["filter", "003@?", "--tee", "t.dat.gz"], &["filter", "012A.a == 'x'", "--append"]][c];
        let files: &[(&str, &str)] = match c { 5 => &[("0.dat", "0.dat.gz"), ("1.dat", "1.dat.gz")], 6 => &[("x.dat", "x.dat.gz"), ("y.dat", "y.dat.gz")], 7 => &[], _ => &[("o.dat", "o.dat.gz")] };
        if c == 8 {
            file_put("o.dat", b"old\n");
            let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::default());
            std::io::Write::write_all(&mut e, b"old\n").unwrap();
            file_put("o.dat.gz", &e.finish().unwrap());
        }
        let mut a = cmd.to_vec();
        a.extend(["-s", "in.dat"]);
        if c < 5 || c == 8 { a.extend(["-o", "o.dat"]) }
        let x = run(&a);
        let mut a = cmd.to_vec();
        a.extend(["-s", "in.dat"]);
        if c < 5 || c == 8 { a.extend(["-o", "o.dat.gz"]) }
        if c == 5 || c == 6 || how == 1 && c != 2 { a.push("--gzip") }
        let y = run(&a);
        check(x.0 == 0 && y.0 == 0, 1);
        let zip = |n: &str| file_get(n).map(|z| {
            let mut v = vec![];
            let r = std::io::Read::read_to_end(&mut flate2::read::MultiGzDecoder::new(&z[..]), &mut v);
            check(r.is_ok(), 2);
            v
        });
        for (p, z) in files {
            let w = file_get(p);
            reach(w.as_ref().is_some_and(|w| !w.is_empty()) as u64);
            check(zip(z) == w, 3);
        }
        if c == 7 && how == 0 { check(zip("t.dat.gz").as_deref() == Some(&y.1[..]), 4) }
    }
    // faults while reading and writing: command, kinds, how many, lines, shape
    h_fault {
        let (c, m, n, k) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
        let mut l = input(c, k, sym::param(4));
        if k > 1 { for x in &mut l { assume(x.rec.is_some()); } }
        // what is compressed is one of a few (and its writer may give up when interrupted)
        let (a, f) = if c < CMDS.len() { CMDS[c] } else { MORE[c - CMDS.len()] };
        let gz = a.contains(&"--gzip") || f.iter().any(|x| x.ends_with(".gz"));
        if gz || c == 32 { for x in &mut l { assume(x.rec.is_some()); fixed(x) } }
        file_put("r.toml", RULES.as_bytes());
        file_put("e.txt", b"012A.a?");
        file_put("none.toml", b"skip-invalid = true\n");
        let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::default());
        std::io::Write::write_all(&mut e, b"003@ \x1f01\x1e\n012A \x1fax\x1e\n").unwrap();
        file_put("z.dat.gz", &e.finish().unwrap());
        file_put("in.dat", &cat(&l));
        let x = go(c, &["-s", "in.dat"]);
        panic_ok(true);
        if c == 44 { file_put("none.toml", b"") }
        io_fault(m, n);
        let y = go(c, &["-s", "in.dat"]);
        let failed = io_fault(0, 0);
        panic_ok(false);
        check(x.0 == 0, 1);
        reach((failed > 0) as u64);
        // what was not read or written completely is not passed over
        if failed > 0 { check(y.0 != 0, 2) } else { check(x == y || gz && y.0 != 0 && m & 1 == 1, 3) }
    }
}
