//! options that all commands have, and inputs that none expects
use crate::g::*;
use crate::refm::{self, Fld, Rec, fld, sub};
use crate::sym::{self, *};
use crate::out::fixed;

/// commands that select records
const SEL: [(&[&str], &[&str]); 13] = [
    (&["filter", "002@? || 003@?"], &[]),
    (&["slice"], &[]),
    (&["split", "1"], &["0.dat", "1.dat", "2.dat", "3.dat"]),
    (&["partition", "00[23]@.0"], &["1.dat", "2.dat", "Tp1.dat"]),
    (&["count"], &[]),
    (&["frequency", "0...{0}, 012A{a, b}"], &[]),
    (&["select", "0...{0}, 012A/*{a, b}"], &[]),
    (&["explode", "main"], &[]),
    (&["print"], &[]),
    (&["describe", "-o", "o.csv"], &["o.csv"]),
    (&["hash"], &[]),
    (&["sample", "9"], &[]),
    (&["check", "-R", "r.toml"], &[]),
];
type Res = (u8, Vec<u8>, Vec<Option<Vec<u8>>>);
fn go(a: &[&str], f: &[&str]) -> Res {
    for x in f { crate::sym::file_put(x, b"") }
    let (rc, o) = run(a);
    (rc, o, f.iter().map(|x| file_get(x)).collect())
}
const RULES: &str = "[rule.R1]\ncheck = 'filter'\nfilter = '012A.a == \"x\"'\n[rule.R2]\ncheck = 'link'\nsource.path = '012A.a'\ntarget.path = '003@.0'\n[rule.R0]\ncheck = 'filter'\nfilter = '003@? || 002@?'\n";
fn lower(r: &Rec, c: u8, v: u8) -> bool {
    has(r, false, c, &[v]) | has(r, false, c, &[v.to_ascii_uppercase()])
}
const O: [Shape; 3] = [
    Shape { val: b"xXy", codes: b"ab", ppn: b"12", noppn: true, ..S },
    Shape { val: b"xX", nf: 2, codes: b"ab", ppn: b"1", ..S },
    Shape { val: b"xX", nf: 2, ns: 2, codes: b"ab", ppn: b"12", bare: true, ..S },
];
fn lev(v: &[u8], t: &[u8]) -> usize {
    // the distance from v to t, of up to two bytes each
    match (v.len(), t.len()) {
        (0, n) | (n, 0) => n,
        (1, 1) => (v != t) as usize,
        (1, 2) => 1 + !t.contains(&v[0]) as usize,
        (2, 1) => 1 + !v.contains(&t[0]) as usize,
        _ => if v == t { 0 } else if v[0] == t[0] || v[1] == t[1] { 1 } else { 2 },
    }
}
fn similar(r: &Rec, t: &[u8], min: usize) -> bool {
    vals(r, false, b'a').iter().any(|v| (v.len().max(t.len()) - lev(v, t)) * 100 > min * v.len().max(t.len()))
}
/// options, which records they select, and how many of them
fn opts(o: usize) -> (Vec<&'static str>, fn(&Rec) -> bool, usize) {
    match o {
        0 => (vec!["-i", "--where", "012A.a == 'x'"], |r| lower(r, b'a', b'x'), 0),
        1 => (vec!["--where", "012A.a == 'x'", "--and", "003@?", "--and", "012A.b?"], |r| has(r, false, b'a', b"x") & ppn(r).is_some() & hasc(r, false, b'b'), 0),
        2 => (vec!["--where", "012A.a == 'x'", "--or", "003@.0 == '1'", "--or", "012A.b == 'x'"], |r| has(r, false, b'a', b"x") | (ppn(r) == Some(b"1")) | has(r, false, b'b', b"x"), 0),
        3 => (vec!["--where", "003@?", "--not", "012A.a == 'x'", "--not", "012A.b == 'X'"], |r| ppn(r).is_some() & !has(r, false, b'a', b"x") & !has(r, false, b'b', b"X"), 0),
        4 => (vec!["-A", "a.csv", "-A", "b.tsv", "-D", "d.csv", "-D", "e.txt"], |r| ppn(r) == Some(b"1"), 0),
        5 => (vec!["--filter-set-column", "x", "--filter-set-source", "012A.a", "-A", "a.csv"], |r| has(r, false, b'a', b"x"), 0),
        6 => (vec!["--filter-set-column=x", "--filter-set-source=012A.b", "-D", "a.csv", "-i", "--where", "012A.a == 'X' || 012A.b?"], |r| !has(r, false, b'b', b"x") & (lower(r, b'a', b'x') | hasc(r, false, b'b')), 0),
        7 => (vec!["-l", "1", "--ignore-case", "--where", "012A.a == 'X'"], |r| lower(r, b'a', b'x'), 1),
        8 => (vec!["--strsim-threshold", "40", "--where", "012A.a =* 'xX'"], |r| similar(r, b"xX", 40), 0),
        9 => (vec!["--strsim-threshold=60", "--where", "012A.a =* 'xX'"], |r| similar(r, b"xX", 60), 0),
        10 => (vec!["--limit", "2", "-A", "a.csv", "--where", "012A.a?"], |r| ((ppn(r) == Some(b"1")) | (ppn(r) == Some(b"3"))) & hasc(r, false, b'a'), 2),
        11 => (vec!["-l", "1", "-D", "e.txt", "--where", "012A.a?", "--not", "012A.b?"], |r| (ppn(r) != Some(b"2")) & hasc(r, false, b'a') & !hasc(r, false, b'b'), 1),
        _ => (vec!["--where", "012A.b == 'X'", "-i", "--or", "012A.a == 'X'"], |r| lower(r, b'b', b'x') | lower(r, b'a', b'x'), 0),
    }
}
/// commands that write, with whether the output can be appended to and
/// compressed
const WR: [(&[&str], bool, bool); 24] = [
    (&["filter", "012A.a == 'x'"], true, true),
    (&["slice", "--start", "1"], true, true),
    (&["concat"], true, false),
    (&["concat", "-u"], true, false),
    (&["count"], true, false),
    (&["count", "--csv"], true, false),
    (&["frequency", "012A.a"], false, false),
    (&["frequency", "-t", "012A.a"], false, false),
    (&["select", "003@.0, 012A.a"], true, false),
    (&["select", "-t", "-H", "a,b", "003@.0, 012A.a"], true, false),
    (&["explode", "main"], false, true),
    (&["print"], false, false),
    (&["convert", "--to", "plain"], false, false),
    (&["convert", "--to", "json"], false, false),
    (&["convert", "--to", "xml"], false, false),
    (&["convert", "--to", "import"], false, false),
    (&["convert", "--to", "binary"], false, false),
    (&["convert", "--to", "plus"], false, false),
    (&["hash"], false, false),
    (&["hash", "--tsv"], false, false),
    (&["sample", "9"], false, true),
    (&["check", "-R", "r.toml"], false, false),
    (&["invalid"], false, false),
    (&["filter", "-v", "012A.a == 'x'"], true, true),
];
harness! {
    // selecting records first: command, option, lines, shape
    h_where {
        let (c, o, k, sh) = (sym::param(0), sym::param(1), sym::param(2), shape(&O, sym::param(3)));
        let mut l = sh.lines(k, k > 1);
        if c == 10 || o == 8 || o == 9 { for x in &mut l { fixed(x) } }
        file_put("r.toml", RULES.as_bytes());
        file_put("a.csv", b"ppn,x\n1,x\n3,-\n");
        file_put("b.tsv", b"n\tppn\n8\t2\n9\t4\n");
        file_put("d.csv", b"x,idn\n9,4\n9,5\n");
        file_put("e.txt", b"6\n2\n");
        file_put("in.dat", &cat(&l));
        let (mut e, f, limit) = opts(o);
        let (cmd, files) = SEL[c];
        let mut a = cmd.to_vec();
        if c == 0 {
            // the expression is an argument
            if let Some(i) = e.iter().position(|x| *x == "--where") { a[1] = e[i + 1]; e.drain(i..i + 2); }
        }
        a.extend(["-s", "in.dat"]);
        a.extend(e);
        let x = go(&a, files);
        let mut rs = recs(&l);
        rs.retain(|r| f(r));
        if limit > 0 { rs.truncate(limit) }
        file_put("in.dat", &rs.iter().flat_map(|r| refm::put(r)).collect::<Vec<u8>>());
        reach((rs.len() > 0) as u64);
        let y = go(&[cmd, &["in.dat"]].concat(), files);
        check(x.0 == 0 && y.0 == 0, 1);
        check(x.1 == y.1, 2);
        check(x.2 == y.2, 3);
    }
    // where the output goes: command, option, lines, shape
    h_output {
        let (c, o, k, sh) = (sym::param(0), sym::param(1), sym::param(2), shape(&O, sym::param(3)));
        let mut l = sh.lines(k, k > 1);
        let (cmd, app, gz) = WR[c];
        if cmd[0] == "hash" || o >= 8 { for x in &mut l { fixed(x) } }
        file_put("r.toml", RULES.as_bytes());
        file_put("in.dat", &cat(&l));
        let s: &[&str] = if cmd[0] == "invalid" { &["in.dat"] } else { &["-s", "in.dat"] };
        let (rc, w) = run(&[cmd, s].concat());
        check(rc == 0, 1);
        reach(w.is_empty() as u64);
        let old: Vec<u8> = (0..300).map(|i| b'a' + (i % 26) as u8).collect();
        let a = |x: &[&'static str]| [cmd, s, x].concat();
        match o {
            // replaces what was there
            0 => { file_put("o.x", &old); check(run(&a(&["-o", "o.x"])) == (0, vec![]) && got("o.x") == w, 2) }
            // a new file; the progress bar
            1 => check(run(&a(&["-p", "--output", "o.x"])) == (0, vec![]) && got("o.x") == w, 3),
            // twice the same
            2 => { run(&a(&["-o", "o.x"])); check(run(&a(&["-o", "o.x"])) == (0, vec![]) && got("o.x") == w, 4) }
            // appended
            3 if app => { file_put("o.x", &old); check(run(&a(&["--append", "-o", "o.x"])) == (0, vec![]) && got("o.x") == [&old[..], &w].concat(), 5) }
            4 if app => { for _ in 0..2 { check(run(&a(&["--append", "-o", "o.x"])) == (0, vec![]), 6) } check(got("o.x") == [&w[..], &w].concat(), 6) }
            5 if app => check(run(&a(&["--append"])) == (0, w), 7),
            // compressed, and whatever was there
            8 | 9 if gz => {
                file_put("o.gz", &old[..if o == 8 { 300 } else { 5 }]);
                check(run(&a(if o == 8 { &["-g", "-o", "o.gz"] } else { &["-o", "o.gz"] })) == (0, vec![]), 10);
                let mut v = vec![];
                let r = std::io::Read::read_to_end(&mut flate2::read::MultiGzDecoder::new(&got("o.gz")[..]), &mut v);
                check(r.is_ok() && v == w, 11);
            }
            // no such directory
            6 => check(run(&a(&["-o", "no/o.x"])) == (2, vec![]), 8),
            // a copy
            7 if cmd[0] == "filter" || cmd[0] == "concat" => { file_put("t.x", &old); let (rc, z) = run(&a(&["--tee", "t.x"])); check(rc == 0 && z == w && got("t.x") == w, 9) }
            _ => {}
        }
    }
    // directories and names of split and partition: command, option, lines, shape
    h_outdir {
        let (c, o, k, sh) = (sym::param(0), sym::param(1), sym::param(2), shape(&O, sym::param(3)));
        let l = sh.lines(k, true);
        file_put("in.dat", &cat(&l));
        let cmd: &[&str] = if c == 0 { &["split", "-s", "1", "in.dat"] } else { &["partition", "-s", "00[23]@.0", "in.dat"] };
        let names: &[&str] = if c == 0 { &["0", "1", "2"] } else { &["1", "2", "Tp1"] };
        let (rc, out) = run(cmd);
        check(rc == 0 && out.is_empty(), 1);
        let w: Vec<Option<Vec<u8>>> = names.iter().map(|n| file_get(&format!("{n}.dat"))).collect();
        let (d, name) = match o { 0 => ("d", "d/%.dat"), 1 => ("d/e/f", "d/e/f/%.dat"), 2 => ("d", "d/r-%.x"), 3 => (".", "r-%%"), _ => ("./", "%.dat") };
        let mut a = [cmd, &["-o", d]].concat();
        let tpl = if o == 2 { "r-{}.x" } else { "r-{}{}" };
        if o == 2 || o == 3 { a.extend(["--template", tpl]) }
        let times = choose(2);
        for _ in 0..1 + times { check(run(&a) == (0, vec![]), 2) }
        reach(times as u64);
        for (n, w) in names.iter().zip(w) {
            let g = file_get(&name.replace('%', n));
            if let Some(g) = &g { note(g) }
            check(g == w, 3);
        }
    }
}
pub mod total {
use super::*;
/// characters an argument may have
fn text(n: usize) -> String {
    let v: Vec<u8> = (0..n).map(|_| { let b = byte(); assume((b < 128) & (b != 0)); b }).collect();
    if n > 0 { assume(v[0] != b'-') }
    unsafe { String::from_utf8_unchecked(v) }
}
const ANY: [&[&str]; 22] = [
    &["filter", "012A.a?"],
    &["slice"],
    &["concat"],
    &["concat", "-u"],
    &["count"],
    &["frequency", "012A.a"],
    &["select", "0...{0}, 012A/*{a, b}"],
    &["explode", "main"],
    &["explode", "local"],
    &["explode", "copy"],
    &["print"],
    &["convert", "--to", "plain"],
    &["convert", "--to", "json"],
    &["convert", "--to", "xml"],
    &["convert", "--to", "import"],
    &["convert", "--to", "binary"],
    &["describe", "-o", "o.csv"],
    &["check", "-R", "r.toml"],
    &["sample", "1"],
    &["split", "1"],
    &["invalid"],
    &["check", "-R", "r.toml", "-o", "o.txt"],
];
const BASE: &[u8] = b"003@ \x1f01\x1e012A/01 \x1fax\x1fb\x1e101@ \x1fa1\x1e203@/01 \x1f0x\x1e\n";
const ARGS: [&[&str]; 46] = [
    &["filter", "%"],
    &["filter", "012A{%}"],
    &["filter", "012A.a == '%'"],
    &["filter", "003@?", "--and", "%"],
    &["filter", "-k", "%", "003@?"],
    &["filter", "--discard", "%", "003@?"],
    &["filter", "--limit", "%", "003@?"],
    &["filter", "--filter-set-source", "%", "003@?"],
    &["filter", "--strsim-threshold", "%", "012A/*.a =* 'y'"],
    &["slice", "--start", "%"],
    &["slice", "--length", "%"],
    &["slice", "--end", "%"],
    &["sample", "%"],
    &["sample", "1", "--seed", "%"],
    &["split", "%"],
    &["select", "%"],
    &["select", "012A/*{a%}"],
    &["select", "012A/*{a <%>}"],
    &["select", "003@.0", "-H", "%"],
    &["select", "003@.0,012A/*.a", "--squash", "--separator", "%"],
    &["frequency", "%"],
    &["frequency", "003@.0", "--threshold", "%"],
    &["frequency", "003@.0", "-n", "%"],
    &["frequency", "003@.0", "-H", "%"],
    &["partition", "%"],
    &["explode", "%"],
    &["describe", "-o", "o.csv", "-k", "%"],
    &["hash", "-H", "%"],
    &["convert", "--to", "%"],
    &["print", "--where", "012A/*{ a in ['%'] }"],
    // numbers at the limit
    &["sample", "429496729%"],
    &["sample", "1", "--seed", "1844674407370955161%"],
    &["split", "429496729%"],
    &["slice", "--start", "1844674407370955161%", "--length", "5"],
    &["slice", "--start", "1", "--length", "1844674407370955161%"],
    &["slice", "--start", "1", "--end", "1844674407370955161%"],
    &["filter", "--limit", "1844674407370955161%", "003@?"],
    &["frequency", "-n", "1844674407370955161%", "003@.0"],
    &["frequency", "--threshold", "1844674407370955161%", "003@.0"],
    &["filter", "#012A/* == 1844674407370955161% || 012A/*{#a == 429496729%}"],
    &["count", "--limit", "1844674407370955161%"],
    &["select", "012A/*{1..1844674407370955161% a}"],
    // regular expressions
    &["filter", "012A/*.a =~ '%'"],
    &["filter", "-i", "012A/*.a !~ ['%', '^b']"],
    &["filter", "-i", "012A/*.a =~ 'x{150000%}'"],
    &["filter", "012A/*.a =~ ['x{190000}', 'y{19000%}']"],
];
const SETS: [&str; 6] = [
    "[rule.R]\ncheck = 'filter'\nfilter = '012A.a?'\nlevel = 'info'\ntags = ['a']\n",
    "scope = '003@?'\ntermination = 'fast'\n[rule.R]\ncheck = 'datetime'\npath = '012A.a'\nformat = '%Y'\noffset = 1\n",
    "[rule.R]\ncheck = 'duplicates'\nquery = '012A{a,b}'\nthreshold = 2\n",
    "[rule.R]\ncheck = 'isni'\npath = '012A.a'\nprefix = 'x'\n",
    "[rule.R]\ncheck = 'link'\nsource.path = '012A.a'\ntarget = { path = '003@.0', filter = '003@?' }\n",
    "[rule.R]\ncheck = 'unicode'\nnormalization = 'nfc'\n[rule.S]\ncheck = 'jelc'\npath = '012A.a'\n",
];
fn over(a: &[&str], t: &str) -> u8 {
    let a: Vec<String> = a.iter().map(|x| x.replace('%', t)).chain(["in.dat".to_string()]).collect();
    let (rc, _) = run(&a.iter().map(|x| &x[..]).collect::<Vec<_>>());
    rc
}
harness! {
    // any input: command, bytes, where they go (0: in front, else over the record from there on)
    h_total {
        let (c, n, p) = (sym::param(0), sym::param(1), sym::param(2));
        let mut b = BASE.to_vec();
        let x = bytes(n);
        if p == 0 { b.splice(0..0, x); } else { b.splice(p..p + n, x); }
        file_put("r.toml", RULES.as_bytes());
        file_put("in.dat", &b);
        let skip = choose(2) == 1 && ANY[c][0] != "invalid";
        let (rc, _) = run(&[ANY[c], if skip { &["-s", "in.dat"] } else { &["in.dat"] }].concat());
        reach((rc == 0) as u64);
        check(rc == 0 || rc == 2 && !skip, 1);
    }
    // any argument: command, characters
    h_total_arg {
        let (c, n) = (sym::param(0), sym::param(1));
        file_put("in.dat", BASE);
        let t = text(n);
        unsafe { crate::ANY_ARGS = true }
        // stay in the directory
        if ARGS[c][0] == "partition" { for b in t.bytes() { assume(b != b'/') } }
        let rc = over(ARGS[c], &t);
        reach((rc == 0) as u64);
        check(rc == 0 || rc == 2, 1);
    }
    // any rule set: rule set, bytes, put in at every place of a part (of how many)
    h_total_rules {
        let (s, n, p, m) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
        let mut t = SETS[s].as_bytes().to_vec();
        let w = (t.len() + 1).div_ceil(m);
        let i = (p * w + choose(w)).min(t.len());
        let x: Vec<u8> = (0..n).map(|_| byte()).collect();
        t.splice(i..i, x);
        file_put("r.toml", &t);
        file_put("in.dat", BASE);
        let (rc, _) = run(&["check", "-R", "r.toml", "in.dat"]);
        reach((rc == 0) as u64);
        check(rc == 0 || rc == 2, 1);
    }
    // any expression file: bytes, after the start of an expression
    h_total_file {
        let x = bytes(sym::param(0));
        file_put("e.txt", &[if sym::param(1) == 1 { &b"012A/*.a"[..] } else { b"" }, &x].concat());
        file_put("in.dat", BASE);
        let (rc, _) = run(&["filter", "-F", "e.txt", "in.dat"]);
        reach((rc == 0) as u64);
        check(rc == 0 || rc == 2, 1);
    }
}
}
