//! the configuration
use crate::g::*;
use crate::refm::{self, Fld, Rec, fld, sub};
use crate::sym::{self, *};
use crate::out::fixed;

const FORMS: [&str; 4] = ["nfc", "nfkc", "nfd", "nfkd"];
/// strings and what they are in each form
const TEXT: [(&str, [&str; 4]); 4] = [
    ("\u{e9}", ["\u{e9}", "\u{e9}", "e\u{301}", "e\u{301}"]),
    ("e\u{301}", ["\u{e9}", "\u{e9}", "e\u{301}", "e\u{301}"]),
    ("\u{b2}", ["\u{b2}", "2", "\u{b2}", "2"]),
    ("\u{212b}", ["\u{c5}", "\u{c5}", "A\u{30a}", "A\u{30a}"]),
];
/// commands; % stands for the expression
const CMDS: [&[&str]; 18] = [
    &["filter", "%"],
    &["filter", "003@?", "--and", "%"],
    &["filter", "012A.b?", "--or", "%"],
    &["filter", "003@?", "--not", "%"],
    &["filter", "-v", "%"],
    &["slice", "--where", "%"],
    &["split", "9", "--where", "%"],
    &["partition", "003@.0", "--where", "%"],
    &["count", "--where", "%"],
    &["frequency", "003@.0", "--where", "%"],
    &["select", "003@.0", "--where", "%"],
    &["explode", "main", "--where", "%"],
    &["print", "--where", "%"],
    &["describe", "-o", "d.csv", "--where", "%"],
    &["hash", "--where", "%"],
    &["sample", "9", "--where", "%"],
    &["check", "-R", "r.toml", "--where", "%"],
    // in a query
    &["select", "003@.0, 012A{ (a) | %}"],
];
fn go(c: usize, e: &str) -> (u8, Vec<u8>, Vec<u8>) {
    let f = match c { 6 => "0.dat", 13 => "d.csv", _ => "1.dat" };
    file_put(f, b"");
    let a: Vec<String> = CMDS[c].iter().map(|x| x.replace('%', e)).collect();
    let (rc, o) = run(&a.iter().map(|x| &x[..]).collect::<Vec<_>>());
    (rc, o, got(f))
}
/// the value of an option, as `config` prints it
fn get(name: &str) -> Vec<u8> {
    let (rc, o) = run(&["config", name]);
    check(rc == 0, 1);
    o
}
fn opt(b: &[u8]) -> &str {
    core::str::from_utf8(b).unwrap()
}
/// arbitrary characters an argument may consist of
fn chars(n: usize) -> Vec<u8> {
    let v: Vec<u8> = (0..n).map(|_| { let b = byte(); assume((b < 128) & (b != 0)); b }).collect();
    if n > 0 { assume(v[0] != b'-') }
    v
}
fn valid(s: &[&str], v: &[u8]) -> bool {
    let mut is = false;
    for s in s { if s.len() == v.len() { is |= v == s.as_bytes() } }
    is
}
harness! {
    // expressions are normalized: command, form, string, bytes of the value
    h_norm {
        let (c, nf, t, n) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
        // what is hashed is one of a few
        let v = if c == 14 { ["\u{e9}", "e\u{301}", "2", "\u{b2}", "\u{212b}", "\u{c5}", "A\u{30a}"][choose(7)].into() } else { vbytes(n, false) };
        let r = vec![fld(b"003@", None, vec![sub(b'0', b"1")]), fld(b"012A", None, vec![sub(b'a', &v)])];
        file_put("in.dat", &refm::put(&r));
        file_put("r.toml", b"[rule.R]\ncheck = 'filter'\nfilter = '003@?'\n");
        stdin(&refm::put(&r));
        let (s, forms) = TEXT[t];
        let e = |s: &str| if c == 17 { format!("a == '{s}'") } else { format!("012A.a == '{s}'") };
        let x = go(c, &e(if nf == 4 { s } else { forms[nf] }));
        if nf < 4 { file_put("none.toml", format!("skip-invalid = false\nnormalization = \"{}\"\n", FORMS[nf]).as_bytes()) }
        stdin(&refm::put(&r));
        let y = go(c, &e(s));
        reach(has(&r, false, b'a', (if nf == 4 { s } else { forms[nf] }).as_bytes()) as u64);
        check(x.0 == 0, 1);
        check(x == y, 2);
    }
    // rule sets are normalized: form, string, bytes of the value
    h_norm_rules {
        let (nf, t, n) = (sym::param(0), sym::param(1), sym::param(2));
        let v = vbytes(n, false);
        let r = vec![fld(b"003@", None, vec![sub(b'0', b"1")]), fld(b"012A", None, vec![sub(b'a', &v)])];
        file_put("in.dat", &refm::put(&r));
        let (s, forms) = TEXT[t];
        file_put("none.toml", format!("skip-invalid = false\nnormalization = \"{}\"\n", FORMS[nf]).as_bytes());
        file_put("r.toml", format!("[rule.R]\ncheck = 'filter'\nfilter = '012A.a == \"{s}\"'\n").as_bytes());
        let x = run(&["check", "-R", "r.toml", "in.dat"]);
        let m = has(&r, false, b'a', forms[nf].as_bytes());
        reach(m as u64);
        check(x.0 == 0, 1);
        check(x.1 == if m { &b"ppn,rule,level,message\n1,R,error,\n"[..] } else { b"" }, 2);
    }
    // a history of config commands: steps
    h_config {
        let mut skip = false;
        let mut nf = b"None".to_vec();
        file_put("in.dat", b"003@ \x1f01\x1e\nx\n");
        for _ in 0..sym::param(0) {
            let on = choose(2) == 1;
            let name = if on { "normalization" } else { "skip-invalid" };
            match choose(5) {
                // any value: it is stored, or the command fails
                0 | 1 => {
                    let v = chars(if on { 3 + choose(2) } else { 4 + choose(2) });
                    let v = opt(&v);
                    let (rc, o) = match choose(3) { 0 => run(&["config", "--set", name, v]), 1 => run(&["config", name, v]), _ => run(&["config", name, v, "--set"]) };
                    let is = if on { valid(&FORMS, v.as_bytes()) } else { valid(&["true", "false"], v.as_bytes()) };
                    check(rc == if is { 0 } else { 2 } && o.is_empty(), 2);
                    if is { if on { nf = v.as_bytes().to_vec() } else { skip = v == "true" } }
                }
                2 => {
                    if on { nf = b"None".to_vec() } else { skip = false }
                    check(run(&["config", "--unset", name]) == (0, vec![]), 3);
                }
                3 => check(run(&["config", "--unset", ["skip_invalid", "path", "", "Normalization"][choose(4)]]) == (2, vec![]), 4),
                _ => { run(&["config", "--get", name]); }
            }
            check(get("skip-invalid") == if skip { &b"true\n"[..] } else { b"false\n" }, 5);
            check(get("normalization") == [&nf[..], b"\n"].concat(), 6);
        }
        let (rc, o) = run(&["count", "--records", "in.dat"]);
        reach(skip as u64);
        check((rc == 0) == skip, 7);
        if skip { check(o == b"1\n", 8) }
    }
    // any value: option, bytes
    h_config_value {
        let (k, n) = (sym::param(0), sym::param(1));
        let v = chars(n);
        file_put("none.toml", b"skip-invalid = true\nnormalization = \"nfkd\"\n");
        let (x, _) = run(&["config", "--set", ["skip-invalid", "normalization"][k], opt(&v)]);
        let is = valid(if k == 0 { &["true", "false"] } else { &FORMS }, &v);
        reach((x == 0) as u64);
        check(x == if is { 0 } else { 2 }, 2);
        check(get("skip-invalid") == if k == 0 && is { [&v[..], b"\n"].concat() } else { b"true\n".to_vec() }, 3);
        check(get("normalization") == if k == 1 && is { [&v[..], b"\n"].concat() } else { b"nfkd\n".to_vec() }, 4);
    }
    // a configuration file: bytes put in at any place, which of the options it has
    h_config_file {
        let (n, k) = (sym::param(0), sym::param(1));
        let (skip, nf) = (["", "skip-invalid = true\n", "skip-invalid = false\n"][k % 3], ["", "normalization = \"nfd\"\n"][k / 3 % 2]);
        let mut t = if k < 6 { [skip, nf].concat() } else { [nf, skip].concat() }.into_bytes();
        let p = if n > 0 { choose(t.len() + 1) } else { 0 };
        t.splice(p..p, (0..n).map(|_| byte()));
        file_put("none.toml", &t);
        file_put("in.dat", b"003@ \x1f01\x1e\nx\n");
        let (rc, o) = run(&["count", "--records", "in.dat"]);
        let (x, v) = run(&["config", "skip-invalid"]);
        let (y, w) = run(&["config", "normalization"]);
        reach((x == 0) as u64);
        // valid for all commands or for none
        check((x == 0 || x == 2) && x == y, 2);
        if x != 0 { check(rc == 2 && o.is_empty() && v.is_empty() && w.is_empty(), 3) } else {
            check(v == b"true\n" || v == b"false\n", 4);
            check((rc == 0) == (v == b"true\n") && (rc != 0 || o == b"1\n"), 5);
        }
        if n == 0 {
            check(x == 0 && v == if skip.contains("true") { &b"true\n"[..] } else { b"false\n" }, 6);
            check(w == if nf.is_empty() { &b"None\n"[..] } else { b"nfd\n" }, 7);
        }
        // setting what is not there
        if x == 0 {
            check(run(&["config", "--set", "normalization", "nfc"]) == (0, vec![]), 8);
            check(get("skip-invalid") == v && get("normalization") == b"nfc\n", 9);
        } else {
            check(run(&["config", "--set", "normalization", "nfc"]).0 == 2 && file_get("none.toml") == Some(t), 10);
        }
    }
}
