//! the check command
use crate::g::*;
use crate::refm::{self, Fld, Rec, fld, sub};
use crate::sym::{self, *};
use crate::{codes, forms};
use crate::out::{lossy, row};

type Row = (Vec<u8>, &'static str, &'static str, Option<Vec<u8>>);
fn csv(rows: &[Row], d: u8) -> Vec<u8> {
    let mut o = vec![];
    if !rows.is_empty() { o.extend(row(&[b"ppn", b"rule", b"level", b"message"], d)) }
    for (p, r, l, m) in rows { o.extend(row(&[p, r.as_bytes(), l.as_bytes(), m.as_deref().unwrap_or_default()], d)) }
    o
}
fn txt(rows: &[Row]) -> Vec<u8> {
    rows.iter().flat_map(|r| row(&[&r.0], b',')).collect()
}
fn bad_join(v: Vec<&[u8]>) -> Option<Vec<u8>> {
    if v.is_empty() { None } else { Some(v.iter().map(|x| lossy(x)).collect::<Vec<_>>().join(&b", "[..])) }
}
/// the values of 012A (without occurrence) subfield a
fn a_vals(r: &Rec) -> Vec<&[u8]> { vals(r, false, b'a') }
fn check_rec(vs: Vec<Vec<u8>>) -> Rec {
    let mut r = vec![fld(b"003@", None, vec![sub(b'0', b"1")])];
    for v in vs { r.push(fld(b"012A", None, vec![sub(b'a', &v)])) }
    r
}
fn one(rule: &str, r: &Rec, args: &[&str]) -> (u8, Vec<u8>) {
    file_put("r.toml", rule.as_bytes());
    file_put("in.dat", &refm::put(r));
    let mut a = vec!["check", "-R", "r.toml"];
    a.extend(args);
    a.push("in.dat");
    run(&a)
}
fn want(m: Option<Vec<u8>>) -> Vec<u8> {
    match m { Some(m) => csv(&[(b"1".to_vec(), "R", "error", Some(m))], b','), None => vec![] }
}
fn ok(x: (u8, Vec<u8>), w: Vec<u8>) {
    reach(w.is_empty() as u64);
    check(x.0 == 0, 1);
    check(x.1 == w, 2);
}
const RULES: [&str; 5] = [
    "[rule.R2]\ncheck = 'filter'\nfilter = '012A.a == \"x\"'\ntags = ['p', 'q']\n\n[rule.R1]\ncheck = 'filter'\nfilter = '012A/*.b?'\ninvert-match = true\nlevel = 'warning'\ndescription = 'd'\n",
    "scope = '003@.0 in [\"1\", \"3\"]'\ntermination = 'fast'\n[rule.B]\ncheck = 'filter'\nfilter = '012A.a == \"x\"'\nlevel = 'info'\ncase-ignore = true\n[rule.A]\ncheck = 'allow'\npath = '012A.a'\nlist = { filename = 'l.csv', column = 'c' }\nlevel = 'warning'\ntags = ['q']\n",
    "[rule.L]\ncheck = 'link'\nsource.path = '012A.a'\ntarget.path = '003@.0'\nlevel = 'info'\n[rule.F]\ncheck='filter'\nfilter = '003@.0 == \"2\"'\n",
    "scope = '003@.0 != \"2\"'\n[rule.L]\ncheck = 'link'\nsource.path = '012A.a'\ntarget = { path = '003@.0', filter = '!012A.b?' }\nlink = 'x'\n",
    "[rule.R1]\ncheck = 'filter'\nfilter = '012A/*.a?'\n[rule.R2]\ncheck = 'filter'\nfilter = '003@?'\ntags = ['q']\nlevel = 'info'\n",
];
/// rule sets that are used together
const SETS: [&[usize]; 8] = [&[0], &[1], &[2], &[3], &[0, 1], &[0, 4], &[3, 2], &[4, 1, 0]];
const C: [Shape; 5] = [
    Shape { val: b"xX1y", ..S },
    Shape { val: b"xy", ns: 2, noppn: true, ..S },
    Shape { val: b"123", nf: 2, codes: b"a", ..S },
    Shape { val: b"12x", codes: b"ab", ns: 2, noppn: true, ..S },
    Shape { val: b"x", nf: 2, occ: true, ..S },
];
harness! {
    // rule sets, option, lines, shape, order of hash tables
    h_check {
        let (rs, opt, k, sh) = (sym::param(0), sym::param(1), sym::param(2), shape(&C, sym::param(3)));
        order(sym::param(4));
        let l = sh.lines(k, k > 1);
        file_put("in.dat", &cat(&l));
        file_put("l.csv", b"c,d\nX,x\n1,x\n");
        let mut a = vec!["check", "-s"];
        for (&x, f) in SETS[rs].iter().zip(["r.toml", "s.toml", "t.toml"]) {
            file_put(f, RULES[x].as_bytes());
            a.extend(["-R", f]);
        }
        let mut recs = recs(&l);
        let mut rule: fn(&str) -> bool = |_| true;
        let mut out = "";
        let mut d = b',';
        match opt {
            0 => {}
            1 => { a.extend(["--limit", "1"]); recs.truncate(1) }
            2 => { a.extend(["--where", EXPRS[1].0]); recs.retain(|r| (EXPRS[1].1)(r)) }
            3 => { a.extend(["--tags", "r, q"]); rule = |r| r == "R2" || r == "A" }
            4 => { a.extend(["--rule", "[12]$", "-r", "^A"]); rule = |r| r != "B" && r != "L" && r != "F" }
            5 => { a.extend(["-o", "out.tsv"]); out = "out.tsv"; d = b'\t' }
            6 => { a.extend(["-o", "out.txt"]); out = "out.txt" }
            _ => { file_put("d.csv", b"ppn\n1\n"); a.extend(["-D", "d.csv", "-o", "out.csv"]); out = "out.csv"; recs.retain(|r| ppn(r) != Some(b"1")) }
        }
        a.push("in.dat");
        let (rc, o) = run(&a);
        let o = if out.is_empty() { o } else { check(o.is_empty(), 9); got(out) };
        // the rules, in the order of their names
        let mut rows: Vec<Row> = vec![];
        let id = |r: &Rec| ppn(r).unwrap_or_default().to_vec();
        for r in &recs {
            for &rs in SETS[rs] { match rs {
                0 => {
                    if rule("R1") && !hasc(r, true, b'b') { rows.push((id(r), "R1", "warning", None)) }
                    if rule("R2") && has(r, false, b'a', b"x") { rows.push((id(r), "R2", "error", None)) }
                }
                1 => {
                    if !ppn(r).is_some_and(|p| (p == b"1") | (p == b"3")) { continue }
                    let m = bad_join(a_vals(r).into_iter().filter(|v| !((*v == b"X") | (*v == b"1"))).collect());
                    if rule("A") && m.is_some() { rows.push((id(r), "A", "warning", m)) }
                    else if rule("B") && (has(r, false, b'a', b"x") | has(r, false, b'a', b"X")) { rows.push((id(r), "B", "info", None)) }
                }
                2 => if rule("F") && ppn(r) == Some(b"2") { rows.push((id(r), "F", "error", None)) },
                4 => {
                    if rule("R1") && opt != 3 && hasc(r, true, b'a') { rows.push((id(r), "R1", "error", None)) }
                    if rule("R2") && ppn(r).is_some() { rows.push((id(r), "R2", "info", None)) }
                }
                _ => {}
            } }
        }
        for &rs in SETS[rs] {
            if rs != 2 && rs != 3 || !rule("L") { continue }
            let targets: Vec<&[u8]> = recs.iter().filter(|r| rs == 2 || !hasc(r, false, b'b')).filter_map(|r| ppn(r)).collect();
            let mut by: Vec<(Vec<u8>, Vec<&[u8]>)> = vec![];
            for r in &recs {
                if rs == 3 && !(ppn(r).is_some() && ppn(r) != Some(b"2")) { continue }
                let v: Vec<&[u8]> = a_vals(r).into_iter().filter(|v| !targets.iter().any(|t| t == v)).collect();
                match by.iter_mut().find(|x| x.0 == id(r)) { Some(x) => x.1.extend(v), None => by.push((id(r), v)) }
            }
            by.sort();
            for (p, v) in by { if !v.is_empty() { rows.push((p, "L", if rs == 2 { "info" } else { "error" }, bad_join(v))) } }
        }
        reach(rows.is_empty() as u64);
        check(rc == 0, 1);
        check(o == if opt == 6 { txt(&rows) } else { csv(&rows, d) }, 2);
    }
    // allow: values, bytes of each, case
    h_chk_allow {
        let (n, m, ci) = (sym::param(0), sym::param(1), sym::param(2) == 1);
        let vs: Vec<Vec<u8>> = (0..n).map(|_| vbytes(choose(m + 1), false)).collect();
        let r = check_rec(vs.clone());
        let list: [&[u8]; 3] = [b"x", b"yZ", "\u{e4}".as_bytes()];
        file_put("l.tsv", "i\tc\n1\tx\n2\tyZ\n3\t\u{e4}\n".as_bytes());
        let x = one(&format!("[rule.R]\ncheck = 'allow'\npath = '012A.a'\ncase-ignore = {ci}\nlist = {{ filename = 'l.tsv', column = 'c' }}\n"), &r, &[]);
        ok(x, want(bad_join(vs.iter().map(|v| &v[..]).filter(|v| !list.contains(v)).collect())));
    }
    // duplicates: fields, threshold, query
    h_chk_dup {
        let (n, t, q) = (sym::param(0), sym::param(1), sym::param(2));
        order(q);
        let mut r = check_rec(vec![]);
        for _ in 0..n {
            let v = pick(b"xyz");
            let (v, s): (&[u8], _) = (&[v], choose(3));
            let mut f = fld(b"012A", None, vec![]);
            if s > 0 { f.subs.push(sub(b'a', v)) }
            if s > 1 { f.subs.push(sub(b'b', b"k")) }
            r.push(f);
        }
        let th = if t == 2 { String::new() } else { format!("threshold = {t}\n") };
        let x = one(&format!("[rule.R]\ncheck = 'duplicates'\nquery = '{}'\n{th}{}", ["012A.a", "012A{ a, b }"][q], ["", "separator = '+'\n"][q]), &r, &[]);
        let mut g: Vec<(Vec<u8>, usize)> = vec![];
        for f in &r[1..] {
            let get = |c: u8| f.subs.iter().find(|s| s.code == c).map_or(vec![], |s| s.value.clone());
            if get(b'a').is_empty() && (q == 0 || get(b'b').is_empty()) { continue }
            let k = if q == 0 { get(b'a') } else { [get(b'a'), b"+".to_vec(), get(b'b')].concat() };
            match g.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 += 1, None => g.push((k, 1)) }
        }
        g.sort();
        let d: Vec<Vec<u8>> = g.into_iter().filter(|x| x.1 >= t).map(|x| x.0).collect();
        ok(x, want(if d.is_empty() { None } else { Some(d.join(&b"; "[..])) }));
    }
    // datetime: template, first arbitrary byte, how many
    h_chk_date {
        let (t, p, n) = (sym::param(0), sym::param(1), sym::param(2));
        let (rule, v, off): (&str, &[u8], usize) = [("", &b"2024-02-29"[..], 0), ("offset = 3\n", b"xyz1900-12-31", 3), ("format = '%Y%m%d'\n", b"19990430", 0)][t];
        let mut v = v.to_vec();
        for i in p..p + n { v[i] = pick(b"0123456789- :x") }
        let r = check_rec(vec![v.clone()]);
        let x = one(&format!("[rule.R]\ncheck = 'datetime'\npath = '012A.a'\n{rule}"), &r, &[]);
        // only the canonical way of writing a date is decided here: with the digits in place
        let d = &v[off..];
        let dig = |i: usize, n: usize| (i..i + n).try_fold(0u32, |a, i| refm::dig(d[i]).then(|| a * 10 + (d[i] - b'0') as u32));
        let (mi, di) = if t == 2 { (4, 6) } else { (5, 8) };
        let ymd = (dig(0, 4), dig(mi, 2), dig(di, 2));
        let sep = t == 2 || (d[4] == b'-') & (d[7] == b'-');
        if let ((Some(y), Some(m), Some(dd)), true) = (ymd, sep) {
            let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
            let last = match m { 2 => 28 + leap as u32, 4 | 6 | 9 | 11 => 30, _ => 31 };
            let good = m >= 1 && m <= 12 && dd >= 1 && dd <= last;
            ok(x, want(if good { None } else { Some(v) }));
        } else { check(x.0 == 0, 1) }
    }
    // isni: values, position of the arbitrary bytes, how many, prefix
    h_chk_isni {
        let (p, n, pre) = (sym::param(0), sym::param(1), sym::param(2));
        let mut v = [&b"(isni)0000-0001-2146-4389"[..], b"0000000121464389", b"000000021694233X"][pre].to_vec();
        // and the check digit
        let z = v.len() - 1;
        v[z] = vbyte(true);
        for i in p..p + n { if i < z { v[i] = vbyte(true) } }
        let r = check_rec(vec![v.clone(), b"(o)".to_vec()]);
        let rule = if pre == 0 { "prefix = '(isni)'\n" } else { "" };
        let x = one(&format!("[rule.R]\ncheck = 'isni'\npath = '012A.a'\n{rule}"), &r, &[]);
        // characters below the digits separate; ISO 7064 MOD 11-2
        let isni = |v: &[u8]| {
            let d: Vec<u8> = v.iter().copied().filter(|b| *b >= b'0').collect();
            let mut good = d.len() == 16;
            if good {
                let mut t = 0u32;
                for b in &d[..15] { good &= refm::dig(*b); t = (t + b.wrapping_sub(b'0') as u32) * 2 }
                let c = (12 - t % 11) % 11;
                good &= ((c == 10) & (d[15] == b'X')) | ((c < 10) & (d[15] == b'0' + c as u8));
            }
            good
        };
        let mut w = vec![];
        for v in [&v[..], b"(o)"] {
            let s = if pre == 0 { match v.strip_prefix(b"(isni)") { Some(s) => s, None => continue } } else { v };
            if !isni(s) { w.push(v) }
        }
        ok(x, want(bad_join(w)));
    }
    // unicode: bytes
    h_chk_unicode {
        let n = sym::param(0);
        let v = vbytes(n, false);
        let r = check_rec(vec![v.clone()]);
        let x = one("[rule.R]\ncheck = 'unicode'\n", &r, &[]);
        ok(x, want(if refm::utf8(&v) { None } else { Some(vec![]) }));
    }
    // unicode with a normalization form: form, characters (0: one; 1: a letter and another)
    h_chk_form {
        let (f, k) = (sym::param(0), sym::param(1));
        let c = if k == 1 { vec![b"AEOUaeiouyznsc1 "[choose(16)]] } else { vec![] };
        let lead = 0xc2 + choose(30) as u8;
        let v = [&c[..], &[lead], &vbytes(1, false)].concat();
        let w = &v[k..];
        assume((w[1] >= 0x80) & (w[1] < 0xc0));
        for b in forms::NONE.chunks(2) { if lead == b[0] { assume(w[1] != b[1]) } }
        let r = check_rec(vec![v.clone()]);
        let x = one(&format!("[rule.R]\ncheck = 'unicode'\nnormalization = '{}'\n", ["nfc", "nfkc", "nfd", "nfkd"][f]), &r, &[]);
        check(x.0 == 0, 1);
        reach(x.1.is_empty() as u64);
        let mut bad = false;
        for b in forms::ONE[f].chunks(2) { if lead == b[0] { bad |= (w[0] == b[0]) & (w[1] == b[1]) } }
        if k == 1 { for b in forms::TWO[f].chunks(3) { if lead == b[1] { bad |= (v[0] == b[0]) & (v[1] == b[1]) & (v[2] == b[2]) } } }
        check(bad != x.1.is_empty(), 2);
        check(x.1.is_empty() || x.1 == want(Some(v.clone())), 3);
    }
    // codes: which list, bytes
    h_chk_codes {
        let (k, n) = (sym::param(0), sym::param(1));
        let v = vbytes(n, true);
        let r = check_rec(vec![v.clone()]);
        let x = one(&format!("[rule.R]\ncheck = '{}'\npath = '012A.a'\n", ["iso639-2b", "jelc"][k]), &r, &[]);
        check(x.0 == 0, 1);
        reach(x.1.is_empty() as u64);
        check(x.1.is_empty() || x.1 == want(Some(v.clone())), 2);
        let mut is = false;
        for c in if k == 0 { codes::ISO } else { codes::JEL } { if c.len() == n { is |= v == c.as_bytes() } }
        check(is == x.1.is_empty(), 3);
    }
}
