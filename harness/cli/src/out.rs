//! commands whose output is not records
use crate::g::*;
use crate::refm::{self, Fld, Rec, fld, sub};
use crate::sym::{self, *};
use pica_record::prelude::*;

/// concrete bytes (hashing arbitrary ones is out of reach)
pub fn fixed(l: &mut Line) {
    if l.rec.is_some() {
        for b in &mut l.b { *b = conc(*b as u64) as u8 }
        l.rec = refm::record(&l.b);
    }
}
const T: [Shape; 12] = [
    Shape { val: b"xy", ..S },
    Shape { val: b"xy", nf: 2, codes: b"a", ..S },
    Shape { val: b"xy", nf: 2, ns: 2, codes: b"a", occ: false, ..S },
    Shape { val: b"x,", nf: 2, ns: 1, noppn: true, ..S },
    Shape { nf: 1, ns: 1, codes: b"a", ppn: b"1", ..S },
    Shape { nf: 2, ns: 1, codes: b"ab", val: b"x", occ: true, ..S },
    Shape { nf: 2, ns: 2, codes: b"abc", val: b"x", occ: true, noppn: true, ..S },
    Shape { nf: 1, ns: 1, codes: b"a", ppn: b"1", ascii: false, ..S },
    Shape { nf: 2, ns: 1, codes: b"a", val: b"x", occ: true, bare: true, ..S },
    Shape { nf: 1, ns: 1, codes: b"a", ppn: b"1", vl: (0, 3), ..S },
    Shape { nf: 1, ns: 2, codes: b"ab", val: b"xy", bare: true, vl: (0, 2), ..S },
    Shape { nf: 1, ns: 1, codes: b"a", ppn: b"1", ascii: false, vl: (2, 2), ..S },
];
fn dec(n: usize) -> Vec<u8> { n.to_string().into_bytes() }
/// a row of a CSV file
pub fn row(c: &[&[u8]], d: u8) -> Vec<u8> {
    let mut o = vec![];
    for (i, x) in c.iter().enumerate() {
        if i > 0 { o.push(d) }
        let mut q = c.len() == 1 && x.is_empty();
        for b in *x { q |= (*b == d) | (*b == b'"') | (*b == b'\n') | (*b == b'\r') }
        if q { quoted(x, &mut o) } else { o.extend_from_slice(x) }
    }
    o.push(b'\n');
    o
}
fn quoted(x: &[u8], o: &mut Vec<u8>) {
    o.push(b'"');
    for b in x { if *b == b'"' { o.push(b'"') } o.push(*b) }
    o.push(b'"');
}
/// text as it is shown: every maximal part of a character that is not valid
/// UTF-8 is replaced
pub fn lossy(v: &[u8]) -> Vec<u8> {
    if refm::utf8(v) { return v.to_vec() }
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        let at = |k: usize, lo: u8, hi: u8| i + k < v.len() && (v[i + k] >= lo) & (v[i + k] <= hi);
        let (n, lo, hi) = if c < 0x80 { (1, 0, 0) } else if (c >= 0xc2) & (c <= 0xdf) { (2, 0x80, 0xbf) }
            else if (c >= 0xe0) & (c <= 0xef) { (3, if c == 0xe0 { 0xa0 } else { 0x80 }, if c == 0xed { 0x9f } else { 0xbf }) }
            else if (c >= 0xf0) & (c <= 0xf4) { (4, if c == 0xf0 { 0x90 } else { 0x80 }, if c == 0xf4 { 0x8f } else { 0xbf }) } else { (0, 0, 0) };
        let mut k = (n > 0) as usize;
        while k > 0 && k < n && if k == 1 { at(1, lo, hi) } else { at(k, 0x80, 0xbf) } { k += 1 }
        if n > 0 && k == n { o.extend_from_slice(&v[i..i + n]); i += n } else { o.extend_from_slice("\u{fffd}".as_bytes()); i += k.max(1) }
    }
    o
}
/// selection options all commands have; which ones, the records, the limit
fn opts<'a>(opt: usize, rs: Vec<&'a Rec>, a: &mut Vec<&'static str>) -> Vec<&'a Rec> {
    let mut rs = rs;
    match opt {
        0 => {}
        1 => { a.extend(["--where", EXPRS[0].0]); rs.retain(|r| (EXPRS[0].1)(r)) }
        2 => { a.extend(["--limit", "1"]); rs.truncate(1) }
        3 => { file_put("d.csv", b"ppn\n1\n"); a.extend(["-D", "d.csv"]); rs.retain(|r| ppn(r) != Some(b"1")) }
        4 => { file_put("a.csv", b"ppn\n1\n3\n"); a.extend(["-A", "a.csv", "-l2"]); rs.retain(|r| ppn(r).is_some_and(|p| (p == b"1") | (p == b"3"))); rs.truncate(2) }
        5 => { a.extend(["--where", EXPRS[2].0, "--not", EXPRS[0].0]); rs.retain(|r| (EXPRS[2].1)(r) & !(EXPRS[0].1)(r)) }
        6 => { a.extend(["--where", EXPRS[1].0, "--and", EXPRS[0].0, "-l", "1"]); rs.retain(|r| (EXPRS[1].1)(r) & (EXPRS[0].1)(r)); rs.truncate(1) }
        _ => { a.extend(["--where", EXPRS[1].0, "--or", EXPRS[0].0]); rs.retain(|r| (EXPRS[1].1)(r) | (EXPRS[0].1)(r)) }
    }
    rs
}
/// runs with the lines as input: a file, two files, or the standard input
fn feed(l: &[Line], how: usize, a: &mut Vec<&'static str>) {
    order(how);
    match how {
        0 => { file_put("in.dat", &cat(l)); a.push("in.dat") }
        1 => { let m = l.len() / 2; file_put("in.dat", &cat(&l[..m])); file_put("in2.dat", &cat(&l[m..])); a.extend(["in.dat", "in2.dat"]) }
        _ => stdin(&cat(l)),
    }
}
/// the output: standard output, or a file
fn sink(to: usize, a: &mut Vec<&'static str>) {
    if to == 1 { file_put("out.x", b"old\n"); a.extend(["-o", "out.x"]) }
}
fn done(to: usize, o: Vec<u8>) -> Vec<u8> {
    if to == 1 { check(o.is_empty(), 9); got("out.x") } else { o }
}
fn groups(rows: &[Vec<Vec<u8>>]) -> Vec<(Vec<Vec<u8>>, usize)> {
    let mut g: Vec<(Vec<Vec<u8>>, usize)> = vec![];
    for r in rows {
        match g.iter_mut().find(|x| &x.0 == r) { Some(x) => x.1 += 1, None => g.push((r.clone(), 1)) }
    }
    g
}
/// a simple query and the rows it gives for a record
fn rows(q: usize, r: &Rec, o: &QueryOptions, lib: bool) -> Vec<Vec<Vec<u8>>> {
    match q {
        0 if !lib => vals(r, false, b'a').into_iter().map(|v| vec![v.to_vec()]).collect(),
        _ => {
            let b = refm::put(r);
            let q = Query::new(QUERIES[q]).unwrap();
            ByteRecord::from_bytes(&b).unwrap().query(&q, o).into_inner().into_iter().map(|r| r.into_iter().map(|v| v.to_vec()).collect()).collect()
        }
    }
}
/// how many columns its rows have
const COLS: [usize; 6] = [1, 2, 2, 3, 2, 2];
const HEADS: [&str; 5] = ["", "k", "k, n", "k, n,m", " k,n, m , l"];
fn head(n: usize) -> Vec<&'static str> { HEADS[n].split(',').map(|x| x.trim()).collect() }
const QUERIES: [&str; 6] = ["012A.a", "003@.0, 012A.a", "012A/*{ a, b }", "003@.0, 012A{ b, a | a? }", "012A.a, 012A.b", "'k', 012A{a <$>b}"];
harness! {
    // count: output option, selection option, lines, shape, input, to a file
    h_count {
        let (opt, sel, k, sh, how, to) = (sym::param(0), sym::param(1), sym::param(2), shape(&T, sym::param(3)), sym::param(4), sym::param(5));
        let l = sh.lines(k, true);
        let mut a = vec!["count", "-s"];
        let rs = opts(sel, recs(&l), &mut a);
        let (mut r, mut f, mut s) = (0, 0, 0);
        for x in rs { r += 1; for y in x { f += 1; s += y.subs.len() } }
        let (r, f, s) = (dec(r), dec(f), dec(s));
        let mut old: &[u8] = b"";
        let (csv, tsv): (Vec<u8>, Vec<u8>) = ([&r[..], &f, &s].join(&b','), [&r[..], &f, &s].join(&b'\t'));
        let w: Vec<u8> = match opt {
            0 => [b"records: ", &r[..], b"\nfields: ", &f, b"\nsubfields: ", &s].concat(),
            1 => { a.push("--records"); r }
            2 => { a.push("--fields"); f }
            3 => { a.push("--subfields"); s }
            4 => { a.push("--csv"); [&b"records,fields,subfields\n"[..], &csv].concat() }
            5 => { a.push("--tsv"); [&b"records\tfields\tsubfields\n"[..], &tsv].concat() }
            6 => { a.extend(["--csv", "--no-header"]); csv }
            7 => { a.extend(["--tsv", "--no-header"]); tsv }
            _ => { a.extend(["--append", "--csv", "--no-header"]); old = b"old\n"; csv }
        };
        let w = [if to == 1 { old } else { b"" }, &w, b"\n"].concat();
        sink(to, &mut a);
        feed(&l, how, &mut a);
        let (rc, o) = run(&a);
        reach(any_bad(&l) as u64);
        check(rc == 0, 1);
        check(done(to, o) == w, 2);
    }
    // frequency: option, query, selection option, lines, shape, input, to a file
    h_freq {
        let (opt, q, sel, k, sh, how, to) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), shape(&T, sym::param(4)), sym::param(5), sym::param(6));
        let l = sh.lines(k, k > 1);
        let mut a = vec![if opt == 0 { "freq" } else { "frequency" }, "-s"];
        let rs = opts(sel, recs(&l), &mut a);
        let (mut uniq, mut rev, mut num, mut thr, mut d, mut hd) = (false, false, 0, 0, b',', None);
        let mut qo = QueryOptions::new();
        match opt {
            0 => {}
            1 => { a.push("--unique"); uniq = true }
            2 => { a.push("--reverse"); rev = true }
            3 => { a.extend(["-n", "1"]); num = 1 }
            4 => { a.extend(["--threshold", "2"]); thr = 2 }
            5 => { a.extend(["-r", "--threshold=2"]); rev = true; thr = 2 }
            6 => { a.extend(["-H", HEADS[COLS[q] + 1], "-t"]); d = b'\t'; hd = Some(head(COLS[q] + 1)) }
            7 => { a.extend(["-r", "-n1", "--threshold", "2", "--tsv"]); rev = true; num = 1; thr = 2; d = b'\t' }
            8 => { a.extend(["--header", HEADS[COLS[q] + 1]]); hd = Some(head(COLS[q] + 1)) }
            9 => { a.extend(["--squash", "--separator", "+"]); qo = qo.squash(true).separator("+") }
            10 => { a.extend(["--merge", "-u"]); qo = qo.merge(true).separator("|"); uniq = true }
            _ => { a.extend(["-u", "-n2", "--threshold=2"]); uniq = true; num = 2; thr = 2 }
        }
        sink(to, &mut a);
        a.push(QUERIES[q]);
        feed(&l, how, &mut a);
        let (rc, o) = run(&a);
        let o = done(to, o);
        let mut all = vec![];
        for r in rs {
            let mut seen: Vec<Vec<Vec<u8>>> = vec![];
            for x in rows(q, r, &qo, opt == 9 || opt == 10) {
                if x.iter().all(|c| c.is_empty()) || uniq && seen.contains(&x) { continue }
                seen.push(x.clone());
                all.push(x);
            }
        }
        let mut g = groups(&all);
        g.sort_by(|x, y| (if rev { x.1.cmp(&y.1) } else { y.1.cmp(&x.1) }).then_with(|| x.0.cmp(&y.0)));
        g.retain(|x| x.1 >= thr);
        if num > 0 { g.truncate(num) }
        let mut w = vec![];
        if let Some(h) = hd { w.extend(row(&h.iter().map(|x| x.as_bytes()).collect::<Vec<_>>(), d)) }
        for (c, n) in &g {
            let n = dec(*n);
            let c: Vec<Vec<u8>> = c.iter().map(|x| lossy(x)).collect();
            let mut c: Vec<&[u8]> = c.iter().map(|x| &x[..]).collect();
            c.push(&n);
            w.extend(row(&c, d));
        }
        reach((g.len() > 1) as u64);
        check(rc == 0, 1);
        check(o == w, 2);
    }
    // select: option, query, selection option, lines, shape, input, to a file
    h_select {
        let (opt, q, sel, k, sh, how, to) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), shape(&T, sym::param(4)), sym::param(5), sym::param(6));
        let mut l = sh.lines(k, k > 1);
        if opt == 7 { for x in &mut l { fixed(x) } }
        let mut a = vec!["select", "-s"];
        let rs = opts(sel, recs(&l), &mut a);
        let (mut uniq, mut full, mut d, mut hd, mut old, mut always) = (false, false, b',', None, &b""[..], false);
        let mut qo = QueryOptions::new().separator("|");
        match opt {
            0 => {}
            1 => { a.push("--no-empty-columns"); full = true }
            2 => { a.extend(["-t", "-H", HEADS[COLS[q]]]); d = b'\t'; hd = Some(head(COLS[q])) }
            3 => { a.push("--append"); if to == 1 { old = b"old\n" } }
            4 => { a.extend(["--quote-style", "always", "--header", HEADS[COLS[q]]]); always = true; hd = Some(head(COLS[q])) }
            5 => { a.extend(["--squash", "--separator", "+"]); qo = qo.squash(true).separator("+") }
            6 => { a.push("--merge"); qo = qo.merge(true) }
            7 => { a.push("--unique"); uniq = true }
            _ => { a.extend(["--tsv", "--merge", "--separator=, ", "--no-empty-columns"]); d = b'\t'; qo = qo.merge(true).separator(", "); full = true }
        }
        sink(to, &mut a);
        a.push(QUERIES[q]);
        feed(&l, how, &mut a);
        let (rc, o) = run(&a);
        let o = done(to, o);
        let mut w = old.to_vec();
        let line = |c: &[&[u8]]| if always {
            let mut o = vec![];
            for (i, x) in c.iter().enumerate() { if i > 0 { o.push(d) } quoted(x, &mut o) }
            o.push(b'\n');
            o
        } else { row(c, d) };
        if let Some(h) = hd { w.extend(line(&h.iter().map(|x| x.as_bytes()).collect::<Vec<_>>())) }
        let mut seen: Vec<Vec<Vec<u8>>> = vec![];
        let mut n = 0;
        for r in rs {
            for x in rows(q, r, &qo, opt == 5 || opt == 6 || opt == 8) {
                if x.iter().all(|c| c.is_empty()) || full && x.iter().any(|c| c.is_empty()) || uniq && seen.contains(&x) { continue }
                if uniq { seen.push(x.clone()) }
                w.extend(line(&x.iter().map(|c| &c[..]).collect::<Vec<_>>()));
                n += 1;
            }
        }
        reach((n > 1) as u64);
        check(rc == 0, 1);
        check(o == w, 2);
    }
    // print: selection option, lines, shape, input, to a file
    h_print {
        let (sel, k, sh, how, to) = (sym::param(0), sym::param(1), shape(&T, sym::param(2)), sym::param(3), sym::param(4));
        let l = sh.lines(k, k > 1);
        let mut a = vec!["print", "-s"];
        let rs = opts(sel, recs(&l), &mut a);
        sink(to, &mut a);
        feed(&l, how, &mut a);
        let (rc, o) = run(&a);
        let o = done(to, o);
        let mut w = vec![];
        for r in rs {
            for f in r {
                w.extend_from_slice(&f.tag);
                if let Some(x) = &f.occ { w.push(b'/'); w.extend_from_slice(x) }
                for s in &f.subs { w.extend_from_slice(&[b' ', b'$', s.code, b' ']); w.extend(lossy(&s.value)) }
                w.push(b'\n');
            }
            w.push(b'\n');
        }
        reach(w.is_empty() as u64);
        check(rc == 0, 1);
        check(o == w, 2);
    }
    // convert: format, lines, shape, input, to a file
    h_convert {
        let (fmt, k, sh, how, to) = (sym::param(0), sym::param(1), shape(&T, sym::param(2)), sym::param(3), sym::param(4));
        let l = sh.lines(k, k > 1);
        let mut a = vec!["convert", "-s", "--to", ["plus", "binary", "import", "plain", "json", "xml"][fmt]];
        if fmt % 2 == 1 { a.extend(["-f", "plus"]) }
        let rs = recs(&l);
        sink(to, &mut a);
        feed(&l, how, &mut a);
        let (rc, o) = run(&a);
        let o = done(to, o);
        let mut w = vec![];
        let mut w2 = vec![];
        match fmt {
            0 => for r in &rs { w.extend(refm::put(r)) },
            1 => for r in &rs { w.extend(refm::put(r)); w.pop(); w.push(0x1d) },
            2 => for r in &rs {
                w.extend_from_slice(b"'\x1d\n");
                for f in *r { w.push(0x1e); f.put(&mut w); w.pop(); w.push(b'\n') }
            },
            3 => for r in &rs {
                for f in *r {
                    w.extend_from_slice(&f.tag);
                    if let Some(x) = &f.occ { w.push(b'/'); w.extend_from_slice(x) }
                    w.push(b' ');
                    for s in &f.subs {
                        w.extend_from_slice(&[b'$', s.code]);
                        for b in &s.value { if *b == b'$' { w.push(b'$') } w.push(*b) }
                    }
                    w.push(b'\n');
                }
            },
            4 => {
                w.push(b'[');
                for (i, r) in rs.iter().enumerate() {
                    if i > 0 { w.push(b',') }
                    w.push(b'[');
                    for (j, f) in r.iter().enumerate() {
                        if j > 0 { w.push(b',') }
                        w.push(b'[');
                        json(&f.tag, &mut w);
                        w.push(b',');
                        match &f.occ { Some(o) => json(&[b"/", &o[..]].concat(), &mut w), None => w.extend_from_slice(b"null") }
                        for s in &f.subs { w.push(b','); json(&[s.code], &mut w); w.push(b','); json(&s.value, &mut w) }
                        w.push(b']');
                    }
                    w.push(b']');
                }
                w.push(b']');
            }
            _ => { w = xml(&rs, true); w2 = xml(&rs, false) }
        }
        reach((w.len() > 1) as u64);
        check(rc == 0, 1);
        if fmt == 5 {
            // the occurrences are missing: code 3; anything else wrong: code 2
            check((o == w) | (o == w2), 2);
            check(o == w, 3);
        } else { check(o == w, 2) }
    }
    // describe: option, selection option, lines, shape, input
    h_describe {
        let (opt, sel, k, sh, how) = (sym::param(0), sym::param(1), sym::param(2), shape(&T, sym::param(3)), sym::param(4));
        let l = sh.lines(k, k > 1);
        let mut a = vec!["describe", "-s"];
        let rs = opts(sel, recs(&l), &mut a);
        let (mut d, mut file): (u8, &str) = (b',', "out.csv");
        let mut keep: fn(&Fld) -> bool = |_| true;
        match opt {
            0 => a.extend(["-o", "out.csv"]),
            1 => { a.extend(["-o", "out.tsv"]); d = b'\t'; file = "out.tsv" }
            2 => { a.extend(["-o", "out.x", "--csv", "-k", "012A/*"]); file = "out.x"; keep = |f| f.tag == b"012A" }
            3 => { a.extend(["-o", "out.x", "--tsv", "--discard", "012A/01,002@"]); file = "out.x"; d = b'\t'; keep = |f| f.tag != b"002@" && !(f.tag == b"012A" && f.occ.is_some()) }
            _ => { a.extend(["-o", "out.csv", "-k", "0...", "-d", "00[23]@"]); keep = |f| f.tag == b"012A" && f.occ.is_none() }
        }
        feed(&l, how, &mut a);
        let (rc, o) = run(&a);
        let o2 = got(file);
        let fs: Vec<&Fld> = rs.iter().flat_map(|r| r.iter()).filter(|f| keep(f)).collect();
        let mut codes: Vec<u8> = fs.iter().flat_map(|f| f.subs.iter().map(|s| s.code)).collect();
        codes.sort();
        codes.dedup();
        let mut tags: Vec<&[u8]> = fs.iter().map(|f| &f.tag[..]).collect();
        tags.sort();
        tags.dedup();
        let mut w = b"field".to_vec();
        for c in &codes { w.push(d); w.push(*c) }
        w.push(b'\n');
        for t in &tags {
            w.extend_from_slice(t);
            for c in &codes {
                w.push(d);
                w.extend(dec(fs.iter().filter(|f| &f.tag[..] == *t).map(|f| f.subs.iter().filter(|s| s.code == *c).count()).sum()));
            }
            w.push(b'\n');
        }
        reach((tags.len() > 1) as u64);
        check(rc == 0 && o.is_empty(), 1);
        check(o2 == w, 2);
    }
    // hash: option, selection option, lines, input, to a file
    h_hash {
        let (opt, sel, k, how, to) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4));
        let l: Vec<Line> = (0..k).map(|_| {
            let x = [&b"x"[..], b"\xe4\xe4", b"y, the second value: long enough for the message to be hashed in two blocks"][choose(3)];
            match choose(3) {
                0 => bad2(),
                1 => { let r = vec![fld(b"003@", None, vec![sub(b'0', [b"1", b"2"][choose(2)])]), fld(b"012A", None, vec![sub(b'a', x)])]; Line { b: refm::put(&r), rec: Some(r) } }
                _ => { let r = vec![fld(b"012A", Some(b"01"), vec![sub(b'a', x)])]; Line { b: refm::put(&r), rec: Some(r) } }
            }
        }).collect();
        let mut a = vec!["hash", "-s"];
        let rs = opts(sel, recs(&l), &mut a);
        let (mut d, mut head) = (b',', "ppn,hash");
        match opt {
            0 => {}
            1 => { a.push("--tsv"); d = b'\t'; head = "ppn\thash" }
            _ => { a.extend(["-H", "a, b c"]); head = "a,b c" }
        }
        sink(to, &mut a);
        feed(&l, how, &mut a);
        let (rc, o) = run(&a);
        let o = done(to, o);
        let mut w = [head.as_bytes(), b"\n"].concat();
        for r in &rs {
            let h: String = sha256(&refm::put(r)).iter().map(|b| format!("{b:02x}")).collect();
            w.extend(row(&[ppn(r).unwrap_or_default(), h.as_bytes()], d));
        }
        reach((rs.len() > 1) as u64);
        check(rc == 0, 1);
        check(o == w, 2);
    }
}
pub mod ex {
use super::*;
harness! {
    // explode: level, option, structure, lines that are not records
    h_explode {
        let (lv, opt, st, mix) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3) == 1);
        let k = 1 + mix as usize;
        let (mut inp, mut w): (Vec<u8>, Vec<Rec>) = (vec![], vec![]);
        for _ in 0..k {
            if mix && choose(2) == 1 { inp.extend(bad().b); continue }
            let mut main = vec![fld(b"003@", None, vec![sub(b'0', &[pick(b"12")])])];
            if choose(2) == 1 { main.push(fld(b"021A", None, vec![sub(b'a', &[vbyte(true)])])) }
            // local blocks; each but the last has a copy
            let many = if st == 4 { MANY } else { 0 };
            let nb = many + 1 + choose(if st == 0 || st >= 3 { 1 } else { 2 });
            let mut blocks: Vec<(Rec, Vec<Rec>)> = vec![];
            for b in 0..nb {
                if b < many {
                    let c = |t: &[u8], o: &[u8]| vec![fld(t, Some(o), vec![sub(b'0', b"x")])];
                    blocks.push((vec![fld(b"101@", None, vec![sub(b'a', b"2")])], vec![c(b"203@", b"01"), c(b"208@", b"02")]));
                    continue;
                }
                let nl = choose(if st >= 3 { 2 } else { 3 - (b > 0) as usize }) + (b > 0) as usize;
                let local: Rec = (0..nl).map(|i| if i == 0 { fld(b"101@", None, vec![sub(b'a', &[pick(b"12")])]) } else { fld(b"145Z", Some(b"01"), vec![sub(b'a', b"n")]) }).collect();
                let least = (b + 1 < nb) as usize;
                let nc = least + choose(if st >= 2 { 3 - least } else { 4 - least - (nb > 1) as usize });
                let mut copies: Vec<Rec> = vec![];
                let mut last: Option<Option<&[u8]>> = None;
                for i in 0..nc {
                    let o: Option<&[u8]> = [Some(&b"01"[..]), Some(b"02"), None][choose(if st >= 2 { 2 } else { 3 })];
                    let f = fld([b"203@", b"208@"][i % 2], o, vec![sub(b'0', &[if st == 2 { pick(b"x1") } else { b'x' }])]);
                    if last == Some(o) { copies.last_mut().unwrap().push(f) } else { copies.push(vec![f]) }
                    last = Some(o);
                }
                blocks.push((local, copies));
            }
            let all: Rec = main.iter().cloned().chain(blocks.iter().flat_map(|(l, c)| l.iter().chain(c.iter().flatten()).cloned())).collect();
            inp.extend(refm::put(&all));
            match lv {
                0 => w.push(all),
                1 => for (l, c) in &blocks { if l.len() + c.len() > 0 { w.push(main.iter().chain(l).chain(c.iter().flatten()).cloned().collect()) } },
                _ => for (l, c) in &blocks { for x in c { w.push(main.iter().chain(l).chain(x).cloned().collect()) } },
            }
        }
        file_put("in.dat", &inp);
        let mut a = vec!["explode", "-s"];
        let mut edit: fn(&Fld) -> bool = |_| true;
        match opt {
            0 => {}
            1 => { a.extend(["--limit", "2"]); w.truncate(2) }
            2 => { a.extend(["-k", "003@, 2.../*"]); edit = |f| f.tag == b"003@" || f.tag[0] == b'2' }
            3 => { a.extend(["--discard", "145Z/01,203@/02,021A"]); edit = |f| !(f.tag == b"145Z" || f.tag == b"021A" || f.tag == b"203@" && f.occ.as_deref() == Some(b"02")) }
            4 => { a.extend(["--where", "101@.a == '1'", "-l", "1"]); w.retain(|r| { let mut x = false; for f in r { if f.tag == b"101@" { x |= f.subs[0].value == b"1" } } x }); w.truncate(1) }
            5 => { a.extend(["--where", "203@/*?", "--not", "2.../02?"]); w.retain(|r| r.iter().any(|f| f.tag == b"203@") && !r.iter().any(|f| f.tag[0] == b'2' && f.occ.as_deref() == Some(b"02"))) }
            _ => { file_put("a.csv", b"ppn\n1\n"); a.extend(["-A", "a.csv", "-k", "021A,101@", "-d", "101@"]); w.retain(|r| ppn(r) == Some(b"1")); edit = |f| f.tag == b"021A" }
        }
        a.extend([["main", "local", "copy"][lv], "in.dat"]);
        let (rc, o) = run(&a);
        let mut x = vec![];
        for r in &w {
            let r: Rec = r.iter().filter(|f| edit(f)).cloned().collect();
            if !r.is_empty() { x.extend(refm::put(&r)) }
        }
        reach((w.len() > 1) as u64);
        check(rc == 0, 1);
        check(o == x, 2);
    }
}
}
fn bad2() -> Line { Line { b: b"003@ \x1f01\n".to_vec(), rec: None } }
fn json(v: &[u8], o: &mut Vec<u8>) {
    o.push(b'"');
    for b in lossy(v) {
        match b {
            b'"' => o.extend_from_slice(b"\\\""),
            b'\\' => o.extend_from_slice(b"\\\\"),
            8 => o.extend_from_slice(b"\\b"),
            9 => o.extend_from_slice(b"\\t"),
            10 => o.extend_from_slice(b"\\n"),
            12 => o.extend_from_slice(b"\\f"),
            13 => o.extend_from_slice(b"\\r"),
            0..32 => { let h = b & 15; o.extend_from_slice(b"\\u00"); o.push(b'0' + (b >> 4)); o.push(if h < 10 { b'0' + h } else { b'a' - 10 + h }) }
            _ => o.push(b),
        }
    }
    o.push(b'"');
}
fn xml(rs: &[&Rec], occ: bool) -> Vec<u8> {
    let mut w = b"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<collection targetNamespace=\"info:srw/schema/5/picaXML-v1.0\" xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns=\"info:srw/schema/5/picaXML-v1.0\">".to_vec();
    for r in rs {
        w.extend_from_slice(b"\n    <record>");
        for f in *r {
            w.extend_from_slice(b"\n        <datafield tag=\"");
            w.extend_from_slice(&f.tag);
            if let (true, Some(x)) = (occ, &f.occ) { w.extend_from_slice(b"\" occurrence=\""); w.extend_from_slice(x) }
            w.extend_from_slice(b"\">");
            for s in &f.subs {
                w.extend_from_slice(b"\n            <subfield code=\"");
                w.push(s.code);
                w.extend_from_slice(b"\">");
                for b in lossy(&s.value) {
                    match b {
                        b'<' => w.extend_from_slice(b"&lt;"),
                        b'>' => w.extend_from_slice(b"&gt;"),
                        b'&' => w.extend_from_slice(b"&amp;"),
                        b'"' => w.extend_from_slice(b"&quot;"),
                        b'\'' => w.extend_from_slice(b"&apos;"),
                        _ => w.push(b),
                    }
                }
                w.extend_from_slice(b"</subfield>");
            }
            w.extend_from_slice(b"\n        </datafield>");
        }
        w.extend_from_slice(b"\n    </record>");
    }
    w.extend_from_slice(b"\n</collection>");
    w
}
/// SHA-256 (FIPS 180-4)
fn sha256(m: &[u8]) -> [u8; 32] {
    let primes: Vec<u64> = (2u64..312).filter(|n| (2..*n).all(|d| n % d != 0)).collect();
    let root = |p: u64, cube: bool| -> u32 {
        // the first 32 bits of the fractional part of the square or cube root
        let (mut lo, mut hi) = (0u128, 1u128 << 40);
        while hi - lo > 1 {
            let x = (lo + hi) / 2;
            let big = if cube { x * x * x > (p as u128) << 96 } else { x * x > (p as u128) << 64 };
            if big { hi = x } else { lo = x }
        }
        lo as u32
    };
    let k: Vec<u32> = primes[..64].iter().map(|p| root(*p, true)).collect();
    let mut h: Vec<u32> = primes[..8].iter().map(|p| root(*p, false)).collect();
    let mut b = m.to_vec();
    b.push(0x80);
    while b.len() % 64 != 56 { b.push(0) }
    b.extend_from_slice(&(m.len() as u64 * 8).to_be_bytes());
    for c in b.chunks(64) {
        let mut w: Vec<u32> = c.chunks(4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]])).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ w[i - 15] >> 3;
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ w[i - 2] >> 10;
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = v[4] & v[5] ^ !v[4] & v[6];
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = v[0] & v[1] ^ v[0] & v[2] ^ v[1] & v[2];
            v.rotate_right(1);
            v[4] = v[4].wrapping_add(t1);
            v[0] = t1.wrapping_add(s0.wrapping_add(mj));
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]) }
    }
    let mut o = [0; 32];
    for i in 0..8 { o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes()) }
    o
}
