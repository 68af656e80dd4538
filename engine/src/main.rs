mod exec;
mod expr;
mod ll;
mod models;
mod prog;
mod solver;

use exec::*;
use expr::*;
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
    fn alarm(s: u32) -> u32;
    fn signal(s: i32, h: usize) -> usize;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

struct Shared {
    slots: AtomicI64,
    started: AtomicI64,
    finished: AtomicI64,
    stop: AtomicI64,
    /// finished paths per job
    paths: [AtomicI64; MAXJOBS],
}
const MAXJOBS: usize = 4096;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

struct Opts {
    ll: String,
    jobs: String,
    out: String,
    procs: i64,
    limit: u64,
    secs: f64,
    samples: usize,
    stop_first: bool,
    xcheck: bool,
    known: Vec<(String, u64)>,
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(2);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let mut o = Opts {
        ll: String::new(),
        jobs: String::new(),
        out: String::new(),
        procs: 8,
        limit: 200_000_000,
        secs: 600.0,
        samples: 16,
        stop_first: true,
        xcheck: false,
        known: vec![],
    };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--ll" => o.ll = v(),
            "--jobs" => o.jobs = v(),
            "--out" => o.out = v(),
            "--procs" => o.procs = v().parse().unwrap(),
            "--limit" => o.limit = v().parse().unwrap(),
            "--secs" => o.secs = v().parse().unwrap(),
            "--samples" => o.samples = v().parse().unwrap(),
            "--all" => o.stop_first = false,
            "--xcheck" => o.xcheck = true,
            "--known" => {
                let k = v();
                let (h, c) = k.split_once(':').unwrap();
                o.known.push((h.to_string(), c.parse().unwrap()));
            }
            _ => panic!("unknown option {}", a),
        }
    }
    let t0 = Instant::now();
    let src = std::fs::read(&o.ll).expect("ll");
    let src = String::from_utf8_lossy(&src).into_owned();
    let m = match ll::parse(&src) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("parse error: {}", e);
            return 2;
        }
    };
    drop(src);
    let p = match prog::decode(m) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("decode error: {}", e);
            return 2;
        }
    };
    let verbose = std::env::var("SYMEX_VERBOSE").is_ok();
    if verbose {
        eprintln!("parsed {} functions, {} globals in {:.2}s", p.funs.len(), p.globals.len(), t0.elapsed().as_secs_f64());
    }
    let jobs: Vec<(String, Vec<u64>)> = std::fs::read_to_string(&o.jobs)
        .expect("jobs")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let mut w = l.split_whitespace();
            (w.next().unwrap().to_string(), w.map(|x| x.parse().unwrap()).collect())
        })
        .collect();
    std::fs::create_dir_all(&o.out).unwrap();
    let mut ex = Exec::new(&p, jobs.len());
    ex.limit = o.limit;
    ex.do_prof = std::env::var("SYMEX_PROF").is_ok();
    ex.sv.xcheck = o.xcheck;
    ex.sv.verbose = verbose;
    let mem = ex.base_mem();
    for (i, (n, ps)) in jobs.iter().enumerate().rev() {
        ex.params[i] = ps.clone();
        let f = match p.by_name.get(n) {
            Some(f) => *f,
            None => {
                eprintln!("no such harness: {}", n);
                return 2;
            }
        };
        ex.covered[f as usize] = true;
        let st = ex.init_state(i as u32, mem.clone(), f);
        ex.pending.push(st);
    }
    let sh: &Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0) as *mut Shared;
        &*p
    };
    sh.slots.store(o.procs - 1, SeqCst);
    sh.started.store(1, SeqCst);
    let mut fds = [0i32; 2];
    unsafe {
        signal(17, 1);
        pipe(fds.as_mut_ptr());
    }
    unsafe { alarm(o.secs as u32 + 60) };
    worker(&mut ex, &o, sh, &jobs, true, t0, fds);
    unsafe {
        close(fds[1]);
        let mut b = [0u8; 8];
        while read(fds[0], b.as_mut_ptr(), 8) > 0 {}
    }
    let (s, f) = (sh.started.load(SeqCst), sh.finished.load(SeqCst));
    if verbose {
        eprintln!("{} processes, {:.2}s", s, t0.elapsed().as_secs_f64());
    }
    if s != f {
        eprintln!("{} of {} worker processes did not finish", s - f, s);
        return 2;
    }
    0
}

fn worker(ex: &mut Exec, o: &Opts, sh: &Shared, jobs: &[(String, Vec<u64>)], mut root: bool, t0: Instant, fds: [i32; 2]) {
    let mut out: Vec<String> = vec![];
    let mut last = Instant::now();
    let mut fresh = Instant::now();
    let birth = Duration::from_millis(40);
    let mut aborted = false;
    let mut paths = 0u64;
    while let Some(mut st) = ex.pending.pop() {
        if sh.stop.load(SeqCst) != 0 {
            aborted = true;
            break;
        }
        if t0.elapsed().as_secs_f64() > o.secs {
            out.push(format!(
                "{{\"t\":\"inc\",\"job\":{},\"msg\":\"time limit: {} states left\"}}",
                st.job,
                ex.pending.len() + 1
            ));
            sh.stop.store(1, SeqCst);
            aborted = true;
            break;
        }
        // share work
        if ex.pending.len() >= 1 && last.elapsed().as_millis() >= 15 && fresh.elapsed() > birth {
            last = Instant::now();
            while sh.slots.load(SeqCst) > 0 && ex.pending.len() >= 1 {
                if sh.slots.fetch_sub(1, SeqCst) <= 0 {
                    sh.slots.fetch_add(1, SeqCst);
                    break;
                }
                // the child takes the older half
                let n = (ex.pending.len() + 1) / 2;
                sh.started.fetch_add(1, SeqCst);
                let pid = unsafe { fork() };
                if pid == 0 {
                    unsafe {
                        close(fds[0]);
                        alarm((o.secs - t0.elapsed().as_secs_f64()).max(0.0) as u32 + 60);
                    }
                    ex.pending.truncate(n);
                    st = ex.pending.pop().unwrap();
                    // statistics restart
                    for j in ex.jobs.iter_mut() {
                        *j = JobStat::default();
                    }
                    ex.sv.st = Default::default();
                    ex.viols.clear();
                    ex.total_instrs = 0;
                    ex.total_forks = 0;
                    ex.prof.clear();
                    out.clear();
                    root = false;
                    paths = 0;
                    fresh = Instant::now();
                    last = Instant::now();
                    break;
                } else if pid < 0 {
                    sh.started.fetch_sub(1, SeqCst);
                    sh.slots.fetch_add(1, SeqCst);
                    break;
                } else {
                    ex.pending.drain(..n);
                }
            }
        }
        let i0 = st.instrs;
        let r = ex.run(&mut st);
        paths += 1;
        let j = st.job as usize;
        {
            let js = &mut ex.jobs[j];
            js.paths += 1;
            js.instrs += st.instrs - i0;
            js.reach |= st.reach;
        }
        ex.total_instrs += st.instrs - i0;
        let mut end = "";
        match r {
            Stop::Done => {
                ex.jobs[j].done += 1;
                end = "done";
            }
            Stop::Pruned => ex.jobs[j].pruned += 1,
            Stop::Panic(m) => {
                if st.panic_ok {
                    ex.jobs[j].panics_ok += 1;
                    end = "panic";
                } else {
                    let md = (*st.cons.model).clone();
                    ex.violation(&st, "panic", 0, m, md);
                }
            }
            Stop::Mem(m) => {
                let md = (*st.cons.model).clone();
                ex.violation(&st, "memory", 0, m, md);
            }
            Stop::Exit(c) => {
                ex.jobs[j].exits += 1;
                if st.panic_ok {
                    end = "exit";
                } else {
                    let md = (*st.cons.model).clone();
                    ex.violation(&st, "exit", c, String::new(), md);
                }
            }
            Stop::Inc(m) => {
                out.push(format!("{{\"t\":\"inc\",\"job\":{},\"msg\":\"{}\",\"model\":\"{}\"}}", j, esc(&m), hex(&st.cons.model)));
                if out.iter().filter(|x| x.starts_with("{\"t\":\"inc\"")).count() > 20 {
                    sh.stop.store(1, SeqCst);
                    aborted = true;
                    break;
                }
            }
        }
        if !end.is_empty() {
            // the first few paths and then a thinning selection: about
            // `samples` per doubling
            let g = sh.paths[j.min(MAXJOBS - 1)].fetch_add(1, SeqCst) as u64;
            let per = (o.samples as u64).max(1).next_power_of_two();
            if g % (g.next_power_of_two() / per).max(1) == 0 {
                let notes: Vec<String> = st
                    .notes
                    .iter()
                    .map(|n| {
                        let b: Vec<u8> = n
                            .iter()
                            .map(|(d, e)| if *e == 0 { *d } else { ar(|a| a.eval(*e, st.cons.mid, &st.cons.model)) as u8 })
                            .collect();
                        format!("\"{}\"", hex(&b))
                    })
                    .collect();
                out.push(format!(
                    "{{\"t\":\"path\",\"job\":{},\"end\":\"{}\",\"model\":\"{}\",\"notes\":[{}]}}",
                    j,
                    end,
                    hex(&st.cons.model),
                    notes.join(",")
                ));
            }
        }
        if o.stop_first && ex.viols.iter().any(|v| !(v.1 == "assert" && o.known.iter().any(|k| k.0 == jobs[v.0 as usize].0 && k.1 == v.2))) {
            sh.stop.store(1, SeqCst);
            aborted = true;
            break;
        }
    }
    for v in &ex.viols {
        out.push(format!(
            "{{\"t\":\"viol\",\"job\":{},\"kind\":\"{}\",\"code\":{},\"msg\":\"{}\",\"model\":\"{}\"}}",
            v.0,
            v.1,
            v.2,
            esc(&v.3),
            hex(&v.4)
        ));
    }
    for (i, j) in ex.jobs.iter().enumerate() {
        if j.paths > 0 || j.forks > 0 {
            out.push(format!(
                "{{\"t\":\"job\",\"job\":{},\"paths\":{},\"done\":{},\"pruned\":{},\"panics_ok\":{},\"exits\":{},\"forks\":{},\"instrs\":{},\"asserts\":{},\"assert_queries\":{},\"reach\":{}}}",
                i, j.paths, j.done, j.pruned, j.panics_ok, j.exits, j.forks, j.instrs, j.asserts, j.assert_queries, j.reach
            ));
        }
    }
    let s = &ex.sv.st;
    out.push(format!(
        "{{\"t\":\"solver\",\"model\":{},\"dom\":{},\"probe\":{},\"cache\":{},\"z3\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_secs\":{:.4},\"z3_max\":{:.4},\"unknown\":{},\"xcheck\":{},\"exprs\":{},\"z3_version\":\"{}\"}}",
        s.q_model, s.q_dom, s.q_probe, s.q_cache, s.q_z3, s.z3_sat, s.z3_unsat, s.z3_secs, s.z3_max, s.unknown, s.xcheck,
        ar(|a| a.nodes.len()), solver::z3_version()
    ));
    out.push(format!("{{\"t\":\"proc\",\"aborted\":{},\"instrs\":{},\"paths\":{}}}", aborted, ex.total_instrs, paths));
    let fns: Vec<String> = ex
        .covered
        .iter()
        .enumerate()
        .filter(|x| *x.1)
        .map(|x| format!("\"{}\"", esc(&ex.p.funs[x.0].name)))
        .collect();
    out.push(format!("{{\"t\":\"funcs\",\"names\":[{}]}}", fns.join(",")));
    if ex.do_prof {
        let mut v: Vec<_> = ex.prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("fork {:>8} {} @{}", n, ex.p.funs[k.0 as usize].name, k.1);
        }
    }
    let pid = unsafe { getpid() };
    let path = format!("{}/res.{}.jsonl", o.out, pid);
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&path).unwrap();
    f.write_all((out.join("\n") + "\n").as_bytes()).unwrap();
    drop(f);
    sh.finished.fetch_add(1, SeqCst);
    sh.slots.fetch_add(1, SeqCst);
    if !root {
        unsafe { _exit(0) }
    }
}
