#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property
   check.py replay FILE           run a reported counterexample natively
   check.py build [lib|cli]...    build the engine and the harnesses

Exit status 0: the property held on everything explored; 1: a violation that
was reproduced natively; anything else: no answer."""
import collections, fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "props"))
B = os.path.join(V, ".build")
ENG = os.path.join(V, "engine", "target", "release", "symex")


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(3)


def sources(c):
    """a hash of everything a harness crate is built from"""
    h = hashlib.sha256()
    for top in (os.path.join("/repo"), os.path.join(V, "harness")):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "tests", "docs"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".c", ".sh", ".h")):
                    h.update(os.path.join(d, f).encode() + b"\0")
                    h.update(open(os.path.join(d, f), "rb").read() + b"\0")
    h.update(subprocess.run(["rustc", "+stable", "-Vv"], stdout=subprocess.PIPE).stdout)
    return h.hexdigest()


def build(crates):
    """the engine and the harness crates, from the current sources"""
    os.makedirs(B, exist_ok=True)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    with open(os.path.join(B, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        ps = [("engine", subprocess.Popen(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "engine"),
                                          env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))]
        keys = {}
        for c in crates:
            keys[c], k = sources(c), os.path.join(B, c, "key")
            if os.path.exists(k) and open(k).read() == keys[c] and all(os.path.exists(os.path.join(B, c, c + x)) for x in ("", ".ll")):
                continue
            if os.path.exists(k):
                os.remove(k)
            ps.append((c, subprocess.Popen(["bash", os.path.join(V, "harness", "build.sh"), c, os.path.join(B, c)],
                                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        bad = []
        for n, p in ps:
            out = p.communicate()[0]
            if p.returncode:
                bad.append("%s does not build:\n%s" % (n, out[-6000:]))
            elif n in keys:
                open(os.path.join(B, n, "key"), "w").write(keys[n])
        if bad:
            die("\n".join(bad))


def native(crate, cases, scratch):
    """runs the harness binary on (harness, modelhex, params) cases"""
    if not cases:
        return []
    os.makedirs(scratch, exist_ok=True)
    f = os.path.join(scratch, "cases")
    with open(f, "w") as o:
        for h, m, ps in cases:
            o.write(" ".join([h, m or "-"] + [str(x) for x in ps]) + "\n")
    exe = os.path.join(B, crate, crate)
    p = subprocess.run([exe, f, os.path.join(scratch, "s")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       errors="replace", timeout=800,
                       preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (64 << 30, 64 << 30)))
    res = []
    for l in p.stdout.splitlines():
        res.append(json.loads(l))
    if len(res) != len(cases):
        die("native replay gave %d of %d results: %s" % (len(res), len(cases), p.stderr[-500:]))
    return res


def reproduces(v, r):
    if r["short"] or r["end"] == "assume":
        return False
    k = v["kind"]
    if k == "assert":
        return v["code"] in r["fail"]
    if k == "hang":
        return r["end"] == "timeout"
    if k == "exit":
        return r["end"] == "exit" and not r["panic_ok"]
    return (r["end"] in ("panic", "signal") and not r["panic_ok"]) or (k == "memory" and r["end"] in ("panic", "signal", "timeout"))


def text(h):
    """bytes as readable text"""
    return "".join(chr(c) if 32 <= c < 127 and c != 92 else "\\x%02x" % c for c in bytes.fromhex(h))


def known_findings(pid):
    res = []
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            if l.strip() and not l.startswith("fixed:"):
                d = json.loads(l)
                if d["property"] == pid:
                    res.append(d)
    return res


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "build":
        build(sys.argv[2:] or ["lib", "cli"])
        return 0
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        c = json.load(open(sys.argv[2]))
        build([c["crate"]])
        d = tempfile.mkdtemp(prefix="pica-replay")
        try:
            r = native(c["crate"], [(c["harness"], c["model"], c["params"])], d)[0]
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print(json.dumps(dict(r, notes=[text(n) for n in r["notes"]], stderr=text(r["stderr"])), indent=1))
        ok = reproduces(c, r)
        print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    import spec
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ps = spec.PROPS[pid]
    jobs = [(h, list(a)) for h, a in ps["quick"]]
    if tier == "thorough":
        jobs = [(h, list(a)) for h, a in ps.get("thorough_only", ps["quick"] + ps.get("thorough", []))]
    crate = ps["crate"]
    kf = known_findings(pid)
    build([crate])
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="pica-%s-" % pid)
    try:
        return run(spec, ps, pid, tier, seed, jobs, crate, kf, t0, tb, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(spec, ps, pid, tier, seed, jobs, crate, kf, t0, tb, work):
    jf, out = os.path.join(work, "jobs"), os.path.join(work, "out")
    with open(jf, "w") as f:
        for h, a in jobs:
            f.write(" ".join([h] + [str(x) for x in a]) + "\n")
    secs = ps.get("secs", 540) if tier == "quick" else ps.get("secs_thorough", 660)
    secs = int(os.environ.get("CHECK_SECS", secs))
    if os.environ.get("CHECK_JOBS"):  # development: only some of the harnesses
        jobs[:] = [j for j in jobs if re.search(os.environ["CHECK_JOBS"], " ".join([j[0]] + [str(x) for x in j[1]]))]
        open(jf, "w").write("".join(" ".join([h] + [str(x) for x in a]) + "\n" for h, a in jobs))
    cmd = [ENG, "--ll", os.path.join(B, crate, crate + ".ll"), "--jobs", jf, "--out", out, "--procs", str(os.cpu_count() or 8),
           "--secs", str(secs), "--limit", str(ps.get("limit", 60_000_000)), "--samples", "8" if len(jobs) > 40 else "16"]
    if tier == "thorough":
        cmd.append("--xcheck")
    for k in kf:
        cmd += ["--known", "%s:%d" % (k["harness"], k["code"])]
    ts = time.time()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        log = p.communicate(timeout=secs + 90)[0]
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc, log = 9, "the engine ran out of time"
    finally:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
    te = time.time() - ts
    J = [collections.Counter() for _ in jobs]
    reach = collections.Counter()
    S, paths, viols, incs, funs, aborted = collections.Counter(), [], [], [], set(), 0
    zmax, zver = 0.0, ""
    for f in glob.glob(os.path.join(out, "*")):
        for l in open(f, errors="replace"):
            d = json.loads(l)
            t = d.pop("t")
            if t == "job":
                j = d.pop("job")
                r = d.pop("reach")
                reach[jobs[j][0]] |= r
                J[j].update(d)
            elif t == "solver":
                zver = d.pop("z3_version")
                zmax = max(zmax, d.pop("z3_max"))
                d.pop("exprs")
                S.update(d)
            elif t == "path":
                paths.append(d)
            elif t == "viol":
                viols.append(d)
            elif t == "inc":
                incs.append(d)
            elif t == "funcs":
                funs.update(d["names"])
            elif t == "proc":
                aborted += bool(d["aborted"])
    T = collections.Counter()
    for j in J:
        T.update(j)
    # candidates for non-termination
    for d in incs:
        if "instruction limit" in d["msg"]:
            viols.append(dict(job=d["job"], kind="hang", code=0, msg="does not terminate", model=d["model"]))
    # violations, replayed against the real code
    seen, cand = collections.Counter(), []
    for v in viols:
        key = (jobs[v["job"]][0], v["kind"], v["code"])
        seen[key] += 1
        if seen[key] <= 6:
            cand.append(v)
    known = {(k["harness"], k["code"]): k for k in kf}
    confirmed, unconfirmed, kprinted = [], [], {}
    res = native(crate, [(jobs[v["job"]][0], v["model"], jobs[v["job"]][1]) for v in cand], os.path.join(work, "n1"))
    for v, r in zip(cand, res):
        h, a = jobs[v["job"]]
        if reproduces(v, r):
            if v["kind"] == "assert" and (h, v["code"]) in known:
                kprinted[(h, v["code"])] = (v, r)
            else:
                confirmed.append((v, r))
        else:
            unconfirmed.append((v, r))
    # sampled paths, replayed against the real code
    import random
    rnd = random.Random(seed)
    budget = 1500 if tier == "quick" else 6000
    byj = collections.defaultdict(list)
    for d in paths:
        byj[d["job"]].append(d)
    samp = []
    for j, l in sorted(byj.items()):
        rnd.shuffle(l)
    k = 0
    while len(samp) < budget and any(k < len(l) for l in byj.values()):
        samp += [l[k] for _, l in sorted(byj.items()) if k < len(l)]
        k += 1
    samp = samp[:budget]
    mism, knownhit = [], 0
    if not confirmed:
        res = native(crate, [(jobs[d["job"]][0], d["model"], jobs[d["job"]][1]) for d in samp], os.path.join(work, "n2"))
        for d, r in zip(samp, res):
            h = jobs[d["job"]][0]
            fail = [c for c in r["fail"] if (h, c) not in known]
            bad = None
            if r["short"]:
                bad = "more input used natively"
            elif r["end"] != d["end"]:
                bad = "ends with %s, natively with %s" % (d["end"], r["end"])
            elif fail:
                bad = "assertion %s fails natively only" % fail
            elif r["notes"] != d["notes"]:
                bad = "observations differ: %s / %s" % ([text(x) for x in d["notes"]], [text(x) for x in r["notes"]])
            if bad:
                mism.append((d, r, bad))
    # reachability witnesses
    unreached = []
    for h in sorted(set(h for h, _ in jobs)):
        m = spec.WITNESS.get(h, 0)
        if reach[h] & m != m:
            unreached.append("%s: %s" % (h, [i for i in range(64) if m >> i & 1 and not reach[h] >> i & 1]))
    repo = sorted(f for f in (spec.demangle(n) for n in funs) if f and re.match(r"<*&?(mut )?(dyn )?(pica_record|pcli)\b", f) or f and ("pica_record::" in f or "pcli::" in f))
    repo = sorted(set(repo))
    samples = []
    for d, r in list(zip(samp, res if not confirmed else []))[:: max(1, len(samp) // 12)][:12] if not confirmed else []:
        samples.append("%s%s on %s -> %s; observed %s" % (jobs[d["job"]][0], jobs[d["job"]][1], repr(text(d["model"])), r["end"],
                                                       [text(x)[:160] for x in r["notes"][:6]]))
    for v, r in confirmed[:4]:
        samples.append("VIOLATED %s%s code %d on %s" % (jobs[v["job"]][0], jobs[v["job"]][1], v["code"], repr(text(v["model"]))))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(confirmed),
              assumptions=spec.ASSUMPTIONS + ps.get("assumptions", []),
              coverage=dict(
                  states=T["paths"], transitions=T["forks"], traces_validated_against_impl=len(samp) if not confirmed else len(confirmed),
                  samples=samples,
                  bounds=ps["bounds"], harness_runs=[" ".join([h] + [str(x) for x in a]) + ": %d paths" % J[i]["paths"] for i, (h, a) in enumerate(jobs)],
                  assertions_evaluated=T["asserts"], assertions_sent_to_solver=T["assert_queries"],
                  instructions=T["instrs"], paths_completed=T["done"], paths_infeasible=T["pruned"],
                  functions_encoded=repo, functions_encoded_in_dependencies=len(funs) - len(repo),
                  decided_by_current_model=S["model"], decided_by_domain_procedure=S["dom"], decided_by_probe=S["probe"],
                  decided_from_cache=S["cache"], smt_queries=S["z3"], smt_sat=S["z3_sat"], smt_unsat=S["z3_unsat"],
                  smt_seconds=round(S["z3_secs"], 3), smt_longest_query_s=round(zmax, 3), smt_unknown=S["unknown"],
                  domain_answers_rechecked_by_smt=S["xcheck"], solver=zver,
                  engine_seconds=round(te, 2), build_seconds=round(tb, 2), inconclusive=len(incs), not_reproduced=len(unconfirmed),
                  native_mismatches=len(mism), witnesses_missed=unreached, known_findings=["%s:%d" % k for k in kprinted]))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if os.environ.get("CHECK_VERBOSE"):
        for i, (h, a) in enumerate(jobs):
            print("  %-40s %9d paths %11d instructions" % (" ".join([h] + [str(x) for x in a]), J[i]["paths"], J[i]["instrs"]))
    print("%s %s: %d paths, %d forks, %d assertions, %d instructions, %d SMT queries (%.1f s), %d traces replayed; build %.0f s, engine %.0f s" %
          (pid, tier, T["paths"], T["forks"], T["asserts"], T["instrs"], S["z3"], S["z3_secs"], len(samp), tb, te))
    for (h, c), (v, r) in kprinted.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, known[(h, c)]["what"]))
    if confirmed:
        d = os.path.join(V, "replay")
        os.makedirs(d, exist_ok=True)
        for i, (v, r) in enumerate(confirmed[:3]):
            h, a = jobs[v["job"]]
            f = os.path.join(d, "%s-%d.json" % (pid, i))
            with open(f, "w") as o:
                json.dump(dict(property=pid, crate=crate, harness=h, params=a, model=v["model"], kind=v["kind"], code=v["code"],
                               message=v["msg"], input=text(v["model"]), what=spec.CODES.get((h, v["code"]), ""),
                               native=dict(r, notes=[text(n) for n in r["notes"]], stderr=text(r["stderr"]))), o, indent=1)
                o.write("\n")
            print("  %s %s: %s %d %s %s on %s" % (h, a, v["kind"], v["code"], spec.CODES.get((h, v["code"]), ""), v["msg"][:300], text(v["model"])))
            print("  observed: %s" % [text(n)[:300] for n in r["notes"]])
            print("VIOLATION property=%s replay=%s" % (pid, f), flush=True)
        return 1
    err = []
    for v, r in unconfirmed[:5]:
        err.append("not reproduced natively: %s %s %s %d %s on %s; native: %s" %
                   (jobs[v["job"]][0], jobs[v["job"]][1], v["kind"], v["code"], v["msg"][:500], text(v["model"]), json.dumps(r)[:600]))
    for d in [d for d in incs if "instruction limit" not in d["msg"]][:5]:
        err.append("inconclusive: %s %s: %s on %s" % (jobs[d["job"]][0], jobs[d["job"]][1], d["msg"][:500], text(d.get("model", ""))))
    for d, r, b in mism[:5]:
        err.append("engine and native run disagree: %s %s on %s: %s; %s" % (jobs[d["job"]][0], jobs[d["job"]][1], text(d["model"]), b, json.dumps(r)[:600]))
    if S["unknown"]:
        err.append("%d solver queries unknown" % S["unknown"])
    if unreached:
        err.append("witnesses not reached: " + "; ".join(unreached))
    if rc:
        err.append("engine status %d: %s" % (rc, log[-1500:]))
    if aborted and not err and not viols:
        err.append("exploration cut short")
    if err:
        die("\n".join(err))
    return 0


sys.exit(main())
