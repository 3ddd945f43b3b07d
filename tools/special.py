"""C04 (memory), C20 (threads), C22 (no_std): properties decided over several builds."""
import glob, json, os, re, sys, time
from concurrent.futures import ThreadPoolExecutor
import plan

ck = None   # the check module

# ---------------------------------------------------------------- C04

def findings(c, extra, prop):
    """The listed holes in the safe API, each shown against the current tree under Miri."""
    known = ck.known_findings()
    shown, bad = [], None
    def one(k):
        return k, ck.run(ck.F["miri"], ["--suite", "findings", "--from", str(k), "--to", str(k + 1), "--seed", str(ck.SEED), "--no-leaks"], 200)
    with ThreadPoolExecutor(4) as ex: res = list(ex.map(one, range(len(plan.FINDINGS))))
    for k, o in res:
        fid = plan.FINDINGS[k]
        if o.kind == "ok": extra.setdefault("listed_findings_not_seen", []).append(fid); continue
        if o.kind not in plan.MEM: extra.setdefault("listed_findings_not_seen", []).append(f"{fid} ({o.kind})"); continue
        if (prop, fid) in known:
            print(f"KNOWN-FINDING: property={prop} {fid}: {known[(prop, fid)]}")
            shown.append(fid)
        elif bad is None:
            bad = {"property": prop, "suite": "findings", "case": k, "seed": ck.SEED, "flavour": "miri", "kind": o.kind, "message": f"{fid}: {o.msg}", "command": " ".join(ck.F["miri"].run_cmd(["--suite", "findings", "--from", str(k), "--to", str(k + 1)])), "stderr": o.err[-3000:]}
    extra["known_findings_shown"] = shown
    return bad

def escapes(c, extra, prop):
    """Programs the compiler has to refuse; one it accepts is run under Miri."""
    import escapes as E, glob, shutil, subprocess
    fl = ck.F["native"]
    env, d = fl.environ(), os.path.join(ck.BUILD, "escapes")
    os.makedirs(d, exist_ok=True)
    import fcntl
    with open(d + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--manifest-path", "/repo/Cargo.toml", "--target-dir", d], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        lib = os.path.join(d, "debug", "libtrees.rlib")
        if p.returncode or not os.path.exists(lib): raise ck.NoAnswer(f"build of the library failed:\n{p.stderr[-3000:]}")
        def one(k):
            src = os.path.join(d, k + ".rs")
            with open(src, "w") as f: f.write(E.PRE % E.MEMORY[k])
            r = subprocess.run(["rustc", "--edition", "2021", "-Awarnings", "--emit=metadata", "--extern", "trees=" + lib, "-o", os.path.join(d, k + ".rmeta"), src], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
            return k, r.returncode
        with ThreadPoolExecutor(ck.CORES) as ex: accepted = [k for k, rc in ex.map(one, E.MEMORY) if rc == 0]
        extra["borrow_programs"] = {"tried": len(E.MEMORY), "refused_by_the_compiler": len(E.MEMORY) - len(accepted), "accepted_and_run": accepted}
        for k in accepted[:6]:
            m = os.path.join(d, "run")
            shutil.rmtree(m, ignore_errors=True)
            os.makedirs(os.path.join(m, "src"))
            with open(os.path.join(m, "Cargo.toml"), "w") as f: f.write('[package]\nname = "escape"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\ntrees = { path = "/repo" }\n')
            with open(os.path.join(m, "src", "main.rs"), "w") as f: f.write(E.PRE % E.MEMORY[k])
            try: r = subprocess.run(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target-dir", os.path.join(d, "miri")], cwd=m, env=ck.F["miri"].environ(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=200)
            except subprocess.TimeoutExpired: continue
            if "Undefined Behavior" in r.stderr:
                msg = next((l for l in r.stderr.splitlines() if "Undefined Behavior" in l), "")
                return {"property": prop, "suite": "escapes", "case": k, "seed": ck.SEED, "flavour": "miri", "kind": "ub", "message": f"the compiler accepts a safe program that outlives its tree ({k}): {msg}", "program": E.PRE % E.MEMORY[k], "command": "compile the program against /repo and run it with cargo +nightly miri run", "stderr": r.stderr[-3000:]}
    return None

def c04(prop, c):
    J, thorough = ck.Job, ck.TIER != "quick"
    jobs = []
    for s, (native, asan, miri) in plan.MEMORY_SUITES.items():
        if miri: jobs.append(J("miri", s, miri, miri * 30, accept=plan.MEM, small=True, chunks=2 if not thorough else 4, budget=20, no_leaks=True))
    for s, (native, asan, miri) in plan.MEMORY_SUITES.items():
        if asan: jobs.append(J("asan", s, asan, asan * 40, accept=plan.MEM, chunks=4, budget=40))
        if native: jobs.append(J("native", s, native, native * 40, accept=plan.MEM, chunks=4, budget=40))
    for s in ("tree", "forest"): jobs.append(J("tuples_build", s, 2000, 40000, accept=plan.MEM, chunks=2))
    errs = c.build(list(dict.fromkeys(j.flavour for j in jobs)))
    if errs:
        n, e = next(iter(errs.items()))
        if n.startswith("tuples"):  # C11's business
            jobs = [j for j in jobs if not j.flavour.startswith("tuples")]
            errs.pop(n)
        if errs:
            n, e = next(iter(errs.items()))
            raise ck.NoAnswer(f"build of {n} failed:\n{e}")
    extra = {}
    bad = findings(c, extra, prop) or escapes(c, extra, prop)
    if bad: return ck.finish(prop, 1, {"evaluations": 1, "distinct_nontrivial": 1, "rule": plan.RULES[prop], "samples": [bad["message"][:500]]}, 1, [], bad)
    return ck.decide(c, prop, jobs, extra)

# ---------------------------------------------------------------- C20

def c20(prop, c):
    J = ck.Job
    jobs = [J("native", "thread_types", 1, 1), J("native", "threads_raw", 2400, 200000, no_leaks=False), J("native", "threads_items", 2000, 200000, no_leaks=False),
            J("tsan", "threads_raw", 1200, 80000, budget=40), J("tsan", "threads_items", 300, 20000, budget=40),
            J("miri", "threads_raw", 24, 600, chunks=8, small=True, budget=50, seeds=2)]
    if any(re.search(r"\bfence\b", open(f, errors="replace").read()) for f in glob.glob("/repo/src/**/*.rs", recursive=True)):
        # ThreadSanitizer does not know fences and calls what they order a race; Miri does know them, so it decides
        jobs[3:] = [J("tsan", j.suite, j.n, accept=plan.OWN + ("tsan",), budget=40) for j in jobs[3:5]] + [
            J("miri", s, 96, 2400, chunks=8, small=True, budget=150, seeds=2) for s in ("threads_raw", "threads_items")]
    return ck.decide(c, prop, jobs, {})

# ---------------------------------------------------------------- C22

def c22(prop, c):
    T = [("tuples_build", "tree", "forest", "huge_tuples"), ("tuples_visits", "tree_visits", "forest_visits", "huge_tuple_visits")]
    errs = c.build(["native", "nostd"] + [t[0] + e for t in T for e in ("", "_nostd")])
    T = [t for t in T if t[0] not in errs]   # in both builds: not a difference
    for t in T:
        if t[0] + "_nostd" in errs: errs.setdefault("nostd", errs[t[0] + "_nostd"])
    if "native" in errs: raise ck.NoAnswer(f"build of native failed:\n{errs['native']}")
    if "nostd" in errs:
        e = errs["nostd"]
        return ck.finish(prop, 1, {"evaluations": 1, "distinct_nontrivial": 1, "rule": plan.RULES[prop], "samples": [e[-600:]]}, 1, [],
                         {"property": prop, "suite": "build", "case": 0, "flavour": "nostd", "kind": "compile", "message": "the no_std build does not offer what the default build does: " + e[-1500:], "command": " ".join(ck.F["nostd"].cargo(["build"]))})
    k = 1 if ck.TIER == "quick" else 40
    logs = {"log_owned": 30000 * k, "log_rc": 3000 * k}
    W = ck.CORES
    compared, evals, distinct, per, samples, found = 0, 0, set(), [], [], []

    def pair(task):
        s, w, n = task
        if found: return
        res = {}
        for fl in ("native", "nostd"):
            cur, logged, ends, stats = w, {}, {}, []
            until = time.time() + (120 if ck.TIER == "quick" else 3000)
            while cur < n and time.time() < until:
                prog, sigs = c.path("prog"), c.path("sigs")
                o = ck.run(ck.F[fl], ["--suite", s, "--from", str(cur), "--to", str(n), "--step", str(W), "--seed", str(ck.SEED), "--tier", ck.TIER, "--sigs", sigs, "--no-leaks"], 200 if ck.TIER == "quick" else 4000, prog)
                if o.kind in ("error", "killed"): raise ck.NoAnswer(f"{s} ({fl}): {o.kind} {o.msg[:500]}")
                logged.update(o.logs)
                if o.stats: o.stats["sigs"] = sigs; stats.append(o.stats)
                if o.kind == "ok": break
                case = o.case if o.case is not None and o.case >= 0 else cur
                # a failing case is an observation too; what ran before it in this process lost its log
                if case > cur and len(ends) < 40:
                    o2 = ck.run(ck.F[fl], ["--suite", s, "--from", str(cur), "--to", str(case), "--step", str(W), "--seed", str(ck.SEED), "--tier", ck.TIER, "--no-leaks"], 200)
                    logged.update(o2.logs)
                ends[case] = (o.kind, re.sub(r"0x[0-9a-f]+|\(case.*|:\d+", "", o.msg)[:200])
                cur = case + W
                if len(ends) > 40: break
            res[fl] = (logged, ends, stats)
        a, b = res["native"], res["nostd"]
        for case in range(w, n, W):
            x, y = a[0].get(case) or a[1].get(case), b[0].get(case) or b[1].get(case)
            if x is None or y is None: continue
            if case in a[1] and case in b[1] and a[1][case][0] == b[1][case][0]: continue
            if x != y: found.append((s, case, x, y)); return
        return s, a, b
    try:
        with ThreadPoolExecutor(W) as ex:
            for r in ex.map(pair, [(s, w, n) for s, n in logs.items() for w in range(W)]):
                if r is None: continue
                s, a, b = r
                compared += len(set(a[0]) & set(b[0]))
                evals += sum(v[1] for v in b[0].values())
                distinct |= {(s, h) for h, k in b[0].values() if k >= 3}
                if len(samples) < 6: samples += [x for st in b[2] for x in st["samples"][:1]]
    except ck.NoAnswer:
        if not found: raise
    extra = {"histories_compared_between_builds": compared, "observations_compared": evals}
    if found:
        s, case, x, y = found[0]
        d = {}
        for fl in ("native", "nostd"):
            o = ck.run(ck.F[fl], ["--suite", s, "--from", str(case), "--to", str(case + 1), "--seed", str(ck.SEED), "--tier", ck.TIER, "--dump", "--trace", "--no-leaks"], 100)
            d[fl] = ([l[4:] for l in o.out.splitlines() if l.startswith("OBS ")], (o.viol or {}).get("trace"), o.kind, o.msg)
        k = next((i for i, (p, q) in enumerate(zip(d["native"][0], d["nostd"][0])) if p != q), min(len(d["native"][0]), len(d["nostd"][0])))
        at = lambda l: l[k][:300] if k < len(l) else "(ended)"
        v = {"property": prop, "suite": s, "case": case, "seed": ck.SEED, "flavour": "native/nostd", "kind": "difference", "tier": ck.TIER,
             "message": f"observation {k} differs: default build {at(d['native'][0])!r} ({d['native'][2]} {d['native'][3][:150]}), no_std build {at(d['nostd'][0])!r} ({d['nostd'][2]} {d['nostd'][3][:150]})",
             "command": " ".join(ck.F["nostd"].run_cmd(["--suite", s, "--from", str(case), "--to", str(case + 1), "--seed", str(ck.SEED), "--dump"])), "operations": d["nostd"][0][max(0, k - 5):k + 2]}
        return ck.finish(prop, 1, {"evaluations": max(1, compared), "distinct_nontrivial": len(distinct), "rule": plan.RULES[prop], "samples": samples or [v["message"][:300]], **extra}, 1, [], v)

    # all oracles on the no_std build; a failure is only this property's when the default build passes the same case
    jobs = [ck.Job("nostd", s, n, n * 30 if n > 200 else n, chunks=min(4, n), no_leaks=False) for s, n in plan.NO_STD_SUITES.items()]
    jobs += [ck.Job(t[0] + "_nostd", s, 12 if "huge" in s else 2000, 12 if "huge" in s else 8000, chunks=4, no_leaks=False) for t in T for s in t[1:]]
    orig = c.confirm
    def confirm(j, o, case, frm, seed, env):
        v = orig(j, o, case, frm, seed, env)
        if v is None: return None
        for f, t, s in ((case, case + 1, 1), (frm, case + 1, j.chunks)):
            d = ck.run(ck.F["native" if j.flavour == "nostd" else j.flavour[:-len("_nostd")]], c.args(j, f, t, s, seed), 300)
            if d.kind != "ok":
                with c.lock: c.notes.append(f"{j.suite} case {case}: fails in both builds ({d.kind}), not a difference")
                j.foreign[d.kind] = j.foreign.get(d.kind, 0) + 1
                return None
        return v
    c.confirm = confirm
    c.patient = True
    c.run_jobs(jobs)
    cov = c.evidence(jobs, extra)
    cov["samples"] = (samples + cov["samples"])[:12]
    cov["evaluations"] += compared
    cov["distinct_nontrivial"] += len(distinct)
    c.notes = c.notes[:10]
    if c.found: return ck.finish(prop, 1, cov, len(c.found), c.notes, c.found[0])
    if compared == 0: raise ck.NoAnswer("nothing was compared")
    return ck.finish(prop, 0, cov, 0, c.notes)

def check(module, prop, c):
    global ck
    ck = module
    return {"C04": c04, "C20": c20, "C22": c22}[prop](prop, c)
