#!/usr/bin/env python3
"""check.py Cxx - decides one property on /repo's current working tree by running it under monitors.

Exit 0: held on everything explored. Exit 1 + "VIOLATION property=.. replay=..": broken. Exit 2: no answer.
"""
import array, fcntl, json, os, re, resource, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN, RULES, NOTES, LEVEL            # what runs for which property

BUILD = os.path.join(VERIF, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
TARGET = "x86_64-unknown-linux-gnu"
CORES = os.cpu_count() or 8
T0 = time.time()
DEADLINE = T0 + (840 if TIER == "quick" else float(os.environ.get("VERIF_DEADLINE", "7200")))

class NoAnswer(Exception): pass

# ---------------------------------------------------------------- builds

MIRI = "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.1"

class Flavour:
    def __init__(self, name, features="", toolchain=None, rustflags="", args=(), release=False, sub=None, crate="harness", target=None, env=None, mem_gb=3):
        self.name, self.features, self.toolchain, self.rustflags, self.args = name, features, toolchain, rustflags, list(args)
        self.release, self.crate, self.target, self.env, self.mem_gb = release, crate, target, env or {}, mem_gb
        self.dir = os.path.join(BUILD, sub or name)

    def cargo(self, verb):
        c = ["cargo"] + (["+" + self.toolchain] if self.toolchain else []) + verb + ["--offline", "--target-dir", self.dir]
        if self.features: c += ["--features", self.features]
        if self.release: c += ["--release"]
        if self.target: c += ["--target", self.target]
        return c + self.args

    def cwd(self): return os.path.join(VERIF, "harness") if self.crate == "harness" else os.path.join(BUILD, self.crate)

    def environ(self):
        e = dict(os.environ)
        for k in ("RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUST_BACKTRACE", "CARGO_ENCODED_RUSTFLAGS"): e.pop(k, None)
        e["RUSTFLAGS"] = ("-Awarnings " + self.rustflags).strip()
        e["CARGO_INCREMENTAL"] = "0"
        e["CARGO_TERM_COLOR"] = "never"
        e["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:hard_rss_limit_mb=4000:allocator_may_return_null=0"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:hard_rss_limit_mb=6000"
        e.update(self.env)
        return e

    def binary(self):
        d = os.path.join(self.dir, *([self.target] if self.target else []), "release" if self.release else "debug")
        return os.path.join(d, "vh" if self.crate == "harness" else "vt")

    def build(self):
        os.makedirs(self.dir, exist_ok=True)
        with open(os.path.join(BUILD, os.path.basename(self.dir) + ".lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            if self.crate != "harness":
                kind = self.crate.split("_")[1]
                subprocess.run([sys.executable, os.path.join(VERIF, "tools", "gen_tuples.py"), self.cwd(), str(SEED), TIER, kind], check=True, stdout=subprocess.DEVNULL)
            if self.name.startswith("miri"):
                cmd = self.run_cmd(["--suite", "thread_types"])
            else:
                cmd = self.cargo(["build"])
            t = time.time()
            p = subprocess.run(cmd, cwd=self.cwd(), env=self.environ(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            self.build_s = round(time.time() - t, 1)
            ok = p.returncode == 0
            if self.name.startswith("miri") and not ok:  # it compiled if the program ran at all
                ok = re.search(r"^(VIOL|STATS)", p.stdout, re.M) is not None or "Undefined Behavior" in p.stderr
            return None if ok else (p.stderr or "")[-6000:]

    def run_cmd(self, a):
        if self.name.startswith("miri"): return self.cargo(["miri", "run", "-q"]) + ["--"] + a
        return [self.binary()] + a

def flavours():
    n = dict(toolchain="nightly")
    F = {}
    def add(name, **k): F[name] = Flavour(name, **k)
    add("native", features="checked_alloc")
    add("release", features="checked_alloc", release=True)
    add("plain", features="checked_alloc", env={"CARGO_PROFILE_DEV_OPT_LEVEL": "0"})   # what "cargo test" gives: no tail calls, full frames
    add("nostd", features="checked_alloc,no_std")
    add("asan", rustflags="-Zsanitizer=address", target=TARGET, mem_gb=0, **n)
    add("tsan", rustflags="-Zsanitizer=thread", target=TARGET, args=["-Zbuild-std"], mem_gb=0, **n)
    add("miri", env={"MIRIFLAGS": MIRI}, mem_gb=14, **n)
    add("tuples_build", features="checked_alloc", crate="tuples_build", sub="tuples_build_t")
    add("tuples_visits", features="checked_alloc", crate="tuples_visits", sub="tuples_visits_t")
    add("tuples_build_nostd", features="checked_alloc,no_std", crate="tuples_build", sub="tuples_build_nt")
    add("tuples_visits_nostd", features="checked_alloc,no_std", crate="tuples_visits", sub="tuples_visits_nt")
    return F

F = flavours()

# ---------------------------------------------------------------- running one process

def limits(fl):
    def f():
        os.setsid()
        if fl.mem_gb: resource.setrlimit(resource.RLIMIT_AS, (fl.mem_gb << 30, fl.mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

LIVE, LIVE_LOCK, STOP = set(), threading.Lock(), threading.Event()

class Outcome:
    """kind: ok | oracle | panic | leak | item | allocator | hang | crash | asan | ub | race | killed | timeout | error"""
    def __init__(self, kind, msg="", case=None, viol=None, stats=None, out="", err="", logs=None):
        self.kind, self.msg, self.case, self.viol, self.stats, self.out, self.err, self.logs = kind, msg, case, viol, stats, out, err, logs or {}

def run(fl, a, wall, progress=None, extra_env=None):
    env = fl.environ()
    for k, v in (extra_env or {}).items(): env[k] = (env.get(k, "") + " " + v).strip() if k == "MIRIFLAGS" else v
    cmd = fl.run_cmd(a + (["--progress", progress] if progress else []))
    try:
        p = subprocess.Popen(cmd, cwd=fl.cwd(), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits(fl))
    except OSError as e:
        return Outcome("error", f"cannot start {cmd[0]}: {e}")
    with LIVE_LOCK: LIVE.add(p)
    try:
        timed = False
        try: out, err = p.communicate(timeout=max(5, min(wall, DEADLINE + 40 - time.time())))
        except subprocess.TimeoutExpired:
            timed = True
            kill(p); out, err = p.communicate()
    finally:
        with LIVE_LOCK: LIVE.discard(p)
    out, err = out.decode("utf8", "replace"), err.decode("utf8", "replace")
    case = None
    if progress:
        try: case = int(open(progress).read().strip() or "-1")
        except (OSError, ValueError): pass
    rc = p.returncode
    o = Outcome("ok", out=out, err=err, case=case)
    for l in out.splitlines():
        if l.startswith("STATS "):
            try: o.stats = json.loads(l[6:])
            except ValueError: pass
        elif l.startswith("VIOL "):
            try: o.viol = json.loads(l[5:])
            except ValueError: o.viol = {"kind": "oracle", "msg": l[:500], "case": case}
        elif l.startswith("LOG "):
            x = l.split(); o.logs[int(x[1])] = (x[2], int(x[3]))
    if timed: o.kind, o.msg = "timeout", f"no end after {wall:.0f} s"
    elif rc == 0: return o
    elif rc == 66 and "ThreadSanitizer" in err: o.kind, o.msg = "race" if "data race" in err else "tsan", report(err, "WARNING: ThreadSanitizer")
    elif "AddressSanitizer" in err: o.kind, o.msg = ("crash" if "stack-overflow" in err else "oom" if "out-of-memory" in err or "rss limit" in err else "asan"), report(err, "AddressSanitizer")
    elif "Undefined Behavior" in err and fl.name.startswith("miri"): o.kind, o.msg = ("race" if "Data race" in err else "ub"), report(err, "error: Undefined Behavior")
    elif rc == 3 and o.viol: o.kind, o.msg, o.case = o.viol["kind"], o.viol["msg"], o.viol["case"] if not progress or case is None else case
    elif rc == 4 and "HANG " in out: o.kind, o.msg = "hang", next(l for l in out.splitlines() if l.startswith("HANG "))
    elif rc == -signal.SIGKILL: o.kind, o.msg = "killed", "SIGKILL"
    elif rc < 0: o.kind, o.msg = "crash", f"signal {signal.Signals(-rc).name}: {err[-400:]}"
    elif rc == 134 or (fl.name.startswith("miri") and "abnormal termination" in err): o.kind, o.msg = "crash", "abort: " + err[-400:]
    else: o.kind, o.msg = "error", f"exit {rc}: {err[-1500:]}"
    return o

def report(err, key):
    i = err.find(key)
    return " | ".join(x.strip() for x in err[max(i, 0):].splitlines()[:14] if x.strip())[:1200]

def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass

def stop_all():
    STOP.set()
    with LIVE_LOCK:
        for p in LIVE: kill(p)

# ---------------------------------------------------------------- jobs

class Job:
    """One workload in one flavour; cases 0..n dealt out to `chunks` processes."""
    def __init__(self, flavour, suite, n, thorough=None, accept=None, chunks=CORES, small=False, budget=None, env=None, no_leaks=True, seeds=1):
        self.flavour, self.suite, self.accept, self.small, self.env, self.no_leaks = flavour, suite, accept, small, env, no_leaks
        self.n = n if TIER == "quick" else (thorough if thorough is not None else n * 20)
        self.budget = (budget or 60) if TIER == "quick" else (budget or 60) * 15
        self.chunks = max(1, min(chunks, self.n))
        self.seeds = seeds if TIER == "quick" else seeds * 4
        self.stats, self.foreign, self.incomplete, self.lock = [], {}, 0, threading.Lock()

class Checker:
    def __init__(self, prop):
        self.prop, self.found, self.notes, self.lock = prop, [], [], threading.Lock()
        self.tmp = os.path.join(BUILD, f"run.{os.getpid()}")
        os.makedirs(self.tmp, exist_ok=True)
        self.tick = 0

    def path(self, s):
        with self.lock: self.tick += 1; return os.path.join(self.tmp, f"{self.tick}.{s}")

    def args(self, j, frm, to, step, seed):
        a = ["--suite", j.suite, "--from", str(frm), "--to", str(to), "--step", str(step), "--seed", str(seed), "--tier", TIER]
        if j.small: a.append("--small")
        if j.no_leaks: a.append("--no-leaks")
        return a

    def worker(self, j, k, seed, no):
        fl, cur, restarts = F[j.flavour], k, 0
        until = time.time() + j.budget
        env = dict(j.env or {})
        if fl.name == "miri" : env["MIRIFLAGS"] = f"-Zmiri-seed={seed * 1000 + no} " + env.get("MIRIFLAGS", "")
        while cur < j.n and not STOP.is_set():
            left = until - time.time()
            if left <= 0 or time.time() > DEADLINE - 20: j.incomplete += 1; return
            prog, sigs = self.path("prog"), self.path("sigs")
            o = run(fl, self.args(j, cur, j.n, j.chunks, seed) + ["--budget", f"{left:.1f}", "--sigs", sigs], left * 2 + 150, prog, env)
            if STOP.is_set(): return
            if o.stats:
                o.stats["sigs"] = sigs
                with j.lock: j.stats.append(o.stats)
                if o.kind == "ok" and o.stats.get("full") and o.stats["next"] < j.n:
                    cur = o.stats["next"]
                    continue
                if o.stats["next"] < j.n: j.incomplete += 1
            if o.kind == "ok": return
            if o.kind == "error":
                raise NoAnswer(f"{j.suite} ({j.flavour}): {o.msg}")
            case = o.case if o.case is not None and o.case >= 0 else cur
            if o.kind in ("timeout",) and fl.name.startswith("miri"):
                with j.lock: j.incomplete += 1
                return
            if j.accept and o.kind not in j.accept and o.kind not in ("killed", "timeout", "oom"):
                with j.lock: j.foreign[o.kind] = j.foreign.get(o.kind, 0) + 1
                restarts += 1
                if restarts > 300: j.incomplete += 1; return
                cur = case + j.chunks
                continue
            v = self.confirm(j, o, case, cur, seed, env)
            if v is None:
                cur = case + j.chunks
                restarts += 1
                if restarts > 20:
                    if getattr(self, "patient", False): j.incomplete += 1; return
                    raise NoAnswer(f"{j.suite} ({j.flavour}): too many failures that do not repeat, last: {o.kind} {o.msg[:300]}")
                continue
            with self.lock: self.found.append(v)
            stop_all()
            return

    def confirm(self, j, o, case, frm, seed, env):
        """Runs the failing case again: alone, then with what ran before it."""
        fl = F[j.flavour]
        again, how = None, None
        soft = o.kind in ("hang", "killed", "timeout", "oom")
        tries = [("alone", case, case + 1, 1)] * (1 if o.viol else 2) + [("after the cases before it", frm, case + 1, j.chunks)]
        for name, f, t, s in tries:
            if time.time() > DEADLINE: break
            c = run(fl, self.args(j, f, t, s, seed) + ["--trace"], 200, self.path("prog"), env)
            if c.kind != "ok" and c.kind != "error" and (not j.accept or c.kind in j.accept or c.kind == o.kind):
                again, how = c, (name, f, t, s); break
        if again is None and soft:
            with self.lock: self.notes.append(f"{j.suite} case {case} ({j.flavour}): {o.kind} once, not repeated")
            return None
        if again is not None and again.kind in ("killed",):  # twice ended for memory, nothing else known
            raise NoAnswer(f"{j.suite} case {case}: process killed twice")
        b = again or o
        if how is None: how = ("not repeated on re-run", frm, case + 1, j.chunks)
        return {"property": self.prop, "flavour": j.flavour, "suite": j.suite, "case": case, "seed": seed, "tier": TIER, "kind": b.kind, "message": b.msg,
                "repeated": how[0], "command": " ".join(fl.run_cmd(self.args(j, how[1], how[2], how[3], seed) + ["--trace"])),
                "environment": {k: fl.environ().get(k) for k in ("RUSTFLAGS", "ASAN_OPTIONS", "TSAN_OPTIONS", "MIRIFLAGS") if fl.environ().get(k)} | env,
                "build": " ".join(fl.cargo(["build"])) if not fl.name.startswith("miri") else "(built by the command)",
                "operations": (b.viol or {}).get("trace"), "stderr": b.err[-4000:]}

    # ---- whole property

    def build(self, names):
        names = list(dict.fromkeys(names))
        errs = {}
        with ThreadPoolExecutor(8) as ex:
            for n, e in zip(names, ex.map(lambda n: F[n].build(), names)):
                if e is not None: errs[n] = e
        return errs

    def run_jobs(self, jobs):
        tasks = [(j, k, SEED + 7919 * s, s * 64 + k) for j in jobs for s in range(j.seeds) for k in range(j.chunks)]
        # one process of each workload first, so that all of them get going
        tasks.sort(key=lambda t: t[1])
        errors = []
        def go(t):
            if STOP.is_set(): return
            try: self.worker(*t)
            except NoAnswer as e:
                errors.append(str(e))
            except Exception as e:
                errors.append(f"{type(e).__name__}: {e}")
        with ThreadPoolExecutor(CORES) as ex: list(ex.map(go, tasks))
        if errors and not self.found: raise NoAnswer("; ".join(errors[:3]))

    def evidence(self, jobs, extra):
        seen, per = {}, []
        for j in jobs:
            s = seen.setdefault(j.suite, set())
            counters, cases, evals, samples = {}, 0, 0, []
            own = set()
            for st in j.stats:
                cases += st["cases"]; evals += st["evals"]
                for k, v in st["counters"].items():
                    counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
                if len(samples) < 2: samples += st["samples"][:1]
                try:
                    b = array.array("Q"); raw = open(st["sigs"], "rb").read(); b.frombytes(raw[: len(raw) // 8 * 8]); own.update(b)
                except OSError: pass
            s.update(own)
            per.append({"workload": j.suite, "flavour": j.flavour, "cases": cases, "evaluations": evals, "distinct_nontrivial": len(own), "observed": counters, "samples": samples,
                        **({"failures_of_other_properties": j.foreign} if j.foreign else {}), **({"processes_stopped_by_the_time_budget": j.incomplete} if j.incomplete else {})})
        cov = {"evaluations": sum(p["evaluations"] for p in per), "distinct_nontrivial": sum(len(s) for s in seen.values()), "rule": RULES[self.prop],
               "samples": [s for p in per for s in p["samples"]][:12] or ["(stopped before a whole process finished)"], "workloads": [{k: v for k, v in p.items() if k != "samples"} for p in per], **extra}
        return cov

def known_findings():
    out = {}
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m: out[(m[1], m[2])] = m[3]
    except OSError: pass
    return out

def replay_file(prop, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, re.sub(r"[^A-Za-z0-9_.-]+", "_", f"{prop}-{v.get('suite', 'x')}-{v.get('case', 0)}-{v.get('flavour', '')}") + ".json")
    with open(p, "w") as f: json.dump(v, f, indent=1, default=str)
    return p

def finish(prop, code, cov, violations, notes, v=None):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": LEVEL.get(prop, "exploration"), "coverage": cov,
          "assumptions": NOTES.get(prop, []) + notes, "wall_s": round(time.time() - T0, 2), "violations": violations}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if v:
        p = replay_file(prop, v)
        print(f"{prop}: {v.get('kind')} in {v.get('suite')} case {v.get('case')} ({v.get('flavour')}): {v.get('message', '')[:600]}")
        for o in (v.get("operations") or [])[-30:]: print("   ", str(o)[:300])
        print(f"VIOLATION property={prop} replay={p}")
    else:
        print(f"{prop}: held; {cov.get('evaluations')} evaluations, {cov.get('distinct_nontrivial')} distinct non-trivial, {ev['wall_s']} s")
    sys.stdout.flush()
    return code

def main():
    prop = sys.argv[1]
    import plan
    c = Checker(prop)
    try:
        if hasattr(plan, "SPECIAL") and prop in plan.SPECIAL:
            import special
            return special.check(sys.modules[__name__], prop, c)
        jobs = [Job(*a, **k) for a, k in PLAN[prop]]
        return decide(c, prop, jobs, {})
    except NoAnswer as e:
        print(f"{prop}: no answer: {e}", file=sys.stderr)
        return 2
    finally:
        stop_all()
        for n in os.listdir(c.tmp):
            try: os.unlink(os.path.join(c.tmp, n))
            except OSError: pass
        try: os.rmdir(c.tmp)
        except OSError: pass

def decide(c, prop, jobs, extra, build_too=()):
    jobs = [j for j in jobs if j.n > 0]
    errs = c.build([j.flavour for j in jobs] + list(build_too))
    if errs:
        n, e = next(iter(errs.items()))
        if n.startswith("tuples"):
            base = c.build(["native"])
            if not base:  # the crate and the harness compile, the tuples do not
                return finish(prop, 1, {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULES[prop], "samples": [e[-800:]]}, 1, [],
                              {"property": prop, "suite": "tuples", "case": 0, "flavour": n, "kind": "compile", "message": "a tuple that should be accepted does not compile: " + e[-1500:], "command": " ".join(F[n].cargo(["build"]))})
        raise NoAnswer(f"build of {n} failed:\n{e}")
    c.run_jobs(jobs)
    extra = dict(extra, build_seconds={n: F[n].build_s for n in {j.flavour for j in jobs}})
    cov = c.evidence(jobs, extra)
    if c.found: return finish(prop, 1, cov, len(c.found), c.notes, c.found[0])
    if cov["evaluations"] == 0: raise NoAnswer("nothing ran to completion")
    return finish(prop, 0, cov, 0, c.notes)

if __name__ == "__main__":
    sys.modules.setdefault("check", sys.modules[__name__])
    sys.exit(main())
