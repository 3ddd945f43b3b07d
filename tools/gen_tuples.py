#!/usr/bin/env python3
"""Writes a crate of tuple-notation cases: gen_tuples.py DIR SEED TIER KIND   (KIND: build | visits)

Every case is a literal tuple, so the shapes have to be programs: all tree and forest shapes up to a
size, every arity 0..=32 with leaves and with one nested child at either end, and random nestings.
"""
import os, random, sys

def forests(n, memo={}):
    """all ordered forests of n nodes, as tuples of trees"""
    if n not in memo:
        memo[n] = [()] if n == 0 else [((kids,) + rest) for k in range(n) for kids in forests(k) for rest in forests(n - 1 - k)]
    return memo[n]

def trees(n): return forests(n - 1)                 # a tree is the tuple of its children

def size(t): return 1 + sum(map(size, t))
def brackets(t): return "(" + "".join(map(brackets, t)) + ")"

def rand_tree(r, n, depth):
    """a random tree of at most n nodes"""
    kids, left = [], n - 1
    if depth > 0:
        want = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
        while left > 0 and len(kids) < min(want, 32):
            k = rand_tree(r, r.randint(1, left), depth - 1)
            kids.append(k); left -= size(k)
    return tuple(kids)

def expr(t, r, unit, top=False):
    """the tuple spelling of a tree; a leaf is bare or a 1-tuple"""
    if not t: return "(n(),)" if (r.random() < unit) else "n()"
    return "(n()," + ",".join(expr(k, r, unit) for k in t) + ("," if r.random() < .5 else "") + ")"

def fexpr(t, r, unit):
    if not t: return "()"
    return "(" + ",".join(expr(k, r, unit) for k in t) + ",)"

def main():
    d, seed, tier, kind = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
    r = random.Random(seed * 1000003 + 17)
    thorough = tier == "thorough"
    tn, fn, rnd = (7, 6, 400) if thorough else (6, 5, 70)
    if kind == "visits" and not thorough: rnd = 50
    T, F = [], []
    for n in range(1, tn + 1): T += [(t, 0) for t in trees(n)]
    for n in range(0, fn + 1): F += [(t, 0) for t in forests(n)]
    for n in range(1, min(tn, 5) + 1): T += [(t, .5) for t in trees(n)]
    for n in range(1, min(fn, 4) + 1): F += [(t, .5) for t in forests(n)]
    T += [((), 1)]
    for a in range(0, 33):
        leaf = ((),) * a
        T.append((leaf, .2)); F.append((leaf, .2))
        if a:
            for where in ({0, a - 1} if a > 1 else {0}):
                x = list(leaf); x[where] = ((), ((),)); x = tuple(x)
                T.append((x, .2)); F.append((x, .2))
    for _ in range(rnd):
        n = r.choice([6, 8, 10, 12, 16, 24, 40])
        T.append((rand_tree(r, n, r.randint(2, 8)), r.choice([0, .3])))
        F.append((rand_tree(r, n + 1, r.randint(2, 8)), r.choice([0, .3])))
    # what a level's offset must not depend on: branches whose subtrees differ in depth at every position
    deep = lambda k: ((deep(k - 1)),) if k else ()
    for a in range(0, 4):
        for b in range(0, 4):
            for c in range(0, 4):
                T.append(((deep(a), deep(b), deep(c)), 0)); F.append(((deep(a), deep(b), deep(c)), 0))
    out, seen = [], set()
    names = {"build": ("tree", "forest"), "visits": ("tree_visits", "forest_visits")}[kind]
    for which, L, ex in ((names[0], T, expr), (names[1], F, fexpr)):
        fns = []
        for t, unit in L:
            e = ex(t, r, unit) if (t or unit < 1 or ex is fexpr) else "(n(),)"
            if (which, e) in seen: continue
            seen.add((which, e))
            text = e.replace("n()", "_")
            fns.append(f'    |c| {which}(c, "{brackets(t)}", "{text}", |n| {e}),')
        out.append((which, fns))
    os.makedirs(d + "/src", exist_ok=True)
    src = ["// generated", "mod wide;", "use vh::{ctx::Ctx, suites::Suite, tuples::*};", "type F = fn(&mut Ctx);"]
    for which, fns in out:
        src.append(f"static {which.upper()}: &[F] = &[\n" + "\n".join(fns) + "\n];")
    src.append("static ALL: &[Suite] = &[")
    for which, fns in out:
        src.append(f'    Suite {{ name: "{which}", run: |c| {{ let k = c.case as usize % {which.upper()}.len(); {which.upper()}[k](c) }}, leaks: true, logged: false }},')
        if kind == "build":
            src.append(f'    Suite {{ name: "{which}_place", run: |c| {{ c.place = true; let k = c.case as usize % {which.upper()}.len(); {which.upper()}[k](c) }}, leaks: true, logged: false }},')
    src.append(f'    Suite {{ name: "huge_tuple{"s" if kind == "build" else "_visits"}", run: wide::{kind}, leaks: true, logged: false }},')
    src.append("];\nfn main() { vh::run(&[ALL]) }")
    def put(p, s):
        if not os.path.exists(p) or open(p).read() != s:
            t = f"{p}.{os.getpid()}"
            open(t, "w").write(s)
            os.replace(t, p)
    put(d + "/src/main.rs", "\n".join(src) + "\n")
    w = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "wide.rs")).read()
    put(d + "/src/wide.rs", "".join(l for l in w.splitlines(True) if not l.rstrip().endswith("// only " + ("visits" if kind == "build" else "build"))))
    put(d + "/Cargo.toml", '[package]\nname = "vt"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[features]\n'
        'no_std = ["vh/no_std"]\nchecked_alloc = ["vh/checked_alloc"]\n\n[dependencies]\nvh = { path = "HARNESS" }\n\n'
        '[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\ncodegen-units = 16\n[profile.dev.package.vh]\nopt-level = 1\n[profile.dev.package.trees]\nopt-level = 1\n'
        .replace("HARNESS", os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))))
    for which, fns in out: print(which, len(fns))

main()
