#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plan
TECH = {
 "C04": "runtime monitoring: AddressSanitizer, Miri (undefined-behaviour interpreter), checking allocator and canaried items over the workloads of all properties",
 "C05": "runtime monitoring: differential twin executions over storage kinds",
 "C18": "runtime monitoring: online comparison of an item registry and weak-handle probes with a lifetime model",
 "C20": "runtime monitoring: ThreadSanitizer, Miri data-race detection, sequential-equivalence and conservation monitors over multi-threaded stress",
 "C21": "runtime monitoring: systematic fault injection (panic at every callback) with registry and consistency monitors",
 "C22": "runtime monitoring: differential execution of logged histories in both builds, plus all oracles on the no_std build",
 "C23": "runtime monitoring: execution of very deep/wide trees on a fixed small stack",
 "C24": "runtime monitoring: addresses of nodes and items compared after every operation of generated histories",
 "C25": "runtime monitoring: node addresses and the allocator's live blocks compared with the reachable nodes after every operation of generated histories",
 "C11": "runtime monitoring: generated tuple programs judged node by node against their literal shape",
 "C12": "runtime monitoring: trace checking of visitor events over generated tuple programs",
}
NOTE = {
 "C04": "Exploration of real executions; a memory error is judged by ASan, Miri or the checking allocator, on the inputs run. Aliasing rules (Stacked/Tree Borrows) are not checked. Three API holes are listed as known findings.",
 "C20": "Races are judged on the interleavings run (TSan happens-before, Miri with random schedules); Send/Sync bounds are tabulated at compile time. Assumes the harness's threads synchronise only by spawn/join.",
 "C21": "Every injection point of every operation on small shapes, sampled beyond that. Leaks caused by a panic are not judged.",
 "C23": "One size class (24-44 thousand nodes) on 64 KiB of stack per operation, shape and storage; stack use proportional to depth shows as an overflow.",
}
DEF = "Judged by an oracle on every execution run: random histories over all operations plus exhaustive enumeration at small scope; nothing is claimed beyond the executions counted in the evidence. Trusts the model, the harness and the compiler."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
claimed = [p["id"] for p in props if p["id"] in plan.PLAN or p["id"] in plan.SPECIAL]
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": i, "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}", "evidence_file": f"evidence/{i}.json",
                 "technique": TECH.get(i, "runtime monitoring: online comparison of generated histories with a reference model (monitored items, checking allocator)"),
                 "level": plan.LEVEL.get(i, "exploration"), "level_note": NOTE.get(i, DEF)} for i in claimed],
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in claimed],
     "notes": "No hooks in /repo: everything is observed through the public API, the payload type, the global allocator and the sanitizers. Commits in /repo are fixes only. Each check builds its own flavours into /verif/.build from /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
