#!/usr/bin/env python3
"""writes MANIFEST.json from catalog.py and the table below"""
import json, os, sys
sys.dont_write_bytecode = True
from catalog import CHECKS
NA = {
 "C20": "a pure function of its input (a point and the bounds or scaling): no schedule, clock, I/O, memory fault or history enters it, so there is nothing for a simulator to decide; input generation alone would be another technique",
 "C22": "numerical accuracy of a deterministic serial computation on a found optimum; the simulator owns nothing that could change it (what faults can change about it is C23)",
}
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences, real library code on a simulated runtime"
NOTES = {
 "C01": "two real runs per seed, one serial, one with the OpenMP team as fibers under a seeded scheduler that may switch at every instrumented memory access; compared bit for bit",
 "C02": "the harness counts its own calls; compared with the reported counts at every progress step of every sampled run",
 "C03": "independent call count against the budget, over restarts, with faulty values",
 "C04": "every call's coordinates tested against the bounds",
 "C05": "every call's coordinates tested against the fixed values",
 "C06": "every reported candidate looked up in the recorded call history",
 "C07": "faulty values injected by position, time and burst; state inspected after every generation",
 "C08": "two runs of the same seed in two differently faulted environments (clock, entropy, heap and stack contents, prior runs), compared bit for bit",
 "C09": "each optimization run alone, then together under seeded interleaving (threads, steps, nesting); compared bit for bit",
 "C10": "built-in loop against an ask/tell farm with loss, duplication, reordering and worker crashes; compared bit for bit",
 "C11": "user code throws at a sampled call of a sampled site, serial and parallel; outcome and later runs compared",
 "C12": "the k-th allocation fails (sampled k, several sizes and run lengths); outcome and later runs compared",
 "C13": "deterministic step caps turn non-termination into a finite check; cancellation at a sampled callback",
 "C14": "each status's condition recomputed from the recorded history",
 "C15": "file output goes to an in-memory disk with short, interrupted and failing writes; contents compared with a fault-free reference",
 "C16": "generation bests tested against the recorded history",
 "C17": "only the copied solution object survives; two resumed runs compared with each other and with the settings",
 "C18": "surrogate runs, serial and parallel under the seeded scheduler; every value reported or trained on looked up in the call history",
 "C23": "profile or contour computed on the result of a real run; every reported point looked up in the call history; repeated with an exception, a failed allocation or a changed environment",
 "C21": "two real runs per seed, one on the objective, one on an exactly transformed objective under another schedule or farm; compared bit for bit",
 "C24": "after every generation of every sampled run, an independent reference model computes the next state from the recorded one; refinement checked step by step",
 "C25": "every population of every sampled run measured in the distribution reported before it; independent Cholesky factor; chi-square, correlation and kurtosis limits far out in the tails",
 "C26": "liveness after faults: bounded number of generations to the known optimum, three seeds",
 "C27": "the schedule recomputed from the recorded starts and lengths of all earlier runs, under cancellation, exhausted budgets and faulty values",
 "C19": "both clocks are simulated; the wall clock is stepped, the steady clock is the truth",
}
m = {"version": 1, "setup_cmd": "python3 build.py && python3 build.py --surr", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: every seam is below the library (OpenMP runtime, clocks, entropy, allocator, file calls, instrumented memory accesses) or is the library's own callback interface. Replay: python3 replay.py FILE."}
for p in sorted(CHECKS):
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p, "evidence_file": "evidence/%s.json" % p,
                        "technique": TECH, "level": "exploration", "level_note": NOTES[p] + ". Sampled, not exhaustive; sequentially consistent memory; harness callbacks and oracles are trusted."})
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"))]
for i in ids:
    if i not in CHECKS and i not in NA: m["not_applicable"].append({"property": i, "reason": "not claimed yet: its harness is being built"})
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
