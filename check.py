#!/usr/bin/env python3
"""check.py PROP [--seeds N] [--secs S] : decides one property by seeded simulation of /repo's current tree.
exit 0: held on every run; exit 1 + VIOLATION line: broken; exit 2: the check itself could not decide."""
import os, sys, json, time, re, subprocess, threading, queue, collections, tempfile, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import build
from catalog import CHECKS

T0 = time.time()
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or max(1, min(8, os.cpu_count() or 1))
CASE_TIMEOUT = 60.0     # wall-clock limit of one case; the longest on the unchanged tree takes about a second

def log(*a): print(*a, file=sys.stderr, flush=True)

class Sim:
    def __init__(self, exe): self.exe = exe; self.n = 0
    def run_text(self, text, trace=False, timeout=None):
        """(kind, class, detail/stat string, trace) of one case in a fresh process"""
        env = {"PATH": "/usr/bin:/bin", "SIM_TIMEOUT": str(timeout or CASE_TIMEOUT)}
        if trace: env["SIM_TRACE"] = "1"
        self.n += 1
        fd, p = tempfile.mkstemp(prefix="simcase."); os.write(fd, text.encode()); os.close(fd)
        try: o = subprocess.run([self.exe, "run", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode(errors="replace")
        finally: os.unlink(p)
        l = o.split("\n"); f = l[0].split("\t")
        tr = ""
        for x in l[1:]:
            if x.startswith("TRACE\t"): tr = x[6:]
        if f[0] == "OK": return "OK", "", l[0], tr
        if f[0] == "VIOL": return "VIOL", f[1], "\t".join(f[2:]), tr
        return "ERR", "", l[0], tr
    def gen(self, prop, seed):
        return subprocess.run([self.exe, "gen", prop, str(seed)], stdout=subprocess.PIPE, check=True).stdout.decode()

def parse(text): return collections.OrderedDict(l.split("=", 1) for l in text.splitlines() if l and l[0] != "#")
def unparse(c): return "".join("%s=%s\n" % kv for kv in c.items())

def explore(sim, prop, lo, n, secs):
    """runs the seeds lo..lo+n-1; returns (rows, first violation row or None, errors)"""
    q = queue.Queue(); procs = []
    env = {"PATH": "/usr/bin:/bin", "SIM_TIMEOUT": str(CASE_TIMEOUT)}
    def reader(p):
        for l in p.stdout: q.put(l.decode(errors="replace").rstrip("\n"))
        p.wait(); q.put(None)
    for w in range(JOBS):
        p = subprocess.Popen([sim.exe, "batch", prop, str(lo + w), str(lo + n), str(JOBS), str(secs)], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
        procs.append(p); threading.Thread(target=reader, args=(p,), daemon=True).start()
    rows, viol, errs, live = [], [], [], JOBS
    while live:
        l = q.get()
        if l is None: live -= 1; continue
        f = l.split("\t")
        if len(f) < 4: continue
        if f[2] == "OK": rows.append((int(f[0]), f[3]))
        elif f[2] == "VIOL":
            viol.append((int(f[0]), f[3], f[4] if len(f) > 4 else ""))
            if len(viol) == 1:
                for p in procs:
                    try: os.killpg(p.pid, 9)
                    except OSError: pass
        else: errs.append(l)
    for p in procs:
        try: os.killpg(p.pid, 9)
        except OSError: pass
    return rows, viol, errs

# ---------------------------------------------------------------- minimisation
KEEP = {"prop", "id", "replay", "trace"}
ORDER = ["jumps", "iofaults", "disk", "oomat", "oomfrac", "oomcount", "oommin", "thrsite", "thrat", "thrkind", "cancelat", "nanp", "nankind", "nandim",
         "burst0", "burst1", "burstkind", "fill", "fillseed", "prior", "slowobj", "cseed", "eseed", "fplot", "stopoff", "maxhist", "elitism", "uh", "grad",
         "edm", "tpa", "ifv", "lazy", "fixmask", "fixtwice", "fixval", "apiset", "trans", "gpc", "gp", "algo", "maximize", "noisy", "useft", "ftarget", "ftol",
         "xtol", "maxfe", "restarts", "x0mode", "x0scale", "bwidth", "sigma", "obj", "lambda", "dim", "autoseed", "quiet"]

def minimise(sim, case, cls, secs):
    end = time.time() + secs
    ex = cf.ThreadPoolExecutor(JOBS)
    def fails(c):
        if time.time() > end: return False
        k, cl, _, _ = sim.run_text(unparse(c), timeout=20)
        return k == "VIOL" and cl == cls
    def first(cands):                       # first candidate (in order) that still fails the same way
        for i in range(0, len(cands), JOBS):
            if time.time() > end: return None
            ch = cands[i:i + JOBS]
            for c, ok in zip(ch, ex.map(fails, ch)):
                if ok: return c
        return None
    cur = collections.OrderedDict(case)
    changed = True
    while changed and time.time() < end:
        changed = False
        keys = [k for k in ORDER if k in cur] + [k for k in cur if k not in ORDER and k not in KEEP]
        cands = []
        for k in keys: c = collections.OrderedDict(cur); del c[k]; cands.append(c)
        r = first(cands)
        if r is not None: cur = r; changed = True; continue
        cands = []
        for k in ("maxiter", "lambda", "dim", "threads", "restarts", "maxfe", "thrat", "oomat", "cancelat", "ckpt", "nopt"):
            if k in cur:
                v = int(float(cur[k]))
                for w in sorted({v // 2, v - 1}):
                    if 1 <= w < v and not (k == "dim" and w < 2): c = collections.OrderedDict(cur); c[k] = str(w); cands.append(c)
        r = first(cands)
        if r is not None: cur = r; changed = True
    # the schedule: record the switches of the failing run, replay them, and drop all that are not needed
    k, cl, _, tr = sim.run_text(unparse(cur), trace=True)
    nsw = None
    if k == "VIOL" and cl == cls and tr and not cur.get("replay"):
        c = collections.OrderedDict(cur); c["replay"] = "1"; c["trace"] = tr
        if fails(c):
            sw = tr.split(","); g = 2
            def with_(s): d = collections.OrderedDict(c); d["trace"] = ",".join(s); return d
            if fails(with_([])): sw = []
            while len(sw) >= 2 and time.time() < end:
                n = max(1, len(sw) // g); parts = [sw[i:i + n] for i in range(0, len(sw), n)]
                comp = [sum(parts[:i] + parts[i + 1:], []) for i in range(len(parts))]
                r = first([with_(s) for s in comp])
                if r is not None: sw = r["trace"].split(",") if r["trace"] else []; g = max(g - 1, 2)
                elif n == 1: break
                else: g = min(len(sw), g * 2)
            if len(sw) == 1 and fails(with_([])): sw = []
            cur = with_(sw); nsw = len(sw)
            for kk in ("pol", "sseed", "gap"):
                if kk in cur:
                    d = collections.OrderedDict(cur); del d[kk]
                    if fails(d): cur = d
    ex.shutdown(wait=False)
    return cur, nsw

# ---------------------------------------------------------------- known findings
def known(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) class=(\S+) needs=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop: out.append((m.group(2), dict(x.split("=", 1) for x in m.group(3).split(",")), m.group(4)))
    return out
def matches(kf, cls, case): return kf[0] == cls and all(case.get(k) == v for k, v in kf[1].items())

def main():
    prop = sys.argv[1]; args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = CHECKS[prop]
    n = ck["n"] if tier == "quick" else ck["n"] * 40
    secs = 330 if tier == "quick" else 3600
    if "--seeds" in args: n = int(args[args.index("--seeds") + 1])
    if "--secs" in args: secs = float(args[args.index("--secs") + 1])
    try: exe = build.build(ck.get("surr", False))
    except build.BuildError as e: print("CHECK-ERROR property=%s /repo does not build: %s" % (prop, e)); return 2
    tb = time.time() - T0
    # this run's own copy: the cache may be pruned by another check
    sim = Sim(exe)
    lo = (vseed % 100000) * 100000000
    t1 = time.time()
    rows, viol, errs = explore(sim, prop, lo, n, secs)
    te = time.time() - t1
    for kf in known(prop): print("KNOWN-FINDING: property=%s %s" % (prop, kf[2]))
    st = collections.Counter(); pairs = set(); scheds = set(); states = set(); nt = 0; nontrivpairs = set()
    for s, d in rows:
        kv = dict(x.split("=", 1) for x in d.split())
        for k, v in kv.items():
            if k not in ("shash", "sthash"): st[k] += int(v)
        states.add(kv["sthash"])
        if kv["shash"] != "0": scheds.add(kv["shash"])
        if kv["nontriv"] == "1": nontrivpairs.add((kv["shash"], kv["sthash"]))
    # determinism: some of the same seeds again in fresh processes
    again = [rows[i] for i in range(0, len(rows), max(1, len(rows) // 24))][:24]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda r: sim.run_text(sim.gen(prop, r[0])), again))
    div = [r[0] for r, q in zip(again, res) if q[0] != "OK" or q[2][3:] != r[1]]
    faults = {k[2:]: st[k] for k in st if k.startswith("f_")}
    rep = None; verdict = 0; vnote = ""
    unlisted = []
    for s, cls, det in viol:
        case = parse(sim.gen(prop, s))
        if any(matches(k, cls, case) for k in known(prop)): continue
        unlisted.append((s, cls, det, case))
    if unlisted:
        gate_fail = []
        for s, cls, det, case in unlisted[:4]:
            to = 2 * CASE_TIMEOUT if cls == "timeout" else None
            a = sim.run_text(unparse(case), timeout=to); b = sim.run_text(unparse(case), timeout=to) if cls != "timeout" else a
            if a[0] == "VIOL" and a[1] == cls and a[:3] == b[:3]:
                log("violation class %s at seed %d: %s; minimising" % (cls, s, a[2]))
                m, nsw = minimise(sim, case, cls, 0 if cls == "timeout" else (90 if tier == "quick" else 600))
                fin = sim.run_text(unparse(m)); 
                if not (fin[0] == "VIOL" and fin[1] == cls): m, nsw, fin = case, None, a
                os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                rep = os.path.join(HERE, "replays", "%s-%d.case" % (prop, s))
                with open(rep, "w") as f:
                    f.write("# property %s, seed %d, class %s\n# %s\n# switches kept: %s\n# replay: python3 /verif/replay.py %s\n%s" % (prop, s, cls, fin[2], nsw, rep, unparse(m)))
                verdict = 1; vnote = "%s: %s" % (cls, fin[2]); break
            gate_fail.append((s, cls, a[:3]))
        if verdict == 0:
            verdict = 2; vnote = "a violation did not reproduce: %s" % gate_fail
    if verdict == 0 and errs: verdict = 2; vnote = "simulator error: %s" % errs[:3]
    if verdict == 0 and len(rows) < max(200, n // 50): verdict = 2; vnote = "only %d of %d runs finished" % (len(rows), n)
    if verdict == 0 and ck.get("min_nontriv", 0.3) * len(rows) > st["nontriv"]: verdict = 2; vnote = "only %d of %d runs reached the situation the property is about" % (st["nontriv"], len(rows))
    samples = []
    for r in rows[:2] + rows[len(rows) // 2:len(rows) // 2 + 1]:
        samples.append({"seed": r[0], "case": sim.gen(prop, r[0]).replace("\n", " ").strip(), "outcome": r[1]})
    wall = time.time() - T0
    ev = {"property": prop, "tier": tier, "seed": vseed, "level": "exploration", "wall_s": round(wall, 2), "violations": 1 if verdict == 1 else 0,
          "coverage": {
              "evaluations": len(rows) + len(viol), "distinct_nontrivial": len(nontrivpairs),
              "rule": "one case = one seed: a generated configuration, workload, schedule policy and fault plan, run to its end under the simulator. Non-trivial: " + ck["nontriv"] + " Distinct: counted by the pair (hash of the executed context-switch sequence, hash of every library state snapshot of the case).",
              "samples": samples or [{"seed": v[0], "violation": v[1], "detail": v[2]} for v in viol[:1]],
              "seed_range": [lo, lo + n], "cases_per_hour": int(3600 * (len(rows) + len(viol)) / max(te, 1e-3)),
              "optimizations_simulated": st["runs"], "optimizations_per_hour": int(3600 * st["runs"] / max(te, 1e-3)),
              "simulated_seconds": round(st["simns"] / 1e9, 3), "objective_calls": st["calls"], "generations": st["gens"],
              "instrumented_memory_accesses": st["accesses"], "scheduling_points": st["steps"], "context_switches": st["switches"], "parallel_regions": st["regions"],
              "conflicting_shared_accesses": st["conflicts"],
              "distinct_interleavings": len(scheds), "distinct_interleavings_measure": "hash of the (step, thread) sequence of all context switches of the case",
              "distinct_state_histories": len(states),
              "faults_fired": faults, "fault_kinds_of_this_property": ck["faults"],
              "determinism": {"reran": len(again), "diverged": len(div)},
              "components_real": ["all of /repo/src and /repo/include that the property reaches (compiled from the working tree)", "Eigen", "libstdc++ streams and random engines"],
              "components_simulated": ["OpenMP runtime and threads (fibers, seeded scheduler, switch points at instrumented memory accesses)", "system and steady clocks", "entropy sources", "heap (failing and poisoned allocations)", "files under /simfs", "user callbacks (objective, gradient, transformations, progress, plot) and the remote evaluation farm"],
              "explore_s": round(te, 2), "build_s": round(tb, 2)},
          "assumptions": ck["assumptions"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if verdict == 1:
        print("VIOLATION property=%s replay=%s" % (prop, rep)); print("  " + vnote); return 1
    if verdict == 2: print("CHECK-ERROR property=%s %s" % (prop, vnote)); return 2
    print("OK property=%s %d cases, %d optimizations, %d distinct non-trivial, %d context switches, faults fired %d, %.0f s" % (prop, len(rows), st["runs"], len(nontrivpairs), st["switches"], sum(faults.values()), wall))
    if div: log("note: %d of %d re-run seeds differ" % (len(div), len(again)))
    return 0

if __name__ == "__main__": sys.exit(main())
