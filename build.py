#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree (content-addressed cache under /verif/build)."""
import os, sys, glob, hashlib, subprocess, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(HERE, "build")
INST = ["-std=c++11", "-DNDEBUG", "-g0", "-O1", "-fsanitize=thread", "-fopenmp", "-w"]
INC = ["-I" + HERE + "/sim/inc", "-I" + REPO + "/include", "-I/usr/include/eigen3"]

class BuildError(Exception): pass

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b"\0")
    return m.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f: return f.read()

def plan(surr):
    repo_hdr = sorted(p for p in glob.glob(REPO + "/include/**/*", recursive=True) if os.path.isfile(p))
    repo_hdr += sorted(p for p in glob.glob(REPO + "/src/**/*", recursive=True) if os.path.isfile(p) and not p.endswith(".cc"))
    rh = h(*[x for p in repo_hdr for x in (os.path.relpath(p, REPO), rd(p))])
    sim_hdr = sorted(glob.glob(HERE + "/sim/*.h") + glob.glob(HERE + "/sim/inc/**/*.h", recursive=True))
    sh = h(*[x for p in sim_hdr for x in (os.path.relpath(p, HERE), rd(p))])
    units = []   # (label, src, flags)
    for k in range(4): units.append(("run%d" % k, HERE + "/sim/run_gp.cc", INST + ["-DGPK=%d" % k] + INC))
    if surr:
        for k in range(2): units.append(("surr%d" % k, HERE + "/sim/run_gp.cc", INST + ["-DSURR", "-DGPK=%d" % k] + INC))
    for n in ["common", "props", "main"] + ([] if surr else ["surr_stub"]):
        units.append((n, HERE + "/sim/%s.cc" % n, INST + INC))
    units.append(("model", HERE + "/sim/model.cc", ["-std=c++11", "-O2", "-g0", "-w", "-ffp-contract=off"]))
    units.append(("rt", HERE + "/sim/rt.cc", ["-std=c++17", "-O2", "-g", "-w", "-fno-gnu-unique"]))
    for s in sorted(glob.glob(REPO + "/src/*.cc")):
        b = os.path.basename(s)
        if b == "surrogatestrategy.cc" and not surr: continue
        units.append(("lib_" + b[:-3], s, INST + INC))
    return rh, sh, units

def build(surr=False, quiet=True):
    os.makedirs(OUT, exist_ok=True)
    rh, sh, units = plan(surr)
    objs, jobs = [], []
    for lab, src, fl in units:
        deps = [sh] if lab in ("rt", "model") else ([rh] if lab.startswith("lib_") else [rh, sh])
        # flags are hashed without the repository path
        key = h("v2", [f for f in fl if not f.startswith("-I")], rd(src), *deps)
        o = os.path.join(OUT, "%s.%s.o" % (lab, key)); objs.append(o)
        if not os.path.exists(o): jobs.append((lab, src, fl, o))
    prio = {"surr0": 0, "surr1": 0, "lib_surrogatestrategy": 0, "lib_cmastrategy": 1, "lib_esostrategy": 1, "lib_errstats": 1}
    jobs.sort(key=lambda j: (prio.get(j[0], 2 if j[0].startswith("run") else 3)))
    def one(j):
        lab, src, fl, o = j
        t = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + fl + ["-c", src, "-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: return "compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-3000:])
        if lab == "rt":
            # the runtime's own template instances must not be merged with instrumented ones
            subprocess.run(["ld", "-r", "--force-group-allocation", t, "-o", t + "2"], check=True)
            syms = [l.split()[-1] for l in subprocess.run(["nm", "--defined-only", t + "2"], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines() if l.split()[-2] in "WVuvw"]
            with open(t + ".l", "w") as f: f.write("\n".join(syms) + "\n")
            subprocess.run(["objcopy", "--localize-symbols=" + t + ".l", t + "2", t], check=True)
            os.remove(t + "2"); os.remove(t + ".l")
        os.replace(t, o); return None
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs: raise BuildError("\n".join(errs))
    exe = os.path.join(OUT, "sim%s.%s" % ("_surr" if surr else "", h(*objs)))
    if not os.path.exists(exe):
        t = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", "-o", t] + objs + ["-ldl", "-lpthread", "-rdynamic", "-Wl,-z,muldefs"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError("linking failed:\n" + r.stdout.decode(errors="replace")[-3000:])
        os.replace(t, exe)
        keep = set(objs) | {exe}
    # drop stale products (keep the cache small)
    import time
    for p in glob.glob(OUT + "/*"):
        if os.path.isfile(p) and p not in objs and p != exe and time.time() - os.path.getmtime(p) > 4 * 3600:
            try: os.remove(p)
            except OSError: pass
    return exe

if __name__ == "__main__":
    try: print(build("--surr" in sys.argv))
    except BuildError as e: print(e); sys.exit(2)
