#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough   - build what the property needs from /repo's working tree, run its check
   run.py PROPERTY --replay FILE     - re-run one recorded case
   run.py --build-all                - compile every check (used by setup_cmd)
Exit 0: held on everything explored; 1: VIOLATION; 2: the check could not be run."""
import concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", V + "/build")
NJ = 8
BASE = ["-g1", "-UNDEBUG", "-std=c++14", "-fopenmp", "-msse4.2", "-DEIGEN_DONT_PARALLELIZE", "-w",
        "-I/usr/include/eigen3", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + V + "/lib"]
PETSC = ["-I/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include",
         "-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
PETSCL = ["-L/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/lib", "-lpetsc_real", "-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"]
FL = {"sched": ["-O1", "-fsanitize=thread", "-DVF_SCHED"],
      "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=undefined",
               "-fno-omit-frame-pointer", "-DVF_ASAN"]}
NOTLIB = {"blasted_petsc.cpp", "solverops_sgs_sai.cpp", "util_petsc_io.c"}  # needs private PETSc headers / does not compile / is a program
PUBLIC = "VF_PUBLIC_ONLY"  # defined for a check that cannot be compiled or linked with internal functions
HEAVY = ["sai.cpp", "async_blockilu_factor.cpp", "matvecs.cpp", "solverops_jacobi.cpp", "solverops_sgs.cpp"]

def sha(path):
    try: return hashlib.sha256(open(path, "rb").read()).hexdigest()
    except OSError: return "-"
_h = {}
def shac(p):
    if p not in _h: _h[p] = sha(p)
    return _h[p]

def compile_(src, variant, flags, tag=""):
    """-> (object path, error text or None); reuses an object whose inputs have not changed"""
    name = re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(src, "/")) + tag
    obj = "%s/%s/%s.o" % (B, variant, name)
    meta = obj + ".json"
    cc = "gcc" if src.endswith(".c") else "g++"
    cmd = [cc] + [f for f in flags if not (cc == "gcc" and f.startswith("-std="))] + ["-c", src, "-o", obj, "-MMD", "-MF", obj + ".d"]
    try:
        m = json.load(open(meta))
        if m["cmd"] == cmd and os.path.exists(obj) and all(shac(p) == h for p, h in m["deps"].items()): return obj, None
    except (OSError, ValueError, KeyError): pass
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return obj, r.stderr[-3000:]
    deps = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = [d for d in deps if not d.startswith("/usr/")]
    json.dump({"cmd": cmd, "deps": {d: shac(d) for d in deps}}, open(meta, "w"))
    return obj, None

def header(prop):
    d = {"variants": "sched,asan", "exclude": "", "petsc": "0", "scale_asan": "1", "lib": "1", "budget": "0", "extra": "", "inc": ""}
    for l in open(V + "/props/%s.cpp" % prop):
        m = re.match(r"//\s*VF:\s*(\w+)=(.*)", l)
        if m: d[m.group(1)] = m.group(2).strip()
    return d

def libsrcs(petsc):
    out = []
    for f in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True) + (glob.glob(REPO + "/src/utils/*.c") if petsc else [])):
        b = os.path.basename(f)
        if b in NOTLIB: continue
        if not petsc and re.search(r"#\s*include\s*[<\"]petsc", open(f, errors="replace").read()): continue
        out.append(f)
    out.sort(key=lambda f: HEAVY.index(os.path.basename(f)) if os.path.basename(f) in HEAVY else 99)
    return out

def build(prop, hd, log, pool):
    """-> {variant: binary}"""
    petsc = hd["petsc"] == "1"
    excl = set(x for x in hd["exclude"].split(",") if x)
    variants = hd["variants"].split(",")
    for v in variants: os.makedirs(B + "/" + v, exist_ok=True)
    inc = BASE + ["-I%s/lib/%s" % (V, d) for d in hd["inc"].split(",") if d] + (PETSC if petsc else [])
    srcs = libsrcs(petsc) if hd["lib"] == "1" else []
    srcs += [REPO + "/src/" + f for f in hd["extra"].split(",") if f]
    jobs = {}
    for v in reversed(variants):
        nosan = [f for f in FL[v] if v != "sched" or not f.startswith("-fsanitize")]
        jobs[v] = [pool.submit(compile_, V + "/props/%s.cpp" % prop, v, inc + FL[v])]
        jobs[v] += [pool.submit(compile_, V + "/lib/" + f, v, inc + nosan) for f in ("vf_main.cpp", "rt_%s.cpp" % v, "rt_common.cpp")]
        jobs[v, "lib"] = [(s, pool.submit(compile_, s, v, inc + FL[v])) for s in srcs if os.path.basename(s) not in excl]
    bins = {}
    for v in variants:
        objs = []
        for j in jobs[v]:
            o, e = j.result()
            if e and j is jobs[v][0] and PUBLIC in open(V + "/props/%s.cpp" % prop).read():
                # a function inside the library has another form now: decide by what the library offers to its users
                o, e = compile_(V + "/props/%s.cpp" % prop, v, inc + FL[v] + ["-D" + PUBLIC], "_public")
                if not e: print("%s %s: internal functions have changed; only the public ones are examined" % (prop, v), flush=True)
            if e: raise SystemExit(fatal("cannot compile the check: " + e))
            objs.append(o)
        errs = ""
        for s, j in jobs[v, "lib"]:
            o, e = j.result()
            if e: errs += "%s: %s\n" % (s, e)
            else: objs.append(o)
        out = "%s/%s/%s" % (B, v, prop)
        link = ["g++"] + (["-fsanitize=address,undefined", "-fopenmp"] if v == "asan" else ["-no-pie"] if False else []) + ["-o", out]
        tail = (PETSCL if petsc else []) + ["-lpthread", "-lm", "-ldl"]
        r = subprocess.run(link + objs + tail, capture_output=True, text=True)
        if r.returncode and excl:  # the code may use more of itself now
            more = [pool.submit(compile_, s, v, inc + FL[v]) for s in srcs if os.path.basename(s) in excl]
            for j in more:
                o, e = j.result()
                if e: errs += e
                else: objs.append(o)
            r = subprocess.run(link + objs + tail, capture_output=True, text=True)
        if r.returncode and PUBLIC in open(V + "/props/%s.cpp" % prop).read():
            o, e = compile_(V + "/props/%s.cpp" % prop, v, inc + FL[v] + ["-D" + PUBLIC], "_public")
            if not e: objs[0] = o; r = subprocess.run(link + objs + tail, capture_output=True, text=True)
            if r.returncode == 0: print("%s %s: internal functions have changed; only the public ones are examined" % (prop, v), flush=True)
        if r.returncode: raise SystemExit(fatal("cannot link: " + errs + r.stderr[-3000:]))
        bins[v] = out
    return bins

def fatal(msg):
    print(msg); return 2

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1000000:malloc_fill_byte=190:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=1", OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false", GLIBC_TUNABLES="glibc.malloc.tcache_count=0",
           LC_ALL="C.UTF-8", OMPI_MCA_btl="self", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
ENV.pop("OMP_NUM_THREADS", None)

def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--build-all":
        with cf.ThreadPoolExecutor(NJ) as pool:
            for f in sorted(glob.glob(V + "/props/C*.cpp")):
                p = os.path.basename(f)[:-4]; build(p, header(p), None, pool); print("built", p, flush=True)
        return 0
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":  # the checks build what they need themselves; only try the compiler
        os.makedirs(B + "/sched", exist_ok=True)
        _, e = compile_(V + "/lib/rt_common.cpp", "sched", BASE)
        if e: print(e)
        return 2 if e else 0
    prop, tier = sys.argv[1], sys.argv[2]
    hd = header(prop); t0 = time.time()
    with cf.ThreadPoolExecutor(NJ) as pool: bins = build(prop, hd, None, pool)
    tb = time.time() - t0
    os.makedirs(V + "/replays", exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    if tier == "--replay":
        v = re.search(r"^variant (\w+)", open(sys.argv[3]).read(), re.M).group(1)
        return subprocess.run([bins[v], "--replay", sys.argv[3]], env=ENV).returncode
    seed = os.environ.get("VERIF_SEED", "1")
    extra = sys.argv[3:]
    rc, frags = 0, []
    budget = float(hd["budget"]) or (150 if tier == "quick" else 700)
    for v in hd["variants"].split(","):
        frag = "%s/%s/%s.frag.json" % (B, v, prop)
        if os.path.exists(frag): os.remove(frag)
        left = max(20.0, budget - (time.time() - t0 - tb)) if tier == "thorough" else budget
        cmd = [bins[v], "--id", prop, "--variant", v, "--tier", tier, "--seed", seed, "--out", frag, "--replays", V + "/replays",
               "--budget", str(left * (0.6 if tier == "thorough" and v == "sched" and "," in hd["variants"] else 1))]
        if v == "asan": cmd += ["--scale", hd["scale_asan"], "--workers", "6"]
        r = subprocess.run(cmd + extra, env=ENV)
        if os.path.exists(frag): frags.append(json.load(open(frag)))
        if r.returncode == 1: rc = 1; break
        if r.returncode != 0: print("the check's program ended with", r.returncode); rc = 2; break
    known = []
    for l in open(V + "/known_findings.txt"):
        m = re.match(r"known: property=(\S+) (.*)", l)
        if m and m.group(1) == prop: print("KNOWN-FINDING: property=%s %s" % (prop, m.group(2))); known.append(m.group(2))
    meta = json.load(open(V + "/tools/meta.json")).get(prop, {})
    samples = [s for f in frags for sub in f["subs"] for s in sub["samples"]]
    ev = {"property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
          "coverage": {"evaluations": sum(f["evaluations"] for f in frags), "distinct_nontrivial": sum(f["distinct_nontrivial"] for f in frags),
                       "rule": "A case is one generated input (choices of matrix, options, history and schedule); distinct = different recorded choices. Non-trivial per sub-property: "
                               + "; ".join("%s: %s" % (s["name"], s["rule"]) for s in (frags[0]["subs"] if frags else [])),
                       "samples": samples[:24],
                       "sub_properties": [dict(variant=f["variant"], name=s["name"], evaluations=s["evaluations"], nontrivial=s["nontrivial"], planned=s["planned"]) for f in frags for s in f["subs"]]},
          "wall_s": round(time.time() - t0, 2), "violations": sum(f["violations"] for f in frags),
          "assumptions": meta.get("assumptions", [])}
    ev["coverage"]["unreproduced_failures"] = sum(f["flaky"] for f in frags)
    ev["coverage"]["build_s"] = round(tb, 2)
    if known: ev["coverage"]["known_findings"] = known
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s %s: build %.1f s, total %.1f s, exit %d" % (prop, tier, tb, time.time() - t0, rc))
    return rc

if __name__ == "__main__": sys.exit(main())
