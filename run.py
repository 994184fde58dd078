#!/usr/bin/env python3
"""Decides one property: compiles the code under test from /repo to LLVM IR,
links it with its harness, executes that symbolically with engine/symx (Z3
decides every branch and assertion) and replays whatever it reports natively.

  run.py <property> [--tier quick|thorough] [--only JOB] [-v]
  run.py --setup
  run.py --replay <case file>
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
SYMX = os.path.join(BUILD, "symx")
LIFT = os.path.join(BUILD, "lift")
CACHE = os.path.join(BUILD, "cache")
NCPU = os.cpu_count() or 4
CLANG = "clang++-18"
BASE = ["-std=c++17", "-g1", "-DNDEBUG", "-DTCMALLOC_INTERNAL_METHODS_ONLY", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
        "-D__restrict__=", "-D__restrict=", "-fno-exceptions", "-fno-rtti", "-fno-pic", "-fno-pie", "-fno-vectorize",
        "-fno-slp-vectorize", "-fno-unwind-tables", "-fno-asynchronous-unwind-tables", "-fno-stack-protector",
        "-Wno-everything", "-I" + os.path.join(HERE, "shim"), "-I" + REPO, "-I" + os.path.join(HERE, "harness")]

class Failure(Exception):
    pass

def sh(cmd, timeout=None, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    return p.returncode, p.stdout.decode(errors="replace")

def must(cmd, what, timeout=600):
    rc, out = sh(cmd, timeout=timeout)
    if rc:
        raise Failure("%s failed (%d):\n%s" % (what, rc, out[-4000:]))
    return out

def build_engine():
    key = hashlib.sha256()
    d = os.path.join(HERE, "engine")
    for f in sorted(os.listdir(d)):
        if f.endswith((".cc", ".h", ".inc", "Makefile")):
            key.update(f.encode() + open(os.path.join(d, f), "rb").read())
    stamp = os.path.join(BUILD, "symx.key")
    if os.path.exists(SYMX) and os.path.exists(stamp) and open(stamp).read() == key.hexdigest():
        return
    os.makedirs(BUILD, exist_ok=True)
    must(["make", "-B", "-C", d, "OUT=" + BUILD], "building the engine")
    open(stamp, "w").write(key.hexdigest())

def gen_headers():
    pass

_filehash = {}
_fl = threading.Lock()
_rtl = threading.Lock()
def filehash(p):
    with _fl:
        if p in _filehash:
            return _filehash[p]
    try:
        h = hashlib.sha256(open(p, "rb").read()).hexdigest()
    except OSError:
        h = "-"
    with _fl:
        _filehash[p] = h
    return h

def compile_bc(src, flags):
    """Compiles one source to bitcode. Reuses an object only when the source
    and every header it read have the same content as when it was made."""
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    cmd = [CLANG] + BASE + flags + ["-emit-llvm", "-c", path]
    k = hashlib.sha256(("\0".join(cmd) + filehash(path)).encode()).hexdigest()[:32]
    os.makedirs(CACHE, exist_ok=True)
    man = os.path.join(CACHE, k + ".json")
    if os.path.exists(man):
        try:
            for e in json.load(open(man)):
                if all(filehash(d) == h for d, h in e["deps"]) and os.path.exists(e["obj"]):
                    return e["obj"]
        except (ValueError, KeyError):
            pass
    tmp = os.path.join(CACHE, "%s.%d.%d" % (k, os.getpid(), threading.get_ident()))
    rc, out = sh(cmd + ["-o", tmp + ".bc", "-MD", "-MF", tmp + ".d"], timeout=600)
    if rc:
        raise Failure("compiling %s failed:\n%s" % (src, out[-3000:]))
    deps = open(tmp + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = [os.path.normpath(os.path.join(os.getcwd(), d)) for d in deps]
    deps = [(d, filehash(d)) for d in deps if not d.startswith("/usr/")]
    obj = os.path.join(CACHE, k + "-" + hashlib.sha256(json.dumps(deps).encode()).hexdigest()[:16] + ".bc")
    os.replace(tmp + ".bc", obj)
    os.unlink(tmp + ".d")
    with _fl:
        ents = []
        if os.path.exists(man):
            try: ents = json.load(open(man))
            except ValueError: pass
        ents = [e for e in ents if e["obj"] != obj][-6:] + [{"deps": deps, "obj": obj}]
        json.dump(ents, open(man + ".t", "w"))
        os.replace(man + ".t", man)
    return obj

ALL_EXCLUDE = re.compile(r"_test|_fuzz|benchmark|mock|background|want_|profile_marsh|profile_builder|enable_heap|alloc_at_least|segv_handler|malloc_tracing_ext|deallocation_prof|_main")
def repo_sources():
    r = []
    for d in ("tcmalloc", "tcmalloc/internal"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith(".cc") and not ALL_EXCLUDE.search(f):
                r.append(d + "/" + f)
    return r

PAGE8K = ["-DTCMALLOC_INTERNAL_8K_PAGES"]

class Job:
    def __init__(self, name, harness, srcs=(), defs=(), params=((),), reach=(), args=(), quick=True, qtime=200, ttime=1500,
                 opt="-O1", stubs=("stubs.cc", "libc.cc"), bounds="", page=None, tparams=None, functions=(), samples=3, kind="seq",
                 targs=None, rseq=False):
        self.__dict__.update(locals())

def job_inputs(job, everything=False):
    flags = [job.opt] + list(PAGE8K if job.page is None else job.page) + list(job.defs)
    res = [(os.path.join(HERE, "harness", job.harness), flags)]
    srcs = repo_sources() if job.srcs == "all" or everything else list(job.srcs)
    res += [(s, flags) for s in srcs]
    st = list(job.stubs)
    if job.srcs == "all" or everything:
        st += ["nodealloc.cc"] + ([] if job.rseq else ["slab_asm.cc"])
    for s in st:
        res.append((os.path.join(HERE, "harness", s), flags + (["-fno-builtin", "-ffreestanding"] if s == "libc.cc" else ["-fno-builtin"])))
    return res

UNDEF_OK = re.compile(r"^(verif_|llvm\.|__)")
def link_job(job, work, everything=False):
    """Links a job from the sources it names; when these leave a symbol of
    tcmalloc undefined (code may have moved), from all of them."""
    ins = job_inputs(job, everything)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda a: compile_bc(*a), ins))
    os.makedirs(work, exist_ok=True)
    out = os.path.join(work, job.name + ".bc")
    raw = out + ".raw"
    must(["llvm-link-18"] + objs + ["-o", raw], "linking " + job.name)
    if job.rseq:
        # the restartable sequences, instruction by instruction (engine/lift.cc)
        must([CLANG, "-E", "-x", "assembler-with-cpp", "-fno-pic", "-I" + REPO, os.path.join(REPO, "tcmalloc/internal/percpu_rseq_asm.S"), "-o", out + ".s"], "preprocessing the assembly")
        must([LIFT, raw, out + ".l", out + ".s"], "lifting the assembly")
        os.replace(out + ".l", raw)
    must(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=harness_main", raw, "-o", out], "internalize")
    os.unlink(raw)
    if job.srcs != "all" and not everything:
        und = [l.split()[-1] for l in must(["llvm-nm-18", "--undefined-only", out], "nm").split("\n") if l.strip() and l.split()[-2:-1] != ["w"]]
        und = [u for u in und if "tcmalloc" in u.lower()]
        if und:
            print("note: %s: %s is not defined by its named sources; linking all" % (job.name, und[:3]))
            return link_job(job, work, True)
    return out

_nb_guard, _nb_locks = threading.Lock(), {}
def native_build(bc, work, asan):
    exe = bc + (".asan" if asan else ".native")
    with _nb_guard:
        l = _nb_locks.setdefault(exe, threading.Lock())
    with l:
        return native_build_locked(bc, work, asan, exe)

def native_build_locked(bc, work, asan, exe):
    if os.path.exists(exe):
        return exe
    ins = exe + ".i.bc"
    must([SYMX, bc, "-instrument", ins], "instrumenting")
    rt = os.path.join(work, "native.o")
    with _rtl:
      if not os.path.exists(rt):
        must([CLANG, "-O1", "-std=c++17", "-c", os.path.join(HERE, "harness", "native.cc"), "-o", rt + ".t"], "native runtime")
        os.replace(rt + ".t", rt)
    fl = []
    if asan:
        must(["opt-18", "-passes=forceattrs", "-force-attribute=sanitize_address", ins, "-o", ins + "2"], "asan attributes")
        os.replace(ins + "2", ins)
        fl = ["-fsanitize=address"]
    obj = exe + ".o"
    must([CLANG, "-O0", "-Wno-everything", "-fno-pic", "-mcmodel=medium", "-c", ins, "-o", obj] + fl, "native code")
    must([CLANG, "-no-pie", obj, rt, "-o", exe + ".t", "-lpthread", "-lm"] + fl, "native link")
    os.replace(exe + ".t", exe)
    for f in (ins, obj):
        os.unlink(f)
    return exe

def run_native(exe, case):
    env = dict(os.environ, ASAN_OPTIONS="exitcode=66:handle_segv=0:handle_abort=0:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0")
    try:
        p = subprocess.run([exe, case], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=90, env=env)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 14, "TIMEOUT\n", ""

def run_symx(job, bc, params, tag, work, tier, limit, verbose):
    out = os.path.join(work, tag + ".json")
    args = [SYMX, bc, "-o", out, "-max-time", str(int(limit)), "-samples", str(job.samples), "-mem", "6000"]
    for p in params:
        args += ["-p", str(p)]
    args += list(job.targs if tier == "thorough" and job.targs is not None else job.args)
    t = time.time()
    try:
        rc, log = sh(args, timeout=limit + 60)
    except subprocess.TimeoutExpired:
        rc, log = 20, "killed after its time limit"
    try:
        r = json.load(open(out))
    except (OSError, ValueError):
        r = {"status": "error", "incomplete": [log[-500:]]}
    r["rc"] = rc
    r["wall"] = time.time() - t
    r["log"] = log[-1500:]
    if verbose:
        print("  %-28s rc=%d %.1fs %s" % (tag, rc, r["wall"], log.strip().split("\n")[-1][:220]), flush=True)
    return r

CONFIRM = {"assert": {10}, "crash": {11}, "memory": {66, 11, 10}, "arith": {11}, "deadlock": {12, 14}, "unreachable": {11, 66}, "stack": {11, 14}}

def write_case(path, prop, job, params, v, maxpre):
    with open(path, "w") as f:
        f.write("# property %s job %s kind %s: %s\n" % (prop, job.name, v["kind"], v["msg"]))
        for s in v.get("stack", []):
            f.write("#   at %s\n" % s)
        for p in params:
            f.write("P %d\n" % p)
        f.write("M %d\n" % maxpre)
        for n, w, val in v["inputs"]:
            f.write("I %s %s\n" % (n, val))

def maxpreempt(job, tier):
    a = list(job.targs if tier == "thorough" and job.targs is not None else job.args)
    return int(a[a.index("-max-preempt") + 1]) if "-max-preempt" in a else 2

def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def check(prop, tier, only, verbose):
    import checks
    t0 = time.time()
    spec = checks.CHECKS[prop]
    budget = 760 if tier == "quick" else 6 * 3600
    build_engine()
    gen_headers()
    work = os.path.join(BUILD, "work", "%s-%s-%d" % (prop, tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    jobs = [j for j in spec["jobs"] if (tier == "thorough" or j.quick) and (not only or j.name == only)]
    todo, bcs, build_err = [], {}, []
    for j in jobs:
        bcs[j.name] = link_job(j, work)
        for i, ps in enumerate(j.tparams if tier == "thorough" and j.tparams is not None else j.params):
            todo.append((j, tuple(ps), "%s.%d" % (j.name, i)))
    tb = time.time() - t0
    results = []
    def one(t):
        j, ps, tag = t
        left = budget - (time.time() - t0)
        lim = max(5, min(j.qtime if tier == "quick" else j.ttime, left))
        return t, run_symx(j, bcs[j.name], ps, tag, work, tier, lim, verbose)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        # longest first
        order = sorted(todo, key=lambda t: -(t[0].qtime))
        results = list(ex.map(one, order))
    # ---- replay
    violations, unconfirmed, known, traces, mismatches, samples, missing, errors = [], [], [], 0, [], [], [], []
    kf = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "known"]
    evd = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
    reach, agg = {}, {}
    def post(item):
        (j, ps, tag), r = item
        out = {"viol": [], "unconf": [], "traces": 0, "mis": [], "samples": []}
        mp = maxpreempt(j, tier)
        for n, v in enumerate(r.get("violations", [])):
            case = os.path.join(evd, "replay", "%s-%s-%d.case" % (prop, tag, n))
            write_case(case, prop, j, ps, v, mp)
            exe = native_build(bcs[j.name], work, False)
            rc, o, e = run_native(exe, case)
            ok = rc in CONFIRM.get(v["kind"], {10, 11}) or rc in (10, 11)
            for _ in range(5):           # the allocator's own random choices (guarded slots) follow the clock and the load address
                if ok: break
                rc, o, e = run_native(exe, case)
                ok = rc in CONFIRM.get(v["kind"], {10, 11}) or rc in (10, 11)
            if not ok and v["kind"] in ("memory", "unreachable"):
                exe = native_build(bcs[j.name], work, True)
                rc, o, e = run_native(exe, case)
                ok = rc in CONFIRM[v["kind"]]
            rec = {"job": j.name, "params": list(ps), "kind": v["kind"], "msg": v["msg"], "stack": v.get("stack", [])[:8], "replay": case, "native": (o + e)[-300:], "native_rc": rc}
            (out["viol"] if ok else out["unconf"]).append(rec)
        for n, s in enumerate(r.get("samples", [])[:j.samples]):
            if r.get("violations"):
                break
            case = os.path.join(work, "%s-s%d.case" % (tag, n))
            with open(case, "w") as f:
                for p in ps: f.write("P %d\n" % p)
                f.write("M %d\n" % mp)
                f.write("\n".join(l for l in s.split("\n") if l.startswith("I ")) + "\n")
            want = [l for l in s.split("\n") if l.startswith("O ")]
            exe = native_build(bcs[j.name], work, False)
            rc, o, e = run_native(exe, case)
            got = [l for l in o.split("\n") if l.startswith("O ")]
            if rc == 0 and got == want and ("\nX\n" in s or s.startswith("X\n")) == ("END expected-crash" in o):
                out["traces"] += 1
            else:
                out["mis"].append({"job": tag, "rc": rc, "want": want[:12], "got": got[:12], "tail": (o + e)[-200:], "inputs": s[:600]})
            if n == 0:
                out["samples"].append({"job": tag, "path": s[:1200]})
        return out
    nl = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        # build natives once per job before the parallel part
        need = {t[0].name: t[0] for t, r in results if r.get("violations") or r.get("samples")}
        list(ex.map(lambda n: native_build(bcs[n], work, False), need)) if need else None
        posts = list(ex.map(post, results))
    for ((j, ps, tag), r), o in zip(results, posts):
        violations += o["viol"]; unconfirmed += o["unconf"]; traces += o["traces"]; mismatches += o["mis"]; samples += o["samples"]
        for k, n in r.get("reach", {}).items():
            reach[(j.name, k)] = reach.get((j.name, k), 0) + n
        if r["status"] == "error":
            errors.append({"job": tag, "log": r.get("log", "")[-600:], "why": r.get("incomplete")})
    for j in jobs:
        for k in j.reach:
            if not reach.get((j.name, k)):
                missing.append("%s:%s" % (j.name, k))
    tot = lambda k: sum(r.get(k, 0) for _, r in results)
    incomplete = [{"job": t[2], "why": r.get("incomplete")} for t, r in results if r["status"] == "incomplete"]
    funcs = sorted({f for _, r in results for f in r.get("functions", []) if "tcmalloc" in f.lower()})
    new = []
    for v in violations:
        k = next((k for k in kf if matches(k, v)), None)
        if k:
            known.append((k, v))
        else:
            new.append(v)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": tot("paths") + tot("killed") + tot("merges"),
            "transitions": tot("instructions"),
            "traces_validated_against_impl": traces,
            "samples": samples[:6] or [{"note": "no completed path was sampled"}],
            "exhaustive": not incomplete and not errors and not missing,
            "explanation": "states: completed symbolic paths plus merged sub-paths; transitions: IR instructions executed symbolically. Each path stands for every input satisfying its path condition; branches and assertions were decided by Z3.",
            "paths": tot("paths"), "forks": tot("forks"), "infeasible_or_assumed_away": tot("killed"),
            "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
            "answered_from_model_or_cache": tot("model_hits") + tot("cache_hits"),
            "assertions_decided": tot("asserts"), "assertions_needing_solver": tot("assert_queries"),
            "symbolic_branches": tot("symbolic_branches"), "symbolic_addresses": tot("symbolic_memory"), "scheduling_points": tot("sched_points"),
            "solver_seconds": round(sum(r.get("solver_seconds", 0) for _, r in results), 2),
            "build_seconds": round(tb, 1),
            "bounds": [{"job": j.name, "harness": "harness/" + j.harness, "bounds": j.bounds} for j in jobs],
            "jobs": [{"job": t[2], "params": list(t[1]), "status": r["status"], "paths": r.get("paths", 0), "queries": r.get("queries", 0), "solver_s": round(r.get("solver_seconds", 0), 2), "wall_s": round(r["wall"], 2)} for t, r in results],
            "functions_encoded": len(funcs), "functions": funcs[:400],
            "reach_witnesses": {"%s:%s" % k: n for k, n in reach.items()},
            "missing_witnesses": missing, "incomplete": incomplete[:20], "errors": errors[:10],
            "unconfirmed_counterexamples": unconfirmed[:10], "trace_mismatches": mismatches[:10],
            "known_findings": [k["id"] for k, _ in known],
        },
        "assumptions": checks.COMMON_ASSUMPTIONS + list(spec.get("assumptions", [])),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    tmp = os.path.join(evd, prop + ".json.t")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(evd, prop + ".json"))
    if not verbose:
        shutil.rmtree(work, ignore_errors=True)
    seen = set()
    for k, v in known:
        if k["id"] not in seen:
            seen.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for v in new:
        print("counterexample (%s) in %s: %s" % (v["kind"], v["job"], v["msg"]))
        for s in v["stack"][:5]:
            print("    at " + s)
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    if verbose or mismatches or unconfirmed or missing or errors:
        for x in missing: print("note: no path reached " + x)
        for x in unconfirmed: print("note: counterexample did not reproduce natively, not reported: %s %s (native rc %s)" % (x["job"], x["msg"], x["native_rc"]))
        for x in mismatches: print("note: sampled path and native run differ: %s" % json.dumps(x)[:700])
        for x in errors: print("note: job ended in error: %s" % json.dumps(x)[:600])
    for x in incomplete: print("note: not exhausted: %s %s" % (x["job"], str(x["why"])[:200]))
    print("%s %s: %d jobs, %d paths, %d queries (%.1fs solver), %d traces validated, %d violations, %.1fs%s" % (
        prop, tier, len(results), tot("paths"), tot("queries"), ev["coverage"]["solver_seconds"], traces, len(new), time.time() - t0, "" if ev["coverage"]["exhaustive"] else " [not exhaustive]"))
    if new:
        return 1
    if results and len(errors) == len(results):
        return 2      # nothing was explored
    return 0

def matches(k, v):
    return (not k.get("job") or k["job"] == v["job"]) and k.get("msg", "") in v["msg"] and all(any(f in s for s in v["stack"]) for f in k.get("frames", []))

def replay(case):
    import checks
    head = open(case).readline()
    m = re.search(r"property (\S+) job (\S+) kind (\S+):", head)
    build_engine(); gen_headers()
    job = next(j for j in checks.CHECKS[m.group(1)]["jobs"] if j.name == m.group(2))
    work = os.path.join(BUILD, "work", "replay-%d" % os.getpid())
    bc = link_job(job, work)
    exe = native_build(bc, work, m.group(3) in ("memory",))
    rc, o, e = run_native(exe, case)
    print(o[-2000:] + e[-2000:])
    shutil.rmtree(work, ignore_errors=True)
    return 1 if rc else 0

def main():
    os.chdir(HERE)
    sys.path.insert(0, HERE)
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    only = None
    if "--only" in a:
        i = a.index("--only"); only = a[i + 1]; del a[i:i + 2]
    verbose = "-v" in a
    a = [x for x in a if x != "-v"]
    try:
        if a[0] == "--setup":
            build_engine(); gen_headers()
            import checks
            ins = {}
            for p in checks.CHECKS.values():
                for j in p["jobs"]:
                    for s, f in job_inputs(j):
                        ins[(s, tuple(f))] = 1
            def c(x):
                try: compile_bc(x[0], list(x[1]))
                except Failure as e: print(str(e)[:500])
            with cf.ThreadPoolExecutor(NCPU) as ex:
                list(ex.map(c, ins))
            return 0
        if a[0] == "--replay":
            return replay(a[1])
        return check(a[0], tier, only, verbose)
    except Failure as e:
        print("ERROR " + str(e))
        return 2

if __name__ == "__main__":
    sys.exit(main())
