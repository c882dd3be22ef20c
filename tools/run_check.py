#!/usr/bin/env python3
"""run_check.py <property> [quick|thorough]  - compiles the property's harnesses against /repo's working tree to LLVM IR,
runs the symbolic executor on each, replays any counterexample natively, writes evidence/<property>.json."""
import sys, os, re, json, subprocess, time, shutil, tempfile, glob, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_REPO", "/repo"); BUILD = os.path.join(V, "build")
CXX, OPT, LINK = "clang++-18", "opt-18", "llvm-link-18"
CFLAGS = "-std=c++20 -O1 -Xclang -disable-llvm-passes -g0 -emit-llvm -c -D_GLIBCXX_EXTERN_TEMPLATE=0 -D__libc_single_threaded=vk_lst -w".split()
CORO = "module(coro-early),cgscc(coro-split),module(coro-cleanup),function(sroa,instsimplify,simplifycfg),globaldce"
LIBSRC = ["macoro/thread_pool.cpp", "macoro/detail/stop_state.cpp", "macoro/detail/stop_source.cpp", "macoro/detail/stop_token.cpp"]

class ToolError(Exception): pass
def sh(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    if p.returncode: e = [l for l in p.stdout.split("\n") if "error:" in l]; raise ToolError("%s\n%s" % (" ".join(cmd)[-160:], "\n".join(e[:6]) or p.stdout[-2000:]))
    return p.stdout
def setup():
    """builds the engine and the parts of the runtime that do not depend on /repo"""
    os.makedirs(BUILD, exist_ok=True)
    eng = os.path.join(V, "engine"); exe = os.path.join(BUILD, "vkexec")
    def newer(out, ins): return not os.path.exists(out) or any(os.path.getmtime(i) > os.path.getmtime(out) for i in ins)
    if newer(exe, glob.glob(eng + "/*")):
        sh(["g++", "-O2", "-std=c++20", "-w", "-I/usr/include/llvm-18", "-I/usr/lib/llvm-18/include", eng + "/exec.cpp", "-o", exe + ".tmp", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"], 1500); os.replace(exe + ".tmp", exe)
    for f in ("rt_eh", "rt_common", "rt_std"):
        o = f"{BUILD}/{f}.bc"; s = f"{V}/rt/{f}.cpp"
        if newer(o, [s, f"{V}/rt/vk.h"]): sh([CXX] + CFLAGS + ["-fno-access-control", "-I" + V + "/rt", s, "-o", o + ".tmp"]); os.replace(o + ".tmp", o)
    o = f"{BUILD}/replay_rt.o"
    if newer(o, [f"{V}/rt/replay_rt.cpp"]): sh(["g++", "-O1", "-w", "-c", "-std=c++20", f"{V}/rt/replay_rt.cpp", "-o", o + ".tmp"]); os.replace(o + ".tmp", o)

class Job: pass
def parse(prop, tier):
    jobs = []
    for f in sorted(glob.glob(f"{V}/harness/{prop}_*.cpp")):
        for line in open(f):
            m = re.match(r"//@\s*run\s+(quick|thorough)\s+(\S+)\s*(.*)", line)
            if not m: continue
            if tier == "quick" and m.group(1) != "quick": continue
            j = Job(); j.file = f; j.tier = m.group(1); j.name = os.path.basename(f)[:-4] + ":" + m.group(2); j.defs = []; j.opts = []; j.covers = []
            toks = m.group(3).split(); i = 0
            while i < len(toks):
                t = toks[i]
                if t.startswith("-D") or t.startswith("-f"): j.defs.append(t)
                elif t.startswith("covers:"): j.covers = t[7:].split(",")
                else: j.opts.append(t)
                i += 1
            jobs.append(j)
    return jobs
CONFIG = ("-DMACORO_HAS_STD_STOP_TOKEN",)   # build configurations: the library's own sources are compiled with them too
_lc = {}
def lib_for(j, tmp, libs):
    c = tuple(d for d in j.defs if d.startswith(CONFIG))
    if not c: return libs
    with _ll:
        if c not in _lc: _lc[c] = lib_bitcode(tmp, c)
        return _lc[c]
_ll = threading.Lock()
def lib_bitcode(tmp, conf=()):
    inc = f"{tmp}/inc"; tag = "lib" + "".join(c[2:] for c in conf); os.makedirs(inc + "/macoro", exist_ok=True)
    c = open(f"{REPO}/macoro/config.h.in").read()
    c = re.sub(r"#cmakedefine\s+MACORO_CPP_20.*", "#define MACORO_CPP_20 ON", c); c = re.sub(r"#cmakedefine\s+(\w+).*", r"/* #undef \1 */", c)
    if not conf: open(inc + "/macoro/config.h", "w").write(c)
    srcs = [s for s in LIBSRC if os.path.exists(f"{REPO}/{s}")]
    for s in glob.glob(f"{REPO}/macoro/**/*.cpp", recursive=True):   # a source file added by a change
        r = os.path.relpath(s, REPO)
        if r not in srcs and "win32" not in r: srcs.append(r)
    if conf: srcs = [s for s in srcs if "/stop_" not in s]   # as the build does
    def one(i): sh([CXX] + CFLAGS + ["-I" + inc, "-I" + REPO, f"{REPO}/{srcs[i]}", "-o", f"{tmp}/{tag}{i}.bc"] + list(conf)); return f"{tmp}/{tag}{i}.bc"
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one, range(len(srcs))))
_hc = {}; _hl = threading.Lock()
def compile_job(j, tmp, libs):
    key = j.file + " " + " ".join(j.defs)
    with _hl:
        ev = _hc.get(key)
        if ev is None: ev = _hc[key] = [threading.Event(), None, None]; mine = True
        else: mine = False
    if not mine:
        ev[0].wait()
        if ev[2]: raise ToolError(ev[2])
        return ev[1]
    try:
        b = f"{tmp}/h{abs(hash(key))}"
        sh([CXX] + CFLAGS + ["-I" + V + "/rt", "-I" + V + "/harness", "-I" + tmp + "/inc", "-I" + REPO, j.file, "-o", b + ".h.bc"] + j.defs)
        sh([LINK, b + ".h.bc", BUILD + "/rt_eh.bc", BUILD + "/rt_std.bc", BUILD + "/rt_common.bc"] + libs + ["-o", b + ".l.bc"])
        sh([OPT, "-passes=internalize," + CORO, "-internalize-public-api-list=main", b + ".l.bc", "-o", b + ".bc"])
        ev[1] = b; return b
    except ToolError as e:
        ev[2] = str(e); raise
    finally: ev[0].set()
_nl = threading.Lock(); _nk = {}
def native(b, libs):
    with _nl: lk = _nk.setdefault(b, threading.Lock())
    with lk:
        if os.path.exists(b + ".exe"): return b + ".exe"
        sh([LINK, b + ".h.bc", BUILD + "/rt_common.bc"] + libs + ["-o", b + ".nl.bc"])
        sh([OPT, "-passes=" + CORO + ",forceattrs,tsan-module,function(tsan)", "-force-attribute=sanitize_thread", "-tsan-instrument-func-entry-exit=0", "-tsan-handle-cxx-exceptions=0", b + ".nl.bc", "-o", b + ".n.bc"])
        sh([CXX, "-O0", "-c", "-fPIC", "-w", b + ".n.bc", "-o", b + ".n.o"])
        r, d = [], []; own = set(l.split()[-1] for l in subprocess.run(["nm", "--defined-only", b + ".n.o"], capture_output=True, text=True).stdout.splitlines() if l)   # a harness may have its own operator new
        for line in open(f"{V}/rt/syms.txt"):
            a, t = line.split()
            if a == "main": r += ["--redefine-sym", f"{a}={t}"]
            else: r += ["--redefine-sym", f"{a}=vk_n_{a}"]; a in own or d.append(f"-Wl,--defsym=vk_n_{a}={t}")
        sh(["objcopy"] + r + [b + ".n.o"]); sh(["g++", b + ".n.o", BUILD + "/replay_rt.o", "-o", b + ".exe.tmp", "-lpthread"] + d); os.replace(b + ".exe.tmp", b + ".exe")
        return b + ".exe"
def run_native(exe, script):
    try: p = subprocess.run([exe, script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, text=True, errors="replace"); out = p.stdout.strip().split("\n")[-1]; return p.returncode, out
    except subprocess.TimeoutExpired: return 4, "timeout"
# kinds that machine code cannot always show (the memory is still there); the engine's concrete re-execution of the same IR decides
ENGINE_ONLY = ("use-after-scope", "uninitialised", "data-race", "use-after-free", "leak", "out-of-bounds", "misaligned-atomic", "no-termination", "unreachable", "coroutine-redestroyed")

def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup": setup(); return 0
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"); only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time(); setup(); jobs = parse(prop, tier)
    if only: jobs = [j for j in jobs if only in j.name]
    known = []
    kf = f"{V}/known_findings.txt"
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"known:\s+property=(\S+)\s+job=(\S+)\s+kind=(\S+)\s+match=/(.*?)/\s+(.*)", line)
            if m and m.group(1) == prop: known.append(m.groups())
    budget = float(os.environ.get("VK_BUDGET", "600" if tier == "quick" else "850"))
    tmp = tempfile.mkdtemp(prefix="vk_"); rdir = f"{V}/evidence/replays"; os.makedirs(rdir, exist_ok=True)
    nj = max(1, min(8, os.cpu_count() or 1)); bad = []; viol = []; res = {}; shutil
    try:
        libs = lib_bitcode(tmp)
        def run(j):
            r = {}
            try:
                libs_ = lib_for(j, tmp, libs); b = compile_job(j, tmp, libs_); rp = f"{rdir}/{j.name.replace(':','-')}.replay"; js = f"{tmp}/{j.name}.json"; wit = f"{tmp}/{j.name}.wit"
                if os.path.exists(rp): os.remove(rp)
                left = max(20, budget - (time.time() - t0)); o = list(j.opts)
                if "--timeout" not in o: o += ["--timeout", "%d" % left]
                else: k = o.index("--timeout"); o[k + 1] = "%d" % min(left, float(o[k + 1]))
                if "--mem" not in o: o += ["--mem", "3200"]
                p = subprocess.run(["bash", "-c", 'ulimit -s 1000000; exec "$@"', "x", BUILD + "/vkexec"] + o + ["-o", js, "--replay", rp, "--witness", wit, b + ".bc"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left + 120)
                if not os.path.exists(js): raise ToolError("the engine died: " + p.stdout[-500:])
                r = json.load(open(js)); r["job"] = j
                if r["status"] == "violation":
                    v = r["violation"]
                    try: exe = native(b, libs_); r["native"] = run_native(exe, rp)
                    except Exception as e: r["native"] = (9, "native build failed: " + str(e)[-300:])
                    with open(rp, "a") as f: f.write("\n# harness %s %s\n# %s: %s\n# %s\n# inputs %s\n# native replay: %s\n" % (j.name, " ".join(j.defs), v["kind"], v["msg"], v["where"], json.dumps(v["model"]), r["native"][1]))
                    r["replay"] = rp
                elif r["status"] == "ok" and os.path.exists(wit) and (tier == "thorough" or j.name == jobs[0].name or os.environ.get("VK_WITNESS")):
                    try: r["witness"] = run_native(native(b, libs_), wit)
                    except Exception as e: r["witness"] = (9, str(e)[-300:])
                    if os.environ.get("VK_WITNESS"): shutil.copy(wit, rp)
            except (ToolError, subprocess.TimeoutExpired, ValueError) as e: r = {"status": "toolerror", "error": str(e), "job": j}
            return r
        # slow jobs are listed first in a file
        with ThreadPoolExecutor(nj) as ex: rs = list(ex.map(run, jobs))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    rc = 0; notes = []; findings = []
    for r in rs:
        j = r["job"]; st = r["status"]
        if st == "violation":
            v = r["violation"]; nrc, nout = r["native"]; ok = v["guided"] and (nrc in (1, 4) or v["kind"] in ENGINE_ONLY)
            k = [x for x in known if x[1] == j.name and x[2] == v["kind"] and re.search(x[3], v["msg"] + " " + v["where"])]
            desc = f"{j.name}: {v['kind']}: {v['msg']} [{v['where'][:400]}] native: {nout[:200]}"
            if v["kind"] == "no-termination" and "main returned normally" in nout: print("BOUND", j.name, "a step longer than the instruction limit"); notes.append(f"{j.name}: a single step exceeds the instruction limit, and ends when it is executed"); continue
            if not ok: print("UNCONFIRMED", desc); rc = rc or 2; notes.append("unconfirmed counterexample: " + desc)
            elif k: print(f"KNOWN-FINDING: property={prop} {k[0][4]}"); findings.append(desc)
            else: print(desc); print(f"VIOLATION property={prop} replay={r['replay']}"); viol.append(desc)
        elif st == "inconclusive": print("BOUND", j.name, r["error"]); notes.append(f"{j.name}: search stopped at the {r['error']}; every shorter schedule was decided")
        elif st != "ok": print("ERROR", j.name, r["error"][:1500]); rc = rc or 2; notes.append(f"{j.name}: not decided: {r['error'][:300]}")
        else:
            miss = [c for c in j.covers if c not in r["covers"]]
            if miss: print("VACUOUS", j.name, "never reached:", ",".join(miss)); rc = rc or 2
            if r["completeness"] == "refuted": print("INCOMPLETE", j.name); rc = rc or 2
            if "witness" in r and not (r["witness"][0] == 0 and "main returned normally" in r["witness"][1]): print("WITNESS-MISMATCH", j.name, r["witness"][1]); notes.append(f"{j.name}: native run of the witness schedule: {r['witness'][1]}"); rc = rc or (2 if os.environ.get("VK_STRICT") else 0)
        if os.environ.get("VK_V") or "-v" in sys.argv: print("   ", j.name, st, {k: r.get(k) for k in ("states", "transitions", "terminals", "asserts", "asserts_symbolic", "queries", "solver_s", "completeness", "wall_s")}, r.get("witness", ""))
    if viol: rc = 1
    if not jobs: print("no harness for", prop); rc = 2
    D = [r for r in rs if "states" in r]; S = lambda k: sum(r.get(k, 0) for r in D)
    fns = sorted(set(f for r in D for f in r["functions"]))
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "violations": len(viol), "wall_s": round(time.time() - t0, 2),
      "coverage": {"states": S("states"), "transitions": S("transitions"), "traces_validated_against_impl": sum(1 for r in rs if r.get("witness", (1, ""))[0] == 0) + sum(1 for r in rs if r.get("native", (0, ""))[0] in (1, 4)), "exhaustive": all(r["status"] == "ok" and r.get("completeness") == "proved" for r in rs) and bool(rs),
        "samples": [{"harness": r["job"].name, "defines": r["job"].defs, "engine": r["job"].opts, "status": r["status"], "symbolic_inputs": r["inputs"], "states": r["states"], "transitions": r["transitions"], "paths_to_the_end": r["terminals"], "scheduling_points": r["levels"], "schedule_variables": r["sched_vars"], "assertions_checked": r["asserts"], "assertions_decided_by_solver": r["asserts_symbolic"], "memory_checks": r["memory_checks"], "race_checks": r["race_checks"], "queries": r["queries"], "unsat": r["queries_unsat"], "sat": r["queries_sat"], "solver_s": round(r["solver_s"], 3), "path_cover_query": r["completeness"], "reached": r["covers"], "wall_s": round(r["wall_s"], 2), **({"violation": r["violation"]} if "violation" in r else {}), **({"native_run": r["witness"][1]} if "witness" in r else {})} for r in D],
        "queries": S("queries"), "queries_unsat": S("queries_unsat"), "queries_sat": S("queries_sat"), "queries_unknown": S("queries_unknown"), "solver_s": round(S("solver_s"), 3), "assertions_checked": S("asserts"), "instructions_executed": S("instructions"), "functions_encoded": len(fns), "functions": fns,
        "explanation": "The library's functions are executed symbolically from LLVM IR compiled from /repo in this run; schedule choices (s!), read-from/signal choices (c!) and inputs (in!) are bit-vector variables; assertions, memory safety, data races, deadlock and leaks are decided for all their values. 'path_cover_query' = proved: Z3 shows that no schedule and input lies outside the explored, violation-free paths.",
        "bounds": [f"{j.name} {' '.join(j.defs)} {' '.join(j.opts)}" for j in jobs], "notes": notes, "known_findings": findings},
      "assumptions": ["clang 18 -O1 front end and the LLVM coroutine passes translate the C++ as the project's compilers do", "interleavings at atomics, locks and condition variables; sequentially consistent histories unless a run has --weak; condition variables wake spuriously only in runs with --wakes", "the numbers of threads, coroutines and operations of each harness"]}
    os.makedirs(f"{V}/evidence", exist_ok=True); json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop} {tier}: {len(rs)} runs, {S('states')} states, {S('transitions')} transitions, {S('queries')} queries ({S('solver_s'):.1f} s solver), {len(viol)} violations, {time.time()-t0:.1f} s")
    return rc
sys.exit(main())
