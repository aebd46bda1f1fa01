#!/usr/bin/env python3
"""Solver-based check of one property: compiles the real sparta sources from /repo with the vx
symbolic-execution pass, runs the property's harness entries, writes evidence/<id>.json.
usage: check.py <ID> [--thorough] [--entry NAME] [--keep]      (VERIF_TIER=thorough also works)"""
import os, sys, json, subprocess, hashlib, shutil, time, re, glob, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
ENG = os.path.join(V, "engine")
NCPU = os.cpu_count() or 8
DEFS = ["-DNDEBUG", "-DSIMDB_ENABLED=0", "-DRAPIDJSON_NOMEMBERITERATORCLASS", '-DSPARTA_VERSION="vx"', "-DVX_CHECK_BUILD=1",
        "-I" + REPO + "/sparta", "-I" + ENG, "-I" + os.path.join(V, "props"), "-w"]
SYM = ["clang++-18", "-std=gnu++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-pie", "-include", ENG + "/vxpre.h"]
PLAIN = ["clang++-18", "-std=gnu++17", "-O0", "-g0", "-fno-pie", "-include", ENG + "/vxpre.h"]
NATIVE = ["g++", "-std=gnu++17", "-O1", "-g0", "-fno-pie"]
LIBS = ["-lz3", "-lyaml-cpp", "-lboost_timer", "-lboost_system", "-lboost_filesystem", "-lboost_program_options",
        "-lboost_serialization", "-lboost_date_time", "-lboost_iostreams", "-lz", "-lsqlite3", "-lpthread"]
# translation units: name -> (files, instrumented)
UNITS = {
 "sched": (["Scheduler", "Scheduleable", "DAG", "Vertex", "EdgeFactory", "VertexFactory"], True),
 "tree": (["TreeNode"], True),
 "tree2": (["TreeNodeExtensions", "RootTreeNode", "EventNode"], True),
 "core": (["Clock", "CounterBase", "SpartaException", "sparta"], True),
 "param": (["Parameter"], True),
 "stat": (["MessageSource", "SimulationInfo", "Backtrace", "StatisticDef", "StatisticInstance", "ContextCounterTrigger", "Trigger", "TriggerManager"], True),
 "ext": (["TreeNodeExtensionManager", "ConfigParserYAML", "YAMLTreeEventHandler"], False),
 "score": (["Scoreboard"], True),
 "unit": (["Unit", "Resource"], True),
 "port": (["Port"], True),
 "dest": (["Destination", "MessageInfo"], True),
 "base": (["SpartaException", "Backtrace"], True),
 "expr": (["Expression"], True),
 "gram": (["ExpressionGrammar"], False),
}
GROUPS = {"none": [], "base": ["base"], "kernel": ["sched", "tree", "tree2", "core", "param", "stat", "ext", "expr", "gram"]}

def sha(paths):
    h = hashlib.sha1()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build_engine():
    out = os.path.join(V, "build", "engine"); os.makedirs(out, exist_ok=True)
    stamp = sha(glob.glob(ENG + "/*")); sf = out + "/stamp"
    if os.path.exists(sf) and open(sf).read() == stamp: return out
    tmp = out + ".%d" % os.getpid(); os.makedirs(tmp)
    jobs = [["clang++-18", "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
             "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", ENG + "/vxpass.cpp", "-o", tmp + "/vxpass.so"],
            ["g++", "-O2", "-g", "-std=gnu++17", "-fno-pie", "-c", ENG + "/vxrt.cpp", "-o", tmp + "/vxrt.o"]]
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(sh, jobs):
            if r.returncode: print(r.stdout); sys.exit(2)
    r = sh(SYM + ["-fno-builtin", "-fpass-plugin=" + tmp + "/vxpass.so", "-w", "-c", ENG + "/vxlib.cpp", "-o", tmp + "/vxlib.o"])
    if r.returncode: print(r.stdout); sys.exit(2)
    open(tmp + "/stamp", "w").write(stamp)
    shutil.rmtree(out, ignore_errors=True); os.rename(tmp, out)
    return out

def compile_all(conf, run, eng, mode):
    """mode sym: with the pass; mode native: the repository's own compiler, uninstrumented"""
    units = GROUPS[conf.get("group", "kernel")] + conf.get("units", [])
    units = [u for u in units if u not in conf.get("without", [])]
    jobs = []   # (object, source, instrumented, cacheable)
    for u in units:
        files, ins = UNITS[u]
        if u in conf.get("instrument", []): ins = True
        src = "%s/u_%s.cpp" % (run, u)
        with open(src, "w") as f:
            for x in files: f.write('#include "%s/sparta/src/%s.cpp"\n' % (REPO, x))
        jobs.append(("%s/u_%s.%s.o" % (run, u, mode), src, ins, u))
    for h in conf["harness"]:
        jobs.append(("%s/h_%s.%s.o" % (run, os.path.basename(h)[:-4], mode), os.path.join(conf["dir"], h), True, None))
    extra = conf.get("cflags", [])
    cache = None
    if os.environ.get("VX_CACHE"):
        fs = [p for d in ("src", "sparta", "cache") for p in glob.glob(REPO + "/sparta/" + d + "/**/*", recursive=True) if os.path.isfile(p)]
        cache = os.environ["VX_CACHE"] + "/" + sha(fs + glob.glob(ENG + "/*pass*") + glob.glob(ENG + "/vxpre.h")) ; os.makedirs(cache, exist_ok=True)
    def one(j):
        obj, src, ins, u = j
        if cache and u:
            c = "%s/%s.%s.%d.o" % (cache, u, mode, ins)
            if os.path.exists(c): shutil.copy(c, obj); return None
        if mode == "native": cmd = NATIVE + DEFS + extra + ["-c", src, "-o", obj]
        elif ins: cmd = SYM + (["-gline-tables-only"] if u is None else ["-g0"]) + ["-fpass-plugin=" + eng + "/vxpass.so"] + DEFS + extra + ["-c", src, "-o", obj]
        else: cmd = PLAIN + DEFS + extra + ["-c", src, "-o", obj]
        r = sh(cmd)
        if r.returncode: return r.stdout
        if cache and u: shutil.copy(obj, c + ".t%d" % os.getpid()); os.rename(c + ".t%d" % os.getpid(), c)
        return None
    order = {"tree": 0, "core": 1, None: -1}
    jobs.sort(key=lambda j: order.get(j[3], 5))
    with ThreadPoolExecutor(NCPU) as ex: errs = [e for e in ex.map(one, jobs) if e]
    if errs: return None, errs[0]
    exe = "%s/t.%s" % (run, mode)
    r = sh(["g++", "-no-pie", "-rdynamic"] + [j[0] for j in jobs] + [eng + "/vxrt.o"] + ([eng + "/vxlib.o"] if mode == "sym" else []) +
           (["-Wl,--unresolved-symbols=ignore-all"] if conf.get("without") or conf.get("group") in ("none", "base") else []) + ["-o", exe] + LIBS)
    if r.returncode: return None, r.stdout[-3000:]
    return exe, None

def functions(exe, addrs):
    if not addrs: return [], 0
    r = subprocess.run(["addr2line", "-f", "-C", "-i", "-e", exe], input="\n".join(hex(a - 1) for a in addrs), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    ls = r.stdout.split("\n"); out = {}
    for i in range(0, len(ls) - 1, 2):
        fn, loc = ls[i], ls[i + 1]
        f = loc.split(":")[0]
        if f.startswith(REPO + "/"):
            out.setdefault("%s %s" % (f[len(REPO) + 1:], re.sub(r"<.*>|\(.*$", "", fn)[:100]), set()).add(loc)
        elif f.startswith("??") and fn.startswith("sparta::"):
            out.setdefault("(library) %s" % re.sub(r"\(.*$", "", fn)[:100], set()).add(fn)
    return sorted(out), sum(len(v) for v in out.values())

def main():
    pid = sys.argv[1]; thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    only = sys.argv[sys.argv.index("--entry") + 1] if "--entry" in sys.argv else None
    t0 = time.time()
    d = os.path.join(V, "props", pid)
    conf = json.load(open(d + "/conf.json")); conf["dir"] = d
    if "harness" not in conf: conf["harness"] = sorted(os.path.basename(p) for p in glob.glob(d + "/*.cpp"))
    eng = build_engine()
    run = os.path.join(V, "build", "run-%s-%d" % (pid, os.getpid())); os.makedirs(run)
    rc = 2
    try: rc = go(pid, conf, eng, run, thorough, only, t0)
    finally:
        if "--keep" not in sys.argv: shutil.rmtree(run, ignore_errors=True)
        else: print("kept", run)
    sys.exit(rc)

def go(pid, conf, eng, run, thorough, only, t0):
    exe, err = compile_all(conf, run, eng, "sym")
    if err: print("check %s: build failed\n%s" % (pid, err[-4000:])); return 2
    tb = time.time() - t0
    known = []
    kf = os.path.join(V, "known_findings.json")
    if os.path.exists(kf): known = [k for k in json.load(open(kf)) if k.get("property") == pid and k.get("status") == "known"]
    names = [l for l in sh([exe, "--list"]).stdout.split("\n") if l]
    entries = conf["entries"]
    missing = [n for n in names if n not in entries] + [n for n in entries if n not in names]
    if missing: print("check %s: entries differ between harness and conf.json: %s" % (pid, missing)); return 2
    res = []; viol = []; seen_known = {}
    env = dict(os.environ); env["LC_ALL"] = "C"
    pre = ["setarch", "-R"] if sh(["setarch", "-R", "true"]).returncode == 0 else []
    for n in names:
        if only and n != only: continue
        e = entries[n]
        if e.get("thorough_only") and not thorough: continue
        out = "%s/%s.json" % (run, n); log = "%s/%s.log" % (run, n)
        b = e.get("thorough_budget", 600) if thorough else min(e.get("budget", 60), max(5, 640 - (time.time() - t0)))
        cmd = pre + [exe, "--entry", n, "--out", out, "--budget", str(b), "--jobs", str(e.get("jobs", NCPU)), "--path-timeout", str(e.get("path_timeout", 20))]
        if thorough: cmd.append("--thorough")
        kl = [k["label"] for k in known if k["entry"] == n]
        if kl: cmd += ["--known", ";".join(kl)]
        with open(log, "w") as lf:
            try: p = subprocess.run(cmd, stdout=lf, stderr=lf, env=env, cwd=run, timeout=b + 400)
            except subprocess.TimeoutExpired: print("check %s: entry %s did not stop" % (pid, n)); return 2
        if not os.path.exists(out):
            print("check %s: entry %s failed (rc %s)\n%s" % (pid, n, p.returncode, open(log).read()[-2000:]))
            # the set-up itself crashed: show it concretely
            rp = write_replay(pid, n, {"label": "set-up of the harness fails", "vars": []})
            r = sh(pre + [exe, "--entry", n, "--replay", rp["values"]], env=env, cwd=run, timeout=120)
            if r.returncode not in (0, 3): viol.append((n, {"label": "set-up fails", "why": "setup", "vars": []}, rp)); continue
            return 2
        j = json.load(open(out)); j["log_tail"] = open(log, errors="replace").read()[-300:]; res.append(j)
        for l in j["labels"]:
            l["kind"] = {1: "assert", 2: "reach", 3: "external-call-pinned"}[l["kind"]]
        reached = {l["name"] for l in j["labels"] if l["kind"] == "reach"}
        for v in j["violations"]:
            if v["label"] in kl: seen_known[(n, v["label"])] = v; continue
            rp = write_replay(pid, n, v)
            ok = False
            for _ in range(3):
                try: r = sh(pre + [exe, "--entry", n, "--replay", rp["values"]] + (["--thorough"] if thorough else []), env=env, cwd=run, timeout=120); rr = r.returncode
                except subprocess.TimeoutExpired: rr = -99
                if rr not in (0, 3): ok = True; break
            rp["instrumented_replay"] = ok
            viol.append((n, v, rp))
        need = [x for x in e.get("reach", []) if x not in reached]
        if need and j["complete"] and not j["violations"]:
            v = {"label": "never reached: " + ", ".join(need), "why": "vacuity", "vars": []}
            viol.append((n, v, write_replay(pid, n, v)))
    # confirm on an uninstrumented build with the repository's compiler
    real = [x for x in viol if x[2].get("instrumented_replay") or x[1]["why"] in ("vacuity", "setup")]
    if real and os.environ.get("VX_NONATIVE") is None and any(x[1]["why"] != "vacuity" for x in real):
        nexe, err = compile_all(conf, run, eng, "native")
        for n, v, rp in real:
            if err or v["why"] == "vacuity": rp["native_replay"] = "build failed" if err else "n/a"; continue
            try: r = sh(pre + [nexe, "--entry", n, "--replay", rp["values"]] + (["--thorough"] if thorough else []), env=env, cwd=run, timeout=60); rp["native_replay"] = "reproduced" if r.returncode not in (0, 3) else "not reproduced"; rp["native_output"] = r.stdout[-800:]
            except subprocess.TimeoutExpired: rp["native_replay"] = "reproduced (does not terminate)"
    write_evidence(pid, conf, res, viol, real, known, exe, thorough, t0, tb)
    for k in known: 
        if not only or k["entry"] == only: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for j in res:
        print("%-14s %s  %.1fs  paths=%d cut=%d decisions=%d queries=%d/%d/%d (sat/unsat/unknown) solver=%.1fs%s" % (j["entry"], "complete" if j["complete"] and not j["diverge"] else "INCOMPLETE(%d)" % j["incomplete"],
              j["wall"], j["paths"], j["cut"], j["events"], j["q_sat"], j["q_unsat"], j["q_unknown"], j["solver_s"], " DIVERGE=%d" % j["diverge"] if j["diverge"] else ""))
    for n, v, rp in viol:
        print("entry %s: %s (%s) inputs %s; instrumented replay %s, native replay %s" % (n, v["label"], v["why"], [(x[0], x[2]) for x in v["vars"]][:40], rp.get("instrumented_replay"), rp.get("native_replay")))
    if real:
        print("VIOLATION property=%s replay=%s" % (pid, real[0][2]["file"])); return 1
    print("check %s ok in %.1fs (build %.1fs)" % (pid, time.time() - t0, tb))
    return 0

def write_replay(pid, entry, v):
    d = os.path.join(V, "replays"); os.makedirs(d, exist_ok=True)
    base = "%s/%s-%s" % (d, pid, entry)
    with open(base + ".values", "w") as f: f.write("".join("%d\n" % x[2] for x in v["vars"]))
    with open(base + ".txt", "w") as f:
        f.write("property %s, harness entry %s: %s\ninputs found by the solver (in the order the harness draws them):\n" % (pid, entry, v["label"]))
        for x in v["vars"]: f.write("  %s (%d bits) = %d\n" % (x[0], x[1], x[2]))
        f.write("replay: cd /verif && python3 replay.py %s %s %s.values\n" % (pid, entry, base))
    return {"file": base + ".txt", "values": base + ".values"}

def write_evidence(pid, conf, res, viol, real, known, exe, thorough, t0, tb):
    S = lambda k: sum(j[k] for j in res)
    addrs = sorted({a for j in res for a in j["addrs"]}); fns, sites = functions(exe, addrs)
    complete = all(j["complete"] and not j["diverge"] for j in res)
    cov = {"states": S("paths") + S("cut"), "transitions": S("events"), "traces_validated_against_impl": S("paths"),
           "samples": ["%s: %s" % (j["entry"], s) for j in res for s in j["samples"][:4]][:24],
           "exhaustive": complete,
           "meaning": "states = execution paths of the real code explored to their end (each stands for all inputs satisfying its path condition); transitions = symbolic decisions (branches, pinned addresses, assertions) on them; traces_validated_against_impl = paths executed natively on the compiled repository code",
           "entries": [{"entry": j["entry"], "exhausted": bool(j["complete"] and not j["diverge"]), "wall_s": j["wall"], "paths": j["paths"], "paths_cut_by_assumptions": j["cut"], "symbolic_decisions": j["events"],
                        "queries": {"sat": j["q_sat"], "unsat": j["q_unsat"], "unknown": j["q_unknown"], "answered_from_query_cache": j["cache_hit"]}, "solver_s": j["solver_s"], "assertion_evaluations": j["asserts"], "assertions_on_symbolic_terms": j["assert_sym"], "assertion_queries": j["assert_q"],
                        "address_concretisations": j["pins"], "divergences": j["diverge"], "longest_path_decisions": j["maxdepth"],
                        "labels": [{"kind": l["kind"], "label": l["name"], "evaluated": l["n"], "symbolic": l["sym"]} for l in j["labels"]]} for j in res],
           "queries_discharged": S("q_sat") + S("q_unsat"), "queries_unknown": S("q_unknown"), "solver_s": round(S("solver_s"), 3), "solver": "z3 4.8.12 (QF_BV / QF_FPBV), cross-process query cache",
           "functions_with_symbolic_decisions": fns[:150], "symbolic_decision_sites": sites, "instrumented_functions": max([j["instrumented_functions"] for j in res] or [0]),
           "bounds": conf.get("bounds", ""), "outside": conf.get("outside", ""), "build_s": round(tb, 1),
           "violations": [{"entry": n, "label": v["label"], "why": v["why"], "inputs": [[x[0], x[2]] for x in v["vars"]][:64], "replay": rp} for n, v, rp in viol],
           "known_findings": [k["what"] for k in known]}
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
          "assumptions": conf.get("assumptions", []) + ["clang 18 -O1 compiles the code as the repository's g++ does (a violation is re-run on a g++ build)", "z3 answers are correct", "single-threaded execution"],
          "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    os.makedirs(V + "/evidence", exist_ok=True)
    tmp = V + "/evidence/.%s.%d" % (pid, os.getpid())
    json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, V + "/evidence/%s.json" % pid)

if __name__ == "__main__":
    if sys.argv[1] == "--setup": build_engine(); print("engine built"); sys.exit(0)
    main()
