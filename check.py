#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on the current /repo tree."""
import sys, os, json, time, glob, tempfile, shutil, subprocess, re, fnmatch
from concurrent.futures import ThreadPoolExecutor
import vlib, registry

def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); thorough = tier == "thorough"
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    t0 = time.time(); budget = 100000 if thorough else 660
    entries = [e for e in registry.CHECKS[pid] if e["tier"] in ("both", tier) and (not only or e["entry"] == only)]
    known = [k for k in json.load(open(vlib.V + "/known_findings.json"))["findings"] if k["property"] == pid]
    work = tempfile.mkdtemp(prefix="symx-%s-" % pid, dir=os.environ.get("SYMX_TMP", "/tmp"))
    rc = 2
    try: rc = go(pid, tier, thorough, seed, entries, known, work, t0, budget)
    except vlib.BuildError as e: print("BUILD-ERROR %s" % e); rc = 2
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def go(pid, tier, thorough, seed, entries, known, work, t0, budget):
    exe = vlib.ensure_engine(); trees = {}; groups = {}
    for e in entries:
        d = tuple(e["defines"] + (["-DSX_THOROUGH=1"] if thorough else []))
        groups.setdefault((tuple(e["defines"]), e["file"], d), []).append(e)
    common = sorted(glob.glob(vlib.V + "/harness/common*.c"))
    for e in entries:
        k = tuple(e["defines"])
        if k not in trees: trees[k] = vlib.Tree(work, list(k) + (["-DSX_THOROUGH=1"] if thorough else []))
    bcs = {}
    for k, tr in trees.items():
        tr.bitcode()
        for f in sorted(set(e["file"] for e in entries if tuple(e["defines"]) == k)):
            es = [e["entry"] for e in entries if e["file"] == f and tuple(e["defines"]) == k]
            fs = [vlib.V + "/harness/" + f] + [c for c in common if os.path.basename(c) != f]
            bcs[(k, f)] = (tr.harness_bc(fs, f.replace(".c", ""), es), fs)
    print("built in %.1fs" % (time.time() - t0), flush=True)
    results = []
    total_t = sum(e["t"] if thorough else e["q"] for e in entries)
    nproc = vlib.NP
    def one(e, jobs):
        bc, fs = bcs[(tuple(e["defines"]), e["file"])]
        out = os.path.join(work, "o_%d" % entries.index(e)); os.makedirs(out, exist_ok=True)
        left = budget - (time.time() - t0)
        t = min(e["t"] if thorough else e["q"], max(5, left))
        te = time.time()
        env = dict(os.environ)
        for attempt in (0, 1):   # an engine that dies without a summary decided nothing: once more
            if not os.path.exists(out + "/summary.json"):
                subprocess.run([exe, bc, "-e", e["entry"], "-o", out, "-t", str(t), "-n", e["entry"], "-j", str(jobs), "-i", str(e["maxinstr"]), "--seed", str(seed), "-s", str(e.get("samples", 10))],
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=t + 120)
        try: s = json.load(open(out + "/summary.json"))
        except Exception: s = None
        return e, s, out, fs, time.time() - te
    # small entries share the machine; big ones run alone with every core
    with ThreadPoolExecutor(2 if len(entries) > 1 else 1) as ex:
        futs = [ex.submit(one, e, max(2, nproc // 2 + 1) if len(entries) > 1 else nproc) for e in entries]
        results = [f.result() for f in futs]
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], queries=0, solver_s=0.0, assertions_evaluated=0, assertion_queries=0, instructions=0, cut_by_assumption=0, exits_allowed=0,
               engine_gaps=0, unknown_queries=0, unconfirmed=0, bounds=registry.BOUNDS.get(pid, ""), functions_encoded=[], entries=[], models_used=[], complete=True, trace_mismatches=0)
    funcs = set(); models = set(); viol = []; kf = []; gaps = {}
    for e, s, out, fs, el in results:
        if s is None:
            cov["complete"] = False; cov["entries"].append(dict(entry=e["entry"], error="engine failed")); continue
        funcs |= set(s["functions"]); models |= set(s["models"])
        cov["states"] += s["leaves"]; cov["transitions"] += s["forks"]; cov["queries"] += s["queries"]; cov["solver_s"] += s["solverUs"] / 1e6
        cov["assertions_evaluated"] += s["asserts"]; cov["assertion_queries"] += s["assertQ"]; cov["instructions"] += s["instrs"]; cov["cut_by_assumption"] += s["pathsAssume"]
        cov["exits_allowed"] += s["pathsExit"]; cov["engine_gaps"] += s["pathsGap"]; cov["unknown_queries"] += s["unknown"]
        done = not s["timed_out"] and not s["lost_processes"] and s["pathsGap"] == 0
        cov["complete"] = cov["complete"] and done
        miss = [c for c in e["covers"] if c not in s["cover"]]
        cov["entries"].append(dict(entry=e["entry"], paths=s["leaves"], completed=s["pathsDone"], forks=s["forks"], queries=s["queries"], unsat=s["unsat"], seconds=round(el, 1), exhaustive_within_bounds=done, timed_out=s["timed_out"], reached=s["cover"], not_reached=miss, max_depth=s["maxDepth"]))
        for k, n in s["errors"]:
            if k.startswith("gap|"): gaps[k] = gaps.get(k, 0) + n
        errs = {}
        for p in sorted(glob.glob(out + "/err-*.json"), key=lambda x: int(re.findall(r"err-(\d+)", x)[0])):
            try: j = json.load(open(p))
            except Exception: continue
            if j["gap"]: continue
            errs.setdefault((j["kind"], j["msg"], j["fn"]), []).append(j)
        for key, js in list(errs.items())[:12]:
            if len(viol) >= 6: break
            tr = trees[tuple(e["defines"])]; conf = None
            for j in js[:3]:
                ok, how = confirm(tr, fs, e, j, work)
                if ok: conf = (j, how); break
            if not conf:
                cov["unconfirmed"] += 1; print("UNCONFIRMED (not reported): %s %s in %s: %s [%s]" % (e["entry"], key[0], key[2], key[1], how), flush=True); continue
            ident = "%s|%s|%s|%s" % (e["entry"], key[0], key[1], key[2])
            hit = next((k for k in known if fnmatch.fnmatch(ident, k["match"])), None)
            if hit: kf.append(hit["what"]); continue
            viol.append((e, conf[0], conf[1]))
        # the engine's own paths, replayed on the real code
        if e["validate"]:
            validate(trees[tuple(e["defines"])], fs, e, out, work, cov, e["validate"] if not thorough else e["validate"] * 3, t0, budget + 120)
    cov["functions_encoded"] = sorted(funcs); cov["functions_encoded_count"] = len(funcs); cov["models_used"] = sorted(models); cov["solver_s"] = round(cov["solver_s"], 2)
    cov["gaps"] = [[k, n] for k, n in sorted(gaps.items())][:20]
    os.makedirs(vlib.V + "/evidence", exist_ok=True)
    for i, (e, j, how) in enumerate(viol):
        rp = vlib.V + "/evidence/%s.replay.%d.json" % (pid, i)
        json.dump(dict(property=pid, file=e["file"], entry=e["entry"], defines=e["defines"], tier=tier, native=how, **j), open(rp, "w"), indent=1)
    if not cov["samples"]: cov["samples"] = [dict(entry=x["entry"], reached=x.get("reached")) for x in cov["entries"]][:3]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 1), violations=len(viol),
              assumptions=["compiled unoptimised to LLVM bitcode with clang 18, interpreted by /verif/symx; every reported violation is first reproduced by running the natively compiled sources on the solver's inputs",
                           "libc, MPI and external libraries are replaced by the models named in DESIGN.md", "bounds: " + str(registry.BOUNDS.get(pid, ""))])
    json.dump(ev, open(vlib.V + "/evidence/%s.json" % pid, "w"), indent=1)
    for w in sorted(set(kf)): print("KNOWN-FINDING: property=%s %s" % (pid, w))
    for x in cov["entries"]: print("  %s" % json.dumps({k: v for k, v in x.items() if k not in ("reached",)}))
    for k, n in cov["gaps"]: print("  GAP x%d %s" % (n, k))
    print("%s %s: %d paths, %d forks, %d queries (%.1fs solver), %d functions, complete=%s, %d traces validated, %.1fs" % (pid, tier, cov["states"], cov["transitions"], cov["queries"], cov["solver_s"], len(funcs), cov["complete"], cov["traces_validated_against_impl"], time.time() - t0))
    for i, (e, j, how) in enumerate(viol):
        print("  %s: %s in %s: %s; native replay: %s; inputs %s" % (e["entry"], j["kind"], j["fn"], j["msg"], how, [(x["name"], x["v"]) for x in j["inputs"]][:30]))
        print("VIOLATION property=%s replay=%s" % (pid, "evidence/%s.replay.%d.json" % (pid, i)))
    dead = [x["entry"] for x in cov["entries"] if x.get("error")]
    if dead and not viol: print("NO ANSWER: the engine failed on %s" % " ".join(dead)); return 2
    return 1 if viol else 0

def confirm(tr, fs, e, j, work):
    nr = j.get("nranks", 1); mode = "mpi" if nr > 1 else "asan"; how = "?"
    try:
        sc = os.path.join(work, "nat")
        shutil.rmtree(sc, ignore_errors=True)
        if j["kind"] == "uninit":
            x = tr.native(fs, e["entry"], "plain" if nr == 1 else "mpi")
            rc, err, logs = vlib.native_run(x, j["inputs"], sc, "plain", nr, timeout=90, valgrind=nr == 1)
            if vlib.reproduces("uninit", j["msg"], rc, err): return True, "valgrind: " + err[:300]
            how = "valgrind rc=%s" % rc
        x = tr.native(fs, e["entry"], mode)
        rc, err, logs = vlib.native_run(x, j["inputs"], sc, mode, nr, timeout=30 if nr == 1 else 40, sync=bool(j.get("rendezvous")))
        how = "%s rc=%s" % (vlib.outcome(rc, err), rc)
        if vlib.reproduces(j["kind"], j["msg"], rc, err): return True, how
        if j["kind"] in ("mem", "assert") and nr == 1:
            x = tr.native(fs, e["entry"], "plain"); rc, err, logs = vlib.native_run(x, j["inputs"], sc, "plain", nr, timeout=90, valgrind=True)
            if rc == 97 or vlib.reproduces(j["kind"], j["msg"], rc, err): return True, "valgrind rc=%s" % rc
    except vlib.BuildError as ex: how = "native build failed: %s" % str(ex)[-300:]
    return False, how

def validate(tr, fs, e, out, work, cov, n, t0, budget):
    paths = sorted(glob.glob(out + "/path-*.json"), key=lambda x: int(re.findall(r"path-(\d+)", x)[0]))
    step = max(1, len(paths) // n); chosen = paths[::step][-n:] if paths else []
    for p in chosen:
        if time.time() - t0 > budget: return
        j = json.load(open(p)); nr = j.get("nranks", 1); mode = "plain" if nr == 1 else "mpi"
        try: x = tr.native(fs, e["entry"], mode)
        except vlib.BuildError as ex: print("native build: %s" % str(ex)[-400:]); return
        sc = os.path.join(work, "nat"); shutil.rmtree(sc, ignore_errors=True)
        rc, err, logs = vlib.native_run(x, j["inputs"], sc, mode, nr, timeout=40)
        want = "exited" if j["exit"] else "done"
        ok = vlib.outcome(rc, err) == want and len(logs) == len(j["log"]) and all(a[0] == b[0] and (a[1] is None or a[1] == b[1]) for a, b in zip(j["log"], logs))
        if ok: cov["traces_validated_against_impl"] += 1
        else: cov["trace_mismatches"] += 1; print("TRACE-MISMATCH %s %s rc=%s %s" % (e["entry"], vlib.outcome(rc, err), rc, err[-200:]))
        if len(cov["samples"]) < 6: cov["samples"].append(dict(entry=e["entry"], inputs={"%d:%s" % (k, i["name"]): i["v"] for k, i in enumerate(j["inputs"][:40])}, observed=j["log"][:12], native="agrees" if ok else "differs"))
main()
