#!/usr/bin/env python3
"""Ad-hoc: symrun.py harness.c entry [-t secs] [-v] : run one harness entry (development aid)."""
import sys, os, json, glob, tempfile, subprocess, shutil
import vlib
a = sys.argv[1:]; f = os.path.abspath(a[0]); e = a[1]; extra = []; t = "120"; v = []; rep = False; more = []
i = 2
while i < len(a):
    if a[i] == "-t": t = a[i+1]; i += 1
    elif a[i] == "-v": v.append("-v")
    elif a[i] == "-r": rep = True
    elif a[i] == "-i": more += ["-i", a[i+1]]; i += 1
    elif a[i] == "-j": more += ["-j", a[i+1]]; i += 1
    else: extra.append(a[i])
    i += 1
w = "/tmp/symrun"; os.makedirs(w, exist_ok=True)
exe = vlib.ensure_engine()
tr = vlib.Tree(w, extra)
fs = [f] + [x for x in glob.glob(vlib.V + "/harness/common*.c") if x != f]
try: bc = tr.harness_bc(fs, "adhoc" + str(os.getpid()), [e])
except vlib.BuildError as ex: print("\n".join(l for l in str(ex).split("\n") if "error" in l)[:2000]); sys.exit(2)
out = w + "/out" + str(os.getpid()); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
subprocess.run([exe, bc, "-e", e, "-o", out, "-t", t, "-n", e] + v + more, stdout=subprocess.DEVNULL)
s = json.load(open(out + "/summary.json")); fn = s.pop("functions"); print({k: s[k] for k in ("timed_out","lost_processes","pathsDone","pathsAssume","pathsExit","pathsErr","pathsGap","instrs","queries","unknown","hangs","crashes","solverUs","forks","leaves","maxDepth","cover")}, len(fn), "functions", s.get("seconds", ""))
for k, n in s["errors"][:30]: print("  ERR x%d %s" % (n, k))
for p in sorted(glob.glob(out + "/err-*.json")):
    j = json.load(open(p)); print(j["kind"], "|", j["msg"], "|", j["stack"][:6], j["note"], " ".join("%s=%d" % (x["name"], x["v"]) for x in j["inputs"][:40]))
    if rep and not j["gap"]:
        mode = "mpi" if j["rank"] >= 0 else "asan"
        x = tr.native(fs, e, mode); rc, err, logs = vlib.native_run(x, j["inputs"], out + "/nat", mode, nranks=1); print("   native:", rc, vlib.outcome(rc, err), err[-300:] if rc not in (77,) else "")
if rep:
    for p in sorted(glob.glob(out + "/path-*.json")):
        j = json.load(open(p)); x = tr.native(fs, e, "asan"); rc, err, logs = vlib.native_run(x, j["inputs"], out + "/nat", "asan")
        ok = rc == 0 and all(b[1] is None or b == c for b, c in zip(j["log"], logs)) and len(logs) == len(j["log"]); print("path", ok, rc, "" if ok else (err[-300:], j["log"][:9], logs[:9]))
os.unlink(bc); shutil.rmtree(out, ignore_errors=True)
