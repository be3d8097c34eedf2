"""Build the current /repo tree to bitcode, run the symbolic engine on harness entries, replay what it
finds against natively compiled real code, and write evidence."""
import os, sys, json, subprocess, tempfile, shutil, glob, time, hashlib, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYMX_REPO", "/repo")
NP = os.cpu_count() or 4
DEFS = ["-DNDEBUG", "-DENABLE_ExodusII", "-DMETIS_5", "-D_MSTK_HAVE_METIS", "-D_MSTK_HAVE_ZOLTAN"]
INC3 = ["-I/usr/include/trilinos", "-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
MPIENV = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
          "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_pml": "ob1", "OMPI_MCA_plm": "isolated", "OMP_NUM_THREADS": "1"}

class BuildError(Exception): pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def ensure_engine():
    b = os.path.join(V, "build"); exe = os.path.join(b, "symx")
    src = [os.path.join(V, "symx", f) for f in ("decode.cpp", "expr.cpp", "engine.cpp", "builtins.inc", "prog.h", "expr.h", "engine.h")]
    if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in src):
        r = run([os.path.join(V, "symx", "build.sh"), b])
        if r.returncode or not os.path.exists(exe): raise BuildError("engine build failed\n" + r.stdout.decode(errors="replace")[-3000:])
    return exe

class Tree:
    """One compilation of the working tree with a set of extra defines."""
    def __init__(self, work, extra=()):
        self.work = work; self.extra = list(extra); self.tag = hashlib.md5(repr(self.extra).encode()).hexdigest()[:6]
        self.dir = os.path.join(work, "t" + self.tag); os.makedirs(self.dir, exist_ok=True)
        self.inc = os.path.join(work, "inc"); os.makedirs(self.inc, exist_ok=True)
        self._defines()
        self.srcs = sorted(glob.glob(REPO + "/src/**/*.c", recursive=True))
        self.srcs = [s for s in self.srcs if not os.path.basename(s).startswith(".")]
        self.flags = ["-std=c99"] + DEFS + self.extra + ["-I" + self.inc, "-I" + V + "/rt"] + INC3
        self._bc = None; self._nat = {}; self._obj = {}
    def _defines(self):
        cm = open(REPO + "/CMakeLists.txt", errors="replace").read()
        def ver(n):
            m = re.search(r"MSTK_VERSION_%s\s+(\d+)" % n, cm); return m.group(1) if m else "0"
        for h in glob.glob(REPO + "/include/*.h"): shutil.copy(h, self.inc)
        p = REPO + "/include/MSTK_defines.h"; p = p if os.path.exists(p) else REPO + "/include/MSTK_defines.h.in"
        txt = open(p, errors="replace").read()
        for n in ("MAJOR", "MINOR", "PATCH"): txt = txt.replace("@MSTK_VERSION_%s@" % n, ver(n))
        txt = re.sub(r"#cmakedefine\s+MSTK_HAVE_MPI\b.*", "#define MSTK_HAVE_MPI", txt)
        txt = re.sub(r"#cmakedefine\s+(\w+).*", r"/* #undef \1 */", txt)
        open(self.inc + "/MSTK_defines.h", "w").write(txt)
    def _cc(self, src, out, cmd):
        r = run(cmd + [src, "-o", out])
        if r.returncode: raise BuildError("cannot compile %s\n%s" % (src, r.stdout.decode(errors="replace")[-3000:]))
        return out
    def bitcode(self):
        if self._bc: return self._bc
        cmd = ["clang-18", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-fno-math-errno", "-ffp-contract=off", "-emit-llvm", "-c", "-w"] + self.flags
        def one(s):
            o = os.path.join(self.dir, hashlib.md5(s.encode()).hexdigest()[:10] + "_" + os.path.basename(s) + ".bc"); return self._cc(s, o, cmd)
        with ThreadPoolExecutor(NP) as ex: objs = list(ex.map(one, self.srcs))
        out = os.path.join(self.dir, "mstk.bc")
        r = run(["llvm-link-18", "-o", out] + objs)
        if r.returncode: raise BuildError("llvm-link\n" + r.stdout.decode(errors="replace")[-3000:])
        self._bc = out; return out
    def harness_bc(self, entries_files, key, entry_names):
        cmd = ["clang-18", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-fno-math-errno", "-ffp-contract=off", "-emit-llvm", "-c", "-w", "-DSYMX"] + self.flags + ["-I" + V + "/harness"]
        objs = []
        for f in entries_files + [V + "/rt/libmodel.c"] + sorted(glob.glob(V + "/models/*.c")):
            o = os.path.join(self.dir, "h_" + key + "_" + os.path.basename(f) + ".bc"); objs.append(self._cc(f, o, cmd))
        out = os.path.join(self.dir, "all_" + key + ".bc")
        r = run(["llvm-link-18", "-o", out + ".0", self.bitcode()] + objs)
        if r.returncode: raise BuildError("llvm-link\n" + r.stdout.decode(errors="replace")[-3000:])
        r = run(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entry_names), "-o", out, out + ".0"])
        if r.returncode: raise BuildError("opt\n" + r.stdout.decode(errors="replace")[-3000:])
        os.unlink(out + ".0"); return out
    NATFLAGS = {"asan": ["gcc", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment,shift,signed-integer-overflow,float-divide-by-zero,float-cast-overflow,nonnull-attribute,pointer-overflow"],
                "plain": ["gcc", "-g", "-O0"], "mpi": ["gcc", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"]}
    def native_objs(self, mode):
        if mode in self._obj: return self._obj[mode]
        cmd = self.NATFLAGS[mode] + ["-w", "-c", "-ffp-contract=off"] + self.flags
        d = os.path.join(self.dir, "n_" + mode); os.makedirs(d, exist_ok=True)
        def one(s): return self._cc(s, os.path.join(d, hashlib.md5(s.encode()).hexdigest()[:10] + ".o"), cmd)
        with ThreadPoolExecutor(NP) as ex: objs = list(ex.map(one, self.srcs))
        lib = os.path.join(d, "libm.a"); r = run(["ar", "rcs", lib] + objs)
        if r.returncode: raise BuildError("ar")
        self._obj[mode] = lib; return lib
    def native(self, files, entry, mode):
        k = (tuple(files), entry, mode)
        if k in self._nat: return self._nat[k]
        lib = self.native_objs(mode); exe = os.path.join(self.dir, "x_%s_%s" % (entry, mode))
        mpi = mode == "mpi"
        cmd = self.NATFLAGS[mode] + ["-w", "-ffp-contract=off", "-DSX_ENTRY=" + entry] + (["-DSX_MPI"] if mpi else []) + self.flags + ["-I" + V + "/harness"] + files + [V + "/rt/sxrt.c"] + sorted(glob.glob(V + "/models/*.c")) + ([] if mpi else [V + "/rt/mpistub.c"]) + \
            ["-o", exe, "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free", "-Wl,--unresolved-symbols=ignore-in-object-files", "-Wl,--start-group", lib, "-Wl,--end-group", "-lm"] + (["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"] if mpi else [])
        cmd = [c for c in cmd if c != "-std=c99"] + ["-std=gnu99"]
        r = run(cmd)
        if r.returncode: raise BuildError("native harness link\n" + r.stdout.decode(errors="replace")[-3000:])
        self._nat[k] = exe; return exe

def native_run(exe, inputs, scratch, mode, nranks=1, timeout=40, valgrind=False, sync=False):
    os.makedirs(scratch, exist_ok=True)
    open(scratch + "/inputs", "w").write("".join("%s %d %d\n" % (i["name"], i["kind"], i["v"] if i["v"] < 2**63 else i["v"] - 2**64) for i in inputs))
    env = dict(os.environ); env.update(MPIENV); env.update(SX_INPUTS=scratch + "/inputs", SX_LOG=scratch + "/log", SX_SHM=scratch + "/shm", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=98", TMPDIR=scratch)
    if sync: env["OMPI_MCA_btl_vader_eager_limit"] = "64"
    for f in ("log", "shm"):
        try: os.unlink(scratch + "/" + f)
        except OSError: pass
    cmd = [exe]
    if valgrind: cmd = ["valgrind", "-q", "--error-exitcode=97", "--undef-value-errors=yes", "--leak-check=no"] + cmd
    if nranks > 1: cmd = ["mpiexec", "-n", str(nranks)] + cmd
    try:
        p = subprocess.Popen(cmd, cwd=scratch, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        try: _, err = p.communicate(timeout=timeout); rc = p.returncode
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = "timeout"; err = b""
    except OSError as e: return "oserror", str(e), []
    err = err.decode(errors="replace"); logs = []
    try:
        for l in open(scratch + "/log", errors="replace"):
            q = l.rstrip("\n").split("\t")
            if q[0] == "log": logs.append([q[1], int(q[2])])
    except OSError: pass
    return rc, err, logs

def outcome(rc, err):
    """classify a native run"""
    if rc == "timeout": return "hang"
    m = re.search(r"SXRESULT (\w+): (.*)", err)
    if "AddressSanitizer" in err: return "mem"
    if "runtime error:" in err: return "mem"
    if m: return m.group(1)
    if isinstance(rc, int) and (rc < 0 or rc >= 128 or rc == 97): return "mem" if rc != 97 else "uninit"
    return "rc%s" % rc

def reproduces(kind, msg, rc, err):
    o = outcome(rc, err)
    if kind == "assert":
        if o == "assert": return True
        return o in ("mem", "exit")
    if kind == "mem": return o == "mem" or o == "exit" or o == "assert"
    if kind == "exit": return o in ("exit", "mem")
    if kind == "hang": return o in ("hang", "mem")
    if kind == "mpi": return o in ("hang", "mpi", "mem", "exit", "assert") or (isinstance(rc, int) and rc not in (0, 78, 79))
    if kind == "uninit": return o == "mem" or rc == 97
    return False
