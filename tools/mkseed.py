#!/usr/bin/env python3
"""mkseed.py SPEC.py : build /verif/seeded/<id> from a spec (id, prop, edits=[(file, old, new)], demo (C), needs, breaks, nranks). Author's tool, not used by any check."""
import sys, os, json, subprocess, shutil, tempfile
ns = {}; exec(open(sys.argv[1]).read(), ns)
D = "/verif/seeded/" + ns["id"]; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
w = tempfile.mkdtemp()
subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (w, w), shell=True, check=True)
for f, old, new in ns["edits"]:
    s = open(w + "/" + f).read(); assert s.count(old) == 1, (f, s.count(old)); open(w + "/" + f, "w").write(s.replace(old, new))
open(D + "/patch.diff", "wb").write(subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, check=True).stdout)
shutil.rmtree(w)
open(D + "/demo.c", "w").write(ns["demo"].lstrip())
nr = ns.get("nranks", 1); san = ns.get("san", True)
open(D + "/demo.sh", "w").write("""#!/bin/bash
# run in /repo after the build: exit 0 when the library behaves
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d) || exit 3; trap 'rm -rf "$W"' EXIT
cp include/*.h "$W"/
sed -e 's/@MSTK_VERSION_[A-Z]*@/3/g' -e 's/#cmakedefine *MSTK_HAVE_MPI.*/#define MSTK_HAVE_MPI/' -e 's/#cmakedefine.*//' include/MSTK_defines.h > "$W"/MSTK_defines.h
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated TMPDIR="$W"
mpicc -w -std=gnu99 -g -O0 -DNDEBUG -DENABLE_ExodusII -DMETIS_5 -D_MSTK_HAVE_METIS -D_MSTK_HAVE_ZOLTAN -I"$W" -I/usr/include/trilinos "$H"/demo.c $(find "$R"/_build -maxdepth 2 -name libmstk.a) -lexoIIv2c -lmetis -ltrilinos_zoltan -lm -o "$W"/demo 2> "$W"/cc.log || { cat "$W"/cc.log; exit 3; }
cd "$W" && timeout 120 %s./demo > out.log 2>&1; rc=$?
tail -5 out.log; exit $rc
""" % ("" if nr == 1 else "mpiexec -n %d " % nr))
os.chmod(D + "/demo.sh", 0o755)
json.dump(dict(property=ns["prop"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(D + "/meta.json", "w"), indent=1)
print(D)
