import json, sys
sys.path.insert(0, "/verif")
import registry
NA = {}
try: NA = json.load(open("/verif/tools/na.json"))
except Exception: pass
ps = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = dict(version=1, setup_cmd="symx/build.sh build", checks=[], not_applicable=[],
  notes="Every check compiles /repo's current sources to LLVM bitcode, executes them symbolically with /verif/symx (z3 decides every branch and assertion), replays each violation on natively compiled sources before reporting it, and validates sampled paths the same way. See DESIGN.md.")
for p in ps:
    i = p["id"]
    if i in registry.CHECKS:
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
          technique="symbolic execution of the real code (LLVM bitcode) with z3", level="model_checking",
          level_note="Bounded: " + registry.BOUNDS[i] + ". Trusted: clang front end, the symx interpreter and its libc/MPI/file models (sampled paths are replayed natively), z3."))
    else: m["not_applicable"].append(dict(property=i, reason=NA.get(i, "No check built for this property yet.")))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
