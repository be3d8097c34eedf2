"""fill the tables of DESIGN.md from DESIGN.in.md, the registry, known_findings.json and seeded/ (author's tool)"""
import json, sys, os, glob
sys.path.insert(0, "/verif"); import registry
D = json.load(open("/verif/tools/how.json")); NA = {}
try: NA = json.load(open("/verif/tools/na.json"))
except Exception: pass
ps = [json.loads(l) for l in open("/verif/properties.jsonl")]
t = ""
for p in ps:
    i = p["id"]
    if i in registry.CHECKS: t += "| %s %s | %s. Bounds: %s. Harness: %s | %s |\n" % (i, p["title"], D.get(i, ["symbolic execution of the operations", ""])[0], registry.BOUNDS[i], ", ".join(sorted(set(e["file"] for e in registry.CHECKS[i]))), D.get(i, ["", "direct assertions"])[1])
    else: t += "| %s %s | not applicable: %s | |\n" % (i, p["title"], NA.get(i, "no check built yet"))
f = "".join("* " + x[len("fixed: property="):] + "\n" for x in json.load(open("/verif/known_findings.json"))["fixed"])
k = "".join("* known finding: " + json.dumps(x) + "\n" for x in json.load(open("/verif/known_findings.json"))["findings"])
s = "| change | property | caught by | needs |\n|---|---|---|---|\n"; C = {}
try: C = json.load(open("/verif/tools/caught.json"))
except Exception: pass
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); s += "| %s | %s | %s | %s |\n" % (i, m["property"], C.get(i, "not run yet"), m["needs"])
x = open("/verif/DESIGN.in.md").read().replace("PROPTABLE\n", t + "\n").replace("FIXTABLE\n", f + k + "\n").replace("SEEDTABLE\n", s)
open("/verif/DESIGN.md", "w").write(x)
