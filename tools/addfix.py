#!/usr/bin/env python3
# addfix.py Cxx <commit> "what failed": record a repaired defect (author's tool)
import json, sys
p = '/verif/known_findings.json'; d = json.load(open(p)); d['fixed'].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4])); json.dump(d, open(p, 'w'), indent=1)
