"""Which harness entries decide which property.  E(file, entry, quick seconds, thorough seconds, options)."""
def E(file, entry, q=60, t=600, **kw):
    d = dict(file=file, entry=entry, q=q, t=t, tier="both", defines=[], maxinstr=60000000, validate=2, covers=[])
    d.update(kw); return d
CHECKS = {}
BOUNDS = {}
def check(pid, bounds, entries): CHECKS[pid] = entries; BOUNDS[pid] = bounds

import importlib, os, glob
for _f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "reg_*.py"))):
    exec(open(_f).read())
