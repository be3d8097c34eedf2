#!/usr/bin/env python3
"""cov.py COVFILE [regex] [-l]: lines of /repo's functions reached / not reached (author's tool; run the checks with SYMX_COV=COVFILE first)."""
import sys, re, collections
L = collections.defaultdict(int); F = {}
for l in open(sys.argv[1]):
    q = l.rsplit(" ", 3); k = (q[0], int(q[2])); L[k] |= int(q[3]); F[k] = q[1]
rx = re.compile(sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else "/src/")
by = collections.defaultdict(list); ex = collections.defaultdict(int)
for (f, n), h in L.items(): ex[(f, F[(f, n)])] |= h
for (f, n), h in sorted(L.items()):
    if rx.search(f) and ex[(f, F[(f, n)])]: by[f].append((n, h))
for f, x in sorted(by.items()):
    m = [n for n, h in x if not h]; print("%4d/%4d missed  %s" % (len(m), len(x), f))
    if "-l" in sys.argv:
        src = open(f, errors="replace").read().split("\n")
        for n in m: print("      %5d %s" % (n, src[n - 1][:150]))
