#!/bin/bash
# runall.sh HARNESS [PATTERN] [extra args]: run every entry, print a digest (author's tool)
cd /verif; h=$1; p=${2:-.}; shift; shift
for e in $(grep -o "^void h_[A-Za-z0-9_]*" harness/$h | cut -c6- | grep -E "$p"); do echo "== $e"; s=$(date +%s.%N); timeout 300 python3 symrun.py harness/$h $e -t ${T:-60} "$@" > /tmp/ra.out 2>&1; grep -o "'timed_out': [A-Za-z]*\|'pathsDone': [0-9]*\|'pathsErr': [0-9]*\|'pathsAssume': [0-9]*\|'pathsGap': [0-9]*\|'unknown': [0-9]*\|'cover': {[^}]*}" /tmp/ra.out | tr '\n' ' '; echo; grep -v "^{" /tmp/ra.out | cut -c1-420 | head -${N:-5}; echo "   $(echo "$(date +%s.%N) - $s" | bc) s"; done
