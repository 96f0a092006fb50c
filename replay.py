#!/usr/bin/env python3-vt
"""replay.py <file> : runs the recorded counterexamples of a check on /repo's compiled code."""
import sys, os, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
import build, check
d = tempfile.mkdtemp(prefix='ptsx-')
try:
    bad = 0
    bins = {}
    for l in open(sys.argv[1]):
        if l.startswith('#') or not l.strip(): continue
        g, case = l.strip().split(' ', 1)
        g = g[6:]
        if g not in bins: bins[g] = build.build_native(g, d)
        o = check.native(bins[g], [case], d)
        print(case, '=>', o[0])
        bad += not o[0].startswith('OK')
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if bad else 0)
