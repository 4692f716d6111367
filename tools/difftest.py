#!/usr/bin/env python3-vt
"""difftest.py [property ...]: compares the interpreter of the proofs with
CPython on calls of the real code. Exit 0 when they agree."""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import env, run, diff

ap = argparse.ArgumentParser()
ap.add_argument('properties', nargs='*')
ap.add_argument('--cases', type=int, default=200)
ap.add_argument('--each', type=int, default=4, help='calls per function')
ap.add_argument('--wall', type=int, default=120, help='seconds per property')
ap.add_argument('--verbose', action='store_true')
a = ap.parse_args()
sys.setrecursionlimit(20000)
code = 0
for prop in a.properties or [f'C{i:02}' for i in range(1, 25)]:
    counts, functions, bad = diff.compare(run.load(prop), prop, a.cases, a.each, env.SEED, a.wall)
    print(prop, ', '.join(f'{v} {k}' for k, v in counts.items()), f'({len(functions)} functions)', flush=True)
    for f, r in bad:
        if r.startswith('differs'):
            code = 1
        if a.verbose or r.startswith('differs'):
            print('   ', f, r[:400], flush=True)
sys.exit(code)
