#!/usr/bin/env python3-vt
"""replay.py <replay file>: runs the recorded input again on the current tree."""
import ast
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import run

r = json.load(open(sys.argv[1]))
print(r['property'], r['kind'])
if r['kind'] != 'input':
    # obligations that were not discharged: try those lemmas again
    from vf import prove
    print('recorded:', *r['unproved'], sep='\n  ')
    proofs = prove.load(r['property'])
    lemmas = [l for l in list(proofs.LEMMAS) + list(getattr(proofs, 'THOROUGH', []))
              if any(u.startswith(l.name + ': ') for u in r['unproved'])]
    now = [b for res in prove.prove(lemmas, 800) for b in prove.unproved(res)]
    print('now:', *(now or ['proved']), sep='\n  ')
    sys.exit(1 if now or not lemmas else 0)
bad = run.run_case(run.load(r['property']), ast.literal_eval(r['case']))
print('case:', r['case'][:2000])
print('recorded:', r['broken'])
print('now:', bad or 'holds')
sys.exit(1 if bad else 0)
