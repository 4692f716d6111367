#!/usr/bin/env python3-vt
"""Writes MANIFEST.json."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import prove  # noqa: E402

checks = []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)['id']
    m = prove.load(p)
    if m is None:
        level = 'other'
        note = 'Contracts evaluated at run time on concrete inputs (bounded stand-in); no unbounded claim.'
    else:
        level = getattr(m, 'LEVEL', 'proof')
        note = 'Obligations generated from the real source by symbolic interpretation and discharged by z3, for inputs of any size.'
        bounded = list(getattr(m, 'BOUNDED', ())) + [x.bounded for x in m.LEMMAS if x.bounded]
        if bounded:
            note += ' Bounded parts (not counted as proved): ' + '; '.join(bounded) + '.'
        note += ' Contracts are also evaluated at run time on concrete inputs.'
    c = {'property': p, 'quick_cmd': f'python3-vt /verif/check.py {p} --tier quick',
         'thorough_cmd': f'python3-vt /verif/check.py {p} --tier thorough',
         'evidence_file': f'/verif/evidence/{p}.json',
         'technique': 'contract-based deductive verification of the real code', 'level': level, 'level_note': note}
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': []}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
