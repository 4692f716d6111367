#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]

Decides one property on the current tree of /repo. Exit 0: it held on
everything covered. Exit 1 and a VIOLATION line: it does not. Anything else:
the check itself failed."""
import argparse
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import diff, env, prove, run


def findings(prop):
    out = {}
    with open(os.path.join(env.ROOT, 'known_findings.txt')) as f:
        for line in f:
            w = line.split()
            if len(w) > 3 and w[0] == 'finding:' and w[1] == f'property={prop}':
                out[w[2].split('=', 1)[1]] = ' '.join(w[3:])
    return out


def write_replay(prop, kind, **kw):
    path = os.path.join(env.EVIDENCE, f'{prop}-replay.json')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'kind': kind, 'rerun': f'python3-vt {env.ROOT}/tools/replay.py {path}', **kw}, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default='quick', choices=('quick', 'thorough'))
    a = ap.parse_args()
    prop, tier = a.property.upper(), a.tier
    quick = tier == 'quick'
    os.makedirs(env.EVIDENCE, exist_ok=True)
    t0 = time.time()
    mod = run.load(prop)
    ev = {'property': prop, 'tier': tier, 'seed': env.SEED, 'level': 'other', 'coverage': {}, 'assumptions': [], 'violations': 0}
    line = None

    def finish(code):
        ev['wall_s'] = round(time.time() - t0, 2)
        ev['violations'] = int(code == 1)
        with open(os.path.join(env.EVIDENCE, f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if line:
            print(line)
        print(f'{prop} {tier}: ' + ('held' if code == 0 else 'VIOLATED' if code == 1 else 'check error') + f' ({ev["wall_s"]} s)')
        return code

    # 1. the contracts at run time, on concrete inputs of the real code
    count = mod.QUICK * 5 if quick else mod.THOROUGH * 10
    conc = run.concrete(mod, prop, count, env.SEED, 200 if quick else 3000)
    cov = ev['coverage']
    cov['run_time_contracts'] = {'evaluations': conc['n'], 'distinct': len(conc['distinct']), 'cut_by_time': conc['cut'], 'samples': conc['samples'][:3]}
    if conc['errors']:
        print('\n'.join(conc['errors']), file=sys.stderr)
        if not conc['fail']:
            cov['explanation'] = 'the check itself failed'
            return finish(2)
    known = findings(prop)
    for key, what in getattr(mod, 'known', lambda: ())():
        if key in known:
            print(f'KNOWN-FINDING: property={prop} {known[key]}')
        elif not conc['fail']:
            conc['fail'] = (-1, repr(key), what)
    if conc['fail']:
        i, case, what = conc['fail']
        path = write_replay(prop, 'input', case=case, broken=what)
        print(f'{prop}: {what}')
        cov['explanation'] = 'a concrete input breaks a contract'
        line = f'VIOLATION property={prop} replay={path}'
        return finish(1)

    # 2. the proof obligations generated from the current source
    proofs = prove.load(prop)
    if proofs is None:
        cov['explanation'] = 'contracts evaluated at run time on concrete inputs (bounded)'
        return finish(0)
    lemmas = list(proofs.LEMMAS) + ([] if quick else list(getattr(proofs, 'THOROUGH', [])))
    results = prove.prove(lemmas, 500 if quick else 3600)
    record(ev, proofs, results)
    bad = [b for r in results for b in prove.unproved(r)]
    if not bad and not cov['obligations']:
        print('no obligations were generated', file=sys.stderr)
        return finish(2)
    if not bad:
        # the interpreter the proofs rest on, against CPython
        counts, compared, odd = diff.compare(mod, prop, 60 if quick else 1000, 1 if quick else 6, env.SEED, 6 if quick else 180)
        cov['interpreter_against_cpython'] = counts | {'functions': len(compared)}
        odd = [o for o in odd if o[1].startswith('differs')]
        if odd:
            print(f'the interpreter disagrees with CPython: {odd[0]}', file=sys.stderr)
            return finish(2)
        return finish(0)

    # 3. a failing proof: look for an input that shows it
    for b in bad[:10]:
        print(f'{prop}: not proved: {b}')
    for i, r in enumerate(results):
        f = lemmas[i].case
        for o in r['obligations'] if f else ():
            if o['status'] == 'proved' or not o.get('model'):
                continue
            try:
                case = f(prove.Model(o['model']))
            except Exception:
                continue
            what = run.run_case(mod, case) if case is not None else None
            if what:
                path = write_replay(prop, 'input', case=repr(case), broken=what)
                print(f'{prop}: {what}')
                line = f'VIOLATION property={prop} replay={path}'
                return finish(1)
    more = run.concrete(mod, prop, mod.THOROUGH * 10, env.SEED + 1, 120)
    if more['fail']:
        i, case, what = more['fail']
        path = write_replay(prop, 'input', case=case, broken=what)
        print(f'{prop}: {what}')
        line = f'VIOLATION property={prop} replay={path}'
        return finish(1)
    path = write_replay(prop, 'obligation', unproved=bad)
    line = f'VIOLATION property={prop} replay={path} no-failing-input-found'
    return finish(1)


def record(ev, proofs, results):
    """Evidence of the proof part"""
    cov = ev['coverage']
    n = sum(len(r['obligations']) for r in results)
    done = sum(o['status'] == 'proved' for r in results for o in r['obligations'])
    full = getattr(proofs, 'LEVEL', 'proof')
    ev['level'] = full
    cov['obligations'], cov['discharged'] = n, done
    cov['checker_cmd'] = f"python3-vt -m vf.prove {ev['property']}"
    cov['trusted_base'] = sorted({t for r in results for t in r['trusted']} | set(getattr(proofs, 'TRUSTED', ()))) + [
        'the semantics of Python in vf/interp.py and vf/builtin_ops.py (compared with CPython in this run and by tools/difftest.py)',
        'the z3 solver']
    cov['lemmas'] = [{k: r[k] for k in ('lemma', 'paths', 'ends', 'queries', 'solver_s', 's', 'bounded')} |
                     {'obligations': len(r['obligations']), 'functions': r['functions']} for r in results]
    cov['functions_under_contract'] = sorted({f for r in results for f in r['functions']})
    cov['bounded'] = list(getattr(proofs, 'BOUNDED', ())) + [f"{r['lemma']}: {r['bounded']}" for r in results if r['bounded']]
    cov['explanation'] = 'obligations generated from the source of the tree and discharged by z3; the same contracts evaluated at run time'
    if full != 'proof':
        cov['explanation'] += '; not a proof of the whole property: ' + '; '.join(cov['bounded'])
    ev['assumptions'] = list(getattr(proofs, 'ASSUMPTIONS', ()))


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
