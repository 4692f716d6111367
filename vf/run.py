"""Runs the contracts of one property on concrete inputs (forked workers), and
decides the outcome of a check."""
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

from . import env

WORKERS = int(os.environ.get('VERIF_JOBS', '8'))
CASE_TIMEOUT = 60
MEM = 3 << 30


class CaseTimeout(Exception):
    pass


def _alarm(sig, frame):
    raise CaseTimeout(f'no result within {CASE_TIMEOUT} s')


def cases(mod, prop, count, seed):
    """(index, case) of the run: boundary cases, then generated ones."""
    i = 0
    for c in mod.boundary():
        yield i, lambda c=c: c
        i += 1
    for k in range(count):
        yield i, lambda k=k: mod.gen(random.Random(f'{prop}/{seed}/{k}'))
        i += 1


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for f in reversed(tb):
        if f.filename.startswith(env.REPO):
            where = f' at {os.path.relpath(f.filename, env.REPO)}:{f.lineno} in {f.name}'
            break
    return f'{type(e).__name__}: {e}{where}'[:2000]


def run_case(mod, case):
    """None when the contracts hold for the case, otherwise what is broken."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        mod.check(case)
    except Exception as e:
        return describe(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def _worker(mod, prop, count, seed, w, deadline, path):
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    out = {'n': 0, 'digests': [], 'fail': None, 'samples': [], 'cut': False, 'error': None}
    try:
        for i, mk in cases(mod, prop, count, seed):
            if i % WORKERS != w:
                continue
            if time.time() > deadline:
                out['cut'] = True
                break
            try:
                case = mk()
            except Exception as e:
                out['error'] = 'generator: ' + ''.join(traceback.format_exception(e))[-3000:]
                break
            bad = run_case(mod, case)
            out['n'] += 1
            r = repr(case)
            out['digests'].append(hashlib.blake2b(r.encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest())
            if len(out['samples']) < 2 and 10 < len(r) < 400:
                out['samples'].append(r)
            if bad:
                out['fail'] = (i, r, bad)
                break
    except BaseException as e:
        out['error'] = ''.join(traceback.format_exception(e))[-3000:]
    with open(path, 'w') as f:
        json.dump(out, f)
    os._exit(0)


def concrete(mod, prop, count, seed, wall):
    """Runs the cases on all cores. Returns a dict with counts and the first failing case."""
    deadline = time.time() + wall
    tmp = os.path.join(env.EVIDENCE, f'.work-{os.getpid()}')
    os.makedirs(tmp, exist_ok=True)
    sys.stdout.flush()
    pids = {}
    for w in range(WORKERS):
        pid = os.fork()
        if pid == 0:
            _worker(mod, prop, count, seed, w, deadline, f'{tmp}/{w}')
        pids[pid] = w
    res = {'n': 0, 'distinct': set(), 'fail': None, 'samples': [], 'cut': False, 'errors': []}
    while pids:
        pid, st = os.wait()
        if pid not in pids:
            continue
        w = pids.pop(pid)
        try:
            with open(f'{tmp}/{w}') as f:
                o = json.load(f)
            os.unlink(f'{tmp}/{w}')
        except Exception:
            res['errors'].append(f'worker {w} ended with status {st}')
            continue
        res['n'] += o['n']
        res['distinct'].update(o['digests'])
        res['samples'] += o['samples']
        res['cut'] |= o['cut']
        if o['error']:
            res['errors'].append(o['error'])
        if o['fail'] and (res['fail'] is None or o['fail'][0] < res['fail'][0]):
            res['fail'] = o['fail']
    os.rmdir(tmp)
    return res


def load(prop):
    return importlib.import_module('props.' + prop.lower())
