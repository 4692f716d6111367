"""Runs the lemmas of one property in forked workers."""
import importlib
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

from . import env

sys.path.insert(0, env.REPO)

WORKERS = int(os.environ.get('VERIF_JOBS', '8'))
MEM = 6 << 30


def intrinsics(E, ip):
    """Handlers of the functions of proofs.lib"""
    from proofs import lib
    from . import builtin_ops as ops
    from .engine import PyRaise, Infeasible
    from .interp import prove_equal
    from .terms import B, freeze, Unsupported
    import z3

    def h_prove(ip, fn, args, kw):
        if E.skip:
            E.skipped = True
            return
        t = ip.truth_term(args[0])
        E.prove(t, args[1] if isinstance(args[1], str) else 'obligation')

    def h_same(ip, fn, args, kw):
        if E.skip:
            E.skipped = True
            return
        prove_equal(E, args[0], args[1], args[2] if isinstance(args[2], str) else 'equality')

    def h_assume(ip, fn, args, kw):
        t = ip.truth_term(args[0])
        if isinstance(t, bool):
            if not t:
                raise Infeasible
            return
        E.assume(t)
        if not E.sat(z3.BoolVal(True)):
            raise Infeasible

    def h_snapshot(ip, fn, args, kw):
        return freeze(args[0], -1)

    def h_outcome(ip, fn, args, kw):
        try:
            return ('ok', ip.call_value(args[0], args[1:], {}))
        except PyRaise as e:
            return e.cls.__name__
    ip.contracts.update({lib.prove: h_prove, lib.same: h_same, lib.assume: h_assume,
                         lib.snapshot: h_snapshot, lib.outcome: h_outcome})


def run_lemma(lem, keep_smt=False, timeout=20000):
    from .engine import Engine, PyRaise
    from .interp import Interp
    from .terms import Unsupported
    from .engine import Abort
    t0 = time.time()
    E = Engine(timeout=timeout, keep_smt=keep_smt, linear=lem.linear)
    ip = Interp(E, ('ndspy', 'proofs'))
    intrinsics(E, ip)
    if lem.contracts is not None:
        lem.contracts(E, ip)
    error = None

    def go():
        if lem.setup is not None:
            lem.setup(E, ip)
        args = lem.build(E)
        ip.call_value(lem.body, list(args), {})
    try:
        E.run(go)
    except Unsupported as e:
        error = f'unsupported: {e}'
    except Abort as e:
        error = f'unsupported: {e}'
    except RecursionError:
        error = 'unsupported: recursion'
    obs = [{'name': o.name, 'status': o.status, 's': round(o.seconds, 4),
            **({'detail': o.detail[:3000], 'model': o.model} if o.status != 'proved' else {}),
            **({'smt': o.smt} if keep_smt and o.smt else {})}
           for o in E.obligations]
    missing = [c for c in lem.covers if c not in E.touched]
    if error is None and not E.ends:
        error = 'no path reaches the end of the lemma'
    if error is None and missing:
        error = f'not reached: {missing}'
    return {'lemma': lem.name, 'error': error, 'obligations': obs, 'paths': E.paths, 'ends': E.ends,
            'functions': sorted(k for k in E.touched if k.startswith('ndspy.')), 'queries': E.queries,
            'solver_s': round(E.solver_s, 2), 's': round(time.time() - t0, 2),
            'trusted': sorted(set(lem.trusted) | E.trusted), 'bounded': lem.bounded}


def load(prop):
    try:
        return importlib.import_module('proofs.' + prop.lower())
    except ModuleNotFoundError as e:
        if e.name not in ('proofs', 'proofs.' + prop.lower()):
            raise
        return None


def prove(lemmas, limit, keep_smt=False):
    """Results of all lemmas, in order; each in its own process"""
    results = [None] * len(lemmas)
    todo = list(range(len(lemmas)))
    running = {}
    end = time.time() + limit
    while todo or running:
        while todo and len(running) < WORKERS:
            i = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
                    sys.setrecursionlimit(20000)
                    res = run_lemma(lemmas[i], keep_smt)
                except BaseException as e:
                    res = {'lemma': lemmas[i].name, 'error': 'engine: ' + traceback.format_exc()[-1500:],
                           'obligations': [], 'paths': 0, 'ends': 0, 'functions': [], 'queries': 0,
                           'solver_s': 0, 's': 0, 'trusted': [], 'bounded': None}
                try:
                    with os.fdopen(w, 'w') as f:
                        json.dump(res, f)
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = (i, pid, time.time() + min(lemmas[i].timeout, max(end - time.time(), 1)), [])
        ready, _, _ = select.select(list(running), [], [], 0.2)
        for r in ready:
            chunk = os.read(r, 1 << 20)
            if chunk:
                running[r][3].append(chunk)
                continue
            i, pid, _, chunks = running.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                results[i] = json.loads(b''.join(chunks))
            except ValueError:
                results[i] = failed(lemmas[i], 'engine: the prover process died')
        for r in list(running):
            i, pid, until, chunks = running[r]
            if time.time() > until:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del running[r]
                results[i] = failed(lemmas[i], 'unproved: out of time')
    return results


class Model:
    """A counterexample of the solver: inputs of a lemma"""
    def __init__(self, m):
        self.m = m

    def int(self, name, default=0):
        v = self.m.get(name, default)
        return v if isinstance(v, int) else default

    def bool(self, name):
        return self.m.get(name) in (True, 'True')

    def fun(self, name, *args):
        f = self.m.get(f'fun {name}')
        if f is None:
            return 0
        for a, v in f['entries']:
            if a == list(args):
                return v
        return f['else']

    def bytes(self, name, *args, cap=100000):
        n = self.fun(f'len_{name}', *args) if args else self.int(f'len_{name}')
        if n > cap or n < 0:
            raise ValueError('too long')
        return bytes(self.fun(f'byte_{name}', *args, j) & 255 for j in range(n))


def failed(lem, why):
    return {'lemma': lem.name, 'error': why, 'obligations': [], 'paths': 0, 'ends': 0, 'functions': [],
            'queries': 0, 'solver_s': 0, 's': 0, 'trusted': [], 'bounded': None}


def unproved(res):
    """What is not proved in the result of a lemma"""
    out = []
    if res['error']:
        out.append(f"{res['lemma']}: {res['error']}")
    for o in res['obligations']:
        if o['status'] != 'proved':
            out.append(f"{res['lemma']}: {o['name']}: {o['status']}: {o.get('detail', '')[:600]}")
    return out


if __name__ == '__main__':
    sys.path.insert(0, env.ROOT)
    prop = sys.argv[1]
    mod = load(prop)
    lems = [l for l in mod.LEMMAS if len(sys.argv) < 3 or sys.argv[2] in l.name]
    if os.environ.get('INPROC'):
        sys.setrecursionlimit(20000)
        import vf.loops
        vf.loops.DEBUG = True
        rs = [run_lemma(l) for l in lems]
    else:
        rs = prove(lems, 3000)
    for r in rs:
        bad = unproved(r)
        print(f"{'ok ' if not bad else 'BAD'} {r['lemma']}: {len(r['obligations'])} obligations, {r['paths']} paths, "
              f"{r['ends']} ends, {r['queries']} queries, {r['solver_s']} s solver, {r['s']} s")
        for b in bad[:6]:
            print('   ', b)
