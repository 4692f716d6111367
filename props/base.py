"""Shared helpers of the run-time contracts."""


class Broken(Exception):
    """A postcondition, invariant or frame condition does not hold."""


def eq(what, got, want):
    if got != want or type_mismatch(got, want):
        raise Broken(f'{what}: got {short(got)}, expected {short(want)}')


def type_mismatch(a, b):
    # True == 1 and 1.0 == 1 in Python; floats are never expected.
    return isinstance(a, float) != isinstance(b, float)


def ensure(cond, what):
    if not cond:
        raise Broken(what)


def short(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...(%d)' % len(r)


def raises(exc, what, f, *a, **k):
    try:
        r = f(*a, **k)
    except exc:
        return
    raise Broken(f'{what}: expected {exc}, got {short(r)}')
