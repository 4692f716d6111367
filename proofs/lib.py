"""
Vocabulary of the sidecar contracts in this package.

A lemma has a native part that builds arbitrary (symbolic) inputs and a
body that is interpreted over them: it calls the real code and states what
must hold with the functions below.
"""


def prove(cond, what):
    """cond holds"""
    if not cond:
        raise AssertionError(what)


def same(a, b, what):
    """a and b have the same content"""
    if content(a) != content(b):
        raise AssertionError(f'{what}: {content(a)!r} != {content(b)!r}')


def assume(cond):
    """Restrict to inputs for which cond holds"""
    if not cond:
        raise OutOfDomain()


def snapshot(x):
    """The content of x now, to compare with later"""
    import copy
    return copy.deepcopy(x)


def outcome(f, *args):
    """('ok', result), or the name of the exception class"""
    try:
        return ('ok', f(*args))
    except Exception as e:
        return type(e).__name__


class OutOfDomain(Exception):
    pass


def content(x, depth=0):
    """Plain data for an object graph"""
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if x is None or isinstance(x, (int, str, float)):
        return x
    if isinstance(x, (list, tuple)):
        return [content(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    if isinstance(x, dict):
        return [(content(k), content(v, depth + 1)) for k, v in x.items()]
    return (type(x).__name__, {k: content(v, depth + 1) for k, v in vars(x).items()})


class Lemma:
    """
    build(E) -> arguments of body; body is interpreted.
    contracts(E, ip): install contracts for callees.
    covers: functions of ndspy that must be interpreted by this lemma.
    """
    def __init__(self, name, build, body, contracts=None, covers=(), case=None, trusted=(), timeout=400,
                 setup=None, bounded=None, linear=False):
        self.name, self.build, self.body = name, build, body
        self.contracts, self.covers, self.case = contracts, tuple(covers), case
        self.trusted = tuple(trusted)
        self.timeout = timeout
        self.setup = setup
        self.bounded = bounded
        self.linear = linear
