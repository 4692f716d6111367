"""C05: folder lookups."""
import z3

from vf.terms import *
from vf.engine import Failed
from vf.interp import prove_equal
from vf.loops import Recursion
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome
from proofs.fntlib import Tree

from ndspy import fnt

TYPES = {'file': 0, 'folder': 1, 'both': 2, 'neither': 3}


class Way:
    """
    The folders way(0) (the root), ..., way(m), each the subfolder turn of
    the one before. The names of a folder's files are different, as are
    those of its subfolders.
    """
    def __init__(self, E):
        t = self.t = E.T = Tree(E)
        E.W = self
        self.E = E
        m = self.m = E.int('depth', 0)
        self.way = E.fun('way', 1, 0, gen=lambda j: [z3.Implies(z3.And(j >= 0, j <= I(m)), z3.And(
            self.way(j) < I(t.n), z3.Implies(j == 0, self.way(j) == 0)))])
        self.turn = E.fun('turn', 1, 0, gen=lambda j: [z3.Implies(z3.And(j >= 0, j < I(m)), self.turn(j) < t.subs(self.way(j)))])
        E.note(self.way(z3.IntVal(0)))
        E.note(self.way(I(m)))
        for src, n in ((t.file, t.files), (t.folder, t.subs)):
            def pair(a, b, n=n):
                p, q, i, j = a.arg(0), b.arg(0), a.arg(1), b.arg(1)
                return [z3.Implies(z3.And(p == q, i >= 0, j >= 0, i < n(p), j < n(p), i != j), a != b)]
            E.fns[E.code(src).name()].pair = pair

    def step(self, j):
        """The next folder of the way"""
        j = I(j)
        self.E.assume(z3.Implies(z3.And(j >= 0, j < I(self.m)), self.way(j + 1) == self.t.child(self.way(j), self.turn(j))))

    def folder_at(self, j):
        return self.t.at(SInt(self.way(I(j))))

    def parts(self, j):
        """Names from folder j of the way to the last"""
        return self.t.part(j, self.m, lambda j: SStr(self.E.whole(self.t.folder, SInt(self.way(I(j))), SInt(self.turn(I(j))))))


def build(kind, most=2):
    """
    The names of the way lead to its last folder. Then follow the name of a file,
    of a subfolder, of both or, perhaps with others behind, of neither.
    """
    def build(E):
        w = Way(E)
        t, m = w.t, w.m
        end = I(w.way(I(m)))
        rest = []
        name = E.source('name', 1, 1)
        code = E.code(name)
        zero = z3.IntVal(0)
        w.id = w.sub = None
        if kind in ('file', 'both'):
            i = E.int('i', 0)
            E.assume(I(i) < t.files(end))
            w.id = add(SInt(t.first(end)), i)
            E.assume(code(zero) == E.code(t.file)(end, I(i)))
        if kind in ('folder', 'both'):
            k = E.int('k', 0)
            E.assume(I(k) < t.subs(end))
            w.sub = t.at(SInt(t.child(end, I(k))))
            E.assume(code(zero) == E.code(t.folder)(end, I(k)))
        # how many names follow
        w.more = E.int('more', 1) if kind == 'neither' else 1
        if kind != 'both' and kind != 'folder':
            E.forall(E.code(t.folder).name(), lambda p, x: [z3.Implies(z3.And(p == end, x >= 0, x < t.subs(p)), E.code(t.folder)(p, x) != code(zero))])
        if kind == 'folder':
            E.forall(E.code(t.file).name(), lambda p, x: [z3.Implies(z3.And(p == end, x >= 0, x < t.files(p)), E.code(t.file)(p, x) != code(zero))])
        if kind == 'neither':
            E.forall(E.code(t.file).name(), lambda p, x: [z3.Implies(z3.And(p == end, I(w.more) == 1, x >= 0, x < t.files(p)), E.code(t.file)(p, x) != code(zero))])
        w.rest = t.part(0, w.more, lambda j: SStr(E.whole(name, j)))
        w.path = SStr(E.whole(E.source('path', 0, 1)))
        before, after = [E.int(f'slashes {x}', 0, most) for x in ('before', 'behind')]
        slashes = [E.concretize(x, 0, most) for x in (before, after)]

        def text(o, name, args, kw):
            if name == 'split' and args == ['/']:
                prove_equal(E, o, w.path, 'path')
                return MList((El(''),) * slashes[0] + w.parts(0) + w.rest + (El(''),) * slashes[1])
            return NotImplemented
        E.text_hook = text
        return kind, t.at(0), w.path, w.id, w.sub
    return build


class Find(Recursion):
    """What is found from folder j of the way with the names from there on"""
    def __init__(self, what):
        self.what = what

    def enter(self, S):
        E, w = S.E, S.E.W
        j = E.int('j', 0)
        E.assume(I(j) <= I(w.m))
        for f in (w.way, w.turn):
            E.note(f(I(j)))
        w.step(j)
        return [MList(w.parts(j) + w.rest), w.folder_at(j)], j

    def apply(self, S, args):
        E, w = S.E, S.E.W
        segs = [s for s in args[0].segs if isinstance(s, FM)]
        j = S.ghost = sub(w.m, sub(ropelen(args[0].segs), w.more))
        if not E.skip:
            E.prove(z3.And(I(j) >= 0, I(j) <= I(w.m)), 'position')
            prove_equal(E, args[0], MList(w.parts(j) + w.rest), 'names')
            prove_equal(E, args[1], w.folder_at(j), 'folder')
        return self.result(w)

    def result(self, w):
        return w.id if self.what == 'id' else w.sub

    def leave(self, S, j, r):
        prove_equal(S.E, r, self.result(S.E.W), 'what is found')

    def measure(self, S, j):
        return sub(S.E.W.m, j)


def contracts(E, ip):
    ip.contracts['ndspy.fnt.Folder.idOf.findInFolder'] = Find('id')
    ip.contracts['ndspy.fnt.Folder.subfolder.findInFolder'] = Find('sub')


def contracts_elsewhere(E, ip):
    """The inner functions are verified by the lemmas above"""
    contracts(E, ip)
    contracts_id(E, ip)
    for name in ('idOf', 'subfolder', 'filenameOf'):
        ip.contracts[f'ndspy.fnt.Folder.{name}.findInFolder'].elsewhere = True


def id_of(kind, root, path, id, sub):
    f = fnt.Folder.idOf(root, path)
    same(f, id, 'idOf')


def subfolder(kind, root, path, id, sub):
    same(fnt.Folder.subfolder(root, path), sub, 'subfolder')


def getitem(kind, root, path, id, sub):
    if kind == 'neither':
        prove(outcome(root.__getitem__, path) == 'KeyError', 'unknown path')
        prove(root.__contains__(path) is False, 'containment')
    else:
        same(root.__getitem__(path), sub if kind == 'folder' else id, 'item')
        prove(root.__contains__(path) is True, 'containment')


# ------------------------------------------- by number

def build_id(found):
    """
    A file of the last folder of the way; no other folder has a file with this number.
    on(p): folder p is on the way, at depth(p)
    """
    def build(E):
        w = Way(E)
        t, m = w.t, w.m
        end = I(w.way(I(m)))
        w.on = E.fun('on', 1, boolean=True)
        w.before = E.source('before', 1, 1)
        w.depth = E.fun('depth_of', 1, 0)
        id = w.id = E.int('id')
        i = E.int('i', 0)
        E.forall('child', lambda p, k: [z3.Implies(z3.And(p >= 0, p < I(t.n), k >= 0, k < t.subs(p)),
                                                   z3.And(w.on(t.child(p, k)) == z3.And(w.on(p), p != end, k == w.turn(w.depth(p)), found),
                                                          z3.Implies(w.on(t.child(p, k)), w.depth(t.child(p, k)) == w.depth(p) + 1)))])
        E.forall('on', lambda p: [z3.Implies(w.on(p), z3.And(p >= 0, p < I(t.n), w.way(w.depth(p)) == p, w.depth(p) <= I(m), (p == end) == (w.depth(p) == I(m))))])
        E.forall('files', lambda p: [z3.Implies(z3.And(p >= 0, p < I(t.n), t.first(p) <= I(id), I(id) < t.first(p) + t.files(p)), z3.And(p == end, w.on(p), found))])
        if found:
            E.assume(z3.And(I(i) < t.files(end), I(id) == t.first(end) + I(i)))
            for p, d in ((z3.IntVal(0), 0), (end, I(m))):
                E.assume(z3.And(w.on(p), w.depth(p) == d))
        else:
            E.forall('on', lambda p: [z3.Not(w.on(p))])
        w.name = SStr(E.whole(t.file, SInt(end), i))
        w.path = SStr(E.whole(E.source('path', 0, 1)))

        def join(o, items):
            prove_equal(E, o, '/', 'separator')
            prove_equal(E, MList(items), MList(w.parts(0) + (El(w.name),)), 'names')
            return w.path
        E.text_join_hook = join
        return found, t.at(0), id, w.path if found else None
    return build


class Search(Recursion):
    """The names from folder p on, or None"""
    uses = ('id',)

    def enter(self, S):
        E, w = S.E, S.E.W
        p = w.t.any()
        S.put('id', w.id)
        sofar = MList(w.t.part(0, E.int('so far', 0), lambda j: SStr(E.whole(w.before, j))))
        w.step(w.depth(I(p)))
        E.note(w.turn(w.depth(I(p))))
        E.note(w.on(I(p)))
        return [sofar, w.t.at(p)], (p, tuple(sofar.segs))

    def result(self, S, p, sofar):
        E, w = S.E, S.E.W
        if E.decide(w.on(I(p))):
            return MList(tuple(sofar) + w.parts(SInt(w.depth(I(p)))) + (El(w.name),))
        return None

    def apply(self, S, args):
        E, w = S.E, S.E.W
        p, = args[1].args
        S.ghost = p, None
        if not E.skip:
            prove_equal(E, S.get('id'), w.id, 'number')
            E.prove(z3.And(I(p) >= 0, I(p) < I(w.t.n)), 'folder')
        return self.result(S, p, args[0].segs)

    def leave(self, S, g, r):
        prove_equal(S.E, r, self.result(S, *g), 'what is found')

    def measure(self, S, g):
        return SInt(S.E.T.size(I(g[0])))


def contracts_id(E, ip):
    ip.contracts['ndspy.fnt.Folder.filenameOf.findInFolder'] = Search()


def filename_of(found, root, id, path):
    same(root.filenameOf(id), path, 'path')


def getitem_id(found, root, id, path):
    if found:
        same(root.__getitem__(id), path, 'item')
        prove(root.__contains__(id) is True, 'containment')
    else:
        prove(outcome(root.__getitem__, id) == 'KeyError', 'unknown number')
        prove(root.__contains__(id) is False, 'containment')


M = 'ndspy.fnt.Folder.'
LEMMAS = [
    Lemma(f'idOf, {kind}', build(kind), id_of, contracts=contracts, covers=[M + 'idOf', f'verified {M}idOf.findInFolder'])
    for kind in TYPES
] + [
    Lemma(f'subfolder, {kind}', build(kind), subfolder, contracts=contracts, covers=[M + 'subfolder', f'verified {M}subfolder.findInFolder'])
    for kind in TYPES
] + [
    Lemma(f'path as key, {kind}', build(kind, 0), getitem, contracts=contracts_elsewhere, covers=[M + '__getitem__', M + '__contains__'])
    for kind in TYPES
] + [
    Lemma(f'filenameOf, {"found" if f else "unknown"}', build_id(f), filename_of, contracts=contracts_id, covers=[M + 'filenameOf', f'verified {M}filenameOf.findInFolder'])
    for f in (True, False)
] + [
    Lemma(f'number as key, {"found" if f else "unknown"}', build_id(f), getitem_id, contracts=contracts_elsewhere, covers=[M + '__getitem__', M + '__contains__'])
    for f in (True, False)
]
ASSUMPTIONS = ['names within a folder are different and file numbers belong to one folder only; paths have at least one name',
               'str.split and str.join at slashes are inverse for names without slashes',
               'the stack is deep enough: the proof does not know the recursion limit of the interpreter']
