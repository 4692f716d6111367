"""C04: filename table save/load round trip."""
import z3

from vf.terms import *
from vf.interp import prove_equal
from vf.loops import Cut, Recursion
from proofs.lib import Lemma, prove, same, assume, snapshot, outcome
from proofs.fntlib import Tree, ROOT

from ndspy import fnt


def build(E):
    t = E.T = Tree(E)
    t.table = table(t)
    return t.at(0), SBytes(t.table)


def bodies(t):
    """Entry tables of all folders"""
    return t.E.seq(t.n, lambda q: t.entries(q))


def table(t):
    b = bodies(t)
    E = t.E
    E.assume(8 * I(t.n) + I(b.body.prefix(t.n)) <= 0xFFFFFFFF)
    heads = E.seq(t.n, lambda q: (Pk(add(mul(8, t.n), b.body.prefix(q)), 4), Pk(SInt(t.first(I(q))), 2), Pk(SInt(t.parent(I(q))), 2)))
    return (heads, b)


class Count(Recursion):
    """Number of folders"""
    def enter(self, S):
        t = S.E.T
        p = t.any()
        return [t.at(p)], p

    def apply(self, S, args):
        S.ghost, = args[0].args
        return SInt(S.E.T.size(I(S.ghost)))

    def leave(self, S, p, r):
        prove_equal(S.E, r, SInt(S.E.T.size(I(p))), 'number of folders')

    def measure(self, S, p):
        return SInt(S.E.T.size(I(p)))


class Counting(Cut):
    def state(self, S, g, k):
        t = S.E.T
        p, = S.get('folder').args
        t.step(p, k)
        return {'folderCount': sub(sub(SInt(t.child(I(p), I(k))), p), 1)}, []


def entry(t, q):
    return (add(ROOT, q), (SInt(t.first(I(q))), SInt(t.parent(I(q))), MBytes(t.entries(q))))


class Parse(Recursion):
    """Folder p gets the number ROOT + p; it and the folders below are entered"""
    uses = ('nextFolderID', 'folderEntries')

    def known(self, t, lo, hi):
        return t.part(lo, hi, lambda q: entry(t, q))

    def others(self, S, p):
        """What may have been entered before"""
        E = S.E
        done = E.fun('done', 1, boolean=True)
        a, b, c = E.fun('old first', 1), E.fun('old parent', 1), E.source('old table', 1)
        return (E.seq(p, lambda k: (Al(done(I(k)), [El((add(ROOT, k), (SInt(a(I(k))), SInt(b(I(k))), MBytes(E.whole(c, k)))))], []),)),)

    def enter(self, S):
        t = S.E.T
        p = t.any()
        S.put('nextFolderID', add(ROOT, p))
        S.E.T.old = self.others(S, p)
        S.put('folderEntries', MDict({PAIRS: S.E.T.old}, unordered=True))
        return [t.at(p), SInt(t.parent(I(p)))], p

    def apply(self, S, args):
        E, t = S.E, S.E.T
        p, = args[0].args
        S.ghost = p
        E.note(t.size(I(p)))
        if not E.skip:
            prove_equal(E, S.get('nextFolderID'), add(ROOT, p), 'next folder ID')
            prove_equal(E, args[1], SInt(t.parent(I(p))), 'parent')
        d = S.get('folderEntries')
        old = tuple(d.d[PAIRS]) if PAIRS in d.d else ()
        if PAIRS not in d.d and d.d:
            raise Failed('entries')
        self.below(S, old, p)
        S.put('folderEntries', MDict({PAIRS: old + self.known(t, p, add(p, SInt(t.size(I(p)))))}, unordered=True))
        S.put('nextFolderID', add(ROOT, add(p, SInt(t.size(I(p))))))
        return add(ROOT, p)

    def below(self, S, old, p):
        """Only folders with smaller numbers have been entered"""
        for s in old:
            S.E.prove(isinstance(s, FM) and I(s.hi) <= I(p), 'entered before')

    def leave(self, S, p, r):
        E, t = S.E, S.E.T
        prove_equal(E, r, add(ROOT, p), 'folder ID')
        end = add(p, SInt(t.size(I(p))))
        prove_equal(E, S.get('nextFolderID'), add(ROOT, end), 'next folder ID')
        # the folder itself is entered last
        prove_equal(E, S.get('folderEntries'), MDict({PAIRS: S.E.T.old + self.known(t, add(p, 1), end) + (El(entry(t, p)),)}, unordered=True), 'entries')

    def measure(self, S, p):
        return SInt(S.E.T.size(I(p)))


class Folders(Cut):
    """k subfolders have been entered"""
    def state(self, S, g, k):
        t = S.E.T
        p, = S.get('d').args
        t.step(p, k)
        c = SInt(t.child(I(p), I(k)))
        return {'nextFolderID': add(ROOT, c),
                'entriesTable': MBytes((t.file_entries(p, SInt(t.files(I(p)))), t.folder_entries(p, k))),
                'folderEntries': MDict({PAIRS: t.old + self.parse.known(t, add(p, 1), c)}, unordered=True)}, []


class Writing(Cut):
    """The first i folders have been written"""
    def state(self, S, g, i):
        t = S.E.T
        h, b = t.table
        return {'fnt': MBytes((FM(h.body, 0, i), Fi(0, mul(8, sub(t.n, i))), FM(b.body, 0, i)))}, []


def contracts(E, ip):
    p = 'ndspy.fnt.save'
    ip.contracts[p + '.countFoldersIn'] = Count()
    ip.contracts[p + '.parseFolder'] = c = Parse()
    ip.cuts[p + '.countFoldersIn', 0] = Counting()
    f = ip.cuts[p + '.parseFolder', 1] = Folders()
    f.parse = c
    ip.cuts[p, 0] = Writing()


def save(root, want):
    same(fnt.save(root), want, 'table')


# ------------------------------------------- loading

def build_load(E):
    t = E.T = Tree(E)
    t.table = table(t)
    t.rest = E.bytes('rest').segs
    return t.at(0), SBytes(t.table + tuple(t.rest))


class Load(Recursion):
    """Gives the folder with this number"""
    uses = ('fnt',)

    def enter(self, S):
        t = S.E.T
        t.p = p = t.any()
        # the table, with the parts that belong to folder p
        h, b = t.table
        q = add(p, 1)
        data = SBytes((FM(h.body, 0, p),) + tuple(h.body.at(p)) + (FM(h.body, q, t.n), FM(b.body, 0, p)) + t.entries(p)
                      + (FM(b.body, q, t.n),) + tuple(t.rest))
        prove_equal(S.E, SBytes(h.body.at(p)), SBytes((FM(h.body, p, q),)), 'head of the folder')
        prove_equal(S.E, SBytes(t.entries(p)), SBytes((FM(b.body, p, q),)), 'entries of the folder')
        S.put('fnt', data)
        return [add(ROOT, p)], p

    def apply(self, S, args):
        E, t = S.E, S.E.T
        p = S.ghost = sub(args[0], ROOT)
        if not E.skip:
            E.prove(z3.And(I(p) >= 0, I(p) < I(t.n)), 'number of a folder')
            E.note(t.size(I(p)))
            if self not in E.inside:
                prove_equal(E, S.get('fnt'), SBytes(t.table + tuple(t.rest)), 'table')
        return t.at(p)

    def leave(self, S, p, r):
        t = S.E.T
        prove_equal(S.E, r, Obj(fnt.Folder, {'folders': MList(t.folders(p)), 'files': MList(t.names(p)), 'firstID': SInt(t.first(I(p)))}), 'folder')

    def measure(self, S, p):
        return SInt(S.E.T.size(I(p)))


class Reading(Cut):
    """k entries have been read: files, then folders"""
    def ghost(self, S, i):
        E, t = S.E, S.E.T
        k = E.int('k', 0)
        E.assume(I(k) <= t.files(I(t.p)) + t.subs(I(t.p)))
        return k

    def first(self, S):
        return 0

    def next(self, S, k, i):
        return add(k, 1)

    def state(self, S, k, i):
        E, t = S.E, S.E.T
        p, n = t.p, SInt(t.files(I(t.p)))
        h, b = t.table
        off = add(mul(8, t.n), b.body.prefix(p))
        if E.decide(I(k) < I(n)):
            self.lists = t.names(p, 0, k), ()
            off = add(off, t.file_entries(p, n).body.prefix(k))
        else:
            j = sub(k, n)
            self.lists = t.names(p), t.folders(p, 0, j)
            off = add(off, add(t.file_entries(p, n).body.prefix(n), t.folder_entries(p, j).body.prefix(j)))
        return {'off': off}, [z3.And(I(k) >= 0, I(k) <= I(n) + t.subs(I(p)))]

    def assume(self, S, k, i):
        super().assume(S, k, i)
        o = S.get('folderObj')
        for name, segs in zip(('files', 'folders'), self.lists):
            S.E.set(S.ip.getattr(o, name).d, 'v', segs)

    def check(self, S, k, i, when):
        super().check(S, k, i, when)
        if not S.E.skip:
            o = S.get('folderObj')
            for name, segs in zip(('files', 'folders'), self.lists):
                prove_equal(S.E, S.ip.getattr(o, name), MList(segs), f'invariant {when}: {name}')

    def measure(self, S, k):
        t = S.E.T
        return sub(add(SInt(t.files(I(t.p))), SInt(t.subs(I(t.p)))), k)


def contracts_load(E, ip):
    ip.contracts['ndspy.fnt.load.loadFolder'] = Load()
    ip.cuts['ndspy.fnt.load.loadFolder', 0] = Reading()


def load(root, data):
    same(fnt.load(data), root, 'loaded tree')
    same(fnt.load(bytearray(data)), root, 'loaded tree')


M = 'ndspy.fnt.'
LEMMAS = [
    Lemma('save', build, save, contracts=contracts, covers=[
        M + 'save', f'verified {M}save.countFoldersIn', f'verified {M}save.parseFolder', f'invariant of loop 0 of {M}save',
        f'invariant of loop 1 of {M}save.parseFolder', f'invariant of loop 0 of {M}save.countFoldersIn']),
    Lemma('load', build_load, load, contracts=contracts_load, covers=[
        M + 'load', f'verified {M}load.loadFolder', f'invariant of loop 0 of {M}load.loadFolder']),
]
ASSUMPTIONS = ['at most 4096 folders, names of 1 to 127 characters, table smaller than 4 GiB',
               'the stack is deep enough: the proof does not know the recursion limit of the interpreter']
