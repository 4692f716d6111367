"""
Folder trees of any size. The folders are numbered in the order in which
they are first met (a folder before its subfolders), so that the folders
below folder p are p + 1, ..., p + size(p) - 1.
"""
import types

import z3

from vf.terms import *
from vf.engine import Failed
from vf.interp import Bound

from ndspy import fnt

ROOT = 0xF000


class Tree:
    def __init__(self, E):
        self.E = E
        n = self.n = E.int('folders', 1, 4096)
        self.size = E.fun('size', 1, 1, 4096, gen=lambda p: [z3.Implies(z3.And(p >= 0, p < I(n)), p + self.size(p) <= I(n))])
        self.first = E.fun('first', 1, 0, 0xFFFF)
        self.files = E.fun('files', 1, 0)
        self.subs = E.fun('subs', 1, 0)
        # the k-th subfolder of folder p; for k = subs(p) the end of folder p
        self.child = E.fun('child', 2, 0, gen=self.about)
        # what is stored as the parent of a folder
        self.parent = E.fun('parent', 1, 0, 0xFFFF)
        self.file = E.source('file', 2, 1, 127)
        self.folder = E.source('folder', 2, 1, 127)
        E.assume(self.size(z3.IntVal(0)) == I(n))
        E.assume(self.parent(z3.IntVal(0)) == I(n))
        E.attribute_hook = self.attribute

    def about(self, p, k):
        return [z3.Implies(z3.And(p >= 0, p < I(self.n), k >= 0, k <= self.subs(p)), z3.And(
            self.child(p, k) > p, self.child(p, k) <= p + self.size(p),
            z3.Implies(k == 0, self.child(p, k) == p + 1),
            z3.Implies(k == self.subs(p), self.child(p, k) == p + self.size(p)),
            z3.Implies(k < self.subs(p), z3.And(self.child(p, k) < p + self.size(p), self.parent(self.child(p, k)) == ROOT + p,
                                                self.size(self.child(p, k)) < self.size(p)))))]

    def step(self, p, k):
        """A subfolder follows the one before"""
        p, k = I(p), I(k)
        self.E.assume(z3.Implies(z3.And(p >= 0, p < I(self.n), k >= 0, k < self.subs(p)),
                                 self.child(p, k + 1) == self.child(p, k) + self.size(self.child(p, k))))

    def at(self, p):
        return Opq('folder', (p,))

    def any(self):
        """An arbitrary folder"""
        p = self.E.int('p', 0)
        self.E.assume(I(p) < I(self.n))
        for x in (self.size, self.files, self.subs, self.parent):
            self.E.note(x(I(p)))
        self.step(p, 0)
        return p

    def names(self, p, lo=0, hi=None):
        """File names"""
        return self.part(lo, SInt(self.files(I(p))) if hi is None else hi, lambda k: SStr(self.E.whole(self.file, p, k)))

    def part(self, lo, hi, elem):
        k = z3.Int(self.E.uniq('i_k'))
        return (FM(Body(k, [El(elem(SInt(k)))], SInt(k)), lo, hi),)

    def folders(self, p, lo=0, hi=None):
        return self.part(lo, SInt(self.subs(I(p))) if hi is None else hi,
                         lambda k: (SStr(self.E.whole(self.folder, p, k)), self.at(SInt(self.child(I(p), I(k))))))

    def attribute(self, o, name):
        p, = o.args
        if name == 'firstID':
            return SInt(self.first(I(p)))
        f = getattr(fnt.Folder, name, None)
        if isinstance(f, types.FunctionType):
            return Bound(f, o, fnt.Folder)
        r = MList(self.names(p) if name == 'files' else self.folders(p))
        if name not in ('files', 'folders'):
            raise Failed(name)
        r.d.frozen = True
        return r

    # ------------------------------------------------------- the saved table

    def file_entries(self, p, n):
        E = self.E
        return E.seq(n, lambda k: (Pk(SInt(self.file.length(I(p), I(k))), 1),) + tuple(E.whole(self.file, p, k)))

    def folder_entries(self, p, n):
        E = self.E
        return E.seq(n, lambda k: (Pk(add(128, SInt(self.folder.length(I(p), I(k)))), 1),) + tuple(E.whole(self.folder, p, k))
                     + (Pk(add(ROOT, SInt(self.child(I(p), I(k)))), 2),))

    def entries(self, p):
        return (self.file_entries(p, SInt(self.files(I(p)))), self.folder_entries(p, SInt(self.subs(I(p)))), Lit(b'\0'))
