"""
ROMs with any number of files and overlays. Lengths are given as a number
of blocks of 512 bytes less the padding that fills the last block.

Each file is of one of three kinds: the file of an ARM9 overlay, the file
of an ARM7 overlay, or any other. index(f) is the number of the overlay,
number9 and number7 are the inverse. The other files are numbered in the
order in which save() is expected to place them: rank(f), with the inverse
order(j). placed(t) of them are placed when t entries of sortedFileIds have
been looked at, later(i) when the files below i have been looked at after
this. These functions are determined by the ROM; they describe no
restriction.
"""
import z3

from vf.terms import *
from vf.interp import prove_equal
from vf.loops import Cut, Recursion
from vf import builtin_ops as ops
from props.c07 import U8, U16, U32, RAW

from ndspy import rom, fnt, _common

M32 = 0xFFFFFFFF
MAGIC = b'\x21\x06\xC0\xDE'
SAVE = 'ndspy.rom.NintendoDSRom.save'
LOAD = 'ndspy.rom.NintendoDSRom._initFromData'
BLOCK = 512


class Rom:
    """
    after: what follows the data after arm9: 'padding' (at least 4 bytes), 1, 2 or 3 (bytes of padding),
    'table' (the overlay table) or 'arm7'
    tables: whether there are ARM9 overlays, and ARM7 overlays
    early: pad200 ends before 0x1000
    banner: its version, or 'other'
    """
    def __init__(self, E, after='padding', tables=(False, False), early=False, banner=None, debug=False, signature=True):
        self.E = E
        E.X = self
        self.aligned = False
        self.crcs = []
        self.functions(tables)
        f = {a: E.int(a, 0, 255) for a in U8}
        f.update({a: E.int(a, 0, 65535) for a in U16})
        f.update({a: E.int(a, 0, M32) for a in U32})
        f.update({a: SBytes(E.whole(E.source(a, 0, length=lambda n=n: z3.IntVal(n)))) for a, n in RAW.items()})
        f['name'] = self.title()
        # between the header and arm9
        q, p = E.int('start', 1), E.int('pad start', 0, 0x3FFF)
        n = sub(sub(mul(0x4000, q), p), 0x200)
        E.assume(I(n) >= 0)
        E.assume(I(n) <= 0xE00 if early else I(n) >= 0xE04)
        self.pad_start = p
        f['pad200'] = self.bytes('pad200', n)
        self.total = mul(0x4000, q)
        # arm9 and the data behind it
        lo, hi = {'padding': (4, 511), 'table': (0, 0), 'arm7': (0, 0)}.get(after, (after, after))
        p = E.int('pad arm9', lo, hi)
        self.posts = E.int('posts', 0)
        post = E.source('post', 1, length=lambda k: z3.IntVal(8))
        self.post = E.seq(self.posts, lambda k: (Lit(MAGIC),) + E.whole(post, k))
        self.arm9 = E.int('arm9 blocks', 0)
        n = sub(sub(mul(BLOCK, self.arm9), p), mul(12, self.posts))
        E.assume(I(n) >= 0)
        f['arm9'] = self.bytes('arm9', n)
        f['arm9PostData'] = SBytes((self.post,))
        self.total = add(self.total, mul(BLOCK, self.arm9))
        f['arm9OverlayTable'] = self.table('table9', self.n9, self.number9)
        f['arm7OverlayTable'] = self.table('table7', self.n7, self.number7)
        f['arm7'] = self.blob('arm7', 4 if after == 'arm7' else 0)
        self.add_padded(f['arm9OverlayTable'].segs, self.q9)
        self.add_padded(f['arm7OverlayTable'].segs, self.q7)
        if after == 'table':
            self.not_magic(f['arm9OverlayTable'].segs)
        if after == 'arm7':
            self.not_magic(f['arm7'].segs)
        self.fnt = self.blob('fnt', 8)
        f['filenames'] = Opq('tree', ())
        f['iconBanner'] = self.banner(banner)
        f['debugRom'] = self.blob('debugRom', 1) if debug else b''
        f['rsaSignature'] = SBytes(E.whole(E.source('signature', 0, length=lambda: z3.IntVal(0x88)))) if signature else b''
        f['files'] = MList(self.files(0, self.n))
        f['sortedFileIds'] = MList(E.family(self.m, lambda t: SInt(self.wanted(I(t)))))
        self.chunks9 = E.seq(self.n9, lambda k: self.padded(SInt(self.number9(I(k)))))
        self.chunks7 = E.seq(self.n7, lambda k: self.padded(SInt(self.number7(I(k)))))
        self.others = E.seq(self.nr, lambda j: self.padded(SInt(self.order(I(j)))))
        for s in (self.chunks9, self.chunks7, self.others):
            self.total = add(self.total, s.body.prefix(s.hi))
        self.total = add(self.total, mul(BLOCK, self.qn))
        # an image this long can be described by 32 bit offsets
        E.assume(I(self.total) + 0x600 <= M32)
        self.rom = Obj(rom.NintendoDSRom, f)

    def some(self, name):
        """An arbitrary file"""
        E = self.E
        f = E.int(name, 0)
        E.assume(I(f) < I(self.n))
        E.note(self.index(I(f)))
        E.note(self.rank(I(f)))
        return f

    def functions(self, tables):
        E = self.E
        qn, pn = self.qn, _ = E.int('fat blocks', 0), E.int('pad fat', 0, 63)
        n = self.n = sub(mul(64, qn), pn)
        self.q9 = self.q7 = n9 = n7 = 0
        if tables[0]:
            self.q9 = E.int('table9 blocks', 1)
            n9 = sub(mul(16, self.q9), E.int('pad table9', 0, 15))
        if tables[1]:
            self.q7 = E.int('table7 blocks', 1)
            n7 = sub(mul(16, self.q7), E.int('pad table7', 0, 15))
        self.n9, self.n7 = n9, n7
        m, nr = self.m, self.nr = E.int('wanted', 0), E.int('others', 0)
        E.assume(I(n) >= 0)
        E.assume(I(n) == I(n9) + I(n7) + I(nr))
        kind, index, rank = self.kind, self.index, self.rank = E.fun('kind', 1, 0, 2), E.fun('index', 1, 0), E.fun('rank', 1, 0)
        self.number9, self.number7, self.order = E.fun('number9', 1, 0, M32), E.fun('number7', 1, 0, M32), E.fun('order', 1, 0)
        self.wanted = E.fun('wanted', 1, 0)
        self.placed, self.later = E.fun('placed', 1, 0), E.fun('later', 1, 0)
        E.assume(self.placed(z3.IntVal(0)) == 0)
        E.assume(self.later(z3.IntVal(0)) == self.placed(I(m)))
        E.assume(self.later(I(n)) == I(nr))

        def inverse(number, kd, pos, count):
            def gen(k):
                f = number(k)
                return [z3.Implies(z3.And(k >= 0, k < I(count)), z3.And(f >= 0, f < I(n), kind(f) == kd, pos(f) == k))]
            gen.shallow = True
            E.forall(number.name(), gen)

            def gen(f):
                return [z3.Implies(z3.And(f >= 0, f < I(n), kind(f) == kd), z3.And(pos(f) < I(count), number(pos(f)) == f))]
            gen.shallow = True
            E.forall(pos.name(), gen)
        inverse(self.number9, 1, index, n9)
        inverse(self.number7, 2, index, n7)
        inverse(self.order, 0, rank, nr)
        a, b = E.fun('pad32', 1, 0, 15), E.fun('pad1', 1, 0, 31)
        self.pad = lambda f: 32 * a(f) + b(f)
        blocks = self.blocks = E.fun('blocks', 1, 0, gen=lambda f: [BLOCK * blocks(f) >= self.pad(f)])
        self.file = E.source('file', 1, length=lambda f: BLOCK * blocks(f) - self.pad(f))

    def bytes(self, name, n):
        return SBytes(self.E.whole(self.E.source(name, 0, length=lambda: I(n))))

    def blob(self, name, least=0):
        E = self.E
        q, p = E.int(f'{name} blocks', 0), E.int(f'pad {name}', 0, 511)
        n = sub(mul(BLOCK, q), p)
        E.assume(I(n) >= least)
        self.total = add(self.total, mul(BLOCK, q))
        return self.bytes(name, n)

    def title(self):
        E = self.E
        n = E.int('title', 0, 12)
        src = E.source('name', 0, length=lambda: n.t)
        E.assume(z3.Implies(n.t > 0, src.byte(n.t - 1) != 0))
        return SBytes(E.whole(src))

    def table(self, name, count, number):
        E = self.E
        if count == 0:
            return SBytes(())
        a, b = E.source(name, 1, length=lambda k: z3.IntVal(24)), E.source(f'{name} end', 1, length=lambda k: z3.IntVal(4))
        return SBytes((E.seq(count, lambda k: E.whole(a, k) + (Pk(SInt(number(I(k))), 4),) + E.whole(b, k)),))

    def add_padded(self, segs, q):
        self.total = add(self.total, mul(BLOCK, q))

    def not_magic(self, segs):
        E = self.E
        t = E.byte_terms(E.slice(segs, 0, 4))
        E.assume(z3.Or([I(x) != m for x, m in zip(t, MAGIC)]))

    def banner(self, version):
        if version is None:
            return b''
        E = self.E
        n = {1: 0x840, 2: 0x940, 3: 0x1240, 0x103: 0x23C0}.get(version, 0x840)
        if version == 'other':
            version = E.int('version', 0, 65535)
            for x in (2, 3, 0x103):
                E.assume(I(version) != x)
        self.total = add(self.total, (n + 511) // 512 * 512)
        return SBytes((Pk(version, 2),) + E.whole(E.source('banner', 0, length=lambda: z3.IntVal(n - 2))))

    def entries(self):
        if not hasattr(self, '_entries'):
            self._entries = self.E.seq(self.n, lambda f: (Pk(SInt(self.offset(I(f))), 4), Pk(SInt(self.offset(I(f)) + self.file.length(I(f))), 4)))
        return self._entries

    def places(self):
        if not hasattr(self, '_places'):
            self._places = self.E.family(self.n, lambda f: (SInt(self.offset(I(f))), SInt(self.offset(I(f)) + self.file.length(I(f))), SInt(I(f))))
        return self._places

    def padded(self, f):
        return self.E.whole(self.file, f) + (Fi(255, mk(self.pad(I(f)))),)

    def files(self, lo, hi):
        return tuple(FM(s.body, lo, hi) for s in self.family())

    def family(self):
        if not hasattr(self, '_files'):
            self._files = self.E.family(self.n, lambda f: SBytes(self.E.whole(self.file, f)))
        return self._files

    def known(self, i9, i7, c):
        """What save() knows about offsets after i9 and i7 overlays and c other files"""
        def has(f):
            return z3.And(f >= 0, f < I(self.n), z3.Or(
                z3.And(self.kind(f) == 1, self.index(f) < I(i9)), z3.And(self.kind(f) == 2, self.index(f) < I(i7)),
                z3.And(self.kind(f) == 0, self.rank(f) < I(c))))
        return Map(has, lambda f: self.offset(f, i7, c))

    def offset(self, f, i7=1, c=1):
        out = I(add(self.base9, self.chunks9.body.prefix(SInt(self.index(f)))))
        if i7 != 0:
            out = z3.If(self.kind(f) == 2, I(add(self.base7, self.chunks7.body.prefix(SInt(self.index(f))))), out)
        if c != 0:
            out = z3.If(self.kind(f) == 0, I(add(self.base, self.others.body.prefix(SInt(self.rank(f))))), out)
        return out

    def placed_files(self, c):
        """The first c other files; the last is not followed by padding"""
        E = self.E
        if c == 0 or E.decide(I(c) == 0):
            return ()
        last = sub(c, 1)
        return (FM(self.others.body, 0, last),) + E.whole(self.file, mk(self.order(I(last))))


class Align(Recursion):
    """The data are extended to a multiple of alignment"""
    uses = ('data',)
    first = False

    def __call__(self, ip, fn, args, kw):
        E = ip.E
        self.elsewhere = E.X.aligned
        E.X.aligned = True
        return super().__call__(ip, fn, args, kw)

    def enter(self, S):
        E = S.E
        alignment = (0x20, 0x200, 0x400, 0x4000)[E.concretize(E.int('which', 0, 3), 0, 3)]
        data = E.bytes('anything')
        S.put('data', MBytes(data.segs))
        if E.decide(E.bool('default fill').t):
            return [alignment], (data, alignment, 0)
        return [alignment, b'\xFF'], (data, alignment, 255)

    def measure(self, S, g):
        return 0

    def leave(self, S, g, r):
        E = S.E
        data, alignment, fill = g
        n = ropelen(data.segs)
        m = ropelen(S.get('data').segs)
        pad = sub(m, n)
        E.prove(z3.And(I(pad) >= 0, I(pad) < alignment, I(m) % alignment == 0), 'align: length')
        prove_equal(E, S.get('data'), MBytes(tuple(data.segs) + (Fi(fill, pad),)), 'align: data')

    def apply(self, S, args):
        E = S.E
        alignment = args[0]
        fill = args[1][0] if len(args) > 1 else 0
        data = S.get('data')
        n = ropelen(data.segs)
        t = z3.simplify(I(n), som=True)
        const, left = 0, []
        for x in t.children() if z3.is_add(t) else [t]:
            if z3.is_int_value(x):
                const += x.as_long()
            elif not (z3.is_mul(x) and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() % alignment == 0):
                left.append(x)
        rest = z3.simplify(z3.Sum([z3.IntVal(const % alignment)] + left))
        for k in (0, 1, 2):
            pad = z3.simplify(k * alignment - rest)
            if E.valid(z3.And(pad >= 0, pad < alignment)):
                break
        else:
            q = E.int('aligned')
            pad = z3.simplify(I(q) * alignment - t)
            E.assume(z3.And(pad >= 0, pad < alignment))
        E.set(data.d, 'v', tuple(join(data.segs, (Fi(fill, mk(pad)),))))
        S.ghost = None
        return None


class Overlays(Cut):
    def __init__(self, which):
        self.which = which

    def first(self, S):
        X = S.E.X
        X.before = tuple(S.get('data').segs)
        setattr(X, f'base{self.which}', ropelen(X.before))

    def state(self, S, g, i):
        X = S.E.X
        chunks = getattr(X, f'chunks{self.which}')
        return ({'data': MBytes(X.before + (FM(chunks.body, 0, i),)),
                 'fileOffsets': X.known(i, 0, 0) if self.which == 9 else X.known(X.n9, i, 0)}, [])


class Others(Cut):
    """Files in the order wanted"""
    def first(self, S):
        X = S.E.X
        X.before = tuple(S.get('data').segs)
        X.base = ropelen(X.before)

    def count(self, X, i):
        return mk(X.placed(I(i)))

    def wanted(self, X, i):
        return X.wanted(I(i))

    def ghost(self, S, i):
        E, X = S.E, S.E.X
        E.set(S.frame.parent.vars, 'fileNum', Poison(None))
        if S.again:
            self.define(E, X, i)

    def define(self, E, X, i):
        c, d, f = I(self.count(X, i)), I(self.count(X, add(i, 1))), self.wanted(X, i)
        E.note(X.index(f))
        E.note(X.rank(f))
        new = z3.And(f < I(X.n), X.kind(f) == 0, X.rank(f) >= c)
        E.assume(z3.Implies(new, z3.And(d == c + 1, X.rank(f) == c)))
        E.assume(z3.Implies(z3.Not(new), d == c))

    def state(self, S, g, i):
        X = S.E.X
        c = self.count(X, i)
        return ({'data': MBytes(X.before + X.placed_files(c)), 'fileOffsets': X.known(X.n9, X.n7, c)}, [I(c) <= I(X.nr)])


class Rest(Others):
    """And then the files that are left"""
    def first(self, S):
        pass

    def count(self, X, i):
        return mk(X.later(I(i)))

    def wanted(self, X, i):
        return I(i)


class Fat(Cut):
    def first(self, S):
        X = S.E.X
        X.saved = tuple(S.get('data').segs)
        X.fat = S.get('fatOffset')

    def state(self, S, g, i):
        E, X = S.E, S.E.X
        a, b = E.split(X.saved, X.fat)
        z, c = E.split(b, mul(8, X.n))
        return {'data': MBytes(tuple(a) + (FM(X.entries().body, 0, i),) + tuple(E.split(z, mul(8, i))[1]) + tuple(c))}, []


class Post(Cut):
    """j pieces of data behind arm9 have been read"""
    def ghost(self, S, i):
        E, X = S.E, S.E.X
        j = E.int('j', 0)
        E.assume(I(j) <= I(X.posts))
        return j

    def first(self, S):
        S.E.X.post_at = S.get('arm9PostDataOffset')
        return 0

    def next(self, S, j, i):
        return add(j, 1)

    def state(self, S, j, i):
        X = S.E.X
        return ({'arm9PostData': MBytes((FM(X.post.body, 0, j),)), 'arm9PostDataOffset': add(X.post_at, mul(12, j))},
                [z3.And(I(j) >= 0, I(j) <= I(X.posts))])

    def measure(self, S, j):
        return sub(S.E.X.posts, j)


class Read(Cut):
    """Files have been read"""
    def state(self, S, g, i):
        X = S.E.X
        return {'offsetsAndIds': MList(FM(s.body, 0, i) for s in X.places())}, []

    def assume(self, S, g, i):
        super().assume(S, g, i)
        S.E.set(S.ip.getattr(S.get('self'), 'files').d, 'v', S.E.X.files(0, i))

    def ghost(self, S, i):
        X = S.E.X
        if S.again:
            S.E.note(X.index(I(i)))
            S.E.note(X.rank(I(i)))

    def check(self, S, g, i, when):
        super().check(S, g, i, when)
        if not S.E.skip:
            prove_equal(S.E, S.ip.getattr(S.get('self'), 'files'), MList(S.E.X.files(0, i)), f'invariant {when}: files')


def in_order():
    """The file IDs in the order of sorted()"""


def checksums():
    """What the checksums were computed of, and the checksums"""


def contracts(E, ip):
    ip.contracts[f'{SAVE}.align'] = Align()
    ip.contracts[fnt.save] = lambda ip, fn, args, kw: E.X.fnt

    def load(ip, fn, args, kw):
        prove_equal(E, args[0], E.X.fnt, 'the filename table')
        return E.X.rom.d['filenames']
    ip.contracts[fnt.load] = load

    def crc(ip, fn, args, kw):
        v = E.int('crc', 0, 65535)
        E.X.crcs.append((SBytes(ops.byte_segs(ip.res(args[0]))), v))
        return v
    ip.contracts[_common.crc16] = crc
    ip.contracts[checksums] = lambda ip, fn, args, kw: tuple(E.X.crcs)
    ip.cuts[SAVE, 0] = Overlays(9)
    ip.cuts[SAVE, 1] = Overlays(7)
    ip.cuts[f'{SAVE}.iterFilenums', 0] = Others()
    ip.cuts[f'{SAVE}.iterFilenums', 1] = Rest()
    ip.cuts[SAVE, 3] = Fat()
    ip.cuts[LOAD, 0] = Post()
    ip.cuts[LOAD, 1] = Read()

    def by_place(ip, fn, args, kw):
        prove_equal(E, args[0], MList(E.X.places()), 'the places of the files')
        X = E.X
        sorted_ = E.fun('by place', 1, 0)
        return MList(E.family(X.n, lambda k: tuple(SInt(h) for h in (
            X.offset(sorted_(k)), X.offset(sorted_(k)) + X.file.length(sorted_(k)), sorted_(k)))))
    ip.contracts[sorted] = by_place
    ip.contracts[in_order] = lambda ip, fn, args, kw: MList(E.family(E.X.n, lambda k: SInt(E.fun('by place', 1, 0)(k))))
