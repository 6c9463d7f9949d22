"""Ghost streams: byte arrays of any length defined by recurrences of the specification, and abstract
primitives (cipher, hash, HMAC) that are known to the code under proof by their contract only."""
from . import core
from .core import SBytes, SBytearray, SInt, SLin, Slice, Fill, Undecided, to_pieces, elem_bits, OFFS, NonBytes, OpaqueUse


def is_mult(off, n):
    if isinstance(off, int):
        return off % n == 0
    off = core.C.canon(off)
    if isinstance(off, int):
        return off % n == 0
    return all(v % n == 0 for v in off.t.values()) and off.c % n == 0


def el(base, off):
    return SBytes.elem_of(base, off)


def els(base, off, n):
    return [el(base, off + j) for j in range(n)]


def sl(base, lo, hi):
    return SBytes([Slice(base, lo, hi)])


def hints(vec, bases, limit=6):
    """offsets o such that vec may start at element o of one of the bases"""
    names = {b.name for b in bases}
    out, seen = [], set()
    for j, v in enumerate(vec):
        if isinstance(v, int):
            continue
        ms = [v.b[0] if v.b else 0] if v.b is not None else []
        for m in ms:
            x = m & ~1
            k = 0
            while x and k < 40:
                low = x & -x
                x ^= low
                k += 1
                d = core.A.desc[low.bit_length() - 1]
                if d[0] == 'arr' and d[1] in names:
                    o = OFFS[d[2]] - j
                    key = core.okey(o)
                    if key not in seen:
                        seen.add(key)
                        out.append(o)
        if len(out) >= limit or (out and j >= 2):
            break
    return out


def byte_eq(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return all(x == y or core.C.unf(x ^ y) == 0 for x, y in zip(elem_bits(a), elem_bits(b)))


def match(vec, fn, offs):
    """offset o in offs with vec[j] == fn(o + j) for all j, or None"""
    for o in offs:
        ok = True
        for j, v in enumerate(vec):
            try:
                w = fn(o + j)
            except IndexError:
                ok = False
                break
            if w is None or not byte_eq(v, w):
                ok = False
                break
        if ok:
            return o
    return None


def one_slice(x, base):
    """(lo, hi) if x is a slice of base"""
    ps = to_pieces(x)
    if len(ps) == 1 and isinstance(ps[0], Slice) and ps[0].base is base:
        return ps[0].lo, ps[0].hi
    return None


class Args(tuple):
    """tuple that remembers its hash"""
    def __hash__(self):
        h = self.__dict__.get('h')
        if h is None:
            h = self.__dict__['h'] = tuple.__hash__(self)
        return h


def uf(name, vec, nbytes):
    """uninterpreted function of a vector"""
    args = []
    for v in vec:
        args += [core.C.unf(m) for m in elem_bits(v)]
    args = Args(args)
    args = core.A.args.setdefault(args, args)
    return [SInt([core.A.get(('uf', name, args, 8 * i + k)) for k in range(8)]) for i in range(nbytes)]


class Ghost:
    """rules of one proof; ctx.contract"""

    def __init__(self, ctx, n):
        self.ctx, self.n = ctx, n
        self.E, self.D, self.folds = [], [], []
        self.matchers = []        # vector -> pieces it is known to equal
        self.calls = 0
        ctx.contract = self

    def prim(self, name):
        b = self.ctx.base(name)
        self.folds.append((b, lambda o, b=b: el(b, o), [(b, 0)]))
        return b

    def defined(self, name, fn, hint, unfold=None):
        """base whose element at offset o is fn(o) (None: not defined there); hint: [(base, shift)] for recognition"""
        b = self.ctx.base(name, fn if unfold is None else unfold)
        self.folds.append((b, fn, hint))
        return b

    def block_value(self, op, fn, shift=0):
        """concrete stream of cipher outputs: element shift + o is op(block of fn at o)"""
        n = self.n

        def value(ev, o):
            o -= ev.lin(shift)
            if o < 0:
                return None
            b = o - o % n
            return getattr(ev, op)([fn(ev, b + j) for j in range(n)], n)[o % n]
        return value

    def find(self, vec, fn, hint):
        offs = []
        for hb, sh in hint:
            offs += [o + sh for o in hints(vec, [hb])]
        return match(vec, fn, offs)

    def places(self, ps):
        """[(base, offset)]: every ghost stretch the pieces are known to equal"""
        out = []
        if len(ps) == 1 and isinstance(ps[0], Slice):
            out.append((ps[0].base, ps[0].lo))
        try:
            vec = SBytes(ps).vec()
        except Undecided:
            return out
        for f in self.matchers:
            r = f(vec)
            if r is not None and len(r) == 1 and isinstance(r[0], Slice):
                out.append((r[0].base, r[0].lo))
        return out

    def fold(self, vec):
        for f in self.matchers:
            r = f(vec)
            if r is not None:
                return r
        for b, fn, hint in self.folds:
            o = self.find(vec, fn, hint)
            if o is not None:
                return [Slice(b, o, o + len(vec))]
        w = [unf_byte(v) for v in vec]
        for b, fn, hint in self.folds:
            o = self.find(w, fn, hint)
            if o is not None:
                return [Slice(b, o, o + len(vec))]
        return None

    def apply(self, rules, name, x):
        for r in rules:
            y = r(x)
            if y is not None:
                return y
        v = x.vec()
        f = self.fold(v)
        if f is not None:
            y = None
            for r in rules:
                y = r(SBytes(f))
                if y is not None:
                    return y
        return [tuple(uf(name, v, self.n))]


def unf_byte(v):
    if isinstance(v, int):
        return v
    return SInt([core.C.unf(m) for m in elem_bits(v)])


class StubCipher:
    """the block cipher as its contract: E and D are inverse permutations of n-byte blocks, results are new buffers,
    arguments are not changed, clear() only concerns the object itself.  Proved for the real classes by C01, C02, C19, C20."""
    _vc_walk = True

    def __init__(self, key):
        ctx = core.C
        self.key = SBytes(to_pieces(key)) if to_pieces(key) is not None else key
        self.cleared = False
        self.oid = StubOid(self.alg)

    def _op(self, rules, name, x):
        ctx = core.C
        g = ctx.contract
        if to_pieces(x) is None:
            raise OpaqueUse('block cipher called with a non-bytes value')
        x = SBytes(to_pieces(x))
        ctx.check('cipher is called with whole blocks', core.same(x.length(), self.block_size), '%r' % (x,))
        if not core.same(x.length(), self.block_size):
            raise Undecided('block of wrong length')
        g.calls += 1
        if self.cleared:
            return SBytearray([tuple(uf('cleared' + name, x.vec(), self.block_size))])
        return SBytearray(list(g.apply(rules, name, x)))

    def encrypt(self, block):
        return self._op(core.C.contract.E, 'E', block)

    def decrypt(self, block):
        return self._op(core.C.contract.D, 'D', block)

    def clear(self):
        self.cleared = True
        self.key = None


class StubKuz(StubCipher):
    alg = 'kuznechik'
    block_size = 16
    key_size = 32


class StubMag(StubCipher):
    alg = 'magma'
    block_size = 8
    key_size = 32


class StubOid:
    _vc_walk = True

    def __init__(self, alg):
        self.alg = alg
