"""Streebog over ghost streams, shared by C08 and C09.

P message; H[64k:64k+64], N[..], S[..] hash value, length counter and checksum after k whole blocks:
H, N, S start at IV, 0, 0 and H' = g_N(H, P), N' = N + 512, S' = S + P (spec/ref.py)."""
from pyvc.api import *
from pyvc.ghost import *
from pyvc import core
from pyvc.history import *
from spec import ref

NAME = {256: 'streebog256', 512: 'streebog512'}


def offsets(v, names, n=64):
    """offsets of whole blocks of the named streams the byte depends on"""
    if isinstance(v, int) or not v.bits():
        return []
    u = 0
    for i in core.setbits(v.b[0] & ~1):
        u |= core.A.dep(i)
    out = []
    for b in core.setbits(u):
        base, k = core.A.groups[b]
        if base in names and is_mult(OFFS[k], n):
            out.append(core.C.canon(OFFS[k]))
    return out


# ------------------------------------------------------------------ contracts of the internal functions
def uf_args(name, vecs):
    v = []
    for x in vecs:
        v += x
    return uf(name, v, 64)


def mk_elem(masks):
    if all(m <= 1 for m in masks):
        return sum(m << k for k, m in enumerate(masks))
    return core.SInt(list(masks))


def is_const(v):
    return all(isinstance(x, int) for x in v)


def spec_g(n, h, m):
    """g_N(h, m) as an abstract function (its definition is used where it is executed)"""
    if is_const(n) and is_const(h) and is_const(m):
        return ref.st_g(n, h, m)
    return uf_args('g', (h, n, m))


def spec_add(a, b):
    if is_const(a) and is_const(b):
        return ref.st_add(a, b)
    if is_const(a) and not any(a):
        return list(b)
    if is_const(b) and not any(b):
        return list(a)
    x, y = sorted((a, b), key=lambda v: [elem_bits(e) for e in v])
    return uf_args('add', (x, y))


def stub_g(h, n, m):
    return stub_call(spec_g, n, h, m)


def stub_add(a, b):
    return stub_call(spec_add, a, b)


def stub_call(f, *a):
    vs = []
    for x in a:
        ps = to_pieces(x)
        if ps is None:
            raise OpaqueUse('internal hash function called with a non-bytes value')
        x = SBytes(ps)
        if not core.same(x.length(), 64):
            raise Undecided('internal hash function called with a block of another length')
        vs.append(x.vec())
    return SBytearray([tuple(f(*vs))])


def prove_internal():
    """obligations of _hash_g and _hash_add_512, when the class has them in the form (h, N, m) and (a, b)"""
    from pyvc import engine
    res = []

    def t(which):
        def run(ctx):
            H = M('hash').GOST34112012
            o = H('streebog512', SBytearray([]))
            if which == 'g':
                h, n, m = (fresh_bytes(x, 64, True) for x in 'hnm')
                f = Frame(o=o, h=h, n=n, m=m)
                r = o._hash_g(h, n, m)
                want, args = ref.st_g(n.vec(), h.vec(), m.vec()), [h, n, m]
            else:
                a, b = (fresh_bytes(x, 64, True) for x in 'ab')
                f = Frame(o=o, a=a, b=b)
                r = o._hash_add_512(a, b)
                want, args = ref.st_add(a.vec(), b.vec()), [a, b]
            ctx.equal('result is the standard\'s for all %d bits' % (512 * len(args)), r, sb(want), 'bytearray')
            f.same(ctx, 'object and arguments unchanged')
            disjoint(ctx, 'result is a new buffer', [r], args)
        return run
    fresh()
    H = M('hash').GOST34112012
    ok = {}
    for which, name in (('g', '_hash_g'), ('add', '_hash_add_512')):
        if not hasattr(H, name):
            ok[which] = False
            res.append((name, 'undecided', 'no such function: it is executed within its callers'))
            continue
        e = engine.Engine(20, 60)
        r = e.run(t(which))
        ok[which] = bool(r) and all(x[1] == 'discharged' for x in r)
        # a failed contract of an internal function is not a violation by itself: its callers are then verified with its body
        core.reset_atoms()
        res += [('%s: %s' % (name, n), s if s == 'discharged' else 'undecided', d) for n, s, d in r]
    return ok, res


_internal = None


def internal():
    global _internal
    if _internal is None:
        _internal = prove_internal()
    return _internal


class HashWorld:
    def __init__(self, ctx, bits):
        self.ctx, self.bits, self.n = ctx, bits, 64
        self.m = M('hash')
        ok = internal()[0]
        if ok['g']:
            self.m.GOST34112012._hash_g = staticmethod(stub_g)
        if ok['add']:
            self.m.GOST34112012._hash_add_512 = staticmethod(stub_add)
        self.st_g = spec_g if ok['g'] else ref.st_g
        self.st_add = spec_add if ok['add'] else ref.st_add
        g = self.g = Ghost(ctx, 64)
        g.eager = True
        g.uf_value = self.uf_value
        g.uf_norm = self.uf_norm
        P, H, N, S = (g.prim(x) for x in 'PHNS')
        self.P, self.H, self.N, self.S = P, H, N, S
        iv = ref.st_iv(bits)
        H.unfold = lambda o: iv[o] if isinstance(o, int) and 0 <= o < 64 else None
        N.unfold = lambda o: (512 * (o // 64) >> 8 * (o % 64)) & 255 if isinstance(o, int) and o >= 0 else None
        S.unfold = lambda o: 0 if isinstance(o, int) and 0 <= o < 64 else None
        H.value = lambda ev, o: self.model(ev, o // 64)[0][o % 64]
        N.value = lambda ev, o: self.model(ev, o // 64)[1][o % 64]
        S.value = lambda ev, o: self.model(ev, o // 64)[2][o % 64]
        self.nxt = {}
        g.matchers += [self.match_h, self.match_n, self.match_s]

    def model(self, ev, k):
        c = getattr(ev, 'st', None)
        if c is None:
            c = ev.st = {0: (ref.st_iv(self.bits), [0] * 64, [0] * 64)}
        j = max(i for i in c if i <= k)
        while j < k:
            c[j + 1] = ref.st_step(c[j], [ev.elem('P', 64 * j + i) for i in range(64)])
            j += 1
        return c[k]

    def uf_norm(self, name, args):
        v = [mk_elem(args[i:i + 8]) for i in range(0, len(args), 8)]
        v = [v[i:i + 64] for i in range(0, len(v), 64)]
        if name == 'g':
            return spec_g(v[1], v[0], v[2])
        if name == 'add':
            return spec_add(*v)

    def uf_value(self, name, data):
        v = [list(data[64 * i:64 * i + 64]) for i in range(len(data) // 64)]
        if name == 'g':
            return bytes(ref.st_g(v[1], v[0], v[2]))
        if name == 'add':
            return bytes(ref.st_add(v[0], v[1]))

    def st(self, o, const=True):
        """state at offset o"""
        r = []
        for b in (self.H, self.N, self.S):
            r.append([b.unfold(o + j) if const and isinstance(o, int) and b.unfold(o + j) is not None else el(b, o + j) for j in range(64)])
        return r

    def successor(self, i, o):
        """possible values of component i at offset o + 64"""
        k = (i, core.okey(o))
        if k not in self.nxt:
            out = []
            for const in ((True, False) if isinstance(o, int) else (False,)):
                h, n, s = self.st(o, const)
                p = els(self.P, o, 64)
                out.append(self.st_g(n, h, p) if i == 0 else self.st_add(n, ref.V512) if i == 1 else self.st_add(s, p))
            self.nxt[k] = out
        return self.nxt[k]

    def step(self, i, base, vec, names):
        if len(vec) != 64:
            return None
        cand = []
        for j in (0, 1):
            for o in offsets(vec[j], names):
                if not any(core.same(o, c) for c in cand):
                    cand.append(o)
        for o in cand:
            for w in self.successor(i, o):
                if all(byte_same(x, y) for x, y in zip(vec, w)):
                    return [Slice(base, o + 64, o + 128)]
        return None

    def match_h(self, vec):
        return self.step(0, self.H, vec, ('P',))

    def match_s(self, vec):
        return self.step(2, self.S, vec, ('P',))

    def match_n(self, vec):
        if len(vec) == 64 and all(isinstance(v, int) for v in vec):
            v = ref.le_int(vec)
            if v % 512 == 0:
                return [Slice(self.N, v // 8, v // 8 + 64)]
            return None
        # the low byte of N stays 0: look at the second
        r = self.step(1, self.N, vec, ('N',))
        return r

    # -- objects
    def data(self, a, b, mutable=False):
        return (SBytearray if mutable else SBytes)([Slice(self.P, a, b)])

    def new(self, data=None):
        kw = {} if data is None else {'data': data}
        return self.m.new(NAME[self.bits], **kw)

    def final(self, q, r):
        """digest of P[0 : 64 q + r] by the specification"""
        o = core.C.canon(64 * q)
        h, n, s = self.st(o)
        tail = els(self.P, o, r)
        m = tail + [1] + [0] * (63 - r)
        h = self.st_g(n, h, m)
        n = self.st_add(n, ref.le_bytes(8 * r, 64))
        s = self.st_add(s, m)
        h = self.st_g([0] * 64, h, n)
        h = self.st_g([0] * 64, h, s)
        return SBytes([tuple(h if self.bits == 512 else h[32:])])


def bytes_of(ev, base, lo, hi):
    """hex of the model's values of a stretch of a ghost stream"""
    lo, hi = ev.lin(lo), ev.lin(hi)
    if hi - lo > 200000:
        raise ValueError('too long')
    return bytes(ev.elem(base, o) for o in range(lo, hi)).hex()


def byte_same(a, b):
    """syntactic equality of normal forms"""
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return elem_bits(a) == elem_bits(b)
