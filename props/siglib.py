"""Contracts of the signature module over unbounded integers (pyvc/ints.py): any curve of prime order over a prime field."""
import math
import random

from pyvc import core, engine, ints
from pyvc.api import *
from pyvc.ints import PInt, IntCtx, padd, poly, cond, mk
from pyvc.core import SBytes, SBytearray, Slice, to_pieces

ASSUMPTIONS = ['CPython semantics of the operations in pyvc/core.py and pyvc/ints.py; z3 for integer arithmetic',
               'p and q are primes above 3, the curve is not singular, its base point has order q (for the built-in sets these are '
               'checked by C16, primality by a probabilistic test)',
               'the chord and tangent formulas are the group law; X(i) = X(j) only for i = +-j; no point of order 2 (group theory)',
               'encode and decode of integers as in the contracts of int_to_bytearray and int.from_bytes',
               'for public keys and points: p < 2^(8 size), so that coordinates fit their field']


def stub_utils():
    """callers use the contracts of the comparison and encoding functions (proved by the tasks of C15)"""
    m, u = M('sign'), M('utils')
    orig = {n: getattr(u, n, None) for n in ('compare', 'compare_to_zero', 'int_to_bytearray')}

    def val(b):
        return int_.from_bytes(b, 'big')
    from pyvc.loader import int_

    def compare(a, b):
        pa, pb = to_pieces(a), to_pieces(b)
        if pa is None or pb is None or all_concrete(pa) and all_concrete(pb) or not isinstance(core.C, IntCtx):
            return orig['compare'](a, b)
        la, lb = SBytes(pa).length(), SBytes(pb).length()
        if la != lb:
            return False
        return bool(val(a) == val(b))

    def compare_to_zero(a):
        ps = to_pieces(a)
        if ps is None or all_concrete(ps) or not isinstance(core.C, IntCtx):
            return orig['compare_to_zero'](a)
        return bool(val(a) == 0)

    def int_to_bytearray(v, n):
        c = core.C
        if not isinstance(v, PInt) or not isinstance(n, int) or not isinstance(c, IntCtx):
            return orig['int_to_bytearray'](v, n)
        v = c.norm_value(v)
        if isinstance(v, int):
            return orig['int_to_bytearray'](v, n)
        if not c.holds(v >= 0) or not c.holds(v < 1 << 8 * n):
            # the function keeps the low order bytes
            v = v % (1 << 8 * n)
        return c.encode(v, n)
    for n, f in (('compare', compare), ('compare_to_zero', compare_to_zero), ('int_to_bytearray', int_to_bytearray)):
        if orig[n] is not None and getattr(m, n, None) is orig[n]:
            setattr(m, n, f)


def all_concrete(ps):
    return all(isinstance(p, tuple) and all(isinstance(x, int) for x in p) for p in ps)


# ------------------------------------------------------------------ utils, by the bit level engine
def roundtrip(n):
    def t(ctx):
        u = M('utils')
        b = fresh_bytes('v', n)
        v = core.int_from_vec(b.vec())
        ctx.equal('int_to_bytearray is the big endian encoding', u.int_to_bytearray(v, n), b, 'bytearray')
        ctx.check('bytearray_to_int is its inverse', u.bytearray_to_int(b) == v)
    return t


def compares(n, kind):
    def t(ctx):
        u = M('utils')
        a, b = fresh_bytes('a', n, kind), fresh_bytes('b', n, not kind)
        for name, r, ms in (('compare', u.compare(a, b), list(zip(a.vec(), b.vec()))),
                            ('compare_to_zero', u.compare_to_zero(a), [(x, 0) for x in a.vec()])):
            d = SBytes([tuple(x ^ y for x, y in ms)])
            zero = core.int_from_vec(d.vec()) == 0 if ms else True
            ctx.check('%s decides equality' % name, bool(r) == bool(zero), '%d bytes' % n)
        ctx.check('compare: other lengths differ', u.compare(a, fresh_bytes('c', n + 1)) is False)
    return t


def util_tasks():
    out = []
    for n in (32, 64):
        out.append(Task('integers of %d bytes' % n, roundtrip(n)))
        out.append(Task('comparison of %d bytes' % n, compares(n, n == 32)))
    return out


# ------------------------------------------------------------------ a concrete curve for finding invariants
class Toy:
    """a real curve; small multiples of its base point by affine addition"""

    def __init__(self, size=32):
        from spec.consts import CURVES
        self.c = c = dict(next(c for n, c in sorted(CURVES.items()) if c['p'].bit_length() <= 256 and c.get('x')))
        self.pts = [None, (c['x'], c['y'])]
        for i in range(2, 2200):
            self.pts.append(self.add(self.pts[-1], self.pts[1]))
        self.X = {}
        self.Y = {}
        for i in range(len(self.pts) - 1, 0, -1):
            self.X[self.pts[i][0]] = i
            self.Y[self.pts[i][1]] = i

    def add(self, P, Q):
        p = self.c['p']
        if P == Q:
            l = (3 * P[0] ** 2 + self.c['a']) * pow(2 * P[1], -1, p) % p
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (l * l - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p


TOY = []


def toy():
    if not TOY:
        TOY.append(Toy())
    return TOY[0]


def mode_of(size):
    return 1 if size == 32 else 2


def sampler(ctx, out):
    """run inversion, multiplication on concrete numbers; states at loop heads and results of recursive calls go to out"""
    m = M('sign')
    t = toy()
    rng = random.Random(5)
    tr = dict(params={}, X=t.X, Y=t.Y)

    def rec(site, loc):
        l = out.setdefault(site, [])
        if len(l) < 400:
            l.append((dict(loc), tr))
    obj = m.new(1, dict(t.c))
    ctx.sampling = rec
    inv = getattr(obj, '_invert', None)
    if inv is not None:
        for i in range(60):
            if i % 2:
                n = rng.choice([1009, 10007, 65537, 7919, 104729, 5003])
                v = rng.randrange(1, n)
            else:
                n = rng.choice([6, 12, 60, 36, 90, 1001, 5040])
                v = rng.choice([rng.randrange(-50, 6000), rng.randrange(1, 30) * rng.choice([7, 12, 30])])
            tr = dict(params=dict(value=v, modulus=n), X={}, Y={})
            inv(v, n)
    mul = getattr(obj, '_mul_point', None)
    if mul is not None:
        for _ in range(40):
            k = rng.randrange(2, 1000)
            tr = dict(params=dict(k=k), X=t.X, Y=t.Y)
            mul(k)
    ctx.sampling = None


# ------------------------------------------------------------------ symbolic curve
class Sig:
    def __init__(self, ctx, size=32, azero=None):
        self.ctx, self.size = ctx, size
        self.m = M('sign')
        stub_utils()
        c = ctx
        self.p, self.q = c.pvar('p'), c.pvar('q')
        bits = 254 if size == 32 else 508
        c.prime(self.p, 5)
        c.prime(self.q, 1 << bits)
        c.pfact(self.q < 1 << 8 * size)
        c.pfact(self.p < 1 << 8 * size)
        self.a, self.b = c.pvar('a'), c.pvar('b')
        c.pfact(4 * self.a ** 3 + 27 * self.b ** 2 != 0)
        c.set_curve(p=self.p, q=self.q, a=self.a, b=self.b)
        c.params.update(p=self.p, q=self.q)
        if azero is not None:
            c.pfact(self.a == 0 if azero else self.a != 0)
        self.x, self.y = c.X(1), c.Y(1)

    def obj(self):
        """an object made by the real constructor, for a curve that passes its checks"""
        c = self.ctx
        c.psolver.push()
        n = len(c.ges)
        for i in range(1, 32 if self.size == 32 else 132):
            c.pfact(self.p ** i % self.q != 1)
        M_ = c.pvar('m')
        c.pfact(M_ != self.p)
        o = self.m.new(mode_of(self.size), dict(p=self.p, q=self.q, a=self.a, b=self.b, m=M_, x=self.x, y=self.y))
        c.psolver.pop()             # these facts are not needed any more
        del c.ges[n:]
        c.lstate = None
        c.hold = {}
        return o


def invert_task():
    def t(ctx):
        m = M('sign')
        stub_utils()
        n, v = ctx.pvar('n'), ctx.pvar('v')
        ctx.prime(n, 5)
        ctx.nonzero(v.p, n.p)
        ctx.pfact(v % n != 0)
        ctx.params.update(value=v, modulus=n)
        r = m.GOST34102012._invert(v, n)
        ctx.check('value times inverse is 1 modulo n', ctx.zero_mod(poly(r * v - 1), n.p), repr(r))
    return t


def stub_invert():
    m = M('sign')
    K = m.GOST34102012
    raw = vars(K).get('_invert')
    if raw is None:
        return
    orig = raw.__func__ if isinstance(raw, (staticmethod, classmethod)) else raw
    import inspect
    n = len(inspect.signature(getattr(orig, '__wrapped__', orig)).parameters) - (0 if isinstance(raw, staticmethod) else 1)
    if n != 2:
        return

    def inv(*a):
        v, n = a[-2:]
        if isinstance(core.C, IntCtx) and (isinstance(v, PInt) or isinstance(n, PInt)):
            return core.C.inverse(v, n)
        return orig(*a)
    K._invert = staticmethod(inv) if isinstance(raw, staticmethod) else classmethod(inv) if isinstance(raw, classmethod) else inv


def stub_mul():
    """callers of the multiplication use its contract (proved by C15)"""
    m = M('sign')
    K = m.GOST34102012
    orig = vars(K).get('_mul_point')
    if orig is None or isinstance(orig, (staticmethod, classmethod)):
        return

    def mul(self, k, x_op=-1, y_op=-1):
        c = core.C
        if not isinstance(c, IntCtx) or not isinstance(k, PInt):
            return orig(self, k, x_op, y_op)
        if isinstance(x_op, int) and isinstance(y_op, int) and x_op < 0:
            i = poly(1)
        else:
            kx, ky = ints.coord_kind(x_op), ints.coord_kind(y_op)
            if kx is None or ky is None or kx[0] != 'X' or ky[0] != 'Y' or not c.zero_mod(padd(kx[1], ky[1], -1), poly(c.curve['q'])):
                raise core.Unproved('multiplication of something that is not a known point')
            i = kx[1]
        if not c.holds(k >= 1) or not c.holds(k < c.curve['q']):
            raise core.Unproved('scalar not known to be between 1 and q - 1: %r' % (k,))
        i = PInt(ints.pmul(i, k.p))
        return c.X(i), c.Y(i)
    import inspect
    if list(inspect.signature(orig).parameters)[1:] != ['mul_value', 'x_op', 'y_op']:
        return
    K._mul_point = mul


def stub_rand():
    """contract of the random value generator: a fresh draw between 1 and q - 1 (proved by a task of C13)"""
    m = M('sign')
    K = m.GOST34102012
    orig = vars(K).get('_get_rand_k')
    import inspect
    if orig is None or not inspect.isfunction(orig) or list(inspect.signature(orig).parameters) != ['self']:
        return

    def get(self):
        c = core.C
        if not isinstance(c, IntCtx) or c.sampling is not None or not isinstance(self._q, PInt):
            return orig(self)
        b = SBytearray(c.urandom(self._size).p)
        v = num(b)
        c.pfact(v >= 1)
        c.pfact(v < self._q)
        return b
    K._get_rand_k = get


def rand_task(size):
    def t(ctx):
        w = Sig(ctx, size)
        o = w.obj()
        f = getattr(o, '_get_rand_k', None)
        import inspect
        if f is None or list(inspect.signature(f).parameters):
            ctx.check('random values are drawn where they are used', True)
            return
        b = f()
        v = num(b)
        ctx.check('%d bytes' % size, type(b) is SBytearray and len(b) == size)
        ctx.pprove('random value is not 0', v >= 1)
        ctx.pprove('random value is below q', v < w.q)
        ctx.check('random value is the one drawn last', ints.same_rope(ctx, b.p, ctx.draw[-1].p))
    return t


def add_task(size, double):
    def t(ctx):
        w = Sig(ctx, size)
        stub_invert()
        o = w.obj()
        i, j = ctx.pvar('i', 1), ctx.pvar('j', 1)
        ctx.pfact(i < w.q)
        ctx.pfact(j < w.q)
        if double:
            j = i
        else:
            ctx.nonzero(poly(i + j), w.q.p)
            ctx.nonzero(poly(i - j), w.q.p)
        r = o._add(ctx.X(i), ctx.X(j), ctx.Y(i), ctx.Y(j))
        ctx.check('two coordinates', type(r) is tuple and len(r) == 2)
        ctx.peq('x coordinate of the sum', r[0], ctx.X(i + j))
        ctx.peq('y coordinate of the sum', r[1], ctx.Y(i + j))
    return t


def mul_task(size, given):
    def t(ctx):
        w = Sig(ctx, size)
        stub_invert()
        o = w.obj()
        k = ctx.pvar('k', 1)
        ctx.pfact(k < w.q)
        ctx.params['k'] = k
        r = o._mul_point(k, w.x, w.y) if given else o._mul_point(k)
        ctx.check('two coordinates', type(r) is tuple and len(r) == 2)
        ctx.peq('x coordinate of the multiple', r[0], ctx.X(k))
        ctx.peq('y coordinate of the multiple', r[1], ctx.Y(k))
    return t


# ------------------------------------------------------------------ byte string arguments
def sbytes(ctx, name, n, mutable):
    b = ctx.base(name)
    return (SBytearray if mutable else SBytes)([Slice(b, 0, n)])


def num(b):
    from pyvc.loader import int_
    return int_.from_bytes(b, 'big')


def fields(ctx, name, got, values, n):
    """got is the concatenation of the n byte encodings of the values"""
    ps = to_pieces(got)
    if not ctx.check('%s: byte string of %d bytes' % (name, n * len(values)), ps is not None and core.same(SBytes(ps).length(), n * len(values)), repr(got)[:200]):
        return
    for i, v in enumerate(values):
        ctx.peq('%s: field %d' % (name, i), num(SBytes(ps)[n * i:n * (i + 1)]), v)


def outcome(f, *a):
    """(result, None) or (None, exception)"""
    try:
        return f(*a), None
    except (PathEnd, core.Undecided, engine.Restart, engine._Sym):
        raise
    except Exception as e:
        return None, e


def raised(ctx, e, msg):
    m = M('sign')
    ctx.check('refused with the signature error', isinstance(e, m.GOSTSignatureError) and str(e) == 'GOSTSignatureError: ' + msg, repr(e)[:200])


def unchanged(ctx, **bufs):
    f = Frame(**bufs)
    return lambda: f.same(ctx, 'arguments are not modified')


def pubkey_task(size, mutable):
    def t(ctx):
        w = Sig(ctx, size)
        stub_invert()
        stub_mul()
        o = w.obj()
        key = sbytes(ctx, 'private', size, mutable)
        same = unchanged(ctx, key=key)
        d = num(key)
        r, e = outcome(o.public_key_generate, key)
        same()
        if e is not None:
            ctx.check('private key refused only when it is 0 modulo q', bool(d % w.q == 0), repr(e)[:200])
            raised(ctx, e, 'invalid private key')
            return
        ctx.check('private key 0 modulo q is refused', bool(d % w.q != 0))
        fields(ctx, 'public key', r, [ctx.X(d), ctx.Y(d)], size)
        ctx.check('bytearray', type(r) is SBytearray)
    return t


# ------------------------------------------------------------------ signing
def sign_task(size, mutable, rand, azero):
    """rand: None (not given), an int length, or 'any' length"""
    def t(ctx):
        w = Sig(ctx, size, azero=azero)
        stub_rand()
        stub_invert()
        stub_mul()
        o = w.obj()
        q = w.q
        key, dig = sbytes(ctx, 'private', size, mutable), sbytes(ctx, 'digest', size, not mutable)
        d, e = num(key), num(dig) % q
        kw = {}
        bufs = dict(key=key, digest=dig)
        if rand is not None:
            n = rand
            if rand == 'any':
                n = ctx.var('length of the random value', 1)
            bufs['rand_k'] = kw['rand_k'] = sbytes(ctx, 'random', n, mutable)
        same = unchanged(ctx, **bufs)
        r, ex = outcome(lambda: o.sign(key, dig, **kw))
        same()
        if ex is not None:
            if d % q == 0:
                raised(ctx, ex, 'invalid private key value')
                return
            kk = num(kw['rand_k']) if kw else None
            ctx.check('refused only when the random value is 0 or not below q', kw and bool(kk == 0 or kk >= q), repr(ex)[:200])
            raised(ctx, ex, 'invalid random value')
            return
        ctx.check('private key 0 modulo q is refused', bool(d % q != 0))
        if bool(e == 0):
            e = 1
        ctx.check('bytearray', type(r) is SBytearray)
        ctx.check('byte string of %d bytes' % (2 * size), core.same(SBytes(to_pieces(r)).length(), 2 * size))
        rr, rs = num(r[:size]), num(r[size:])
        if kw:
            kk = num(kw['rand_k'])
            ctx.check('random value that is 0 or not below q is refused', bool(kk > 0 and kk < q))
            r0 = ctx.X(kk) % q
            if r0 != 0:
                s0 = (r0 * d + kk * e) % q
                if s0 != 0:
                    ctx.peq('r is the x coordinate of kP modulo q', rr, r0)
                    ctx.peq('s is rd + ke modulo q', rs, s0)
                    return
            ctx.check('a value that gives r = 0 or s = 0 is replaced by a fresh one', ctx.n_urandom > 0 or ctx.random_progress)
        # a drawn random value: some k between 1 and q - 1 on this path is the one used
        for k in [num(b) for b in ctx.draw]:
            if ctx.holds(k >= 1) and ctx.holds(k < q) and any(a.kind == 'X' and ctx.zero_mod(padd(a.args[0], k.p, -1), q.p) for a in ctx.atoms.values()):
                r0 = ctx.X(k) % q
                if ctx.holds(rr == r0):
                    ctx.peq('r is the x coordinate of kP modulo q', rr, r0)
                    ctx.peq('s is rd + ke modulo q', rs, (r0 * d + k * e) % q)
                    ctx.check('r and s are not 0', bool(rr != 0) and bool(rs != 0))
                    return
        ctx.check('r is the x coordinate of kP modulo q for a random k between 1 and q - 1', False)
    return t


# ------------------------------------------------------------------ verification
class Accepted(Exception):
    """an arbitrary point has passed the checks"""


def stub_mul_any():
    """multiplication of a point that need not be known: the checks before it are what matters"""
    K = M('sign').GOST34102012
    known = vars(K).get('_mul_point')

    def mul(self, k, *a, **kw):
        try:
            return known(self, k, *a, **kw)
        except core.Unproved:
            raise Accepted()
    if known is not None:
        K._mul_point = mul


def verify_task(size, mutable, azero):
    def t(ctx):
        w = Sig(ctx, size, azero=azero)
        stub_invert()
        stub_mul()
        o = w.obj()
        q = w.q
        d = ctx.pvar('d', 1)
        ctx.pfact(d < q)
        n = size
        pub, dig, sig = sbytes(ctx, 'public', 2 * n, mutable), sbytes(ctx, 'digest', n, not mutable), sbytes(ctx, 'signature', 2 * n, mutable)
        ctx.define_int(pub[:n], ctx.X(d))
        ctx.define_int(pub[n:], ctx.Y(d))
        same = unchanged(ctx, public=pub, digest=dig, signature=sig)
        res, ex = outcome(o.verify, pub, dig, sig)
        same()
        ctx.check('no error for arguments of the right form', ex is None, repr(ex)[:300])
        if ex is not None:
            return
        res = bool(res)
        r, s = num(sig[:n]), num(sig[n:])
        if not (bool(r > 0) and bool(r < q) and bool(s > 0) and bool(s < q)):
            ctx.check('r and s out of range: not accepted', res is False)
            return
        e = num(dig) % q
        if bool(e == 0):
            e = 1
        v = ctx.inverse(e, q)
        i = s * v - r * v * d
        if bool(i % q == 0):
            ctx.check('point at infinity: not accepted', res is False)
            return
        ok = bool(ctx.X(i) % q == r)
        ctx.check('accepted exactly when x modulo q is r', ok == res, 'result %r, expected %r' % (res, ok))
    return t


def verify_key_task(size, mutable):
    """an arbitrary public key"""
    def t(ctx):
        w = Sig(ctx, size)
        stub_invert()
        stub_mul()
        stub_mul_any()
        o = w.obj()
        n = size
        pub, dig, sig = sbytes(ctx, 'public', 2 * n, mutable), sbytes(ctx, 'digest', n, not mutable), sbytes(ctx, 'signature', 2 * n, mutable)
        x, y = num(pub[:n]), num(pub[n:])
        res, ex = outcome(o.verify, pub, dig, sig)
        valid = bool(x < w.p) and bool(y < w.p) and bool((y * y - x ** 3 - x * w.a - w.b) % w.p == 0)
        if ex is None or isinstance(ex, Accepted):
            ctx.check('a public key that is not a point of the curve is refused', valid)
            return
        ctx.check('a point of the curve is not refused', not valid, repr(ex)[:300])
        raised(ctx, ex, 'invalid public key value')
    return t


def matching_task(size, given, azero):
    """every signature made by the matching key verifies"""
    def t(ctx):
        w = Sig(ctx, size, azero=azero)
        stub_rand()
        stub_invert()
        stub_mul()
        o = w.obj()
        n = size
        key, dig = sbytes(ctx, 'private', n, True), sbytes(ctx, 'digest', n, False)
        ctx.pfact(num(key) % w.q != 0)
        kw = {}
        if given:
            kw['rand_k'] = sbytes(ctx, 'random', n, False)
            ctx.pfact(num(kw['rand_k']) >= 1)
            ctx.pfact(num(kw['rand_k']) < w.q)
        pub = o.public_key_generate(key)
        sig = o.sign(key, dig, **kw)
        ctx.check('the signature of the matching key is accepted', o.verify(pub, dig, sig) is True)
    return t
