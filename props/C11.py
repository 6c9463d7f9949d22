"""C11: PBKDF2 over the HMAC contract, every password, salt, iteration count and length.

Streams indexed by the block number i and an offset (one linear offset i * W + offset):
  U  U_i(1), U_i(2), ...: HMAC(pw, salt || INT4(i)), then HMAC(pw, previous)
  T  running xor of U_i
  R  derived key: block i is T_i after `count` values"""
import hashlib

from .absfn import *
from pyvc.history import *
from pyvc import engine
from pyvc.core import OFFS

W = 1 << 80
MAXB = 2 ** 32 - 1

FUNCTIONS = ['r_50_1_111_2016.' + f for f in ('new', 'R5011112016.__init__', 'R5011112016._u_first', 'R5011112016._u_iter', 'R5011112016._f',
                                              'R5011112016._calculate_pbkdf', 'R5011112016.derive', 'R5011112016.hexderive', 'R5011112016.salt')] + \
            ['utils.add_xor', 'utils.int_to_bytearray', 'utils.zero_fill']
ASSUMPTIONS = ['CPython semantics of the operations in pyvc/core.py', 'the HMAC object by its contract (proved by C10)', 'iteration count below 2^70']


def split(o):
    """(block number, offset) of a stream position"""
    o = core.C.canon(o)
    if isinstance(o, int):
        i = (o + W // 2) // W
        return i, o - i * W
    hi, lo = SLin({}, 0), SLin({}, 0)
    for x, v in o.t.items():
        k = (v + W // 2) // W
        if k:
            hi = hi + SLin({x: k}, 0)
        if v - k * W:
            lo = lo + SLin({x: v - k * W}, 0)
    k = (o.c + W // 2) // W
    hi, lo = core.C.canon(hi + k), core.C.canon(lo + (o.c - k * W))
    simp = lambda z: z if isinstance(z, int) or z.t else z.c
    return simp(hi), simp(lo)


class StubHmac:
    """an HMAC_512 object as its contract (C10)"""
    _vc_walk = True

    def __init__(self, name, key, data=None):
        if name != 'HMAC_GOSTR3411_2012_512':
            raise Undecided('HMAC with name %r' % (name,))
        kp = to_pieces(key)
        if kp is None or not core.le(SBytes(kp).length(), 64):
            raise Undecided('HMAC key %r' % (key,))
        n = SBytes(kp).length()
        self.key = SBytes(list(kp) + [Fill(0, 64 - n)])
        self.D = SBytes([])
        if data is not None:
            self.update(data)

    def update(self, data):
        ps = to_pieces(data)
        if ps is None:
            raise Undecided('HMAC of %r' % (data,))
        self.D = SBytes(list(self.D.p) + list(ps))

    def digest(self):
        if self.key is None:
            raise Undecided('HMAC object used after clear')
        w = core.C.contract.world
        r = w.hmac(self.key, self.D)
        return SBytearray(r)

    def hexdigest(self):
        return self.digest().hex()

    def reset(self):
        self.D = SBytes([])

    def copy(self):
        from copy import deepcopy
        return deepcopy(self)

    def clear(self):
        self.key = None

    digest_size = property(lambda self: 64)
    block_size = property(lambda self: 64)
    name = property(lambda self: 'HMAC_GOSTR3411_2012_512')


def hmac_new(name, key, **kw):
    return StubHmac(name, key, kw.get('data'))


def C11_fixed(ctx):
    return ctx.eng.fixed is not None


def some_hmac(k, d):
    """some function of the padded key and the data: the proof must hold for every one (replays use the real HMAC)"""
    return hashlib.sha512(bytes(k) + bytes(d)).digest()


class World:
    def __init__(self, ctx, pmut=False, smut=False, urandom=False):
        self.ctx = ctx
        f = AbsFn(ctx)
        self.g = g = f.g
        g.fns, g.world = f, self
        f.define('HM', 64, some_hmac)
        self.f = f
        self.m = m = M('pbkdf')
        h = M('hmac')
        substitute(m, h.R5011132016, StubHmac)
        substitute(m, h.new, hmac_new)
        for v in list(vars(m).values()):
            if type(v) is type(m) and v.__name__.startswith('gostcrypto.gosthmac'):
                substitute(v, h.R5011132016, StubHmac)
                substitute(v, h.new, hmac_new)
        PW = g.prim('PW')
        k = ctx.var('k', 0, 64)
        self.pw = (SBytearray if pmut else SBytes)([Slice(PW, 0, k)])
        self.key = SBytes([Slice(PW, 0, k), Fill(0, 64 - k)])
        if urandom:
            self.salt = None
            S = g.prim('RANDOM')
            ctx.rand = lambda n, i: SBytes([Slice(S, 0, n)]) if i == 1 else (_ for _ in ()).throw(Undecided('more than one random draw'))
            self.saltp = [Slice(S, 0, 32)]
        else:
            SA = g.prim('SALT')
            s = ctx.var('s', 1)
            self.salt = (SBytearray if smut else SBytes)([Slice(SA, 0, s)])
            self.saltp = list(self.salt.p)
        self.streams()

    def streams(self):
        g, ctx = self.g, self.ctx
        U = self.U = g.prim('U')

        def uval(ev, o):
            i = (o + W // 2) // W
            o -= i * W
            if not 1 <= i <= MAXB or o < 0:
                return None
            c = ev.ufc.setdefault(('U', i), [])
            if not c:
                c += [bytes.fromhex(model_hex(ev, self.key)), some_hmac(bytes.fromhex(model_hex(ev, self.key)), bytes.fromhex(model_hex(ev, SBytes(self.saltp))) + i.to_bytes(4, 'big'))]
            while len(c) <= o // 64 + 1:
                c.append(some_hmac(c[0], c[-1]))
            return c[o // 64 + 1][o % 64]
        U.value = uval

        def tdef(o):
            i, r = split(o)
            if isinstance(r, int):
                if r < 0:
                    return None
                if r >= 128 and C11_fixed(ctx):
                    v = el(U, o - r + r % 64)
                    for j in range(r % 64 + 64, r + 1, 64):
                        v = v ^ el(U, o - r + j)
                    return v
                return el(U, o) if r < 64 else el(U, o) ^ el(T, o - 64)
            return el(U, o) ^ el(T, o - 64) if r.c >= 64 and core.le(64, r) else None
        T = self.T = ctx.base('T', tdef)
        g.folds.append((T, tdef, [(U, 0), (T, 64)]))

        def tval(ev, o):
            i = (o + W // 2) // W
            r = 0
            for j in range((o - i * W) % 64 + i * W, o + 1, 64):
                r ^= ev.elem('U', j)
            return r
        T.value = tval
        def rdef(o):
            c = core.C.canon(self.c)
            if isinstance(o, int) and isinstance(c, int):
                return el(T, (o // 64 + 1) * W + 64 * (c - 1) + o % 64)
        R = self.R = ctx.base('R', rdef)
        R.value = lambda ev, o: ev.elem('T', (o // 64 + 1) * W + 64 * (ev.lin(self.c) - 1) + o % 64)
        g.slice_fold = self.slice_fold
        old = g.fold

        def fold(vec):
            r = old(vec)
            if r is not None and len(r) == 1 and isinstance(r[0], Slice):
                return self.slice_fold(r[0]) or r
            return r
        g.fold = fold

    def slice_fold(self, p):
        """a whole last value of T_i is block i of the derived key"""
        if p.base not in (self.T, self.U) or getattr(self, 'c', None) is None:
            return None
        i, lo = split(p.lo)
        j, hi = split(p.hi)
        if not core.same(i, j) or not core.same(hi - lo, 64):
            return None
        if not is_mult(lo, 64):
            return None
        if p.base is self.U and not core.same(lo, 0):
            return None
        if core.same(lo, 64 * (self.c - 1)):
            return [Slice(self.R, 64 * (i - 1), 64 * i)]
        if core.same(lo, 0):
            return [Slice(self.T, p.lo, p.hi)]
        return None

    # ---- the contract of HMAC
    def int4(self, v):
        """the integer of four bytes"""
        if all(isinstance(x, int) for x in v):
            return int.from_bytes(bytes(v), 'big')
        for x in v:
            for m in elem_bits(x):
                for a in core.setbits(m & ~1):
                    d = core.A.desc[a]
                    if d[0] == 'lin':
                        i = OFFS[d[1]]
                        w = M('utils').int_to_bytearray(i, 4) if False else [i >> s & 255 for s in (24, 16, 8, 0)]
                        if all(byte_eq(a, b) for a, b in zip(v, w)):
                            return i
                        # high bits of the number missing: right for small numbers only
                        dm = {core.C.unf(x ^ y) for a, b in zip(v, w) for x, y in zip(elem_bits(a), elem_bits(b))} - {0}
                        ds = [core.A.desc[z.bit_length() - 1] if z & (z - 1) == 0 and z > 1 else None for z in dm]
                        if all(z is not None and z[0] == 'lin' and z[1] == d[1] for z in ds):
                            k = min(z[2] for z in ds)
                            if {z[2] for z in ds} >= set(range(k, max(z[2] for z in ds) + 1)) and bool(i < 1 << k):
                                return i
                        return None
        return None

    def hmac(self, key, D):
        if same_pieces(key.p, self.key.p):
            U, T = self.U, self.T
            n = D.length()
            d = core.C.canon(n)
            if d == 64:
                o = one_slice(D, U)
                v = D.vec()
                if o is None:
                    x = match(v, lambda o: el(U, o), hints(v, [U]))
                    o = None if x is None else (x, x + 64)
                if o is not None and is_mult(split(o[0])[1], 64):
                    return [Slice(U, o[0] + 64, o[0] + 128)]
            if core.le(4, n):
                a, t = core.cut(D.p, n - 4)
                if same_pieces(a, self.saltp):
                    i = self.int4(SBytes(t).vec())
                    if i is not None and core.le(1, i) and core.le(i, MAXB):
                        return [Slice(U, i * W, i * W + 64)]
        r = self.f.apply('HM', key, D)
        return list(r.p)

    def obj(self, **kw):
        if self.salt is not None:
            kw['salt'] = self.salt
        return self.m.new(self.pw, **kw)

    def count(self):
        self.c = self.ctx.var('c', 1, 2 ** 70)
        return self.c

    def case(self, *dks):
        def f(e):
            if e.lin(self.c) * sum(e.lin(x) // 64 + 1 for x in dks) > 1200:
                return None
            return dict(pw=model_hex(e, self.pw), pk=int(self.pw.mutable), salt=model_hex(e, SBytes(self.saltp)), sk=int(bool(self.salt is not None and self.salt.mutable)),
                        count=min(e.lin(self.c), 5000), dks=[min(e.lin(x), 64 * 70000) for x in dks] + [1])
        self.g.replay = f


def find_volatile():
    """attributes that differ between objects with different histories"""
    out = {}

    def t(ctx):
        w = World(ctx)
        w.c = 2
        ctx.concretize(ctx.var('k', 0, 64) - 5 if False else w.pw.length())
        objs = [w.obj(counter=2)]
        for lens in ((0,), (1,), (64,), (65,), (200,), (200, 3), (3, 200)):
            for f in ('derive', 'hexderive'):
                o = w.obj(counter=2)
                for l in lens:
                    getattr(o, f)(l)
                objs.append(o)
        for o in objs[1:]:
            a, b = walk({'o': objs[0]}), walk({'o': o})
            for p in set(a.bind) | set(b.bind):
                u, v = a.bind.get(p, None), b.bind.get(p, None)
                pu, pv = to_pieces(u), to_pieces(v)
                if pu is not None and pv is not None:
                    if not same_pieces(pu, pv):
                        out[p] = 1
                elif walkable(u) and walkable(v) and type(u) is type(v) or type(u) is type(v) and type(u) in (list, tuple, dict):
                    pass
                elif type(u) is not type(v) or u is not v and u != v:
                    out[p] = 1
    fresh()
    e = engine.Engine(5, 60, fixed={'k': 5, 's': 7})
    r = e.run(t)
    core.reset_atoms()
    fresh()
    bad = [x for x in r if x[1] != 'discharged' and x[0] != 'reachability']
    if bad:
        find_volatile.why = bad
    return None if bad else out


from pyvc.engine import walkable  # noqa: E402
VOL = find_volatile()


def havoc_vol(o):
    for p in sorted(VOL, key=lambda p: -len(str(p))):
        try:
            x, n = follow(o, p)
        except KeyError:
            continue
        if isinstance(vars(x) if hasattr(x, '__dict__') else x, dict):
            (vars(x) if hasattr(x, '__dict__') else x)[n] = core.Poison('%s after an arbitrary history' % (p,))
    return o


def stable(o):
    s = walk({'o': o})
    return s


def same_stable(ctx, name, a, o):
    """attributes that do not depend on the history are as before"""
    b = walk({'o': o})
    for p in set(a.bind) | set(b.bind):
        q = p
        skip = False
        while q[0] != 'L':
            if q in VOL:
                skip = True
            q = q[1]
        if skip:
            continue
        if p not in a.bind or p not in b.bind:
            return ctx.check(name, False, 'attribute %s' % (p,), soft=True)
        u, v = a.bind[p], b.bind[p]
        if u is v:
            if id(u) in a.cont and not same_pieces(a.cont[id(u)][1], u.p):
                return ctx.check(name, False, 'contents of %s' % (p,), soft=True)
            continue
        pu, pv = to_pieces(u), to_pieces(v)
        if pu is not None and pv is not None:
            if not same_pieces(a.cont[id(u)][1] if id(u) in a.cont else pu, pv):
                return ctx.check(name, False, 'attribute %s' % (p,), soft=True)
        elif engine.isnum(u) and engine.isnum(v):
            if not core.same(u, v):
                return ctx.check(name, False, 'attribute %s' % (p,), soft=True)
        elif type(u) is type(v) and (walkable(u) or type(u) in (list, tuple, dict)):
            pass
        elif type(u) is not type(v) or u != v:
            return ctx.check(name, False, 'attribute %s' % (p,), soft=True)
    return ctx.check(name, True)


def derive(op, pmut, smut, part, parts=8):
    def t(ctx):
        w = World(ctx, pmut, smut)
        c = w.count()
        r = ctx.concretize(ctx.var('r', part * 64 // parts, (part + 1) * 64 // parts - 1))
        q = ctx.var('q', 0, MAXB - (1 if r else 0))
        dk = 64 * q + r
        w.case(dk)
        f = Frame(pw=w.pw, salt=w.salt)
        o = w.obj(counter=c)
        f.same(ctx, 'password and salt buffers unchanged by construction')
        disjoint(ctx, 'object keeps no reference to the password or salt buffer', [o], [w.pw, w.salt])
        havoc_vol(o)
        s = stable(o)
        k = getattr(o, op)(dk)
        want = SBytes([Slice(w.R, 0, dk)])
        if op == 'derive':
            ctx.equal('derived key is the standard\'s', k, want, 'bytearray')
            disjoint(ctx, 'result is a new buffer', [k], [o, w.pw, w.salt])
        else:
            ctx.check('hexderive is the derived key in hexadecimal', type(k) is core.SHex)
            ctx.same_rope('hexderive is the derived key in hexadecimal', list(k.p), list(want.p))
        f.same(ctx, 'password and salt buffers unchanged by derivation')
        same_stable(ctx, 'a derivation leaves no trace that a later one reads', s, o)
        x = o.salt
        ctx.equal('salt is the one in use', x, SBytes(w.saltp), 'bytearray')
        disjoint(ctx, 'salt is a copy', [x], [o, w.salt])
    return t


def defaults():
    def t(ctx):
        w = World(ctx)
        w.c = 1000
        d = differs(w.obj(), w.obj(counter=1000), {})
        ctx.check('the default iteration count is 1000', d is None, str(d)[:200], soft=True)
    return t


def default_salt(empty):
    def t(ctx):
        w = World(ctx, urandom=True)
        c = w.count()
        q = ctx.var('q', 0, MAXB)
        o = w.obj(counter=c) if empty is None else w.m.new(w.pw, salt=empty(), counter=c)
        ctx.equal('the random salt of 32 bytes is reported', o.salt, SBytes(w.saltp), 'bytearray')
        ctx.equal('key with a random salt is the standard\'s', o.derive(64 * q), SBytes([Slice(w.R, 0, 64 * q)]), 'bytearray')
        ctx.equal('the salt stays the same', o.salt, SBytes(w.saltp), 'bytearray')
    return t


def attrs_task():
    if VOL is None:
        return [('attributes that depend on the history found', 'undecided', 'concrete histories could not be run: %r' % (find_volatile.why,))]
    return [('attributes that depend on the history found', 'discharged', ', '.join(sorted(engine.pname(p) for p in VOL)) or 'none')]


TASKS = [Task('histories', attrs_task, kind='direct')]
if VOL is not None:
    for OP in ('derive', 'hexderive'):
        for PM, SM in ((False, False), (True, True)):
            for i in range(8):
                TASKS.append(Task('%s (%s), length part %d/8' % (OP, 'bytearray' if PM else 'bytes', i + 1), derive(OP, PM, SM, i), cost=5))
    TASKS += [Task('defaults', defaults()), Task('random salt', default_salt(None)), Task('random salt for an empty one', default_salt(lambda: SBytearray([])))]
