"""C12: the generator over the hash contract, every seed, size and history.

U[64 t : 64 t + 63] is the register after t steps: seed || 0, then plus one each (big endian, below the overflow of the
counter, so its first bytes stay the seed); G[64 t : 64 t + 64] is H512 of the register after t + 1 steps."""
import hashlib

from .absfn import *
from pyvc.history import *
from pyvc import engine
from pyvc.engine import walkable

FUNCTIONS = ['r_1323565_1_006_2017.' + f for f in ('new', 'R132356510062017.__init__', 'R132356510062017._rand_iter',
                                                   'R132356510062017._inc_rand_u', 'R132356510062017.random', 'R132356510062017.reset')] + \
            ['utils.bytearray_to_int', 'utils.int_to_bytearray', 'utils.check_value', 'utils.zero_fill']
ASSUMPTIONS = ['CPython semantics of the operations in pyvc/core.py', 'the hash object by its contract (proved by C08, C09)',
               'big endian increment: the register after t + 1 steps is the one after t steps plus one, and while t is below '
               '2^(8 (63 - size)) its first bytes are the seed (arithmetic)',
               'histories shorter than 2^(8 (63 - size)) values (2^120 for the largest seed)']


def some_hash(d):
    return hashlib.sha512(bytes(d)).digest()


class World:
    def __init__(self, ctx, ss, kind=False, urandom=False):
        self.ctx, self.ss = ctx, ss
        self.f = hash_world(ctx, 'random')
        self.f.define('H512', 64, some_hash)
        self.g = g = self.f.g
        g.fns = self
        self.m = M('random')
        self.limit = 1 << 8 * (63 - ss)
        if urandom:
            S = g.prim('SEED')
            ctx.rand = lambda n, i: SBytes([Slice(S, (i - 1) * 1000, (i - 1) * 1000 + n)])
            self.seed = SBytes([Slice(S, 0, ss)])
        else:
            self.seed = fresh_bytes('seed', ss, kind)
        sv = self.seed.vec()
        ctx.assume(core.snot(core.int_from_vec(sv) == 0))
        g.replay = self.case
        g.eager = True
        self.sizes = []

        def udef(o):
            o = core.C.canon(o)
            j = o % 64 if isinstance(o, int) else o.c % 64 if all(v % 64 == 0 for v in o.t.values()) else None
            if j is None or j == 63:
                return None
            if j < ss:
                return sv[j]
            if isinstance(o, int):
                return o // 64 >> 8 * (62 - j) & 255
        U = self.U = ctx.base('U', udef)

        def uval(ev, o):
            s = int(model_hex(ev, self.seed), 16) << 8 * (63 - ss)
            return (s + o // 64).to_bytes(64, 'big')[o % 64 + 1] if o % 64 < 63 else 0
        U.value = uval
        G = self.G = ctx.base('G')

        def gval(ev, o):
            c = ev.ufc.get(('G', o // 64))
            if c is None:
                c = ev.ufc[('G', o // 64)] = some_hash(bytes(ev.elem('U', o - o % 64 + 64 + j) for j in range(63)))
            return c[o % 64]
        G.value = gval
        nxt = {}

        def step(vec):
            """a register equal to the one after t steps, or to the next one"""
            if len(vec) != 63:
                return None
            if all(isinstance(v, int) for v in vec[ss:]) and all(byte_eq(a, b) for a, b in zip(vec, sv)):
                t = int.from_bytes(bytes(vec[ss:]), 'big')
                return [Slice(U, 64 * t, 64 * t + 63)]
            for o in [o - 62 for o in hints(vec[-1:], [U])]:
                if not is_mult(o, 64):
                    continue
                if all(byte_eq(x, y) for x, y in zip(vec, els(U, o, 63))):
                    return [Slice(U, o, o + 63)]
                k = core.okey(o)
                if k not in nxt:
                    v = core.int_from_vec(els(U, o, 63)) + 1
                    nxt[k] = [v >> s & 255 for s in range(62 * 8, -8, -8)]
                if all(byte_eq(x, y) for x, y in zip(vec, nxt[k])) and core.le(o + 64, 64 * (self.limit - 1)):
                    return [Slice(U, o + 64, o + 64 + 63)]
            return None
        g.matchers.append(step)

    def apply(self, name, D):
        """the hash of a register"""
        if name == 'H512' and core.same(D.length(), 63):
            o = one_slice(D, self.U)
            if o is None:
                r = self.g.fold(D.vec())
                o = (r[0].lo, r[0].hi) if r is not None and len(r) == 1 and isinstance(r[0], Slice) and r[0].base is self.U else None
            if o is not None and is_mult(o[0], 64) and core.le(64, o[0]):
                return sl(self.G, o[0] - 64, o[0])
        return self.f.apply(name, D)

    def new(self, size, seed=None):
        return self.m.new(size, rand_k=self.seed if seed is None else seed, size_s=self.ss)

    def state(self, h, size):
        """an object for `size` after h values have been used"""
        a = self.new(64 * h)
        a.random()
        b = self.new(size)
        for p in sorted(VOL, key=lambda p: -len(str(p))):
            x, n = follow(a, p)
            y, _ = follow(b, p)
            (vars(y) if hasattr(y, '__dict__') else y)[n] = (vars(x) if hasattr(x, '__dict__') else x)[n]
        return b

    def out(self, h, q, r):
        ps = [Slice(self.G, 64 * h, 64 * (h + q))]
        if r != 0:
            ps.append(Slice(self.G, 64 * (h + q) + 64 - r, 64 * (h + q + 1)))
        return SBytes(ps)

    def case(self, e):
        h, size = (e.lin(x) for x in self.sizes)
        if size > 100000:
            return None
        c = dict(ss=self.ss, seed=model_hex(e, self.seed), sk=int(bool(self.seed.mutable)), size=size,
                 ops=[['rand'], ['rand'], ['reset', 0, '01' * self.ss], ['rand'], ['rand']])
        if h:
            c['ctr'] = (h % self.limit).to_bytes(63 - self.ss, 'big').hex()
        return c


def find_volatile():
    """attributes of a generator that depend on the calls made"""
    out = {}

    def t(ctx):
        w = World(ctx, 32)
        other = fresh_bytes('other', 32)
        for size in (64, 130, 7):
            objs = [w.new(size)]
            for k in (1, 2):
                o = w.new(size)
                for _ in range(k):
                    o.random()
                objs.append(o)
            o = w.new(size)
            o.random()
            o.reset(other)
            objs.append(o)
            a = walk({'o': objs[0]})
            for o in objs[1:]:
                b = walk({'o': o})
                for p in set(a.bind) | set(b.bind):
                    u, v = a.bind.get(p, None), b.bind.get(p, None)
                    pu, pv = to_pieces(u), to_pieces(v)
                    if pu is not None and pv is not None:
                        if not same_pieces(pu, pv):
                            out[p] = 1
                    elif walkable(u) and type(u) is type(v) or type(u) is type(v) and type(u) in (list, tuple, dict):
                        pass
                    elif type(u) is not type(v) or u is not v and u != v:
                        out[p] = 1
    fresh()
    e = engine.Engine(5, 60)
    r = e.run(t)
    core.reset_atoms()
    fresh()
    find_volatile.why = [x for x in r if x[1] != 'discharged' and x[0] != 'reachability']
    return None if find_volatile.why else out


VOL = find_volatile()
if VOL is not None:
    VOL = {p for p in VOL if not any(str(q) != str(p) and str(q) in str(p) for q in VOL)}


def random_call(ss, kind):
    def t(ctx):
        w = World(ctx, ss, kind)
        h = ctx.var('h', 0)
        r = ctx.var('r', 0, 63)
        q = ctx.var('q', 0)
        k = q + (1 if r != 0 else 0)
        ctx.assume(h + k <= w.limit - 2)
        w.sizes = [h, 64 * q + r]
        f = Frame(seed=w.seed)
        o = w.state(h, 64 * q + r)
        f.same(ctx, 'seed buffer unchanged by construction')
        disjoint(ctx, 'object keeps no reference to the seed buffer', [o], [w.seed])
        res = o.random()
        ctx.equal('values are the standard\'s', res, w.out(h, q, r), 'bytearray')
        f.same(ctx, 'seed buffer unchanged by random')
        disjoint(ctx, 'result is a new buffer', [res], [o, w.seed])
        one_of(ctx, 'the next call continues after the values used', o, [w.state(h + k, 64 * q + r)], {})
    return t


def start(ss, kind):
    def t(ctx):
        w = World(ctx, ss, kind)
        size = ctx.var('q', 0)
        h = ctx.var('h', 0)
        ctx.assume(h <= w.limit - 2)
        w.sizes = [h, size]
        one_of(ctx, 'a new object has used no value', w.new(size), [w.state(0, size)], {})
        s2 = fresh_bytes('seed2', ss, kind)
        f = Frame(s=s2)
        o = w.state(h, size)
        ctx.check('reset returns nothing', o.reset(s2) is None)
        f.same(ctx, 'seed buffer unchanged by reset')
        disjoint(ctx, 'object keeps no reference to the new seed buffer', [o], [s2])
        one_of(ctx, 'reset leads to the state of a new object with the new seed', o, [w.new(size, s2)], {})
    return t


def zero_seed(ss, kind):
    def t(ctx):
        w = World(ctx, ss, kind)
        w.sizes = [0, 3]
        z = (SBytearray if kind else SBytes)([Fill(0, ss)])
        for how in (lambda: w.new(3, z), lambda: reset(w.new(3), z)):
            try:
                r = how().random()
                ctx.check('a zero seed is refused', False, repr(r)[:100])
            except w.m.GOSTRandomError:
                ctx.check('a zero seed is refused', True)

    def reset(o, z):
        o.reset(z)
        return o
    return t


def random_seed(ss, via):
    """without a seed the register is seeded by os.urandom"""
    def t(ctx):
        w = World(ctx, ss, urandom=True)
        r = ctx.concretize(ctx.var('r', 0, 1))
        q = ctx.var('q', 0)
        ctx.assume(q <= w.limit - 4)
        w.sizes = [0, 64 * q + r]
        empty = SBytearray([]) if via % 2 else None
        if via < 2:
            o = w.m.new(64 * q + r, size_s=ss) if empty is None else w.m.new(64 * q + r, rand_k=empty, size_s=ss)
        else:
            o = w.m.new(64 * q + r, rand_k=fresh_bytes('old', ss), size_s=ss)
            o.reset() if empty is None else o.reset(empty)
        ctx.equal('values from a random seed are the standard\'s', o.random(), w.out(0, q, r), 'bytearray')
    return t


def default_size():
    def t(ctx):
        w = World(ctx, 48)
        w.sizes = [0, 3]
        one_of(ctx, 'the default seed size is 48 bytes', w.m.new(3, rand_k=w.seed), [w.new(3)], {})
    return t


def attrs_task():
    if VOL is None:
        return [('attributes that depend on the history found', 'undecided', 'concrete histories could not be run: %r' % (find_volatile.why,))]
    return [('attributes that depend on the history found', 'discharged', ', '.join(sorted(engine.pname(p) for p in VOL)) or 'none')]


TASKS = [Task('histories', attrs_task, kind='direct')]
if VOL is not None:
    for SS in (32, 40, 48):
        for K in (False, True):
            kn = 'bytearray' if K else 'bytes'
            TASKS += [Task('random, seed of %d %s' % (SS, kn), random_call(SS, K), cost=5),
                      Task('construction and reset, seed of %d %s' % (SS, kn), start(SS, K)), Task('zero seed of %d %s' % (SS, kn), zero_seed(SS, K))]
        for V in range(4):
            TASKS.append(Task('seed of %d from the system %d/4' % (SS, V + 1), random_seed(SS, V)))
    TASKS.append(Task('default seed size', default_size()))
