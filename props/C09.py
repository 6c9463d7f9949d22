"""C09: Streebog objects under every history of calls.

State of an object = the data D since creation or reset.  Canonical representative: new(data=D).
Proved: every call on the representative (call counters arbitrary) ends in the representative of the next state; digests
of it are digests of D; for empty D this holds for every member of a set closed under the calls."""
from .hashing import *
from . import C08

FUNCTIONS = C08.FUNCTIONS + ['gost_34_11_2012.GOST34112012.reset', 'gost_34_11_2012.GOST34112012.block_size', 'gost_34_11_2012.GOST34112012.name']
ASSUMPTIONS = C08.ASSUMPTIONS
BOUNDED = []


def find_attrs(bits=256):
    """call counters: integer attributes on which concrete histories with equal data differ"""
    from pyvc import engine
    m = M('hash')
    out = {}

    def t(ctx):
        # the compression function has no influence on counters: any function of its arguments will do
        if hasattr(m.GOST34112012, '_hash_g') and internal()[0]['g']:
            m.GOST34112012._hash_g = staticmethod(lambda h, n, d: SBytearray([tuple((x + y) & 255 for x, y in zip(vec(h), vec(d)))]))
        groups = []
        for size in (130, 64, 200):
            D = bytes(range(1, size + 1))

            def b(x):
                return SBytes([tuple(x)] if x else [])

            def new(x=None):
                return m.new(NAME[bits], **({} if x is None else {'data': b(x)}))
            g = [new(D)]
            for cuts in ((64,), (1,), (63, 64), (128,), (1, 2, 3), tuple(range(1, size)), (size - 1,), (0, 0, 0, 5)):
                o = new()
                last = 0
                for c in list(cuts) + [size]:
                    c = min(c, size)
                    o.update(b(D[last:c]))
                    last = c
                g.append(o)
            o = new(D)
            o.digest()
            o.update(b(b''))
            g.append(o)
            o = new(D[:64])
            o.digest()
            o.reset()
            o.update(b(D))
            g.append(o.copy())
            groups.append(g)
        out.update(history_attrs(groups))
    fresh()
    e = engine.Engine(5, 60)
    r = e.run(t)
    core.reset_atoms()
    fresh()
    bad = [x for x in r if x[1] != 'discharged' and x[0] != 'reachability']
    return None if bad else out


ATTRS = find_attrs()


def empties(w):
    """functions making the representatives of the empty state"""
    def start(v):
        def f():
            return w.new() if v == 0 else w.new(SBytes([])) if v == 1 else w.new(SBytearray([]))
        return f

    def dig(o):
        o.digest()
        return o

    def upd(o):
        o.update(SBytes([]))
        return o

    def upda(o):
        o.update(SBytearray([]))
        return o

    def res(o):
        o.reset()
        return o
    reps = []
    for v in range(3):
        mk = start(v)
        if all(differs(mk(), r(), ATTRS) is not None for r in reps):
            reps.append(mk)
    return closure(reps, [dig, upd, upda, res, lambda o: o.copy()], ATTRS)


def case(w, a, T, k=0, ops=('u', 'd')):
    """battery case of a counterexample: new(P[0:a]), calls with P[a:T], digest"""
    def f(e):
        first = bytes_of(e, 'P', 0, a)
        rest = bytes_of(e, 'P', a, T)
        out = counters(e)
        for x in ops:
            out.append(['u', 0, k, rest] if x == 'u' else [x, 0] if not isinstance(x, tuple) else list(x))
        return dict(bits=w.bits, first=[k, first] if first else None, ops=out + [['u', 0, 0, '01'], ['d', 0]])
    w.g.replay = f


def length(ctx, tag='', least=1):
    n = 64 * ctx.var('q' + tag, 0) + ctx.var('r' + tag, 0, 63)
    ctx.assume(n >= least)
    return n


def lengths(ctx):
    a, b = length(ctx), length(ctx, '2')
    ctx.assume(a <= b)
    return a, b


def update(bits, mutable):
    """any X, any Y: new(X) with arbitrary counters, update(Y) is in the state of new(XY)"""
    def t(ctx):
        w = HashWorld(ctx, bits)
        a, T = lengths(ctx)
        case(w, a, T, int(mutable))
        o = havoc(ctx, w.new(w.data(0, a)), ATTRS)
        d = w.data(a, T, mutable)
        f = Frame(d=d)
        ctx.check('update returns nothing', o.update(d) is None)
        f.same(ctx, 'data buffer unchanged')
        disjoint(ctx, 'object keeps no reference to the data', [o], [d])
        one_of(ctx, 'update leads to the state of the concatenation', o, [w.new(w.data(0, T))], ATTRS)
    return t


def first(bits, mutable):
    """update of an object with no data"""
    def t(ctx):
        w = HashWorld(ctx, bits)
        b = length(ctx)
        case(w, 0, b, int(mutable))
        for i, mk in enumerate(empties(w)):
            o = havoc(ctx, mk(), ATTRS, str(i))
            d = w.data(0, b, mutable)
            f = Frame(d=d)
            o.update(d)
            f.same(ctx, 'data buffer unchanged')
            disjoint(ctx, 'object keeps no reference to the data', [o], [d])
            one_of(ctx, 'first data leads to the state of new(data)', o, [w.new(w.data(0, b))], ATTRS)
    return t


def digest(bits, part, parts):
    def t(ctx):
        w = HashWorld(ctx, bits)
        q = ctx.var('q', 0)
        r = ctx.concretize(ctx.var('r', part * 64 // parts, (part + 1) * 64 // parts - 1))
        N = 64 * q + r
        case(w, N, N, 0, ('d', 'h'))
        want = w.final(q, r)
        for h in range(2 if part == 0 else 1):
            o = w.new(w.data(0, N))
            o = havoc(ctx, o, ATTRS)
            f = Frame(o=o)
            if h == 0:
                res = o.digest()
                ctx.equal('digest is the standard\'s for the data so far', res, want, 'bytearray')
                disjoint(ctx, 'result and object are separate', [res], [o])
            else:
                ctx.check('hexdigest is the digest in hexadecimal', o.hexdigest() == o.digest().hex())
            f.same(ctx, 'digest changes nothing')
    return t


def empty_digest(bits):
    """members of the empty state: digest value; closure"""
    def t(ctx):
        w = HashWorld(ctx, bits)
        reps = empties(w)
        want = w.final(0, 0)
        for i, mk in enumerate(reps):
            o = havoc(ctx, mk(), ATTRS, str(i))
            ctx.equal('digest without data is the standard\'s', o.digest(), want, 'bytearray')
            one_of(ctx, 'digest keeps the empty state', o, [r() for r in reps], ATTRS)
            o = havoc(ctx, mk(), ATTRS, 'h%d' % i)
            ctx.check('hexdigest is the digest in hexadecimal', o.hexdigest() == o.digest().hex())
            o = havoc(ctx, mk(), ATTRS, 'u%d' % i)
            o.update(SBytes([]))
            one_of(ctx, 'empty update keeps the empty state', o, [r() for r in reps], ATTRS)
            o = havoc(ctx, mk(), ATTRS, 'r%d' % i)
            o.reset()
            one_of(ctx, 'reset keeps the empty state', o, [r() for r in reps], ATTRS)
            o = havoc(ctx, mk(), ATTRS, 'c%d' % i)
            f = Frame(o=o)
            c = o.copy()
            f.same(ctx, 'copy changes nothing')
            disjoint(ctx, 'copy and original are separate', [c], [o])
            one_of(ctx, 'copy keeps the empty state', c, [r() for r in reps], ATTRS)
    return t


def copy_reset(bits):
    def t(ctx):
        w = HashWorld(ctx, bits)
        a, T = lengths(ctx)
        case(w, a, T, 0, (('c', 0), 'd', ('u', 1, 0, '616263'), ('d', 1), 'd', 'u', ('d', 1), 'd', ('r', 0), 'd'))
        o = havoc(ctx, w.new(w.data(0, a)), ATTRS)
        ctx.check('digest_size, block_size and name', (o.digest_size, o.block_size, o.name) == (bits // 8, 64, NAME[bits]))
        f = Frame(o=o)
        c = o.copy()
        f.same(ctx, 'copy changes nothing')
        disjoint(ctx, 'copy and original are separate', [c], [o])
        one_of(ctx, 'copy is in the state of the original', c, [w.new(w.data(0, a))], ATTRS)
        ctx.check('copy is an object of the same class', type(c) is type(o))
        c.update(w.data(a, T))
        f.same(ctx, 'updating a copy leaves the original alone')
        k = Frame(c=c)
        o.reset()
        k.same(ctx, 'resetting the original leaves the copy alone')
        one_of(ctx, 'reset leads to the empty state', o, [r() for r in empties(w)], ATTRS)
        ctx.check('digest_size, block_size and name after reset', (o.digest_size, o.block_size, o.name) == (bits // 8, 64, NAME[bits]))
    return t


def attrs_task():
    if ATTRS is None:
        return [('call counters found', 'undecided', 'concrete histories could not be run')]
    return [('call counters found', 'discharged', ', '.join('%s >= %d' % (p[2] if p[0] == 'A' else p, v) for p, v in ATTRS.items()) or 'none')]


internal()
if ATTRS is None:
    TASKS = [Task('histories', attrs_task, kind='direct')]
else:
    TASKS = [Task('histories', attrs_task, kind='direct'), Task('internal functions', lambda: internal()[1], kind='direct')]
    for B in (256, 512):
        TASKS += [Task('streebog%d update(%s)' % (B, k.__name__[1:]), update(B, k is SBytearray), cost=20) for k in (SBytes, SBytearray)]
        TASKS += [Task('streebog%d first update(%s)' % (B, k.__name__[1:]), first(B, k is SBytearray), cost=20) for k in (SBytes, SBytearray)]
        TASKS += [Task('streebog%d copy and reset' % B, copy_reset(B), cost=20), Task('streebog%d empty' % B, empty_digest(B), cost=5)]
        TASKS += [Task('streebog%d digest tail %d/16' % (B, i + 1), digest(B, i, 16), cost=8) for i in range(16)]
