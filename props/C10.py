"""C10: HMAC over the hash contract, every key, message and history."""
from .absfn import *
from pyvc.history import *
from pyvc import engine

FUNCTIONS = ['r_50_1_113_2016.' + f for f in ('new', 'R5011132016.__init__', 'R5011132016.update', 'R5011132016.digest', 'R5011132016.hexdigest',
                                              'R5011132016.copy', 'R5011132016.reset', 'R5011132016.digest_size', 'R5011132016.block_size',
                                              'R5011132016.name')] + ['utils.add_xor']
ASSUMPTIONS = ['CPython semantics of the operations in pyvc/core.py', 'the hash object by its contract (proved by C08, C09)',
               'copy.deepcopy copies the instrumented objects as CPython copies the real ones']


def find_attrs():
    out = {}

    def t(ctx):
        groups = []
        w = HmacWorld(ctx, 256, 20)
        for size in (5, 64, 130):
            D = bytes(range(1, size + 1))

            def b(x):
                return SBytes([tuple(x)] if x else [])
            g = [w.new(b(D))]
            for cuts in ((1,), (2, 3), (0, 0, 4), tuple(range(1, size)), (size - 1,), (size,)):
                o = w.new()
                last = 0
                for c in list(cuts) + [size]:
                    o.update(b(D[last:c]))
                    last = max(c, last)
                g.append(o)
            o = w.new(b(D))
            o.digest()
            g.append(o)
            o = w.new(b(D[:2]))
            o.digest()
            o.reset()
            o.digest()
            o.update(b(D))
            g.append(o.copy())
            groups.append(g)
        out.update(history_attrs(groups))
    fresh()
    e = engine.Engine(5, 60)
    r = e.run(t)
    core.reset_atoms()
    fresh()
    return None if [x for x in r if x[1] != 'discharged' and x[0] != 'reachability'] else out


ATTRS = find_attrs()


def start(w, v):
    return lambda: w.new() if v == 0 else w.new(SBytes([])) if v == 1 else w.new(SBytearray([]))


def ops():
    def dig(o):
        o.digest()
        return o

    def upd(o):
        o.update(SBytes([]))
        return o

    def upda(o):
        o.update(SBytearray([]))
        return o

    def res(o):
        o.reset()
        return o
    return [dig, upd, upda, res, lambda o: o.copy()]


def empties(w):
    reps = []
    for v in range(3):
        mk = start(w, v)
        if all(differs(mk(), r(), ATTRS) is not None for r in reps):
            reps.append(mk)
    return closure(reps, ops(), ATTRS)


def keylen(ctx, part, parts=8):
    lo, hi = part * 65 // parts, (part + 1) * 65 // parts - 1
    return ctx.concretize(ctx.var('k', lo, hi))


def case(w, a, T, k=0, tail=('u', 'd')):
    def f(e):
        first, rest = model_hex(e, w.data(0, a)), model_hex(e, w.data(a, T))
        out = counters(e)
        for x in tail:
            out.append(['u', 0, k, rest] if x == 'u' else [x, 0] if not isinstance(x, tuple) else list(x))
        return dict(bits=w.bits, first=[k, first] if first else None, key=model_hex(e, w.key), kk=int(w.key.mutable) if isinstance(w.key, SBytes) else 0,
                    ops=out + [['u', 0, 0, '01'], ['d', 0]])
    w.g.replay = f


def value(bits, mutable, part):
    """one digest of any message"""
    def t(ctx):
        w = HmacWorld(ctx, bits, keylen(ctx, part), mutable)
        N = ctx.var('N', 1)
        data = w.data(0, N, mutable)
        case(w, N, N, int(mutable), ('d', 'h'))
        f = Frame(data=data, key=w.key)
        o = havoc(ctx, w.new(data), ATTRS)
        disjoint(ctx, 'object keeps no reference to caller buffers', [o], [data, w.key])
        b = Frame(o=o)
        res = o.digest()
        ctx.equal('HMAC is the standard\'s', res, w.spec(data), 'bytearray')
        b.same(ctx, 'digest changes nothing')
        ctx.check('hexdigest is the digest in hexadecimal', o.hexdigest() == o.digest().hex())
        b.same(ctx, 'hexdigest changes nothing')
        f.same(ctx, 'key and data buffers unchanged')
        disjoint(ctx, 'result is a new buffer', [res], [o, data, w.key])
        ctx.check('digest_size, block_size and name', (o.digest_size, o.block_size, o.name) == (bits // 8, 64, HM[bits]))
    return t


def history(bits, mutable, part):
    def t(ctx):
        w = HmacWorld(ctx, bits, keylen(ctx, part), mutable)
        a = ctx.var('N', 1)
        T = ctx.var('T', 1)
        ctx.assume(a <= T)
        case(w, a, T, int(mutable))
        o = havoc(ctx, w.new(w.data(0, a)), ATTRS)
        d = w.data(a, T, mutable)
        f = Frame(d=d)
        ctx.check('update returns nothing', o.update(d) is None)
        f.same(ctx, 'data buffer unchanged')
        disjoint(ctx, 'object keeps no reference to the data', [o], [d])
        one_of(ctx, 'update leads to the state of the concatenation', o, [w.new(w.data(0, T))], ATTRS)
        # copy, then reset
        case(w, a, T, 0, (('c', 0), 'd', ('u', 1, 0, '616263'), ('d', 1), 'd', 'u', ('d', 1), 'd', ('r', 0), 'd'))
        o = havoc(ctx, w.new(w.data(0, a)), ATTRS, 'c')
        f = Frame(o=o)
        c = o.copy()
        f.same(ctx, 'copy changes nothing')
        disjoint(ctx, 'copy and original are separate', [c], [o])
        ctx.check('copy is an object of the same class', type(c) is type(o))
        one_of(ctx, 'copy is in the state of the original', c, [w.new(w.data(0, a))], ATTRS)
        c.update(w.data(a, T))
        f.same(ctx, 'updating a copy leaves the original alone')
        k = Frame(c=c)
        o.reset()
        k.same(ctx, 'resetting the original leaves the copy alone')
        reps = empties(w)
        one_of(ctx, 'reset leads to the empty state', o, [r() for r in reps], ATTRS)
    return t


def empty(bits, mutable, part):
    """members of the empty state: digest value, closure, first data"""
    def t(ctx):
        w = HmacWorld(ctx, bits, keylen(ctx, part), mutable)
        N = ctx.var('N', 1)
        reps = empties(w)
        want = w.spec(SBytes([]))
        case(w, 0, 0, 0, ('d', 'h', 'd', ('u', 0, 0, ''), 'd', ('u', 0, 0, '31'), 'd', ('r', 0), 'd'))
        for i, mk in enumerate(reps):
            o = havoc(ctx, mk(), ATTRS, str(i))
            ctx.equal('HMAC without data is the standard\'s', o.digest(), want, 'bytearray')
            one_of(ctx, 'digest keeps the empty state', o, [r() for r in reps], ATTRS)
            o = havoc(ctx, mk(), ATTRS, 'h%d' % i)
            ctx.check('hexdigest is the digest in hexadecimal', o.hexdigest() == want.hex())
            o = havoc(ctx, mk(), ATTRS, 'u%d' % i)
            o.update(SBytes([]))
            one_of(ctx, 'empty update keeps the empty state', o, [r() for r in reps], ATTRS)
            o = havoc(ctx, mk(), ATTRS, 'r%d' % i)
            o.reset()
            one_of(ctx, 'reset keeps the empty state', o, [r() for r in reps], ATTRS)
            o = havoc(ctx, mk(), ATTRS, 'c%d' % i)
            f = Frame(o=o)
            c = o.copy()
            f.same(ctx, 'copy changes nothing')
            disjoint(ctx, 'copy and original are separate', [c], [o])
            one_of(ctx, 'copy keeps the empty state', c, [r() for r in reps], ATTRS)
        case(w, 0, N, int(mutable), ('u', 'd'))
        for i, mk in enumerate(reps):
            o = havoc(ctx, mk(), ATTRS, 'f%d' % i)
            d = w.data(0, N, mutable)
            f = Frame(d=d)
            o.update(d)
            f.same(ctx, 'data buffer unchanged')
            disjoint(ctx, 'object keeps no reference to the data', [o], [d])
            one_of(ctx, 'first data leads to the state of new(data)', o, [w.new(w.data(0, N))], ATTRS)
        ctx.check('digest_size, block_size and name', (o.digest_size, o.block_size, o.name) == (bits // 8, 64, HM[bits]))
    return t


def attrs_task():
    if ATTRS is None:
        return [('call counters found', 'undecided', 'concrete histories could not be run')]
    return [('call counters found', 'discharged', ', '.join('%s >= %d' % (p[2], v) for p, v in ATTRS.items()) or 'none')]


TASKS = [Task('histories', attrs_task, kind='direct')]
if ATTRS is not None:
    for B in (256, 512):
        for K in (False, True):
            for i in range(8):
                n = '%d %s key part %d/8' % (B, 'bytearray' if K else 'bytes', i + 1)
                TASKS += [Task('HMAC %s: value' % n, value(B, K, i), cost=5, expect=["HMAC is the standard's"]),
                          Task('HMAC %s: history' % n, history(B, K, i), cost=8),
                          Task('HMAC %s: empty' % n, empty(B, K, i), cost=8)]
