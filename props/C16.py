"""C16: the constructor accepts exactly the curves that meet the checks; Edwards parameters; built-in sets."""
from .siglib import *

SAMPLER = sampler
FUNCTIONS = ['gost_34_10_2012.new', 'gost_34_10_2012.CURVES_R_1323565_1_024_2019'] + \
            ['gost_34_10_2012.GOST34102012.' + f for f in ('__init__', '_set_size', '_check_curve', '_check_p_m', '_check_x_y', '_check_p', '_check_q',
                                                           '_edvards_to_canonical', 'public_key_generate')]
ASSUMPTIONS = ['CPython semantics of the operations in pyvc/core.py and pyvc/ints.py; z3 for integer arithmetic',
               'multiplicative order: if k is the least positive exponent with p^k = 1 modulo q, then p^(i+k) = p^i modulo q',
               'twisted Edwards parameters: p prime, e != d, base point with u != 0 and v != 1, -1',
               'the published constants are those of spec/consts.py; primality of p and q of the built-in sets by a probabilistic test']
N = {32: 31, 64: 131}
LO = {32: 1 << 254, 64: 1 << 508}


def verdict(ctx, size, d, expect):
    """expect: True, False or None (no claim)"""
    m = M('sign')
    o, ex = outcome(m.new, mode_of(size), d)
    if ex is not None:
        raised(ctx, ex, 'invalid parameters of the elliptic curve')
    if expect is not None:
        ctx.check('accepted exactly when the curve meets the checks', (ex is None) == expect, 'expected %s, got %r' % (expect, ex))
    return o


def in_range(q, size):
    return bool(q > LO[size]) and bool(q < 1 << 8 * size)


def free_curve(ctx):
    c = ctx
    v = {k: c.pvar(k) for k in 'pmqabxy'}
    c.pfact(v['p'] > 3)
    # not the form that stands for twisted Edwards parameters
    z = ctx.choose(['a != 0', 'a = 0, b != 0', 'a = b = 0, x != 0', 'a = b = x = 0, y != 0'])
    for i, k in enumerate('abxy'):
        if i < z:
            c.pfact(v[k] == 0)
        elif i == z:
            c.pfact(v[k] != 0)
    return {k: c.norm_value(x) if not isinstance(x, int) else x for k, x in v.items()}


def order_task(size, ks):
    """q positive; the order of p modulo q is in ks (0: none up to the bound)"""
    def t(ctx):
        d = free_curve(ctx)
        p, q = d['p'], d['q']
        ctx.pfact(q >= 1)
        ctx.pfact(q != LO[size])            # the bounds themselves are not prime: no claim
        ctx.pfact(q != 1 << 8 * size)
        k = ks[ctx.choose(['order %d' % k for k in ks])]
        if k != 1:
            ctx.pfact(q >= 2)
        for i in range(1, k or N[size] + 1):
            ctx.pfact(p ** i % q != 1)
        if k:
            ctx.orders[ints.pkey(q.p)] = (next(iter(ints.patoms(p.p))), k)
            ctx.ecache = {}
        ok = False
        if not k and bool(d['m'] != p) and bool((d['y'] ** 2 - d['x'] ** 3 - d['a'] * d['x'] - d['b']) % p == 0):
            ok = in_range(q, size)
        verdict(ctx, size, d, ok)
    return t


def negative_task(size):
    """q that is not positive is refused"""
    def t(ctx):
        d = free_curve(ctx)
        ctx.pfact(d['q'] <= 0)
        verdict(ctx, size, d, False)
    return t


def edwards_task(size, valid):
    """conversion of twisted Edwards parameters e u^2 + v^2 = 1 + d u^2 v^2"""
    def t(ctx):
        stub_utils()
        stub_invert()
        c = ctx
        w = {k: c.pvar(k) for k in 'pmqeduv'}
        p, q, e, d, u, v = (w[k] for k in 'pqeduv')
        c.prime(p, 5)
        c.pfact(p < 1 << 8 * size)
        c.pfact(q > LO[size])
        c.pfact(q < 1 << 8 * size)
        c.pfact(w['m'] != p)
        for i in range(1, N[size] + 1):
            c.pfact(p ** i % q != 1)
        for x in (e - d, u, 1 - v, 1 + v):
            c.nonzero(x.p, p.p)
        eq = e * u ** 2 + v ** 2 - 1 - d * u ** 2 * v ** 2
        if valid:
            c.pfact(eq == p * c.pvar('t'))
        else:
            c.nonzero(eq.p, p.p)
        o = verdict(ctx, size, dict(w), valid)
        if o is None:
            return
        s, t_ = (e - d) * c.inverse(4, p), (e + d) * c.inverse(6, p)
        i = c.inverse(1 - v, p)
        x, y = s * (1 + v) * i + t_, s * (1 + v) * i * c.inverse(u, p)
        a = s * s - 3 * t_ * t_
        n = size
        pk = o.public_key_generate(bytes(n - 1) + b'\1')
        ctx.peq('base point: x', num(pk[:n]), x % p)
        ctx.peq('base point: y', num(pk[n:]), y % p)
        pk = o.public_key_generate(bytes(n - 1) + b'\2')
        l = (3 * x * x + a) * c.inverse(2 * y, p)
        x2 = l * l - 2 * x
        ctx.peq('doubled base point: x', num(pk[:n]), x2 % p)
        ctx.peq('doubled base point: y', num(pk[n:]), (l * (x - x2) - y) % p)
    return t


def prime_test(n):
    d, r = n - 1, 0
    while d % 2 == 0:
        d, r = d // 2, r + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def tables(ctx):
    """the built-in sets: a finite number of constants, all of them checked"""
    from spec import ref
    m = M('sign')
    chk = ctx.check
    built = m.CURVES_R_1323565_1_024_2019
    chk('the published sets are there, no others', sorted(built) == sorted(ref.CURVES), sorted(built))
    for n in ref.CURVES:
        if n not in built:
            continue
        d = dict(built[n])
        chk('%s: values as published' % n, d == ref.CURVES[n])
        try:
            C = ref.Curve(d)
            chk('%s: p and q are prime' % n, prime_test(C.p) and prime_test(d['q']))
            chk('%s: the curve is not singular' % n, (4 * C.a ** 3 + 27 * C.b ** 2) % C.p != 0)
            chk('%s: the base point is on the curve' % n, (C.P[1] ** 2 - C.P[0] ** 3 - C.a * C.P[0] - C.b) % C.p == 0)
            chk('%s: the base point has order q' % n, ref.ec_mul(d['q'], C.P, C.a, C.p) is None)
            chk('%s: m = q or 4 q within the bound of Hasse' % n, d['m'] % d['q'] == 0 and (d['m'] - C.p - 1) ** 2 <= 4 * C.p)
            o = m.new(mode_of(C.size), built[n])
            pk = o.public_key_generate(bytes(C.size - 1) + b'\1')
            chk('%s: accepted, base point exact' % n, bytes(pk) == C.P[0].to_bytes(C.size, 'big') + C.P[1].to_bytes(C.size, 'big'))
            chk('%s: not modified by use' % n, dict(built[n]) == ref.CURVES[n])
        except Exception as x:
            chk('%s: usable' % n, False, repr(x))


TASKS = [Task('built-in sets', tables)]
for S in (32, 64):
    TASKS.append(Task('canonical curve, %d bytes, no order within the bound' % S, order_task(S, [0]), kind='int', cost=3))
    step = 8
    for K in range(1, N[S] + 1, step):
        ks = list(range(K, min(K + step, N[S] + 1)))
        TASKS.append(Task('canonical curve, %d bytes, order %d to %d' % (S, ks[0], ks[-1]), order_task(S, ks), kind='int', cost=K / 100))
    TASKS.append(Task('canonical curve, %d bytes, q not positive' % S, negative_task(S), kind='int'))
    for V in (True, False):
        TASKS.append(Task('twisted Edwards, %d bytes, %s' % (S, 'base point on the curve' if V else 'base point not on the curve'), edwards_task(S, V), kind='int', cost=2))
