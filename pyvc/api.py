"""What contracts (props/*.py) use."""
import contextlib

from . import core, loader
from .core import (SBytes, SBytearray, SInt, SLin, SBool, Slice, Fill, NonBytes, Undecided, PathEnd, fresh_bytes, rope,
                   to_pieces, elem_bits)

_mods = None


def fresh():
    global _mods
    _mods = loader.load()


def M(name):
    """module of the instrumented package: cipher, modes, hash, hmac, pbkdf, random, sign, oid, utils"""
    if _mods is None:
        fresh()
    return _mods['gostcrypto.' + {
        'cipher': 'gostcipher.gost_34_12_2015', 'modes': 'gostcipher.gost_34_13_2015', 'hash': 'gosthash.gost_34_11_2012',
        'hmac': 'gosthmac.r_50_1_113_2016', 'pbkdf': 'gostpbkdf.r_50_1_111_2016', 'random': 'gostrandom.r_1323565_1_006_2017',
        'sign': 'gostsignature.gost_34_10_2012', 'oid': 'gostoid.oid', 'utils': 'utils.utils'}[name]]


class Task:
    def __init__(self, name, fn, kind='sym', cost=1, expect=(), thorough=False, maxpaths=4000, maxtime=340, small=2):
        self.small = small
        self.name, self.fn, self.kind, self.cost, self.expect, self.thorough = name, fn, kind, cost, expect, thorough
        self.maxpaths, self.maxtime = maxpaths, maxtime


@contextlib.contextmanager
def patched(obj, **kw):
    old = {k: getattr(obj, k) for k in kw if hasattr(obj, k)}
    for k, v in kw.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k in kw:
            if k in old:
                setattr(obj, k, old[k])
            else:
                delattr(obj, k)


def vec(b):
    return SBytes(to_pieces(b)).vec()


def sb(v, mutable=False):
    return (SBytearray if mutable else SBytes)([tuple(v)])


def model_hex(ev, x, limit=100000):
    """hex of the values a counterexample gives to a byte string"""
    out = []
    for p in to_pieces(x):
        if isinstance(p, Slice):
            lo, hi = ev.lin(p.lo), ev.lin(p.hi)
            if hi - lo > limit:
                raise ValueError('too long')
            out += [ev.elem(p.base.name, o) for o in range(lo, hi)]
        elif isinstance(p, Fill):
            out += [ev.byte(p.v)] * ev.lin(p.n)
        else:
            out += [ev.byte(v) for v in p]
    return bytes(out).hex()


# ------------------------------------------------------------------ frames
def walk(roots):
    """[(path, value)] of everything reachable; mutable byte arrays and objects by identity"""
    from .engine import Snap
    return Snap(roots)


class Frame:
    """remembers objects (their identity structure and contents); same() states that nothing changed"""

    def __init__(self, **roots):
        self.roots = roots
        self.s = walk(roots)

    def same(self, ctx, name):
        n = walk(self.roots)
        a, b = self.s, n

        def soft(p):
            while p[0] != 'L':
                p = p[1]
            return to_pieces(self.roots[p[1]]) is None
        if set(a.bind) != set(b.bind):
            return ctx.check(name, False, 'attributes differ: %r' % sorted(map(str, set(a.bind) ^ set(b.bind)))[:5], soft=True)
        for p in a.bind:
            x, y = a.bind[p], b.bind[p]
            if x is y:
                continue
            if isinstance(x, (SBytes, bytes, bytearray)) and isinstance(y, (SBytes, bytes, bytearray)) and not getattr(x, 'mutable', False) and not getattr(y, 'mutable', False):
                if not same_bytes(x, y):
                    return ctx.check(name, False, 'changed: %r' % (p,), soft=soft(p))
                continue
            if isinstance(x, (int, SLin, SInt)) and isinstance(y, (int, SLin, SInt)):
                e = x == y
                if e is True or isinstance(e, SBool) and e.kind == 'lin' and ctx.entails(*e.v) and not e.neg:
                    continue
            return ctx.check(name, False, 'changed: %r' % (p,), soft=soft(p))
        for i, (o, ps, path) in a.cont.items():
            if not same_pieces(ps, o.p):
                return ctx.check(name, False, 'contents changed: %r' % (path,), soft=soft(path))
        return ctx.check(name, True)


def same_pieces(p, q):
    if not core.same(SBytes(p).length(), SBytes(q).length()):
        return False
    from .engine import fold_diff
    return fold_diff(core.C, list(p), list(q)) is None


def same_bytes(x, y):
    return same_pieces(to_pieces(x), to_pieces(y))


def mutables(*roots):
    """identities of mutable things reachable: byte arrays, lists, dicts, instances"""
    s = walk({'r%d' % i: r for i, r in enumerate(roots)})
    out = {}
    for p, o in s.bind.items():
        if isinstance(o, (SBytearray, list, dict)) or o is not None and hasattr(o, '__dict__') and not isinstance(o, (type, core.Base, NonBytes)) and not callable(o):
            out[id(o)] = (p, o)
    return out


def disjoint(ctx, name, a, b, allow=()):
    """no mutable thing is reachable from both"""
    x, y = mutables(*a), mutables(*b)
    common = [i for i in set(x) & set(y) if not any(x[i][1] is k for k in allow)]
    return ctx.check(name, not common, 'shared: %r' % [(x[i][0], y[i][0]) for i in common][:3], soft=True)


def equiv(ctx, name, a, b, ignore=()):
    """two objects have the same abstract state: same structure, equal leaves, corresponding buffers distinct"""
    x, y = walk({'o': a}), walk({'o': b})
    diff = {p for p in set(x.bind) ^ set(y.bind)}
    if diff:
        return ctx.check(name, False, 'structure differs: %r' % sorted(map(str, diff))[:4], soft=True)
    for p in sorted(x.bind, key=str):
        u, v = x.bind[p], y.bind[p]
        if u is v:
            continue
        if isinstance(u, core.Poison) or isinstance(v, core.Poison):
            raise Undecided('%s: %s' % (p, (u if isinstance(u, core.Poison) else v).why))
        pu, pv = to_pieces(u), to_pieces(v)
        if pu is not None and pv is not None:
            if bool(getattr(u, 'mutable', False)) != bool(getattr(v, 'mutable', False)):
                return ctx.check(name, False, '%s: %r / %r' % (p, u, v), soft=True)
            if not same_pieces(pu, pv):
                return ctx.same_rope(name, list(pu), list(pv), '%s: ' % (p,), soft=True)
        elif isinstance(u, (int, SLin)) and isinstance(v, (int, SLin)):
            if not core.same(u, v):
                d = u - v
                return ctx.check(name, False, '%s: %r / %r' % (p, u, v), lin=None if isinstance(d, int) else d.z() != 0, soft=True)
        elif isinstance(u, SInt) and isinstance(v, SInt):
            if (u == v) is not True:
                return ctx.check(name, u == v, '%s differs' % (p,), soft=True)
        elif type(u) is not type(v):
            return ctx.check(name, False, '%s: %r / %r' % (p, type(u), type(v)), soft=True)
        elif hasattr(u, '__dict__') or type(u) in (list, tuple, dict):
            pass
        elif u != v:
            return ctx.check(name, False, '%s: %r / %r' % (p, u, v), soft=True)
    return ctx.check(name, True)
