"""Models of failed obligations: an assignment of all inputs under which the two sides really differ.

Normal forms are not complete, so a difference between them is only reported as a refutation when a concrete
assignment is found that satisfies the path condition and makes the difference visible; abstract primitives
(cipher, hash) are then a pseudo-random function and ghost streams have the values their definitions give them."""
import hashlib
import random
import z3

from . import core
from .core import OFFS, Div, Var, SLin, elem_bits


class NoModel(Exception):
    pass


class Eval:
    def __init__(self, ctx, ints, seed, special=0):
        self.ctx, self.ints, self.seed = ctx, ints, seed
        self.rng = random.Random(seed)
        self.special = special
        self.atom = {}
        self.mem = {}
        self.inv = {}
        self.fixed = {}
        self.ufc = {}

    # integers
    def lin(self, l):
        l = self.ctx.canon(l)
        if isinstance(l, int):
            return l
        r = l.c
        for x, v in l.t.items():
            if isinstance(x, Var):
                if x.name not in self.ints:
                    raise NoModel('no value for %s' % x.name)
                r += v * self.ints[x.name]
            else:
                r += v * (self.lin(x.lin) // x.n)
        return r

    def describe(self):
        a = ', '.join('%s=%d' % i for i in sorted(self.ints.items()) if not i[0].startswith('_t'))
        g = {}
        for k, v in self.mem.items():
            g.setdefault(k[1], {})[k[2]] = v
        b = ', '.join('%s[%d..]=%s' % (n, min(d), ''.join('%02x' % d.get(i, 0) for i in range(min(d), min(max(d), min(d) + 31) + 1)))
                      for n, d in sorted(g.items()) if all(isinstance(o, int) for o in d))
        return (a + '; ' + b)[:600]

    # bits
    def bit(self, m):
        r = m & 1
        m &= ~1
        while m:
            low = m & -m
            m ^= low
            r ^= self.atomval(low.bit_length() - 1)
        return r

    def byte(self, e):
        if isinstance(e, int):
            return e
        return sum(self.bit(m) << k for k, m in enumerate(elem_bits(e)))

    def F(self, name, data):
        """pseudo-random function (a permutation together with inv for ciphers)"""
        return hashlib.sha512(repr((self.seed, name, tuple(data))).encode()).digest()

    def E(self, data, n):
        data = bytes(data)
        r = self.F('E', data)[:n]
        self.inv[r] = data
        return r

    def D(self, data, n):
        data = bytes(data)
        r = self.inv.get(data)
        if r is None:
            r = self.F('D', data)[:n]
        return r

    def rnd(self, key, bit):
        """a free input byte"""
        v = self.mem.get(key)
        if v is None:
            k = self.special
            v = self.mem[key] = self.rng.getrandbits(8) if k == 0 or self.rng.random() < .3 else (0, 255, 0x80, 1)[k % 4] if k < 5 else self.rng.choice((0, 255, 254, 1, 128))
        return v >> bit & 1

    def elem(self, name, off):
        return sum(self.arrbit(name, off, k) << k for k in range(8))

    def arrbit(self, name, off, k):
        key = ('arr', name, off)
        v = self.mem.get(key)
        if v is None:
            b = self.ctx.bases.get(name)
            if b is not None:
                w = None
                if b.value is not None:
                    w = b.value(self, off)
                elif b.unfold is not None:
                    e = b.unfold(off)
                    w = None if e is None else self.byte(e)
                if w is not None:
                    self.mem[key] = v = w
        if v is None:
            return self.rnd(key, k)
        return v >> k & 1

    def atomval(self, i):
        v = self.atom.get(i)
        if v is not None:
            return v
        if i in self.fixed:
            self.atom[i] = self.fixed[i]
            return self.fixed[i]
        d = core.A.desc[i]
        t = d[0]
        if t == 'var':
            v = self.rnd(('var', d[1], d[2]), d[3])
        elif t == 'arr':
            v = self.arrbit(d[1], self.lin(OFFS[d[2]]), d[3])
        elif t == 'fn':
            k = sum(self.bit(r) << j for j, r in enumerate(d[1]))
            v = d[2] >> k & 1
        elif t == 'sum':
            v = (sum(w for m, w in d[1] if self.bit(m)) + d[2]) >> d[3] & 1
        elif t == 'lin':
            v = self.lin(OFFS[d[1]]) >> d[2] & 1
        elif t == 'uf':
            c = self.ufc.get((d[1], id(d[2])))
            if c is None:
                bits = [self.bit(m) for m in d[2]]
                data = bytes(sum(b << k for k, b in enumerate(bits[j:j + 8])) for j in range(0, len(bits), 8))
                f = getattr(self.ctx.contract, 'uf_value', None)
                r = f(d[1], data) if f else None
                c = self.ufc[(d[1], id(d[2]))] = (data, r, d[2])
            h = c[1][d[3] >> 3] if c[1] is not None else self.uf(d[1], c[0], d[3] >> 3)
            v = h >> (d[3] & 7) & 1
        else:
            raise NoModel('atom %r' % (t,))
        self.atom[i] = v
        return v

    def uf(self, name, data, j):
        n = len(data)
        if name == 'E':
            return self.E(data, n)[j]
        if name == 'D':
            return self.D(data, n)[j]
        return self.F(name, data)[j % 64]


def ints(ctx, extra=()):
    s = ctx.solver
    s.push()
    try:
        for e in extra:
            s.add(e)
        if s.check() != z3.sat:
            return None
        m = s.model()
        return {n: m.eval(SLin.var(n).z(), model_completion=True).as_long() for n in ctx.vb}
    finally:
        s.pop()


def search(ctx, masks, tries=300, seed=1, extra=()):
    """Eval with path condition true and some mask of `masks` one (masks empty: path condition only), or None"""
    try:
        iv = ints(ctx, extra)
    except Exception:
        return None
    if iv is None:
        return None
    eqs = list(ctx.eqs.items())
    pick = masks[:1] + masks[-1:] + masks[len(masks) // 2:len(masks) // 2 + 1] if masks else []
    for t in range(tries):
        e = Eval(ctx, iv, seed * 100003 + t, special=0 if t % 3 else t // 3 % 8)
        try:
            if not solve_eqs(e, pick_eqs(e, eqs)):
                continue
            if any(not any(e.bit(m) for m in ms) for ms in ctx.nz):
                continue
            if not masks or any(e.bit(m) for m in pick) or any(e.bit(m) for m in masks[:64]):
                return e
        except NoModel:
            return None
    return None


def pick_eqs(e, eqs):
    """equations about one Boolean function become equations about its inputs (one satisfying input picked at random)"""
    work, lin = [m for _, m in eqs], []
    if not any(core.A.desc[i][0] == 'fn' for m in work for i in core.setbits(m & ~1)):
        return eqs
    while work:
        m = work.pop()
        at = core.setbits(m & ~1)
        if len(at) == 1 and core.A.desc[at[0]][0] == 'fn':
            _, rows, tt = core.A.desc[at[0]][:3]
            ks = [k for k in range(1 << len(rows)) if tt >> k & 1 == m & 1]
            if not ks:
                return [(0, 1)]
            k = e.rng.choice(ks)
            work += [r ^ (k >> j & 1) for j, r in enumerate(rows)]
        else:
            lin.append(m)
    out = []
    for m in lin:
        for p, r in out:
            if m >> p & 1:
                m ^= r
        if m == 0:
            continue
        if m == 1:
            return [(0, 1)]
        at = core.setbits(m & ~1)
        free = [i for i in at if core.A.desc[i][0] in ('var', 'arr')]
        p = (free or at)[-1]
        out = [(q, r ^ m if r >> p & 1 else r) for q, r in out] + [(p, m)]
    return out


def solve_eqs(e, eqs):
    """make every path equation true by choosing its pivot when that is a free input bit"""
    free = []
    for p, m in eqs:
        d = core.A.desc[p]
        if p == 0:
            return False
        if d[0] in ('var', 'arr'):
            # pivot = rest of the equation
            free.append((p, m ^ (1 << p)))
        elif e.bit(m):
            return False
    for p, rest in free:
        d = core.A.desc[p]
        v = e.bit(rest)
        if d[0] == 'var':
            key, k = ('var', d[1], d[2]), d[3]
        else:
            off = e.lin(OFFS[d[2]])
            b = e.ctx.bases.get(d[1])
            key, k = ('arr', d[1], off), d[3]
            if key not in e.mem and b is not None and (b.value is not None or b.unfold is not None):
                e.arrbit(d[1], off, 0)
        e.rnd(key, 0) if key not in e.mem else None
        e.mem[key] = e.mem[key] & ~(1 << k) | v << k
    e.atom.clear()
    e.ufc.clear()
    for p, m in eqs:
        if e.bit(m):
            return False
    return True
