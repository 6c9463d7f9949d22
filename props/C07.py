"""C07: MAC.  Ghost streams: message P, chain values S (S[0:n] = 0, S[o+n] = E(P[o] ^ S[o]))."""
from .modeslib import *

FUNCTIONS = ['gost_34_13_2015.' + f for f in (
    'new', 'GOST34132015.__init__', 'GOST34132015._get_pad_size', 'GOST34132015._get_block', 'GOST34132015.block_size',
    'GOST34132015mac.__init__', 'GOST34132015mac._set_pad_mode_3', 'GOST34132015mac._get_mac_key', 'GOST34132015mac.update',
    'GOST34132015mac.mac_final', 'GOST34132015mac.digest', 'GOST34132015mac.hexdigest')] + [
    'utils.add_xor', 'utils.check_value', 'utils.msb', 'utils.bytearray_to_int', 'utils.int_to_bytearray']
ASSUMPTIONS = ['CPython semantics of the operations in pyvc/core.py', 'block cipher by its contract (proved by C01, C02, C19)']


class Mac(World):
    def mac_encrypt(self, g, n, L):
        P = self.P = g.prim('P')
        S = self.S = g.prim('S')
        R = self.R = g.prim('R')
        R.value = g.block_value('E', lambda ev, o: 0)
        S.value = lambda ev, o: 0 if o < n else ev.E([ev.elem('P', o - o % n - n + j) ^ ev.elem('S', o - o % n - n + j) for j in range(n)], n)[o % n]
        S.unfold = lambda o: 0 if isinstance(o, int) and 0 <= o < n else None

        def E(x):
            v = x.vec() if one_slice(x, S) is None or not byte_eq(el(S, one_slice(x, S)[0]), 0) else [0] * n
            if all(isinstance(b, int) and b == 0 for b in v):
                return [Slice(R, 0, n)]
            o = g.find(v, lambda o: el(P, o) ^ el(S, o), [(P, 0), (S, 0)])
            if o is not None and is_mult(o, n):
                return [Slice(S, o + n, o + 2 * n)]
        g.E.append(E)
        g.matchers.append(lambda v: [Slice(S, 0, n)] if len(v) == n and all(isinstance(b, int) and b == 0 for b in v) else None)

    def length(self, name, part=None, empty=True):
        """0 or n q + r with 1 <= r <= n; returns N, start of the last block, its length"""
        ctx, n = self.ctx, self.n
        lo, hi = (1, n) if part is None else (part * n // 4 + 1, (part + 1) * n // 4)
        r = ctx.concretize(ctx.var('r' + name, 0 if empty and not part else lo, hi))
        if r == 0:
            return 0, 0, 0
        q = ctx.var('q' + name, 0)
        return n * q + r, n * q, r

    def data(self, a, b, mutable=False):
        return typed(sl(self.P, a, b), mutable)

    def spec(self, N, last, r):
        """the value before truncation"""
        n = self.n
        R = els(self.R, 0, n)
        k1 = ref.mac_shift(R)
        k2 = ref.mac_shift(k1)
        b = els(self.P, last, r) + ([0x80] + [0] * (n - r - 1) if r < n else [])
        k = k1 if r == n else k2
        x = [p ^ s ^ z for p, s, z in zip(b, els(self.S, last, n), k)]
        return SBytes(self.g.apply(self.g.E, 'E', SBytes([tuple(x)])))


def mac_case(w, first, *ops):
    def f(e):
        r = dict(alg=w.alg, key=model_hex(e, w.key), kk=0, first=None if first is None else [int(first.mutable), model_hex(e, first)], ops=[])
        for o in ops:
            r['ops'].append(['u', int(o.mutable), model_hex(e, o)] if isinstance(o, SBytes) else ['d', e.lin(o)])
        r['ops'] += [['d', w.n], ['u', 0, '0102'], ['d', w.n]]
        return r
    w.g.replay = f


def one(alg, mutable, part):
    """data at construction; every size; the object is unchanged by digests"""
    def t(ctx):
        w = Mac(ctx, alg, 'mac', 'encrypt')
        n = w.n
        N, last, r = w.length('P', part)
        data = w.data(0, N, mutable)
        f = Frame(data=data, key=w.key)
        obj = w.new(data=data)
        g = Frame(obj=obj)
        size = ctx.concretize(ctx.var('size', 1, n))
        mac_case(w, data, size)
        res = obj.digest(size)
        ctx.equal('MAC is the standard\'s', res, SBytes([tuple(w.spec(N, last, r).vec()[:size])]), 'bytearray')
        g.same(ctx, 'digest changes nothing')
        f.same(ctx, 'key and data buffers unchanged')
        disjoint(ctx, 'object keeps no reference to caller buffers', [obj], [data, w.key])
        disjoint(ctx, 'result shares nothing with the object', [res], [obj])
    return t


def pieces(alg, p1, p2):
    """update(a); update(b) leaves the object exactly as the construction with a + b"""
    def t(ctx):
        w = Mac(ctx, alg, 'mac', 'encrypt')
        N1, _, _ = w.length('1', p1)
        N2, _, _ = w.length('2', p2)
        a = w.new(data=w.data(0, N1))
        d2 = w.data(N1, N1 + N2, True)
        f = Frame(d2=d2)
        mac_case(w, w.data(0, N1), d2)
        ctx.check('update returns nothing', a.update(d2) is None)
        f.same(ctx, 'data buffer unchanged')
        disjoint(ctx, 'object keeps no reference to the data', [a], [d2])
        b = w.new(data=w.data(0, N1 + N2))
        equiv(ctx, 'state after two pieces is the state after their concatenation', a, b)
    return t


def empty(alg):
    def t(ctx):
        w = Mac(ctx, alg, 'mac', 'encrypt')
        obj = w.new()
        N, last, r = w.length('P')
        d = w.data(0, N)
        mac_case(w, None, d)
        obj.update(d)
        equiv(ctx, 'construction without data, then update', obj, w.new(data=d))
        size = ctx.concretize(ctx.var('size', 1, 3))
        ctx.check('hexdigest is the digest in hexadecimal', obj.hexdigest(size) == obj.digest(size).hex())
    return t


TASKS = [Task('%s data(%s) lengths %d/4' % (a, 'bytearray' if b else 'bytes', k + 1), one(a, b, k), cost=5, expect=["MAC is the standard's"])
         for a in ('kuznechik', 'magma') for b in (False, True) for k in range(4)]
TASKS += [Task('%s two pieces, lengths %d/4 and %d/4' % (a, i + 1, j + 1), pieces(a, i, j), cost=8)
          for a in ('kuznechik', 'magma') for i in range(4) for j in range(4)]
TASKS += [Task('%s no data' % a, empty(a)) for a in ('kuznechik', 'magma')]
