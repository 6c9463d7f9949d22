"""Contracts of the block cipher modes over the abstract cipher, shared by C03-C06 (and C07).

Ghost streams (n block size, L register length, any multiple of n, symbolic):
  W   shift register stream: register before block k is W[n k : n k + L];  W[0:L] is the initial vector
  P   input message (with padding behind its end in ECB and CBC encryption)
  G   cipher outputs, X outputs of the mode
Each mode is the standard's recurrence between them."""
from pyvc.api import *
from pyvc.ghost import *
from pyvc import core
from spec import ref

SIZE = {'kuznechik': 16, 'magma': 8}
MODE = {'ecb': 1, 'cbc': 2, 'cfb': 3, 'ofb': 5, 'ctr': 6, 'mac': 255}
PAD1, PAD2 = 0x800000F0, 0x800000F1


class World:
    """the mode module with the cipher replaced by its contract, and the ghost streams of one mode and direction"""

    def __init__(self, ctx, alg, mode, direction, pad=PAD1, ktype=False):
        self.ctx, self.alg, self.mode, self.pad = ctx, alg, mode, pad
        self.n = n = SIZE[alg]
        self.m = M('modes')
        self.m.GOST34122015Kuznechik = StubKuz
        self.m.GOST34122015Magma = StubMag
        self.g = g = Ghost(ctx, n)
        self.key = fresh_bytes('key', 32, ktype)
        self.keyv = self.key.vec()
        self.L = n * ctx.var('m', 1) if mode in ('cbc', 'cfb', 'ofb') else None
        self.N = None                 # data length before padding (ECB/CBC encryption)
        getattr(self, mode + '_' + direction)(g, n, self.L)

    def new(self, iv=None, **kw):
        if iv is not None:
            kw['init_vect'] = iv
        if self.mode in ('ecb', 'cbc'):
            kw['pad_mode'] = self.pad
        return self.m.new(self.alg, self.key, MODE[self.mode], **kw)

    def case(self, iv, ops, op, **kw):
        """battery case of a counterexample: calls with ops (byte strings), then one more"""
        def f(e):
            n = self.n
            pieces = [[int(bool(getattr(d, 'mutable', False))), model_hex(e, d)] for d in ops]
            pieces.append([0, bytes(range(1, 2 * n + 1 + (0 if self.mode in ('ecb', 'cbc') else 3))).hex()])
            return dict(alg=self.alg, mode=self.mode, key=model_hex(e, self.key), kk=0, ik=int(bool(getattr(iv, 'mutable', False))),
                        pad=1 if self.pad == PAD1 else 2, iv=None if iv is None else model_hex(e, iv), ops=pieces,
                        op=op[:3], **kw)
        self.g.replay = f

    # -- message with padding
    def padbyte(self, o):
        """padding byte at offset o >= N of the padded message"""
        if self.pad == PAD2 and core.same(o, self.N):
            return 0x80
        return 0

    def pel(self, o):
        if self.N is not None:
            if core.le(self.N, o):
                return self.padbyte(o)
        return el(self.P, o)

    def total(self, q, r):
        """length of the padded message (standard, see known finding for PAD_MODE_2)"""
        n = self.n
        if self.pad == PAD1:
            return q * n + (n if r else 0)
        if r:
            return q * n + n + n      # known finding pad2-ragged-extra-block: one block more than the standard's
        return q * n + n

    def msg(self, g):
        self.P = g.defined('P', self.pel, [], unfold=lambda o: self.pel(o) if self.N is not None and core.le(self.N, o) else None)
        g.folds[-1] = (self.P, self.pel, [(self.P, 0)])

    def split(self, name, aligned=False, part=None):
        """an arbitrary length n q + r (part k: r in the k-th quarter)"""
        ctx, n = self.ctx, self.n
        q = ctx.var('q' + name, 0)
        lo, hi = (0, n - 1) if part is None else (part * n // 4, (part + 1) * n // 4 - 1)
        r = 0 if aligned else ctx.concretize(ctx.var('r' + name, lo, hi))
        return q, r, q * n + r

    # -- modes: set self.inp, self.out, self.reg
    def ecb_encrypt(self, g, n, L):
        self.msg(g)
        X = g.prim('X')
        X.value = g.block_value('E', lambda ev, o: ev.elem('P', o))

        def E(x):
            o = one_slice(x, self.P)
            o = o[0] if o else g.find(x.vec(), self.pel, [(self.P, 0)])
            if o is None and self.N is not None:
                o = match(x.vec(), self.pel, [self.N - self.r + k * n for k in range(3)])
            if o is not None and is_mult(o, n):
                return [Slice(X, o, o + n)]
        g.E.append(E)

        def D(x):
            o = one_slice(x, X)
            if o and is_mult(o[0], n):
                return [Slice(self.P, o[0], o[0] + n)]
        g.D.append(D)
        self.inp = lambda a, b: sl(self.P, a, b)
        self.out = lambda a, b: sl(X, a, b)

    def ecb_decrypt(self, g, n, L):
        P, X = g.prim('P'), g.prim('X')
        X.value = g.block_value('D', lambda ev, o: ev.elem('P', o))

        def D(x):
            o = one_slice(x, P)
            if o and is_mult(o[0], n):
                return [Slice(X, o[0], o[0] + n)]
        g.D.append(D)
        self.inp = lambda a, b: sl(P, a, b)
        self.out = lambda a, b: sl(X, a, b)

    def cbc_encrypt(self, g, n, L):
        W = g.prim('W')
        W.value = g.block_value('E', lambda ev, o: ev.elem('P', o) ^ ev.elem('W', o), L)
        self.msg(g)

        def E(x):
            o = g.find(x.vec(), lambda o: self.pel(o) ^ el(W, o), [(W, 0), (self.P, 0)])
            if o is not None and is_mult(o, n):
                return [Slice(W, L + o, L + o + n)]
        g.E.append(E)

        def D(x):
            o = one_slice(x, W)
            if o and is_mult(o[0] - L, n):
                o = o[0] - L
                return [tuple(self.pel(o + j) ^ el(W, o + j) for j in range(n))]
        g.D.append(D)
        self.inp = lambda a, b: sl(self.P, a, b)
        self.out = lambda a, b: sl(W, L + a, L + b)
        self.reg = lambda o: sl(W, o, L + o)

    def cbc_decrypt(self, g, n, L):
        W, G = g.prim('W'), g.prim('G')
        G.value = g.block_value('D', lambda ev, o: ev.elem('W', o + ev.lin(L)))
        X = g.defined('X', lambda o: el(G, o) ^ el(W, o), [(G, 0)])

        def D(x):
            o = one_slice(x, W)
            if o and is_mult(o[0] - L, n):
                return [Slice(G, o[0] - L, o[0] - L + n)]
        g.D.append(D)
        self.inp = lambda a, b: sl(W, L + a, L + b)
        self.out = lambda a, b: sl(X, a, b)
        self.reg = lambda o: sl(W, o, L + o)

    def gamma_rule(self, g, n, W, fn):
        def E(x):
            o = one_slice(x, W)
            if o and is_mult(o[0], n):
                b, off = fn(o[0])
                return [Slice(b, off, off + n)]
        g.E.append(E)

    def cfb_encrypt(self, g, n, L):
        P, G = g.prim('P'), g.prim('G')

        def wdef(o):
            return el(P, o - L) ^ el(G, o - L) if core.le(L, o) else None
        W = g.defined('W', wdef, [(G, L)])
        W.value = lambda ev, o: ev.elem('P', o - ev.lin(L)) ^ ev.elem('G', o - ev.lin(L)) if o >= ev.lin(L) else None
        G.value = g.block_value('E', lambda ev, o: ev.elem('W', o))
        self.gamma_rule(g, n, W, lambda o: (G, o))
        self.inp = lambda a, b: sl(P, a, b)
        self.out = lambda a, b: sl(W, L + a, L + b)
        self.reg = lambda o: sl(W, o, L + o)

    def cfb_decrypt(self, g, n, L):
        W, G = g.prim('W'), g.prim('G')
        G.value = g.block_value('E', lambda ev, o: ev.elem('W', o))
        X = g.defined('X', lambda o: el(W, L + o) ^ el(G, o), [(G, 0)])
        self.gamma_rule(g, n, W, lambda o: (G, o))
        self.inp = lambda a, b: sl(W, L + a, L + b)
        self.out = lambda a, b: sl(X, a, b)
        self.reg = lambda o: sl(W, o, L + o)

    def ofb_encrypt(self, g, n, L):
        W, P = g.prim('W'), g.prim('P')
        W.value = g.block_value('E', lambda ev, o: ev.elem('W', o), L)
        X = g.defined('X', lambda o: el(P, o) ^ el(W, L + o), [(P, 0)])
        self.gamma_rule(g, n, W, lambda o: (W, L + o))
        self.inp = lambda a, b: sl(P, a, b)
        self.out = lambda a, b: sl(X, a, b)
        self.reg = lambda o: sl(W, o, L + o)

    ofb_decrypt = ofb_encrypt

    def ctr_encrypt(self, g, n, L):
        P, G = g.prim('P'), g.prim('G')
        h = n // 2

        # counter blocks: IV || 0, then each the previous plus one modulo 2^(8n)
        CT = self.CT = g.prim('CT')
        CT.unfold = lambda o: 0 if isinstance(o, int) and h <= o < n else None

        def ctval(ev, o):
            if o < n:
                return 0 if o >= h else None
            iv = [ev.elem('CT', j) for j in range(n)]
            v = int.from_bytes(bytes(iv), 'big') + o // n
            return (v % (1 << 8 * n)).to_bytes(n, 'big')[o % n]
        CT.value = ctval
        G.value = g.block_value('E', lambda ev, o: ev.elem('CT', o))
        X = g.defined('X', lambda o: el(P, o) ^ el(G, o), [(G, 0)])
        nxt = {}

        def step(vec):
            if len(vec) != n:
                return None
            for o in [o - (n - 1) for o in hints(vec[-1:], [CT])] + [0]:
                if not is_mult(o, n):
                    continue
                k = core.okey(o)
                if k not in nxt:
                    nxt[k] = ref.ctr_inc(els(CT, o, n))
                if all(byte_eq(x, y) for x, y in zip(vec, nxt[k])):
                    return [Slice(CT, o + n, o + 2 * n)]
        g.matchers.append(step)

        def E(x):
            o = one_slice(x, CT)
            if o is not None and is_mult(o[0], n):
                return [Slice(G, o[0], o[0] + n)]
        g.E.append(E)
        self.iv = lambda: sl(CT, 0, h)
        self.inp = lambda a, b: sl(P, a, b)
        self.out = lambda a, b: sl(X, a, b)
        self.ctr = lambda o: sl(CT, o, o + n)

    ctr_decrypt = ctr_encrypt


def typed(x, mutable):
    return (SBytearray if mutable else SBytes)(x.p)


def feedback(alg, mode, direction, dtype, pad=PAD1):
    """one call on an object whose register is arbitrary: output, register, frame"""
    def t(ctx):
        w = World(ctx, alg, mode, direction, pad)
        enc_pad = mode in ('ecb', 'cbc') and direction == 'encrypt'
        q, r, N = w.split('P', aligned=mode in ('ecb', 'cbc') and direction == 'decrypt')
        if enc_pad:
            w.N, w.r = N, r
            ctx.assume(N >= 1)
        iv = None if mode == 'ecb' else typed(w.reg(0), dtype)
        obj = w.new(iv)
        data = typed(w.inp(0, N), dtype)
        w.case(iv, [data], direction)
        f = Frame(data=data, key=w.key, **({'iv': iv} if iv is not None else {}))
        res = getattr(obj, direction)(data)
        f.same(ctx, 'key, vector and data buffers unchanged')
        T = w.total(q, r) if enc_pad else N
        if enc_pad and pad == PAD2 and r and core.same(SBytes(to_pieces(res)).length(), q * w.n + w.n):
            T = q * w.n + w.n         # the standard's own length, should the known finding be repaired
        ctx.equal('output is the standard\'s', res, w.out(0, T), 'bytearray')
        if mode != 'ecb':
            B = T if not isinstance(T, int) and enc_pad else q * w.n
            ctx.equal('iv attribute is the low block of the register', obj.iv, sl(w.reg(0).p[0].base, B + w.L - w.n, B + w.L))
            fresh = w.new(w.reg(B))
        else:
            fresh = w.new(None)
        equiv(ctx, 'object continues exactly as one whose vector is the register', obj, fresh)
        disjoint(ctx, 'result shares nothing with object and arguments', [res], [obj, data, w.key] + ([iv] if iv is not None else []))
        disjoint(ctx, 'object keeps no reference to caller buffers', [obj], [data, w.key] + ([iv] if iv is not None else []))
    return t


def roundtrip(alg, mode, pad=PAD1, part=None):
    """an encrypting and a decrypting object with equal arbitrary registers: one more piece of any length"""
    def t(ctx):
        w = World(ctx, alg, mode, 'encrypt', pad)
        n = w.n
        padded = mode in ('ecb', 'cbc')
        q, r, N = w.split('P', part=part)
        base = 0
        if mode == 'ctr':
            a, d = w.new(w.iv()), w.new(w.iv())
            q0, _, base = w.split('0', aligned=True)
            d.decrypt(a.encrypt(w.inp(0, base)))
        else:
            iv = None if mode == 'ecb' else w.reg(0)
            a, d = w.new(iv), w.new(iv)
        if padded:
            w.N, w.r = N, r
            ctx.assume(N >= 1)
        data = w.inp(base, base + N)
        w.case(w.iv() if mode == 'ctr' else iv, [w.inp(0, base), data] if mode == 'ctr' else [data], 'enc', split=4)
        c = a.encrypt(data)
        back = d.decrypt(c)
        T = SBytes(to_pieces(c)).length()
        if padded:
            ctx.check('whole blocks', T == w.total(q, r), '%r' % (T,)) if pad == PAD1 or not r else ctx.check('whole blocks', T % n == 0)
            ctx.equal('original message comes back first', back[:N], data)
            ctx.equal('exactly the padding follows', back[N:], SBytes([tuple([0x80] if pad == PAD2 else []), Fill(0, T - N - (1 if pad == PAD2 else 0))]))
        else:
            ctx.equal('original message comes back', back, data, 'bytearray')
        equiv(ctx, 'both objects are in the same state again', a, d)
    return t


def counter(alg, direction, dtype, part=None):
    """two successive calls of any lengths from IV || 0: output, counter"""
    def t(ctx):
        w = World(ctx, alg, 'ctr', direction)
        n = w.n
        iv = typed(w.iv(), dtype)
        obj = w.new(iv)
        ctx.equal('initial counter is IV || 0', obj.counter, w.ctr(0))
        q1, r1, N1 = w.split('1', part=part)
        d1 = typed(w.inp(0, N1), dtype)
        w.case(iv, [d1], direction)
        f = Frame(data=d1, key=w.key, iv=iv)
        x1 = getattr(obj, direction)(d1)
        f.same(ctx, 'key, vector and data buffers unchanged')
        ctx.equal('output is the standard\'s', x1, w.out(0, N1), 'bytearray')
        k1 = (q1 + (1 if r1 else 0)) * n
        ctx.equal('counter advanced by one for every whole or partial block', obj.counter, w.ctr(k1))
        disjoint(ctx, 'result shares nothing with object and arguments', [x1], [obj, d1, iv, w.key])
        disjoint(ctx, 'object keeps no reference to caller buffers', [obj], [d1, w.key, iv])
        c = obj.counter
        disjoint(ctx, 'the counter property is a copy', [c], [obj])
        one = w.new(w.iv())
        one.encrypt(w.inp(0, k1))
        equiv(ctx, 'object continues exactly as after that many whole blocks', obj, one)
    return t


def counter2(alg, direction, part=None):
    """second call, after any number of whole blocks: continues the counter"""
    def t(ctx):
        w = World(ctx, alg, 'ctr', direction)
        n = w.n
        obj = w.new(w.iv())
        q1, _, N1 = w.split('1', aligned=True)
        getattr(obj, direction)(w.inp(0, N1))
        q2, r2, N2 = w.split('2', part=part)
        w.case(w.iv(), [w.inp(0, N1), w.inp(N1, N1 + N2)], direction)
        x2 = getattr(obj, direction)(w.inp(N1, N1 + N2))
        ctx.equal('second call continues with the next counter block', x2, w.out(N1, N1 + N2), 'bytearray')
        k = N1 + (q2 + (1 if r2 else 0)) * n
        ctx.equal('counter after two calls', obj.counter, w.ctr(k))
        one = w.new(w.iv())
        one.encrypt(w.inp(0, k))
        equiv(ctx, 'two calls leave the object as one call does', obj, one)
    return t
