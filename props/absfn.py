"""Abstract functions of byte strings of any length: the hash and HMAC as their contracts.

apply(name, args, n): value of an n-byte function of byte strings.  A string of known length is a vector argument of an
uninterpreted function.  A string of symbolic length (a rope) is interned: equal ropes (normal forms, under the facts of
the path) give the same value, different ones unrelated values.  Counterexamples use the real function (value hook)."""
from pyvc.api import *
from pyvc.ghost import *
from pyvc import core
from spec import ref


class AbsFn:
    def __init__(self, ctx):
        self.ctx = ctx
        self.g = ctx.contract if ctx.contract is not None else Ghost(ctx, 64)
        self.real = {}                # name -> function on byte strings
        self.ropes = []               # (name, tuple of ropes, base)
        self.g.uf_value = self.uf_value
        self.lens = {}

    def define(self, name, n, fn):
        self.real[name] = (n, fn)

    def uf_value(self, name, data):
        if name in self.lens:
            f, ls = self.lens[name]
            out, p = [], 0
            for l in ls:
                out.append(bytes(data[p:p + l]))
                p += l
            return bytes(self.real[f][1](*out))

    def apply(self, name, *args):
        n = self.real[name][0]
        ropes = [SBytes(to_pieces(a)) for a in args]
        ls = [core.C.canon(r.length()) for r in ropes]
        if all(isinstance(l, int) for l in ls):
            key = '%s/%s' % (name, ','.join(map(str, ls)))
            self.lens[key] = (name, ls)
            v = []
            for r in ropes:
                v += r.vec()
            return SBytes([tuple(uf(key, v, n))])
        for nm, rs, b in self.ropes:
            if nm == name and len(rs) == len(ropes) and all(same_pieces(x.p, y.p) for x, y in zip(rs, ropes)):
                return sl(b, 0, n)
        b = self.ctx.base('%s<%d>' % (name, len(self.ropes)))

        def value(ev, o, ropes=ropes, b=b):
            if o < 0 or o >= n:
                return 0
            c = ev.ufc.get(b.name)
            if c is None:
                c = ev.ufc[b.name] = bytes(self.real[name][1](*[bytes.fromhex(model_hex(ev, r)) for r in ropes]))
            return c[o]
        b.value = value
        self.ropes.append((name, ropes, b))
        return sl(b, 0, n)


def substitute(mod, old, new):
    """every name of the module bound to `old` is bound to `new`"""
    k = 0
    for n, v in list(vars(mod).items()):
        if v is old:
            setattr(mod, n, new)
            k += 1
    return k


class StubHash:
    """a hash object as its contract (C08, C09): the data since creation or reset is its whole state"""
    _vc_walk = True

    def __init__(self, name, data):
        if name not in ('streebog256', 'streebog512'):
            raise Undecided('hash object with name %r' % (name,))
        self._name = name
        self.bits = 256 if name == 'streebog256' else 512
        self.D = SBytes([])
        self.oid = M('oid').ObjectIdentifier('1.2.643.7.1.1.2.%d' % (2 if self.bits == 256 else 3))
        self.update(data)

    def update(self, data):
        ps = to_pieces(data)
        if ps is None:
            if isinstance(data, core.Poison):
                raise Undecided('hash of an unknown value')
            raise M('hash').GOSTHashError('GOSTHashError: invalid data value')
        self.D = SBytes(list(self.D.p) + list(ps))

    def digest(self):
        return SBytearray(list(core.C.contract.fns.apply('H%d' % self.bits, self.D).p))

    def hexdigest(self):
        return self.digest().hex()

    def reset(self):
        self.D = SBytes([])

    def copy(self):
        from copy import deepcopy
        return deepcopy(self)

    digest_size = property(lambda self: self.bits // 8)
    block_size = property(lambda self: 64)
    name = property(lambda self: self._name)


def stub_hash_new(name, **kw):
    if name not in ('streebog256', 'streebog512'):
        raise M('hash').GOSTHashError('GOSTHashError: unsupported hash type')
    return StubHash(name, kw.get('data', SBytearray([])))


def hash_world(ctx, user):
    """module `user` with the hash replaced by its contract"""
    f = AbsFn(ctx)
    f.g.fns = f
    for b in (256, 512):
        f.define('H%d' % b, b // 8, lambda d, b=b: ref.streebog(d, b))
    h = M('hash')
    m = M(user)
    substitute(m, h.GOST34112012, StubHash)
    substitute(m, h.new, stub_hash_new)
    for v in list(vars(m).values()):
        # a package imported as a module
        if type(v) is type(m) and v.__name__.startswith('gostcrypto.gosthash'):
            substitute(v, h.GOST34112012, StubHash)
            substitute(v, h.new, stub_hash_new)
    return f


# ------------------------------------------------------------------ HMAC over the abstract hash
HM = {256: 'HMAC_GOSTR3411_2012_256', 512: 'HMAC_GOSTR3411_2012_512'}


class HmacWorld:
    def __init__(self, ctx, bits, klen, ktype=False):
        self.ctx, self.bits, self.klen = ctx, bits, klen
        self.f = hash_world(ctx, 'hmac')
        self.g = self.f.g
        self.m = M('hmac')
        self.P = self.g.prim('P')
        self.key = fresh_bytes('key', klen, ktype)
        k = self.key.vec() + [0] * (64 - klen)
        self.ipad = sb([x ^ 0x36 for x in k])
        self.opad = sb([x ^ 0x5c for x in k])

    def data(self, a, b, mutable=False):
        return (SBytearray if mutable else SBytes)([Slice(self.P, a, b)])

    def new(self, data=None):
        kw = {} if data is None else {'data': data}
        return self.m.new(HM[self.bits], self.key, **kw)

    def spec(self, data):
        h = 'H%d' % self.bits
        inner = self.f.apply(h, SBytes(self.ipad.p + list(data.p)))
        return self.f.apply(h, SBytes(self.opad.p + list(inner.p)))
