"""Concrete oracle for C18 (argument checks), C19 (aliasing) and C20 (clearing).

See battery.py: replay of counterexamples and bounded stand-in only, never proof."""
import sys
import types

B = None            # the battery module, set by install()

CE, HE, ME, PE, RE, SE = ('GOSTCipherError', 'GOSTHashError', 'GOSTHMACError', 'GOSTPBKDFError', 'GOSTRandomError',
                          'GOSTSignatureError')
BAD_TYPES = ('none', 'int', 'zero', 'str', 'list', 'tuple', 'mview', 'float', 'dict', 'true', 'set')


def dec(v):
    """JSON -> python value"""
    t, x = v
    if t == 'y':
        return B.H(x)
    if t == 'a':
        return bytearray(B.H(x))
    if t == 'mview':
        return memoryview(B.H(x) or b'\x01')
    if t == 'list':
        return list(B.H(x))
    if t == 'tuple':
        return tuple(B.H(x))
    if t == 'str':
        return 'a' * (len(x) // 2)
    if t == 'dict':
        return {i: b for i, b in enumerate(B.H(x))}
    if t == 'set':
        return set(B.H(x)) | {1}
    return {'none': None, 'int': 5, 'zero': 0, 'float': 1.5, 'true': True}.get(t, x)


def wrong(g, n, extra=()):
    """a value that is not a byte string of n bytes"""
    r = g.r
    if r.randrange(2):
        return [r.choice(BAD_TYPES), g.bts(max(n, 1))]
    ns = [0, 1, n - 1, n + 1, n + n, n // 2, n + 16, r.randrange(0, 3 * n + 3)] + [x for x in g.lens if x < 200]
    ns += list(extra)
    while True:
        m = r.choice(ns)
        if m >= 0 and m != n:
            return [r.choice('ya'), g.bts(m)]


def nonbytes(g, n=16):
    return [g.r.choice(BAD_TYPES), g.bts(n)]


def ok(g, n):
    return [g.r.choice('ya'), g.bts(n)]


def g_args(g):
    r = g.r
    while True:
        alg = r.choice(B.ALGS)
        n = B.BS[alg]
        mode = r.choice(('ecb', 'cbc', 'cfb', 'ofb', 'ctr'))
        c = dict(alg=alg, mode=mode, key=ok(g, 32), iv=ok(g, n // 2 if mode == 'ctr' else n * r.choice((1, 2, 3))),
                 pad=r.choice((0x800000F0, 0x800000F1)), err=CE)
        k = r.randrange(26)
        if k == 0:
            c.update(f='cipher', bad='mode', v=r.choice((['i', r.choice((0, 4, 7, 8, 254, 256, -1, 100))], ['none', ''], ['s', 'ecb'])),
                     msg='unsupported cipher mode')
        elif k == 1:
            c.update(f='cipher', bad='alg', v=r.choice((['s', r.choice(('', 'Magma', 'KUZNECHIK', 'aes', 'magma ', 'streebog256'))], ['none', ''], ['int', ''])),
                     msg='unsupported cipher algorithm', mode=r.choice(('ecb', 'cbc', 'cfb', 'ofb', 'ctr', 'mac')))
        elif k == 2:
            c.update(f='cipher', bad='key', v=wrong(g, 32), msg='invalid key value', mode=r.choice(('ecb', 'cbc', 'cfb', 'ofb', 'ctr', 'mac')))
        elif k == 3:
            c.update(f='cipher', bad='pad', mode=r.choice(('ecb', 'cbc')), msg='invalid padding mode',
                     v=r.choice((['i', r.choice((0, 1, 2, 0x800000EF, 0x800000F2, 0x8000F0, -1))], ['none', ''], ['s', 'x'])))
        elif k in (4, 5):
            mode = r.choice(('cbc', 'cfb', 'ofb', 'ctr'))
            want = n // 2 if mode == 'ctr' else None
            v = nonbytes(g, n // 2 if mode == 'ctr' else n * 2)
            if r.randrange(2):
                if want:
                    v = wrong(g, want, (n, 2 * n))
                else:
                    m = r.choice((0, 0, 1, n - 1, n + 1, 2 * n + 1, n // 2, n + n // 2, 3 * n - 1, r.randrange(60)))
                    v = [r.choice('ya'), g.bts(m if m % n or m == 0 else m + 1)]
            c.update(f='cipher', bad='iv', mode=mode, v=v, msg='invalid initialization vector value')
        elif k in (6, 7):
            op = r.choice(('encrypt', 'decrypt'))
            c.update(f='crypt', op=op, v=nonbytes(g, n), msg='invalid %stext data' % ('plain' if op == 'encrypt' else 'cipher'),
                     before=r.randrange(2))
        elif k == 8:
            c.update(f='mac', where=r.choice(('new', 'update')), v=nonbytes(g, n), msg='invalid text data')
        elif k == 9:
            c.update(f='macsize', op=r.choice(('digest', 'hexdigest')), v=['i', r.choice((0, -1, n + 1, n + 2, 2 * n, 17, -8, 1000, -r.randrange(1, 40)))],
                     msg='invalid message authentication code size')
            if 1 <= c['v'][1] <= n:
                continue
        elif k == 10:
            c = dict(f='hashname', v=r.choice((['s', r.choice(('', 'streebog', 'Streebog256', 'streebog384', 'streebog5120'))], ['none', ''], ['int', ''])),
                     err=HE, msg='unsupported hash type')
        elif k == 11:
            c = dict(f='hashdata', bits=r.choice((256, 512)), where=r.choice(('new', 'update')), v=nonbytes(g, 20), err=HE, msg='invalid data value')
        elif k == 12:
            c = dict(f='hmacname', v=r.choice((['s', r.choice(('', 'HMAC_GOSTR3411_2012', 'hmac_gostr3411_2012_256', 'streebog512', 'HMAC_GOSTR3411_2012_384'))],
                                               ['none', ''], ['int', ''])), err=ME, msg='unsupported mode')
        elif k == 13:
            c = dict(f='hmackey', bits=r.choice((256, 512)), err=ME, msg='invalid key value',
                     v=r.choice((nonbytes(g, r.randrange(1, 65)), [r.choice('ya'), g.bts(r.choice((65, 65, 66, 128, 64 + r.randrange(1, 100))))])))
        elif k == 14:
            c = dict(f='hmacdata', bits=r.choice((256, 512)), where=r.choice(('new', 'update')), v=nonbytes(g, 20), err=ME, msg='invalid data value')
        elif k == 15:
            c = dict(f='pbkpw', v=r.choice((nonbytes(g, 8), [r.choice('ya'), g.bts(r.choice((65, 66, 128)))])), err=PE, msg='invalid password value')
        elif k == 16:
            c = dict(f='pbksalt', v=nonbytes(g, 8), err=PE, msg='invalid salt value')
        elif k == 17:
            c = dict(f='pbklen', op=r.choice(('derive', 'hexderive')), v=['i', r.choice(((2 ** 32 - 1) * 64 + 1, 2 ** 40, -1, -64, -65))], err=PE,
                     msg='invalid size of the derived key')
        elif k == 18:
            ss = r.choice((32, 40, 48))
            c = dict(f='seed', where=r.choice(('new', 'reset')), ss=ss, v=wrong(g, ss, (32, 40, 48, 63, 64)), err=RE, msg='invalid seed value')
            if c['v'][0] in 'ya' and not c['v'][1]:
                continue
        elif k == 19:
            c = dict(f='seedzero', ss=r.choice((32, 40, 48)), where=r.choice(('new', 'reset')), size=r.choice((1, 32, 64, 100)), err=RE, msg='the seed value is zero', k=g.kind())
        elif k == 20:
            c = dict(f='sigmode', v=r.choice((['i', r.choice((0, 3, -1, 256, 512))], ['none', ''], ['s', '1'])), err=SE, msg='unsupported signature mode')
        elif k in (21, 22, 23):
            cn = r.choice([x for x in B.CN if B.spec_curve(x).size == 32] * 3 + [x for x in B.CN if B.spec_curve(x).size == 64])
            sz = B.spec_curve(cn).size
            which = r.choice(('sign.key', 'sign.digest', 'sign.k', 'sign.krange', 'verify.key', 'verify.digest', 'verify.sig', 'pub'))
            m = {'sign.key': 'invalid private key value', 'sign.digest': 'invalid digest value', 'sign.k': 'invalid random value',
                 'sign.krange': 'invalid random value', 'verify.key': 'invalid public key value', 'verify.digest': 'invalid digest value',
                 'verify.sig': 'invalid signature value', 'pub': 'invalid private key'}[which]
            n = sz * 2 if which in ('verify.key', 'verify.sig') else sz
            v = wrong(g, n)
            if which == 'sign.k':
                v = nonbytes(g, sz)
            if which == 'sign.krange':
                q = B.spec_curve(cn).q
                x = r.choice((0, q, q + 1, 256 ** sz - 1))
                v = [r.choice('ya'), B.hx(x.to_bytes(sz, 'big'))]
            c = dict(f='sig', curve=cn, which=which, v=v, err=SE, msg=m)
        elif k == 24:
            c = dict(f='same', gen='modes', case=next(B.g_modes(g, ('ecb', 'cbc', 'cfb', 'ofb', 'ctr'))))
        else:
            c = dict(f='same', gen=r.choice(('mac', 'hist', 'hmac', 'pbk', 'rnd', 'sign', 'verify', 'pub')))
            gen = dict(mac=B.g_mac, hist=B.g_hist, hmac=lambda g: B.g_hist(g, True), pbk=B.g_pbk, rnd=B.g_rnd,
                       sign=B.g_sign, verify=B.g_verify, pub=B.g_pub)[c['gen']](g)
            for _ in range(r.randrange(1, 9)):
                c['case'] = next(gen)
        yield c


def flip(o):
    """the same case with every byte argument of the other type"""
    if isinstance(o, dict):
        return {k: (1 - v if k in ('kk', 'ik', 'bk', 'sk', 'pk', 'k') and v in (0, 1) else flip(v)) for k, v in o.items()}
    if isinstance(o, list):
        if len(o) == 2 and o[0] in (0, 1) and isinstance(o[1], str):
            return [1 - o[0], o[1]]
        if len(o) >= 3 and o[0] in ('u', 'reset'):
            return [1 - x if x in (0, 1) and i == len(o) - 2 else x for i, x in enumerate(o)]
        if o and all(x in (0, 1) and isinstance(x, int) for x in o):
            return [1 - x for x in o]
        return [flip(x) for x in o]
    return o


def expect(c, f):
    try:
        got = f()
    except Exception as x:
        if type(x).__name__ != c['err']:
            return '%s: raised %s (%s), documented error is %s(%s)' % (c['f'], type(x).__name__, x, c['err'], c['msg'])
        if str(x) != '%s: %s' % (c['err'], c['msg']):
            return '%s: message is %r, documented message is %r' % (c['f'], str(x), c['msg'])
        return None
    return '%s: invalid argument accepted (%r), documented error is %s(%s)' % (c['f'], str(got)[:60], c['err'], c['msg'])


def new_cipher(c, **over):
    a = dict(alg=c['alg'], key=dec(c['key']), mode=B.MODES[c['mode']], pad=c['pad'], iv=dec(c['iv']))
    a.update(over)
    kw = {}
    if c['mode'] in ('ecb', 'cbc'):
        kw['pad_mode'] = a['pad']
    if c['mode'] in ('cbc', 'cfb', 'ofb', 'ctr'):
        kw['init_vect'] = a['iv']
    return B.gostcipher.new(a['alg'], a['key'], a['mode'], **kw)


def r_args(c):
    f = c['f']
    if f == 'same':
        run = dict(modes=B.r_modes, mac=B.r_mac, hist=B.r_hist, hmac=B.r_hist, pbk=B.r_pbk, rnd=B.r_rnd, sign=B.r_sign,
                   verify=B.r_verify, pub=B.r_pub)[c['gen']]

        def go(x):
            try:
                return run(x)
            except Exception as e:
                return 'raised %s: %s' % (type(e).__name__, e)
        a, b = go(c['case']), go(flip(c['case']))
        return None if a == b else 'result depends on bytes/bytearray: %s / %s' % (a, b)
    v = dec(c['v']) if 'v' in c else None
    n = B.BS[c['alg']] if 'alg' in c else 0
    if f == 'cipher':
        return expect(c, lambda: new_cipher(c, **{c['bad']: v}))
    if f == 'crypt':
        o = new_cipher(c)
        if c['before']:
            o.encrypt(bytes(n))
        return expect(c, lambda: getattr(o, c['op'])(v))
    if f == 'mac':
        if c['where'] == 'new':
            return expect(c, lambda: B.gostcipher.new(c['alg'], dec(c['key']), 255, data=v))
        o = B.gostcipher.new(c['alg'], dec(c['key']), 255)
        return expect(c, lambda: o.update(v))
    if f == 'macsize':
        o = B.gostcipher.new(c['alg'], dec(c['key']), 255, data=b'abc')
        return expect(c, lambda: getattr(o, c['op'])(v))
    if f == 'hashname':
        return expect(c, lambda: B.gosthash.new(v))
    if f == 'hashdata':
        if c['where'] == 'new':
            return expect(c, lambda: B.gosthash.new('streebog%d' % c['bits'], data=v))
        return expect(c, lambda: B.gosthash.new('streebog%d' % c['bits']).update(v))
    if f == 'hmacname':
        return expect(c, lambda: B.gosthmac.new(v, b'key'))
    nm = 'HMAC_GOSTR3411_2012_%d' % c.get('bits', 256)
    if f == 'hmackey':
        return expect(c, lambda: B.gosthmac.new(nm, v))
    if f == 'hmacdata':
        if c['where'] == 'new':
            return expect(c, lambda: B.gosthmac.new(nm, b'key', data=v))
        return expect(c, lambda: B.gosthmac.new(nm, b'key').update(v))
    if f == 'pbkpw':
        return expect(c, lambda: B.gostpbkdf.new(v, salt=b'salt', counter=1))
    if f == 'pbksalt':
        return expect(c, lambda: B.gostpbkdf.new(b'pw', salt=v, counter=1))
    if f == 'pbklen':
        return expect(c, lambda: getattr(B.gostpbkdf.new(b'pw', salt=b'salt', counter=1), c['op'])(v))
    if f == 'seed':
        if c['where'] == 'new':
            return expect(c, lambda: B.gostrandom.new(16, rand_k=v, size_s=c['ss']))
        return expect(c, lambda: B.gostrandom.new(16, rand_k=b'\1' * c['ss'], size_s=c['ss']).reset(v))
    if f == 'seedzero':
        z = B.mk(c['k'], '00' * c['ss'])

        def go():
            if c['where'] == 'new':
                o = B.gostrandom.new(c['size'], rand_k=z, size_s=c['ss'])
            else:
                o = B.gostrandom.new(c['size'], rand_k=b'\1' * c['ss'], size_s=c['ss'])
                o.reset(z)
            return o.random()
        return expect(c, go)
    if f == 'sigmode':
        return expect(c, lambda: B.gostsignature.new(v, B.curve(B.CN[0])))
    o = B.sig_obj(c['curve'])
    C = B.spec_curve(c['curve'])
    sz = C.size
    w = c['which']
    d, dg = b'\0' * (sz - 1) + b'\7', b'\5' * sz
    Q = C.mul(7)
    pk = Q[0].to_bytes(sz, 'big') + Q[1].to_bytes(sz, 'big')
    sg = b'\1' * (2 * sz)
    if w == 'sign.key':
        return expect(c, lambda: o.sign(v, dg, d))
    if w == 'sign.digest':
        return expect(c, lambda: o.sign(d, v, d))
    if w in ('sign.k', 'sign.krange'):
        return expect(c, lambda: o.sign(d, dg, v))
    if w == 'verify.key':
        return expect(c, lambda: o.verify(v, dg, sg))
    if w == 'verify.digest':
        return expect(c, lambda: o.verify(pk, v, sg))
    if w == 'verify.sig':
        return expect(c, lambda: o.verify(pk, dg, v))
    return expect(c, lambda: o.public_key_generate(v))


# ------------------------------------------------------------------ C19
class Alias(Exception):
    pass


class Env:
    """creates arguments, records results; in the attacking run every buffer the caller owns is overwritten after each call"""

    def __init__(self, attack):
        self.attack, self.args, self.owned, self.out = attack, [], [], []

    def arg(self, h):
        b = bytearray(B.H(h))
        self.args.append((b, bytes(b)))
        return b

    def done(self, what, res=None):
        for b, v in self.args:
            if bytes(b) != v:
                raise Alias('%s modified a buffer passed by the caller' % what)
        if isinstance(res, (bytes, bytearray)):
            self.out.append((what, bytes(res)))
        elif isinstance(res, (str, int, bool)):
            self.out.append((what, res))
        if isinstance(res, bytearray):
            self.owned.append(res)
        if self.attack:
            for b, v in self.args:
                for i in range(len(b)):
                    b[i] ^= 0xa5
            for b in self.owned:
                for i in range(len(b)):
                    b[i] ^= 0x5a
            self.args, self.owned = [], []
        return res


def consts():
    out = {}

    def enc(v, d=0):
        if isinstance(v, (bytes, bytearray, int, str, float, bool, type(None))):
            return (type(v).__name__, bytes(v) if isinstance(v, bytearray) else v)
        if isinstance(v, (list, tuple)) and d < 4:
            return (type(v).__name__, tuple(enc(x, d + 1) for x in v))
        if isinstance(v, dict) and d < 4:
            return ('dict', tuple((k, enc(x, d + 1)) for k, x in v.items()))
        if isinstance(v, set):
            return ('set', tuple(sorted(map(repr, v))))
        return None
    for name, m in list(sys.modules.items()):
        if name.split('.')[0] != 'gostcrypto' or m is None:
            continue
        for k, v in vars(m).items():
            if k.startswith('__'):
                continue
            e = enc(v)
            if e is not None:
                out[name + '.' + k] = hash(e)
            fs = []
            if isinstance(v, types.FunctionType):
                fs = [(k, v)]
            elif isinstance(v, type) and v.__module__ == name:
                fs = [(k + '.' + a, x) for a, x in vars(v).items()]
            for a, x in fs:
                x = getattr(x, '__func__', x)
                if isinstance(x, types.FunctionType):
                    out[name + '.' + a + ' defaults'] = hash(enc((x.__defaults__ or ()) + tuple((x.__kwdefaults__ or {}).values())))
                elif not a.split('.')[-1].startswith('__'):
                    e = enc(x)
                    if e is not None:
                        out[name + '.' + a] = hash(e)
    return out


def g_alias(g):
    gens = dict(modes=B.g_modes(g, ('ecb', 'cbc', 'cfb', 'ofb', 'ctr')), mac=B.g_mac(g), hist=B.g_hist(g), hmac=B.g_hist(g, True),
                pbk=B.g_pbk(g), rnd=B.g_rnd(g), sign=B.g_sign(g), verify=B.g_verify(g), block=None, utils=None)
    ks = ['modes'] * 6 + ['mac'] * 3 + ['hist', 'hmac', 'hmac', 'pbk', 'rnd', 'rnd', 'sign', 'verify', 'block', 'block', 'utils']
    i = 0
    while True:
        k = ks[i % len(ks)] if i < len(ks) else g.r.choice(ks)
        i += 1
        if k == 'block':
            alg = g.r.choice(B.ALGS)
            c = dict(alg=alg, key=g.bts(32), data=[g.bts(B.BS[alg]) for _ in range(3)])
        elif k == 'utils':
            c = dict(a=g.bts(g.r.randrange(1, 20)), b=g.bts(g.r.randrange(1, 20)))
        else:
            c = next(gens[k])
        if k == 'pbk':
            c['count'], c['dks'] = min(c['count'], 2), [min(x, 65) for x in c['dks']]
        c['flow'] = k
        yield c


def flow(c, E):
    k = c['flow']
    if k == 'modes':
        kw = {}
        if c['mode'] in ('ecb', 'cbc'):
            kw['pad_mode'] = 0x800000F0 if c['pad'] == 1 else 0x800000F1
        if c['mode'] != 'ecb' and c['iv'] is not None:
            kw['init_vect'] = E.arg(c['iv'])
        o = B.gostcipher.new(c['alg'], E.arg(c['key']), B.MODES[c['mode']], **kw)
        E.done('gostcipher.new')
        n = B.BS[c['alg']]
        for _, h in c['ops']:
            if c['op'] == 'dec' and c['mode'] in ('ecb', 'cbc'):
                h = h[:len(h) // (2 * n) * 2 * n]
            a = E.arg(h)
            E.done(c['op'], o.encrypt(a) if c['op'] == 'enc' else o.decrypt(a))
            if c['mode'] == 'ctr':
                E.done('counter', o.counter)
            elif c['mode'] != 'ecb':
                E.done('iv', o.iv)
    elif k == 'block':
        o = B.block_cls(c['alg'])(E.arg(c['key']))
        E.done('block cipher constructor')
        for i, h in enumerate(c['data']):
            a = E.arg(h)
            E.done('encrypt', o.encrypt(a))
            a = E.arg(h)
            E.done('decrypt', o.decrypt(a))
    elif k == 'mac':
        kw = {}
        if c['first'] is not None:
            kw['data'] = E.arg(c['first'][1])
        o = B.gostcipher.new(c['alg'], E.arg(c['key']), 255, **kw)
        E.done('gostcipher.new')
        for op in c['ops']:
            if op[0] == 'u':
                o.update(E.arg(op[2]))
                E.done('update')
            else:
                E.done('digest', o.digest(op[1]) if op[0] == 'd' else o.hexdigest(op[1]))
    elif k in ('hist', 'hmac'):
        kw = {}
        if c['first'] is not None:
            kw['data'] = E.arg(c['first'][1])
        if k == 'hmac':
            objs = [B.gosthmac.new('HMAC_GOSTR3411_2012_%d' % c['bits'], E.arg(c['key']), **kw)]
        else:
            objs = [B.gosthash.new('streebog%d' % c['bits'], **kw)]
        E.done('new')
        for op in c['ops']:
            o = objs[op[1]]
            if op[0] == 'u':
                o.update(E.arg(op[3]))
                E.done('update')
            elif op[0] == 'c':
                objs.append(o.copy())
            elif op[0] == 'r':
                o.reset()
            else:
                E.done('digest', o.digest() if op[0] == 'd' else o.hexdigest())
    elif k == 'pbk':
        o = B.gostpbkdf.new(E.arg(c['pw']), salt=E.arg(c['salt']), counter=c['count'])
        E.done('new')
        for dk in c['dks']:
            E.done('salt', o.salt)
            E.done('derive', o.derive(dk))
        E.done('salt', o.salt)
    elif k == 'rnd':
        o = B.gostrandom.new(c['size'], rand_k=E.arg(c['seed']), size_s=c['ss'])
        E.done('new')
        for op in c['ops']:
            if op[0] == 'reset':
                o.reset(E.arg(op[2]))
                E.done('reset')
            else:
                E.done('random', o.random())
    elif k == 'sign':
        o = B.sig_obj(c['curve'])
        args = [E.arg(c['d']), E.arg(c['digest'])]
        if c['k'] is not None:
            args.append(E.arg(c['k']))

        def go():
            try:
                return o.sign(*args)
            except B.gostsignature.GOSTSignatureError as x:
                return str(x)
        if c['k'] is None and not c['draws']:
            return
        E.done('sign', B.with_urandom([B.H(x) for x in c['draws']] + [b'\1' * len(B.H(c['d']))] * 3, go)[0])
        if int(c['d'], 16) % B.spec_curve(c['curve']).q:
            E.done('public_key_generate', o.public_key_generate(E.arg(c['d'])))
    elif k == 'verify':
        o = B.sig_obj(c['curve'])
        args = [E.arg(c['Q']), E.arg(c['digest']), E.arg(c['sig'])]
        try:
            r = o.verify(*args)
        except B.gostsignature.GOSTSignatureError as x:
            r = str(x)
        E.done('verify', r)
    elif k == 'utils':
        from gostcrypto import utils as u
        a, b = E.arg(c['a']), E.arg(c['b'])
        for nm in ('add_xor', 'compare'):
            f = getattr(u, nm, None)
            if f:
                E.done(nm, f(a, b))
                a, b = E.arg(c['a']), E.arg(c['b'])
        for nm in ('zero_fill', 'bytearray_to_int', 'msb', 'compare_to_zero'):
            f = getattr(u, nm, None)
            if f:
                a = E.arg(c['a'])
                E.done(nm, f(a))


def r_alias(c):
    before = consts()
    outs = []
    for attack in (False, True, False):
        E = Env(attack)
        try:
            flow(c, E)
        except Alias as x:
            return str(x)
        outs.append(E.out)
    for i in (1, 2):
        for (w, x), (_, y) in zip(outs[0], outs[i]):
            if x != y:
                return 'overwriting buffers after the call changed a later %s' % w
    after = consts()
    for k in before:
        if before[k] != after.get(k):
            return 'the call changed %s' % k
    return None


# ------------------------------------------------------------------ C20
def walk(o, reg, path='', seen=None):
    """every data value an object still holds, except the chaining register"""
    seen = set() if seen is None else seen
    if isinstance(o, (bytes, bytearray)):
        if reg is not None and (bytes(o) == reg or (len(reg) and len(o) >= len(reg) and bytes(o).endswith(reg))):
            return []
        return [(path, bytes(o))]
    if isinstance(o, (int, str, float, type(None))):
        return [(path, o)]
    if id(o) in seen:
        return []
    seen.add(id(o))
    if isinstance(o, (list, tuple)):
        return [x for i, v in enumerate(o) for x in walk(v, reg, '%s[%d]' % (path, i), seen)]
    if isinstance(o, dict):
        return [x for k, v in o.items() for x in walk(v, reg, '%s[%r]' % (path, k), seen)]
    if hasattr(o, '__dict__'):
        return [x for k, v in vars(o).items() for x in walk(v, reg, '%s.%s' % (path, k), seen)]
    return []


def g_clear(g):
    r = g.r
    ks = ['modes'] * 6 + ['mac'] * 3 + ['block'] * 2 + ['hmac'] * 2 + ['pbk', 'rnd', 'rnd']
    i = 0
    while True:
        k = ks[i] if i < len(ks) else r.choice(ks)
        i += 1
        alg = r.choice(B.ALGS)
        n = B.BS[alg]
        c = dict(flow=k, alg=alg, s=[[g.kind(), g.bts(32)], [g.kind(), g.bts(32)]], data=[g.bts(n * r.randrange(1, 4)) for _ in range(r.randrange(0, 3))],
                 post=[g.bts(n * 2 + r.choice((0, 1))), g.bts(n)])
        if k == 'modes':
            m = r.choice(('ecb', 'cbc', 'cfb', 'ofb', 'ctr'))
            c.update(mode=m, iv=None if m == 'ecb' else g.bts(n // 2 if m == 'ctr' else n * r.randrange(1, 4)), pad=r.choice((1, 2)), op=r.choice(('encrypt', 'decrypt')),
                     how=r.choice(('clear', 'clear', 'enc', 'dec')))
        elif k == 'mac':
            c.update(how=r.choice(('clear', 'upd')))
        elif k == 'hmac':
            ln = r.choice((0, 8, 32, 63, 64))
            c.update(bits=r.choice((256, 512)), s=[[g.kind(), g.bts(ln)], [g.kind(), g.bts(ln)]])
        elif k == 'pbk':
            c.update(s=[[g.kind(), g.bts(12)], [g.kind(), g.bts(12)]], salt=g.bts(8))
        elif k == 'rnd':
            ss = r.choice((32, 40, 48))
            c.update(ss=ss, s=[[g.kind(), g.bts(ss)], [g.kind(), g.bts(ss)]], size=r.choice((16, 64, 100)), n=r.randrange(0, 3))
        if k == 'pbk':
            c['n'] = r.randrange(0, 2)
        c['probe'] = r.randrange(2)
        yield c


def attempt(f):
    try:
        v = f()
        return bytes(v) if isinstance(v, bytearray) else v
    except Exception as x:
        return '%s: %s' % (type(x).__name__, x)


def r_clear(c):
    k = c['flow']
    objs = [None, None]
    secrets = [B.mk(*x) for x in c['s']]
    if k == 'rnd':
        secrets = [x if any(x) else x[:-1] + b'\1' for x in secrets]
    regs = [None, None]
    for i, s in enumerate(secrets):
        if k == 'modes':
            o = B.mode_new(dict(c, kk=0, key=B.hx(s), ik=i))
            for h in c['data']:
                getattr(o, c['op'])(B.H(h))
            attempt({'clear': o.clear, 'enc': lambda: o.encrypt(None), 'dec': lambda: o.decrypt(None)}[c['how']])
            if c['mode'] in ('cbc', 'cfb', 'ofb'):
                regs[i] = bytes(o.iv)
        elif k == 'block':
            o = B.block_cls(c['alg'])(s)
            for h in c['data']:
                o.encrypt(B.H(h)[:B.BS[c['alg']]])
            o.clear()
        elif k == 'mac':
            o = B.gostcipher.new(c['alg'], s, 255)
            for h in c['data']:
                o.update(B.H(h))
                if c['probe']:
                    o.digest(4)
            attempt({'clear': o.clear, 'upd': lambda: o.update(None)}[c['how']])
        elif k == 'hmac':
            o = B.gosthmac.new('HMAC_GOSTR3411_2012_%d' % c['bits'], s)
            for h in c['data']:
                o.update(B.H(h))
                if c['probe']:
                    o.digest()
            o.clear()
        elif k == 'pbk':
            o = B.gostpbkdf.new(s, salt=B.H(c['salt']), counter=2)
            for _ in range(c['n']):
                o.derive(20)
            o.clear()
        else:
            o = B.gostrandom.new(c['size'], rand_k=s, size_s=c['ss'])
            for _ in range(c['n']):
                o.random()
            o.clear()
        objs[i] = o
    long_reg = None
    if k == 'modes' and c['mode'] in ('cbc', 'cfb', 'ofb'):
        # the whole register, not only its newest block, is public chaining data
        n = B.BS[c['alg']]
        long_reg = len(c['iv']) // 2
    st = []
    for o, rg in zip(objs, regs):
        w = walk(o, rg)
        if long_reg:
            w = [(p, v) for p, v in w if not (isinstance(v, bytes) and len(v) == long_reg and v.endswith(rg))]
        st.append(w)
    if [p for p, _ in st[0]] != [p for p, _ in st[1]]:
        return 'after clear the objects still differ in shape'
    for (p, x), (_, y) in zip(*st):
        if x != y:
            return 'after clear %s still depends on the secret' % p
    if regs[0] != regs[1]:
        return None
    o1, o2 = objs
    posts = []
    for o in objs:
        r = []
        if k in ('modes', 'block'):
            n = B.BS[c['alg']]
            for h in c['post']:
                d = B.H(h)
                if k == 'block':
                    d = d[:n]
                r.append(attempt(lambda: o.encrypt(d)))
                if k == 'modes' and c['mode'] in ('ecb', 'cbc'):
                    d = d[:len(d) // n * n]
                r.append(attempt(lambda: o.decrypt(d)))
        elif k == 'mac':
            r.append(attempt(lambda: o.digest(8)))
            for h in c['post']:
                attempt(lambda: o.update(B.H(h)))
                r.append(attempt(lambda: o.digest(8)))
        elif k == 'hmac':
            r.append(attempt(o.digest))
            for h in c['post']:
                attempt(lambda: o.update(B.H(h)))
                r.append(attempt(o.digest))
            attempt(o.reset)
            r.append(attempt(o.digest))
        elif k == 'pbk':
            r.append(attempt(lambda: o.derive(70)))
        else:
            r.append(attempt(o.random))
        posts.append(r)
    if posts[0] != posts[1]:
        return 'an output after clear still depends on the secret: %s / %s' % tuple(str(x)[:150] for x in posts)
    return None


def install(mod):
    global B
    B = mod
    mod.TABLE['C18'] = (g_args, r_args)
    mod.TABLE['C19'] = (g_alias, r_alias)
    mod.TABLE['C20'] = (g_clear, r_clear)
