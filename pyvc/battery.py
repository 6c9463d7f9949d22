"""Concrete oracle: runs the real code of /repo against the specification functions.

Used for two things only: to *replay* counterexamples of failed obligations on the real
code (the case then becomes the violation's replay file), and as the bounded stand-in for
an obligation the verifier could not decide. It never counts as proof.

usage: battery.py PROP SEED SECONDS [HINTS.json]     -> JSON on stdout
       battery.py --replay FILE                      -> exit 1 and a message if it fails
The tree under test is $GOSTREPO (default /repo).
"""
import ast
import json
import os
import random
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('GOSTREPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
from spec import ref  # noqa: E402

import gostcrypto  # noqa: E402
from gostcrypto import gostcipher, gosthash, gosthmac, gostpbkdf, gostrandom, gostsignature, gostoid  # noqa: E402
from gostcrypto.gostcipher import gost_34_12_2015 as m12  # noqa: E402
from gostcrypto.gostsignature import gost_34_10_2012 as msig  # noqa: E402
from gostcrypto.gostrandom import r_1323565_1_006_2017 as mrnd  # noqa: E402
from gostcrypto.gostpbkdf import r_50_1_111_2016 as mpbk  # noqa: E402

KNOWN = set()
ALGS = ('kuznechik', 'magma')
BS = {'kuznechik': 16, 'magma': 8}
MODES = dict(ecb=1, cbc=2, cfb=3, ofb=5, ctr=6, mac=255)


class Hang(BaseException):
    pass


def hx(b):
    return bytes(b).hex()


def H(s):
    return bytes.fromhex(s)


def mk(kind, h):
    """argument buffer of the requested type"""
    return bytearray(H(h)) if kind else H(h)


def diff(what, got, want):
    try:
        g = got if isinstance(got, (str, bool, int, type(None))) else bytes(got)
    except Exception:
        return '%s: got %r' % (what, got)
    w = want if isinstance(want, (str, bool, int, type(None))) else bytes(want)
    if g != w:
        f = lambda v: v.hex() if isinstance(v, bytes) else repr(v)
        return '%s: got %s, the standard gives %s' % (what, f(g)[:400], f(w)[:400])
    return None


# ------------------------------------------------------------------ input generation
class Gen:
    def __init__(self, seed, hints=None):
        self.r = random.Random(seed)
        h = hints or {}
        self.lens = [n for n in h.get('lens', []) if 0 <= n <= 40000]
        self.ints = list(h.get('ints', []))
        self.bytes_ = list(h.get('bytes', []))
        self.i = 0

    def chance(self, p):
        return self.r.random() < p

    def bts(self, n):
        r = self.r
        k = r.randrange(8)
        if k == 0:
            b = bytes([r.choice((0, 255, 128, 1, 127, 254))]) * n
        elif k == 1:
            b = bytes(r.choice((0, 255, 128, 1, 127)) for _ in range(n))
        elif k == 2 and n:
            b = bytearray(n)
            b[r.randrange(n)] = 1 << r.randrange(8)
        elif k == 3 and n:
            c = r.randrange(n)
            b = bytes(r.randrange(256) for _ in range(c)) + b'\xff' * (n - c)
        elif k == 4 and n:
            c = r.randrange(n)
            b = bytes(r.randrange(256) for _ in range(c)) + bytes(n - c)
        else:
            b = bytes(r.randrange(256) for _ in range(n))
        b = bytearray(b)
        if n and self.bytes_ and self.chance(.3):
            b[r.choice((0, n - 1, r.randrange(n)))] = r.choice(self.bytes_)
        return hx(b)

    def ln(self, bs, big=6, zero=True):
        """message length, biased to block boundaries"""
        r = self.r
        if self.lens and self.chance(.25):
            n = r.choice(self.lens)
            n = r.choice((n, n, n + 1, max(n - 1, 0)))
            if n > 2000 and not self.chance(.1):
                n = n % (big * bs)
        else:
            n = bs * r.randrange(0, big) + r.choice((0, 0, 0, 1, bs - 1, bs // 2, r.randrange(bs)))
        return n if n or zero else r.choice((1, bs - 1, bs, bs + 1))

    def kind(self):
        return self.r.randrange(2)

    def chunks(self, bs, k=5):
        return [[self.kind(), self.bts(self.ln(bs, 4))] for _ in range(self.r.randrange(1, k))]


# ------------------------------------------------------------------ C01 / C02
def g_block(g, alg):
    n = BS[alg]
    while True:
        key, ek = g.bts(32), g.kind()
        k = g.r.randrange(10)
        if k == 0 and alg == 'magma':
            key = (g.bts(4) * 8)
        for _ in range(4):
            yield dict(alg=alg, key=key, kk=ek, block=g.bts(n), bk=g.kind(), op=g.r.choice(('enc', 'dec', 'rt')))


def block_cls(alg):
    return m12.GOST34122015Kuznechik if alg == 'kuznechik' else m12.GOST34122015Magma


def r_block(c):
    o = block_cls(c['alg'])(mk(c['kk'], c['key']))
    s = ref.Cipher(c['alg'], H(c['key']))
    b = list(H(c['block']))
    if c['op'] == 'enc':
        return diff('encrypt', o.encrypt(mk(c['bk'], c['block'])), s.enc(b))
    if c['op'] == 'dec':
        return diff('decrypt', o.decrypt(mk(c['bk'], c['block'])), s.dec(b))
    return diff('decrypt(encrypt)', o.decrypt(o.encrypt(mk(c['bk'], c['block']))), b)


# ------------------------------------------------------------------ C03 .. C06 modes
def g_modes(g, modes, both=False):
    while True:
        alg = g.r.choice(ALGS)
        n = BS[alg]
        mode = g.r.choice(modes)
        z = g.r.choice((1, 1, 2, 2, 3, 4, 5, 7))
        if g.lens and g.chance(.1):
            z = max(1, g.r.choice(g.lens) % 40)
        c = dict(alg=alg, mode=mode, key=g.bts(32), kk=g.kind(), ik=g.kind(), pad=g.r.choice((1, 2)))
        c['iv'] = g.bts(n // 2) if mode == 'ctr' else g.bts(n * z)
        if g.chance(.05):
            c['iv'] = None
        d = []
        for _ in range(g.r.randrange(1, 4)):
            ln = g.ln(n, 8)
            if mode in ('ecb', 'cbc') and ln == 0:
                ln = n
            d.append([g.kind(), g.bts(ln)])
        if mode in ('cfb', 'ofb'):
            for x in d[:-1]:
                x[1] = x[1][:len(x[1]) // (2 * n) * 2 * n]
        c['ops'] = d
        c['op'] = g.r.choice(('enc', 'dec'))
        if mode == 'ctr' and g.chance(.6):
            # arbitrary reachable counter (state injection; see r_modes)
            c['ctr'] = hx(bytes(g.r.choice((255, 255, 255, 254, 0, g.r.randrange(256))) for _ in range(n)))
        yield c


DEF_IV = {('ctr', 'kuznechik'): '1234567890abcef0', ('ctr', 'magma'): '12345678',
          ('cbc', 'magma'): '1234567890abcdef234567890abcdef134567890abcdef12'}


def def_iv(mode, alg):
    if (mode, alg) in DEF_IV:
        return DEF_IV[(mode, alg)]
    return ('1234567890abcef0a1b2c3d4e5f0011223344556677889901213141516171819' if alg == 'kuznechik'
            else '1234567890abcdef234567890abcdef1')


def mode_new(c):
    kw = {}
    if c['mode'] in ('ecb', 'cbc'):
        kw['pad_mode'] = gostcipher.PAD_MODE_1 if c['pad'] == 1 else gostcipher.PAD_MODE_2
    if c['mode'] != 'ecb' and c['iv'] is not None:
        kw['init_vect'] = mk(c['ik'], c['iv'])
    return gostcipher.new(c['alg'], mk(c['kk'], c['key']), MODES[c['mode']], **kw)


class SpecMode:
    def __init__(self, c):
        self.c = ref.Cipher(c['alg'], H(c['key']))
        self.n, self.mode, self.pad = self.c.bs, c['mode'], (ref.PAD1 if c['pad'] == 1 else ref.PAD2)
        iv = H(c['iv'] if c['iv'] is not None else def_iv(c['mode'], c['alg'])) if self.mode != 'ecb' else b''
        self.reg = list(iv) + ([0] * (self.n // 2) if self.mode == 'ctr' else [])

    def padded(self, d):
        return ref.pad(d, self.n, self.pad)

    def known_pad(self, d):
        """known finding: procedure 2 appends one more zero block to a ragged message"""
        return self.padded(d) + [0] * self.n if self.pad == ref.PAD2 and len(d) % self.n else None

    def enc(self, d, padded=None):
        m, c = self.mode, self.c
        d = list(d)
        if m == 'ecb':
            return ref.ecb_enc(c, padded or self.padded(d))
        if m == 'cbc':
            out, self.reg = ref.cbc_enc(c, self.reg, padded or self.padded(d))
            return out
        f = dict(cfb=ref.cfb_enc, ofb=ref.ofb, ctr=ref.ctr)[m]
        out, self.reg = f(c, self.reg, d)
        return out

    def dec(self, d):
        m, c = self.mode, self.c
        if m == 'ecb':
            return ref.ecb_dec(c, d)
        f = dict(cbc=ref.cbc_dec, cfb=ref.cfb_dec, ofb=ref.ofb, ctr=ref.ctr)[m]
        out, self.reg = f(c, self.reg, d)
        return out


def inject_ctr(o, h):
    """put the counter into a reachable state without running 2^k blocks"""
    v = getattr(o, '_counter', None)
    if isinstance(v, bytearray) and len(v) == len(h) // 2:
        o._counter = bytearray(H(h))
        return bytes(o.counter) == H(h)
    return False


def r_modes(c):
    o, s = mode_new(c), SpecMode(c)
    if c.get('ctr') and inject_ctr(o, c['ctr']):
        s.reg = list(H(c['ctr']))
    for i, (k, h) in enumerate(c['ops']):
        d = H(h)
        if c['op'] == 'enc':
            reg = list(s.reg)
            want = s.enc(d)
            got = o.encrypt(mk(k, h))
            kp = s.known_pad(d) if c['mode'] in ('ecb', 'cbc') else None
            if kp is not None and bytes(got) != bytes(want):
                s.reg = reg
                want2 = s.enc(d, kp)
                if bytes(got) == bytes(want2):
                    KNOWN.add('pad2-ragged-extra-block')
                    want = want2
            e = diff('%s encrypt call %d (%d bytes)' % (c['mode'], i + 1, len(d)), got, want)
        else:
            if c['mode'] in ('ecb', 'cbc'):
                h = h[:len(h) // (2 * s.n) * 2 * s.n]
                d = H(h)
            e = diff('%s decrypt call %d (%d bytes)' % (c['mode'], i + 1, len(d)), o.decrypt(mk(k, h)), s.dec(d))
        if e:
            return e
        if c['mode'] == 'ctr':
            e = diff('counter after call %d' % (i + 1), o.counter, s.reg)
        elif c['mode'] in ('cbc', 'cfb', 'ofb'):
            e = diff('iv after call %d' % (i + 1), o.iv, s.reg[-s.n:])
        if e:
            return e
    return None


def g_rt(g):
    for c in g_modes(g, ('ecb', 'cbc', 'cfb', 'ofb', 'ctr')):
        n = BS[c['alg']]
        for x in c['ops'][:-1]:
            x[1] = x[1][:len(x[1]) // (2 * n) * 2 * n]
        c['split'] = g.r.randrange(5)
        yield c


def r_rt(c):
    """encrypt on one object, decrypt on a fresh one, pieces regrouped differently"""
    n = BS[c['alg']]
    o = mode_new(c)
    cts, plain = [], b''
    last = None
    for k, h in c['ops']:
        if h or c['mode'] not in ('ecb', 'cbc'):
            if c['mode'] in ('ecb', 'cbc') and c['pad'] == 2 and h != c['ops'][-1][1]:
                continue
            cts.append(bytes(o.encrypt(mk(k, h))))
            plain += H(h)
            last = H(h)
    o2 = mode_new(c)
    ct = b''.join(cts)
    if c['split'] == 0 and len(ct) >= 2 * n:
        pieces = [ct[:n], ct[n:]]
    elif c['split'] == 1 and len(ct) >= 3 * n:
        pieces = [ct[:2 * n], ct[2 * n:]]
    elif c['split'] == 2:
        pieces = [ct]
    elif c['split'] == 3:
        pieces = [ct[i:i + n] for i in range(0, len(ct), n)]
    else:
        pieces = cts
    got = b''.join(bytes(o2.decrypt(mk(c['kk'], hx(p)))) for p in pieces)
    if c['mode'] in ('ecb', 'cbc'):
        want = bytes(ref.pad(plain, n, ref.PAD1 if c['pad'] == 1 else ref.PAD2))
        if got != want and c['pad'] == 2 and len(plain) % n and got == want + bytes(n):
            KNOWN.add('pad2-ragged-extra-block')
            want = got
    else:
        want = plain
    return diff('%s round trip' % c['mode'], got, want)


# ------------------------------------------------------------------ C07 MAC
def g_mac(g):
    while True:
        alg = g.r.choice(ALGS)
        n = BS[alg]
        ops = []
        for _ in range(g.r.randrange(1, 6)):
            if g.chance(.7):
                ops.append(['u', g.kind(), g.bts(g.ln(n, 4))])
            else:
                ops.append([g.r.choice('dh'), g.r.randrange(1, n + 1)])
        ops.append(['d', g.r.randrange(1, n + 1)])
        yield dict(alg=alg, key=g.bts(32), kk=g.kind(), first=g.r.choice((None, [g.kind(), g.bts(g.ln(n, 4))])), ops=ops)


def r_mac(c):
    s = ref.Cipher(c['alg'], H(c['key']))
    kw, data = {}, b''
    if c['first'] is not None:
        kw['data'] = mk(*c['first'])
        data = H(c['first'][1])
    o = gostcipher.new(c['alg'], mk(c['kk'], c['key']), 255, **kw)
    for op in c['ops']:
        if op[0] == 'u':
            o.update(mk(op[1], op[2]))
            data += H(op[2])
        else:
            want = bytes(ref.mac(s, data, op[1]))
            if op[0] == 'd':
                e = diff('MAC of %d bytes, size %d' % (len(data), op[1]), o.digest(op[1]), want)
            else:
                e = diff('hex MAC', o.hexdigest(op[1]), want.hex())
            if e:
                return e
    return None


# ------------------------------------------------------------------ C08 / C09 hash
def g_hash(g):
    for n in list(range(0, 66)) + [127, 128, 129, 191, 192, 255, 256, 257, 300, 512]:
        yield dict(bits=g.r.choice((256, 512)), data=g.bts(n), k=g.kind())
    once = [64 * 130 + 3]
    while True:
        if once and g.chance(.02):
            n = once.pop()
        else:
            n = g.ln(64, 6)
        d = g.bts(n)
        if g.chance(.3):          # force long carries in the checksum
            d = hx(bytes(g.r.choice((0, 255, 255, 255)) for _ in range(n)))
        if g.chance(.15) and n >= 128:
            b0 = H(d)[:64]
            v = (-int.from_bytes(b0, 'little')) % (1 << 512)
            d = hx(b0 + v.to_bytes(64, 'little') + H(d)[128:])
        yield dict(bits=g.r.choice((256, 512)), data=d, k=g.kind())


def r_hash(c):
    o = gosthash.new('streebog%d' % c['bits'], data=mk(c['k'], c['data']))
    e = diff('streebog%d of %d bytes' % (c['bits'], len(c['data']) // 2), o.digest(),
             ref.streebog(H(c['data']), c['bits']))
    if e is None and (o.digest_size, o.block_size, o.name) != (c['bits'] // 8, 64, 'streebog%d' % c['bits']):
        e = 'digest_size/block_size/name wrong'
    return e


def g_hist(g, hmac=False):
    while True:
        ops, nobj = [], 1
        for _ in range(g.r.randrange(2, 9)):
            k = g.r.randrange(10)
            i = g.r.randrange(nobj)
            if k < 6:
                ln = g.r.choice((0, 1, 31, 32, 33, 63, 64, 65, 96, 127, 128, g.ln(64, 3)))
                ops.append(['u', i, g.kind(), g.bts(ln)])
            elif k < 8:
                ops.append([g.r.choice('dh'), i])
            elif k == 8 and nobj < 3:
                ops.append(['c', i])
                nobj += 1
            else:
                ops.append(['r', i])
        ops += [['d', i] for i in range(nobj)]
        c = dict(bits=g.r.choice((256, 512)), first=g.r.choice((None, [g.kind(), g.bts(g.ln(64, 3))])), ops=ops)
        if hmac:
            kl = g.r.choice((0, 1, 16, 31, 32, 33, 63, 64, 64, g.r.randrange(65)))
            c.update(key=g.bts(kl), kk=g.kind())
        yield c


def r_hist(c):
    hm = 'key' in c
    if hm:
        new = lambda **kw: gosthmac.new('HMAC_GOSTR3411_2012_%d' % c['bits'], mk(c['kk'], c['key']), **kw)
        spec = lambda d: bytes(ref.hmac(H(c['key']), d, c['bits']))
    else:
        new = lambda **kw: gosthash.new('streebog%d' % c['bits'], **kw)
        spec = lambda d: bytes(ref.streebog(d, c['bits']))
    objs = [new(**({} if c['first'] is None else {'data': mk(*c['first'])}))]
    msgs = [b'' if c['first'] is None else H(c['first'][1])]
    for j, op in enumerate(c['ops']):
        i = op[1]
        if op[0] == 'u':
            objs[i].update(mk(op[2], op[3]))
            msgs[i] += H(op[3])
        elif op[0] == 'c':
            objs.append(objs[i].copy())
            msgs.append(msgs[i])
        elif op[0] == 'r':
            objs[i].reset()
            msgs[i] = b''
        else:
            w = spec(msgs[i])
            e = diff('digest at step %d' % j, objs[i].digest(), w) if op[0] == 'd' else \
                diff('hexdigest at step %d' % j, objs[i].hexdigest(), w.hex())
            if e:
                return e
    return None


# ------------------------------------------------------------------ C11 PBKDF2
def g_pbk(g):
    for cnt, dk in ((1, 64), (2, 64), (3, 100), (1, 129), (5, 20)):
        yield dict(pw=g.bts(8), pk=1, salt=g.bts(8), sk=1, count=cnt, dks=[dk])
    while True:
        cnt = g.r.choice((1, 1, 2, 2, 3, 4, 7))
        if g.lens and g.chance(.15):
            cnt = max(1, g.r.choice(g.lens) % 60)
        dks = [g.r.choice((0, 1, 32, 63, 64, 65, 100, 127, 128, 129, 192, 200)) for _ in range(g.r.randrange(1, 3))]
        if g.lens and g.chance(.1):
            dks = [g.r.choice(g.lens) % 700]
        if cnt > 4:
            dks = dks[:1]
        if g.chance(.02):
            cnt, dks = 1, [64 * 257 + 3]
        yield dict(pw=g.bts(g.r.choice((0, 1, 8, 63, 64, g.r.randrange(65)))), pk=g.kind(),
                   salt=g.bts(g.r.choice((1, 8, 16, 32, 60, 64, 100))), sk=g.kind(), count=cnt, dks=dks)


def r_pbk(c):
    o = gostpbkdf.new(mk(c['pk'], c['pw']), salt=mk(c['sk'], c['salt']), counter=c['count'])
    for i, dk in enumerate(c['dks']):
        w = bytes(ref.pbkdf2(H(c['pw']), H(c['salt']), c['count'], dk))
        e = diff('derive(%d) #%d' % (dk, i + 1), o.derive(dk), w) if (i + dk) % 2 == 0 else \
            diff('hexderive(%d) #%d' % (dk, i + 1), o.hexderive(dk), w.hex())
        if e:
            return e
    return diff('salt', o.salt, H(c['salt']))


# ------------------------------------------------------------------ C12 PRNG
def g_rnd(g):
    while True:
        ss = g.r.choice((32, 40, 48))
        seed = g.bts(ss)
        if not int(seed, 16):
            seed = '01' + seed[2:]
        size = g.r.choice((0, 1, 16, 32, 63, 64, 65, 100, 128, 129, 200))
        if g.lens and g.chance(.1):
            size = g.r.choice(g.lens) % 1500
        ops = []
        for _ in range(g.r.randrange(1, 4)):
            if g.chance(.2):
                s2 = g.bts(ss)
                ops.append(['reset', g.kind(), s2 if int(s2, 16) else 'ff' + s2[2:]])
            ops.append(['rand'])
        c = dict(ss=ss, seed=seed, sk=g.kind(), size=size, ops=ops)
        if g.chance(.5):
            c['ctr'] = hx(bytes(g.r.choice((255, 255, 255, 254, 0)) for _ in range(63 - ss)))
            if c['ctr'].strip('f') == '':      # keep the counter below its own overflow
                c['ctr'] = '00' + c['ctr'][2:]
        yield c


def r_rnd(c):
    o = gostrandom.new(c['size'], rand_k=mk(c['sk'], c['seed']), size_s=c['ss'])
    s = ref.Prng(H(c['seed']))
    if c.get('ctr'):
        v = getattr(o, '_rand_u', None)
        if isinstance(v, bytearray) and bytes(v) == H(c['seed']) + bytes(63 - c['ss']):
            o._rand_u = bytearray(H(c['seed'] + c['ctr']))
            s.u = int(c['seed'] + c['ctr'], 16)
    for i, op in enumerate(c['ops']):
        if op[0] == 'reset':
            o.reset(mk(op[1], op[2]))
            s = ref.Prng(H(op[2]))
        else:
            e = diff('random() op %d' % i, o.random(), s.random(c['size']))
            if e:
                return e
    return None


# ------------------------------------------------------------------ C13 .. C15 signature
TESTC = {
    'test256': dict(p=0x8000000000000000000000000000000000000000000000000000000000000431, a=7,
                    b=0x5fbff498aa938ce739b8e022fbafef40563f6e6a3472fc2a514c0ce9dae23b7e,
                    m=0x8000000000000000000000000000000150fe8a1892976154c59cfc193accf5b3,
                    q=0x8000000000000000000000000000000150fe8a1892976154c59cfc193accf5b3, x=2,
                    y=0x08e2a8a0e65147d4bd6316030e16d19c85c97f0a9ca267122b96abbcea7e8fc8)}
# Weierstrass image of the Edwards set, to exercise the canonical representation of it
for _n in ('id-tc26-gost-3410-2012-256-paramSetA',):
    _d = ref.CURVES[_n]
    _a, _b, _x, _y = ref.edwards(_d)
    TESTC['w256A'] = dict(p=_d['p'], a=_a, b=_b, m=_d['m'], q=_d['q'], x=_x, y=_y)
CN = list(ref.CURVES) + list(TESTC)
_cache = {}


def curve(n):
    return ref.CURVES.get(n) or TESTC[n]


def spec_curve(n):
    if n not in _cache:
        _cache[n] = ref.Curve(curve(n))
    return _cache[n]


def sig_obj(n):
    d = dict(curve(n))
    built = getattr(msig, 'CURVES_R_1323565_1_024_2019', {})
    if n in built:
        d = built[n]
    return gostsignature.new(gostsignature.MODE_256 if spec_curve(n).size == 32 else gostsignature.MODE_512, d)


def scalar(g, C):
    r, q = g.r, C.q
    k = r.randrange(12)
    if k == 0:
        return r.choice((1, 2, 3, 4, 5))
    if k == 1:
        return q - r.choice((1, 2, 3, 4))
    if k == 2:
        return 1 << r.randrange(q.bit_length() - 1)
    if k == 3:
        return (1 << r.randrange(1, q.bit_length() - 1)) - 1
    if k == 4:
        return (q + r.choice((1, -1))) // 2
    if k == 5 and g.ints:
        return r.choice(g.ints) % q or 1
    if k == 6:
        return int.from_bytes(H(g.bts(C.size)), 'big') % q or 1
    return r.randrange(1, q)


def pick_curve(g):
    n = g.r.choice(CN)
    if '512' in n and g.chance(.5):
        n = g.r.choice(CN)
    return n


def g_digest(g, C):
    k = g.r.randrange(10)
    n = C.size
    if k == 0:
        return bytes(n).hex()
    if k == 1:
        return hx((C.q * g.r.choice((1, 1, (256 ** n - 1) // C.q))).to_bytes(n, 'big'))
    if k == 2:
        return hx(((C.q + g.r.choice((1, -1, 2))) % 256 ** n).to_bytes(n, 'big'))
    return g.bts(n)


def with_urandom(vals, f):
    """run f with os.urandom replaced by a stub that records; returns (result, calls)"""
    calls = []
    old = os.urandom
    it = iter(vals)

    def stub(n):
        calls.append(n)
        try:
            v = next(it)
        except StopIteration:
            v = old(n)
        return v[:n] if len(v) >= n else v
    mods = [m for m in (os, msig, mrnd, mpbk) if hasattr(m, 'urandom')]
    saved = [(m, m.urandom) for m in mods]
    for m in mods:
        m.urandom = stub
    try:
        return f(), calls
    finally:
        for m, v in saved:
            m.urandom = v


def g_sign(g):
    while True:
        n = pick_curve(g)
        C = spec_curve(n)
        sz, q = C.size, C.q
        d = scalar(g, C)
        k = scalar(g, C)
        c = dict(curve=n, d=hx(d.to_bytes(sz, 'big')), digest=g_digest(g, C), ks=[g.kind(), g.kind(), g.kind()], draws=[])
        kind = g.r.randrange(10)
        e = C.e(H(c['digest']))
        if kind == 0:                                     # s == 0 : d = -k e / r
            r = C.mul(k)[0] % q
            if r:
                d = -k * e * pow(r, -1, q) % q
                c['d'] = hx(d.to_bytes(sz, 'big'))
        elif kind == 1 and n.endswith('256-paramSetD'):   # r == 0 : base point with x == 0
            k = g.r.choice((1, q - 1))
        elif kind == 2:
            k = g.r.choice((0, q, q + 1, (1 << (8 * sz)) - 1))
        elif kind == 3:
            # private key equal to q or with a degenerate residue
            c['d'] = hx(g.r.choice((0, q, min(q + 5, 256 ** sz - 1))).to_bytes(sz, 'big'))
        elif kind in (4, 5):
            k = None
            seq = []
            for _ in range(g.r.randrange(0, 3)):
                seq.append(g.r.choice((0, q, q + 1, 256 ** sz - 1)))
            seq.append(scalar(g, C))
            c['draws'] = [hx((x % 256 ** sz).to_bytes(sz, 'big')) for x in seq]
        if kind in (0, 1):
            c['draws'] = [hx(scalar(g, C).to_bytes(sz, 'big')) for _ in range(3)]
        c['k'] = None if k is None else hx(k.to_bytes(max(sz, (k.bit_length() + 7) // 8), 'big'))
        if c['k'] and g.chance(.1):                       # the random value may have any length
            c['k'] = c['k'].lstrip('0') or '00'
            c['k'] = '0' * (len(c['k']) % 2) + c['k']
        yield c


def r_sign(c):
    C = spec_curve(c['curve'])
    o = sig_obj(c['curve'])
    q, sz = C.q, C.size
    d, e = int(c['d'], 16), C.e(H(c['digest']))
    args = [mk(c['ks'][0], c['d']), mk(c['ks'][1], c['digest'])]
    if c['k'] is not None:
        args.append(mk(c['ks'][2], c['k']))

    def go():
        try:
            return o.sign(*args)
        except gostsignature.GOSTSignatureError as x:
            return str(x)
    got, calls = with_urandom([H(x) for x in c['draws']], go)
    if d % q == 0:
        return None if isinstance(got, str) and 'invalid private key' in got else 'private key 0 mod q not refused: %r' % (got,)
    ks = [] if c['k'] is None else [int(c['k'], 16)]
    if ks and not 0 < ks[0] < q:
        return None if isinstance(got, str) and 'invalid random value' in got else 'bad k accepted: %r' % (got,)
    ks += [v for v in (int(x, 16) for x in c['draws']) if 0 < v < q]
    for k in ks:
        r, s = C.sign_k(d, e, k)
        if r and s:
            break
    else:
        if isinstance(got, str) or len(got) != 2 * sz:
            return 'no signature: %r' % (got,)
        r, s = int.from_bytes(got[:sz], 'big'), int.from_bytes(got[sz:], 'big')
        ok = 0 < r < q and 0 < s < q and C.verify(C.mul(d), H(c['digest']), bytes(got))
        return None if ok else 'returned signature is not valid: %s' % hx(got)
    e = diff('signature', got, r.to_bytes(sz, 'big') + s.to_bytes(sz, 'big'))
    if e is None and any(n != sz for n in calls):
        e = 'random source asked for %r bytes' % calls
    return e


def g_verify(g):
    while True:
        n = pick_curve(g)
        C = spec_curve(n)
        sz, q, p = C.size, C.q, C.p
        d, k = scalar(g, C), scalar(g, C)
        if k == 0:
            k = 1
        dig = g_digest(g, C)
        e = C.e(H(dig))
        r, s = C.sign_k(d, e, k)
        Q = C.mul(d)
        kind = g.r.randrange(16)
        if kind < 4:
            pass
        elif kind == 4:
            s = (s + g.r.choice((1, -1, 1 << g.r.randrange(sz * 8 - 2)))) % q
        elif kind == 5:
            r = (r + g.r.choice((1, -1, 1 << g.r.randrange(sz * 8 - 2)))) % q
        elif kind == 6:
            r, s = g.r.choice(((0, s), (r, 0), (0, 0), (q, s), (r, q), ((r + q) % 256 ** sz, s), (r, (s + q) % 256 ** sz),
                               (256 ** sz - 1, s), (r, 256 ** sz - 1)))
        elif kind == 7:
            s = q - s if s else s
        elif kind == 8:                  # wrong key
            Q = C.mul(scalar(g, C))
        elif kind == 9:                  # point off the curve
            Q = g.r.choice(((0, 0), (Q[0], (Q[1] + 1) % p), ((Q[0] + 1) % p, Q[1]), (0, Q[1]), (Q[0], 0), (1, 1)))
        elif kind == 10:                 # coordinates not reduced
            if Q[0] + p < 256 ** sz:
                Q = (Q[0] + p, Q[1])
        elif kind == 11:                 # all-zero key, signature of d = 1
            r, s = C.sign_k(1, e, k)
            Q = g.r.choice(((0, 0), (0, C.P[1]), (C.P[0], 0)))
        elif kind == 12:                 # wrong digest
            dig = hx((int(dig, 16) ^ (1 << g.r.randrange(sz * 8))).to_bytes(sz, 'big'))
        elif kind in (13, 14):           # z1 P = -z2 Q (point at infinity) and z1 P = z2 Q (doubling)
            # z1 = s v, z2 = -r v ; s = +-r d
            z1 = scalar(g, C)
            x1 = C.mul(z1)[0]
            if kind == 13:
                r = (-2 * x1 % p) % q or 1
                s = r * d % q
                e = r * d * pow(z1, -1, q) % q or 1
                dig = hx(e.to_bytes(sz, 'big'))
            else:
                r = C.mul(2 * z1 % q)[0] % q or 1
                s = -r * d % q
                e = s * pow(z1, -1, q) % q or 1
                dig = hx(e.to_bytes(sz, 'big'))
        elif kind == 15 and n.endswith('256-paramSetD'):
            # key whose x coordinate is zero
            d = g.r.choice((1, q - 1))
            Q = C.mul(d)
            r, s = C.sign_k(d, e, k)
        yield dict(curve=n, Q=hx(Q[0].to_bytes(sz, 'big') + Q[1].to_bytes(sz, 'big')), digest=dig,
                   sig=hx(r.to_bytes(sz, 'big') + s.to_bytes(sz, 'big')), ks=[g.kind(), g.kind(), g.kind()])


def r_verify(c):
    C = spec_curve(c['curve'])
    sz = C.size
    o = sig_obj(c['curve'])
    Q = (int(c['Q'][:2 * sz], 16), int(c['Q'][2 * sz:], 16))
    try:
        got = o.verify(mk(c['ks'][0], c['Q']), mk(c['ks'][1], c['digest']), mk(c['ks'][2], c['sig']))
    except gostsignature.GOSTSignatureError as x:
        got = str(x)
    if Q[0] >= C.p or Q[1] >= C.p or not C.on(Q):
        return None if isinstance(got, str) and 'invalid public key' in got else 'a key that is not a curve point gave %r' % (got,)
    return diff('verify', got, C.verify(Q, H(c['digest']), H(c['sig'])))


def g_pub(g):
    for n in CN:
        C = spec_curve(n)
        yield dict(curve=n, d=hx((1).to_bytes(C.size, 'big')), k=0)
    while True:
        n = pick_curve(g)
        C = spec_curve(n)
        sz, q = C.size, C.q
        d = scalar(g, C)
        k = g.r.randrange(12)
        if k == 0:
            d = g.r.choice((0, q))
        elif k == 1:
            d = min(q + g.r.choice((1, 2, 3, 1 << (q.bit_length() - 2), 1 << q.bit_length())), 256 ** sz - 1)
        elif k == 2:
            d = int(g.bts(sz), 16)
        yield dict(curve=n, d=hx((d % 256 ** sz).to_bytes(sz, 'big')), k=g.kind())


def r_pub(c):
    C = spec_curve(c['curve'])
    o = sig_obj(c['curve'])
    d = int(c['d'], 16)
    try:
        got = o.public_key_generate(mk(c['k'], c['d']))
    except gostsignature.GOSTSignatureError as x:
        return None if d % C.q == 0 and 'invalid private key' in str(x) else 'refused d: %s' % x
    if d % C.q == 0:
        return 'private key 0 mod q accepted'
    Q = C.mul(d)
    return diff('public key', got, Q[0].to_bytes(C.size, 'big') + Q[1].to_bytes(C.size, 'big'))


# ------------------------------------------------------------------ C16 curves
def g_curve(g):
    for n in ref.CURVES:
        yield dict(kind='builtin', name=n)
    for n in CN:
        yield dict(kind='accept', size=spec_curve(n).size, d={k: hex(v) for k, v in curve(n).items()})
    while True:
        n = g.r.choice(CN)
        C = spec_curve(n)
        d = dict(curve(n))
        size = C.size
        k = g.r.randrange(12)
        if k == 0:
            d['m'] = d['p']
        elif k == 1:
            f = g.r.choice([x for x in 'abxyeduv' if x in d])
            d[f] = (d[f] + g.r.choice((1, -1, 1 << g.r.randrange(200)))) % d['p']
        elif k == 2:     # q with p^i = 1 (mod q), i at the edges of the required range
            i = g.r.choice((1, 2, 30, 31, 32, 33, 130, 131, 132, g.r.randrange(1, 140)))
            bits = 8 * size - g.r.randrange(2)
            while True:         # a prime q with q = 1 (mod i), then p of order i modulo q
                q = i * g.r.getrandbits(bits - i.bit_length()) + 1
                if q % 2 and q.bit_length() > bits - 2 and pow(2, q - 1, q) == 1 and pow(3, q - 1, q) == 1:
                    break
            while True:
                w = pow(g.r.randrange(2, q), (q - 1) // i, q)
                if all(pow(w, j, q) != 1 for j in range(1, i)):
                    break
            w += q * (w <= 3)
            x, y, a = (g.r.randrange(w) for _ in range(3))
            d = dict(p=w, m=q, q=q, a=a, b=(y * y - x ** 3 - a * x) % w, x=x, y=y)
        elif k == 3:
            lo = 1 << (254 if size == 32 else 508)
            d['q'] = g.r.choice((lo, lo - 1, lo + 1, (1 << 8 * size), (1 << 8 * size) + 1, (1 << 8 * size) - 1, 7, 1, 0, -5, -d['q'], 1 << 64))
        elif k == 4:
            size = 96 - size
        elif k == 5:
            d['x'], d['y'] = C.P
            if 'a' not in d:
                d.update(a=C.a, b=C.b)
            if g.chance(.5):
                d['y'] = d['p'] - d['y']
        elif k == 6:
            d.pop(g.r.choice(list(d)))
            if d.get('p') is None:
                continue
        elif k == 7:
            d = dict(p=d['p'], m=d['m'], q=g.r.choice((d['p'] - 1, d['p'] + 1)), a=C.a, b=C.b, x=C.P[0], y=C.P[1])
        elif k == 8 and 'e' in d:
            s = ref.ec_mul(g.r.randrange(2, 9), C.P, C.a, C.p)
            d = dict(p=d['p'], m=d['m'], q=d['q'], a=C.a, b=C.b, x=s[0], y=s[1], e=g.r.choice((0, 5)), d=7)
        yield dict(kind='accept', size=size, d={k: hex(v) for k, v in d.items()})


def r_curve(c):
    if c['kind'] == 'builtin':
        built = msig.CURVES_R_1323565_1_024_2019
        if c['name'] not in built:
            return 'missing parameter set ' + c['name']
        a, b = built[c['name']], ref.CURVES[c['name']]
        if dict(a) != b:
            return 'parameter set %s differs from the published one' % c['name']
        o = sig_obj(c['name'])
        C = spec_curve(c['name'])
        n = C.size
        pk = o.public_key_generate(bytes(n - 1) + b'\x01')
        return diff('base point', pk, C.P[0].to_bytes(n, 'big') + C.P[1].to_bytes(n, 'big'))
    d = {k: int(v, 16) for k, v in c['d'].items()}
    for k, v in (('p', 1), ('q', 1), ('m', 1)):
        d.setdefault(k, v)
    try:
        want = ref.curve_ok(d, c['size'])
    except ValueError:
        return None                      # singular Edwards data: outside the property
    try:
        o = gostsignature.new(1 if c['size'] == 32 else 2, {k: int(v, 16) for k, v in c['d'].items()})
        got = True
    except gostsignature.GOSTSignatureError as x:
        got = False
        if 'invalid parameters of the elliptic curve' not in str(x):
            return 'wrong message %s' % x
    if got != want:
        return 'curve %s but the standard says %s' % ('accepted' if got else 'refused', 'acceptable' if want else 'not acceptable')
    if got and d.get('q', 0) in (spec_curve(n).q for n in CN):
        q = d['q']
        C = ref.Curve(d)
        if ref.ec_mul(q, C.P, C.a, C.p) is None:
            n = c['size']
            k = 3
            Q = C.mul(k)
            return diff('3P', o.public_key_generate(k.to_bytes(n, 'big')), Q[0].to_bytes(n, 'big') + Q[1].to_bytes(n, 'big'))
    return None


# ------------------------------------------------------------------ C17 OID
def g_oid(g):
    for n in list(ref.OID_NAMES):
        yield dict(oid=n)
    for v in (0, 39, 40, 47, 48, 127, 128, 16383, 16384, 2 ** 21 - 1, 2 ** 21, 2 ** 28, 113549, 2 ** 64, 2 ** 200, 2 ** 70 - 1):
        for a in (0, 1, 2, 3):
            yield dict(oid='%d.%d' % (a, v))
        yield dict(oid='1.2.%d' % v)
        yield dict(oid='2.5.%d.1' % v)
    for s in ('', '1', '2', '-1.2', '1.-2', '1.2.-3', '2.-5', '2.-81', '1..2', 'a.b', '1.2.x', '.', '1.', '.1', '3.1', '1.40', '0.40', '0.39', '1.39', '2.999', '1.2 .3x'):
        yield dict(oid=s)
    for n in (1, 119, 120, 121, 126, 127, 128, 129, 254, 255, 256, 257, 300, 70000):
        yield dict(oid='1.2' + '.5' * n)
    while True:
        k = g.r.randrange(2, 9)
        a = [g.r.randrange(3)]
        a.append(g.r.randrange(40) if a[0] < 2 else g.r.getrandbits(g.r.randrange(1, 60)))
        for _ in range(k - 2):
            v = g.r.getrandbits(g.r.randrange(1, 80))
            if g.chance(.3):
                v = (1 << g.r.randrange(0, 90)) + g.r.choice((0, -1, 1))
            if g.ints and g.chance(.3):
                v = abs(g.r.choice(g.ints)) + g.r.choice((0, 0, 1, -1))
            a.append(abs(v))
        if g.chance(.1):
            a[g.r.randrange(k)] *= -1
        if g.chance(.05):
            a[0] = 3
        yield dict(oid='.'.join(map(str, a)))


def r_oid(c):
    s = c['oid']
    try:
        arcs = tuple(int(x) for x in s.split('.'))
        if min(arcs) < 0:
            arcs = None
    except ValueError:
        arcs = None
    want = None if arcs is None else ref.oid_der(arcs)
    o = gostoid.ObjectIdentifier(s)
    if str(o) != s:
        return 'str() is %r' % str(o)
    if o.name != ref.OID_NAMES.get(s, ''):
        return 'name of %s is %r' % (s, o.name)
    try:
        dg = o.digit
        if arcs is None:
            return 'digit accepted malformed %r: %r' % (s, dg)
        if tuple(dg) != arcs:
            return 'digit is %r' % (dg,)
    except gostoid.GOSTOIDError:
        if arcs is not None:
            return 'digit refused %r' % s
    try:
        got = o.octet
    except gostoid.GOSTOIDError:
        return None if want is None else 'octet refused valid %r' % s[:80]
    if want is None:
        return 'octet encoded invalid %r as %s' % (s[:80], hx(got)[:80])
    return diff('DER of ' + s[:80], got, want)


from pyvc import battery2  # noqa: E402

TABLE = {
    'C01': (lambda g: g_block(g, 'kuznechik'), r_block),
    'C02': (lambda g: g_block(g, 'magma'), r_block),
    'C03': (lambda g: g_modes(g, ('ecb', 'cbc', 'cbc')), r_modes),
    'C04': (lambda g: g_modes(g, ('cfb', 'ofb')), r_modes),
    'C05': (lambda g: g_modes(g, ('ctr',)), r_modes),
    'C06': (g_rt, r_rt),
    'C07': (g_mac, r_mac),
    'C08': (g_hash, r_hash),
    'C09': (g_hist, r_hist),
    'C10': (lambda g: g_hist(g, True), r_hist),
    'C11': (g_pbk, r_pbk),
    'C12': (g_rnd, r_rnd),
    'C13': (g_sign, r_sign),
    'C14': (g_verify, r_verify),
    'C15': (g_pub, r_pub),
    'C16': (g_curve, r_curve),
    'C17': (g_oid, r_oid),
}


def run_case(prop, case, limit=60):
    """None when it holds, otherwise a description of the violation"""
    def onalarm(*a):
        raise Hang()
    run = TABLE[prop][1]
    signal.signal(signal.SIGVTALRM, onalarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        return run(case)
    except Hang:
        return 'the call did not return within %d s of CPU time' % limit
    except RecursionError as x:
        return 'RecursionError: %s' % x
    except Exception as x:
        import traceback
        tb = traceback.extract_tb(x.__traceback__)
        f = [t for t in tb if 'gostcrypto' in t.filename]
        if not f:
            raise
        return 'unexpected %s: %s at %s' % (type(x).__name__, x, '%s:%s' % (os.path.basename(f[-1].filename), f[-1].name))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


battery2.install(sys.modules[__name__])


def literals():
    """integers written in the functions of the tree under test (not tables): boundary hints"""
    out = set()
    root = os.path.join(REPO, 'gostcrypto')
    for dp, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.py'):
                try:
                    t = ast.parse(open(os.path.join(dp, f), encoding='utf-8').read())
                except SyntaxError:
                    continue
                for fn in ast.walk(t):
                    if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                        for n in ast.walk(fn):
                            if isinstance(n, ast.Constant) and type(n.value) is int:
                                out.add(n.value)
    return sorted(out)


def minimise(prop, case, msg):
    return case, msg


def main():
    if sys.argv[1] == '--replay':
        rp = json.load(open(sys.argv[2]))
        if rp.get('case') is None:
            print('this violation has no failing input; failed obligation: %s' % rp.get('obligation'))
            return 2
        e = run_case(rp['property'], rp['case'])
        print('property %s: %s' % (rp['property'], e or 'holds on this input'))
        return 1 if e else 0
    prop, seed, secs = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
    hints = json.load(open(sys.argv[4])) if len(sys.argv) > 4 else {}
    lits = literals()
    hints.setdefault('lens', [])
    hints['lens'] = list(hints['lens']) + [v for v in lits if 2 < v < 3000]
    hints['bytes'] = list(hints.get('bytes', [])) + [v for v in lits if 0 < v < 256]
    hints['ints'] = list(hints.get('ints', [])) + [v for v in lits if v > 0]
    t0 = time.time()
    n, seen, fails, samples = 0, set(), [], []
    for c in hints.get('cases', []):
        try:
            e = run_case(prop, c)
        except Exception:
            continue
        n += 1
        if e:
            fails.append(dict(case=c, message=e))
            break
    if not fails:
        g = Gen(seed, hints)
        for c in TABLE[prop][0](g):
            e = run_case(prop, c)
            n += 1
            seen.add(hash(json.dumps(c, sort_keys=True)))
            if len(samples) < 3:
                samples.append(c)
            if e:
                fails.append(dict(case=c, message=e))
                break
            if time.time() - t0 > secs:
                break
    print(json.dumps(dict(property=prop, evaluations=n, distinct=len(seen), failures=fails, samples=samples,
                          known=sorted(KNOWN), seconds=round(time.time() - t0, 2))))
    return 0


if __name__ == '__main__':
    sys.exit(main())
