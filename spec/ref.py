"""Specification functions.

Written from the standards (GOST R 34.12-2015 / RFC 7801 / RFC 8891, GOST R 34.13-2015,
GOST R 34.11-2012 / RFC 6986, R 50.1.113-2016 / R 50.1.111-2016 / RFC 7836,
R 1323565.1.006-2017, GOST R 34.10-2012 / RFC 7091, X.690), not from /repo.

They are *generic*: bytes are sequences of "byte values" that are Python ints in a
concrete run and symbolic values of the verifier (pyvc.bits.SBits) in a proof; the same
text is therefore the postcondition of the contracts and the oracle that replays use.
"""
from .consts import PI, MAGMA_S, STREEBOG_C, STREEBOG_L, CURVES, OID_NAMES  # noqa: F401


# ---------------------------------------------------------------- generic helpers
def tbl(table, idx):
    return table[idx] if isinstance(idx, int) else idx.lookup(table)


def xor(a, b):
    return [x ^ y for x, y in zip(a, b)]


def be_int(bs):
    r = 0
    for b in bs:
        r = (r << 8) + b
    return r


def be_bytes(v, n):
    return [(v >> (8 * i)) & 0xff for i in range(n - 1, -1, -1)]


def le_int(bs):
    r = 0
    for b in reversed(bs):
        r = (r << 8) + b
    return r


def le_bytes(v, n):
    return [(v >> (8 * i)) & 0xff for i in range(n)]


# ---------------------------------------------------------------- Kuznechik
def _gfmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x1C3
        b >>= 1
    return r


LVEC = (148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148, 1)
GFT = {c: tuple(_gfmul(c, x) for x in range(256)) for c in set(LVEC)}
PI_INV = bytes(PI.index(i) for i in range(256))


def kuz_S(x):
    return [tbl(PI, b) for b in x]


def kuz_Si(x):
    return [tbl(PI_INV, b) for b in x]


def kuz_l(x):
    r = 0
    for c, b in zip(LVEC, x):
        r = r ^ tbl(GFT[c], b)
    return r


def kuz_R(x):
    return [kuz_l(x)] + list(x[:15])


def kuz_Ri(x):
    y = list(x[1:]) + [x[0]]
    return list(x[1:]) + [kuz_l(y)]


def kuz_L(x):
    for _ in range(16):
        x = kuz_R(x)
    return x


def kuz_Li(x):
    for _ in range(16):
        x = kuz_Ri(x)
    return x


KUZ_C = [kuz_L([0] * 15 + [i]) for i in range(1, 33)]
# matrices of L and L^-1 by table, for speed in concrete runs
_LT = [[tuple(kuz_L([0] * j + [v] + [0] * (15 - j))) for v in range(256)] for j in range(16)]
_LTi = [[tuple(kuz_Li([0] * j + [v] + [0] * (15 - j))) for v in range(256)] for j in range(16)]
_LTint = [[int.from_bytes(bytes(v), 'big') for v in r] for r in _LT]
_LTiint = [[int.from_bytes(bytes(v), 'big') for v in r] for r in _LTi]


def _lin(x, T, Tint):
    if all(isinstance(b, int) for b in x):
        r = 0
        for j in range(16):
            r ^= Tint[j][x[j]]
        return list(r.to_bytes(16, 'big'))
    return None


def kuz_Lf(x):
    r = _lin(x, _LT, _LTint)
    return r if r is not None else kuz_L(x)


def kuz_Lif(x):
    r = _lin(x, _LTi, _LTiint)
    return r if r is not None else kuz_Li(x)


def kuz_keys(key):
    a, b = list(key[:16]), list(key[16:])
    ks = [a, b]
    for i in range(4):
        for j in range(8):
            a, b = xor(kuz_Lf(kuz_S(xor(a, KUZ_C[8 * i + j]))), b), a
        ks += [a, b]
    return ks


def kuz_enc_ks(ks, x):
    for i in range(9):
        x = kuz_Lf(kuz_S(xor(x, ks[i])))
    return xor(x, ks[9])


def kuz_dec_ks(ks, x):
    for i in range(9, 0, -1):
        x = kuz_Si(kuz_Lif(xor(x, ks[i])))
    return xor(x, ks[0])


# ---------------------------------------------------------------- Magma
def mag_t(v):
    """substitution on a 32-bit value; S-box 0 acts on the least significant nibble"""
    r = 0
    for i in range(8):
        r = r + (tbl(MAGMA_S[i], (v >> (4 * i)) & 15) << (4 * i))
    return r


def mag_g(k, a):
    v = mag_t((a + k) & 0xffffffff)
    return ((v << 11) & 0xffffffff) ^ (v >> 21)


def mag_keys(key):
    k = [be_int(key[4 * i:4 * i + 4]) for i in range(8)]
    return k * 3 + k[::-1]


def _mag_rounds(ks, x):
    a1, a0 = be_int(x[:4]), be_int(x[4:8])
    for i in range(31):
        a1, a0 = a0, mag_g(ks[i], a0) ^ a1
    a1 = mag_g(ks[31], a0) ^ a1
    return be_bytes(a1, 4) + be_bytes(a0, 4)


def mag_enc_ks(ks, x):
    return _mag_rounds(ks, x)


def mag_dec_ks(ks, x):
    return _mag_rounds(ks[::-1], x)


class Cipher:
    """concrete or symbolic block cipher by the standard"""

    def __init__(self, alg, key):
        self.alg, self.bs = alg, (16 if alg == 'kuznechik' else 8)
        self.ks = kuz_keys(key) if alg == 'kuznechik' else mag_keys(key)

    def enc(self, x):
        return kuz_enc_ks(self.ks, x) if self.bs == 16 else mag_enc_ks(self.ks, x)

    def dec(self, x):
        return kuz_dec_ks(self.ks, x) if self.bs == 16 else mag_dec_ks(self.ks, x)


# ---------------------------------------------------------------- GOST R 34.13-2015 modes (concrete, any length)
PAD1, PAD2 = 0x800000F0, 0x800000F1


def pad(data, n, mode):
    data = list(data)
    if mode == PAD2:
        data = data + [0x80]
    return data + [0] * (-len(data) % n)


def blocks(data, n):
    return [data[i:i + n] for i in range(0, len(data), n)]


def ecb_enc(c, padded):
    return [b for x in blocks(padded, c.bs) for b in c.enc(x)]


def ecb_dec(c, data):
    return [b for x in blocks(data, c.bs) for b in c.dec(x)]


def cbc_enc(c, reg, padded):
    reg, out = list(reg), []
    for x in blocks(padded, c.bs):
        y = c.enc(xor(x, reg[:c.bs]))
        reg = reg[c.bs:] + y
        out += y
    return out, reg


def cbc_dec(c, reg, data):
    reg, out = list(reg), []
    for y in blocks(data, c.bs):
        out += xor(c.dec(y), reg[:c.bs])
        reg = reg[c.bs:] + list(y)
    return out, reg


def cfb_enc(c, reg, data):
    reg, out = list(reg), []
    for x in blocks(data, c.bs):
        y = xor(x, c.enc(reg[:c.bs]))
        out += y
        if len(y) == c.bs:
            reg = reg[c.bs:] + y
    return out, reg


def cfb_dec(c, reg, data):
    reg, out = list(reg), []
    for y in blocks(data, c.bs):
        out += xor(y, c.enc(reg[:c.bs]))
        if len(y) == c.bs:
            reg = reg[c.bs:] + list(y)
    return out, reg


def ofb(c, reg, data):
    reg, out = list(reg), []
    for x in blocks(data, c.bs):
        g = c.enc(reg[:c.bs])
        out += xor(x, g)
        if len(x) == c.bs:
            reg = reg[c.bs:] + g
    return out, reg


def ctr_inc(ctr):
    n = len(ctr)
    return be_bytes((be_int(ctr) + 1) & ((1 << (8 * n)) - 1), n)


def ctr(c, counter, data):
    out = []
    for x in blocks(data, c.bs):
        out += xor(x, c.enc(counter))
        counter = ctr_inc(counter)
    return out, counter


def mac_shift(k):
    """multiplication by x in GF(2^n): K1/K2 derivation"""
    n = len(k)
    v = (be_int(k) << 1) & ((1 << (8 * n)) - 1)
    y = be_bytes(v, n)
    c = 0x87 if n == 16 else 0x1b
    m = (k[0] >> 7) & 1
    y[n - 1] = y[n - 1] ^ (m * c)
    return y


def mac_keys(c):
    k1 = mac_shift(c.enc([0] * c.bs))
    return k1, mac_shift(k1)


def mac(c, data, size):
    n = c.bs
    k1, k2 = mac_keys(c)
    data = list(data)
    if len(data) and len(data) % n == 0:
        k = k1
    else:
        k = k2
        data = data + [0x80]
        data = data + [0] * (-len(data) % n)
    state = [0] * n
    bl = blocks(data, n)
    for x in bl[:-1]:
        state = c.enc(xor(state, x))
    return c.enc(xor(xor(state, bl[-1]), k))[:size]


# ---------------------------------------------------------------- Streebog
# State bytes are in the library's (and RFC 6986's octet-string) little-endian order:
# byte 0 is the least significant byte of the 512-bit number.
def _lt_table(i):
    t = []
    for x in range(256):
        r = 0
        for b in range(8):
            if x >> b & 1:
                r ^= STREEBOG_L[i][b]
        t.append(r)
    return tuple(t)


STREEBOG_LT = tuple(_lt_table(i) for i in range(8))
_LPS_T = tuple(tuple(t[PI[x]] for x in range(256)) for t in STREEBOG_LT)


def st_lps(v):
    """L(P(S(v))): byte j of output word i comes from byte 8*j+i of the substituted state"""
    out = []
    if all(isinstance(b, int) for b in v):
        for i in range(8):
            w = 0
            for j in range(8):
                w ^= _LPS_T[j][v[8 * j + i]]
            out += w.to_bytes(8, 'little')
        return out
    s = [tbl(PI, b) for b in v]                       # S
    for i in range(8):                                # P (transposition) and L
        w = 0
        for j in range(8):
            w = w ^ tbl(STREEBOG_LT[j], s[8 * j + i])
        out += le_bytes(w, 8)
    return out


def st_e(k, m):
    x = xor(k, m)
    for i in range(12):
        x = st_lps(x)
        k = st_lps(xor(k, STREEBOG_C[i]))
        x = xor(x, k)
    return x


def st_g(n, h, m):
    """g_N(h, m)"""
    return xor(xor(st_e(st_lps(xor(h, n)), m), h), m)


def st_add(a, b):
    return le_bytes((le_int(a) + le_int(b)) & ((1 << 512) - 1), 64)


V512 = le_bytes(512, 64)


def st_iv(bits):
    return [1] * 64 if bits == 256 else [0] * 64


def st_step(state, block):
    h, n, s = state
    return st_g(n, h, block), st_add(n, V512), st_add(s, block)


def st_final(state, tail, bits):
    """tail: the last 0..63 bytes"""
    h, n, s = state
    m = list(tail) + [1] + [0] * (63 - len(tail))
    h = st_g(n, h, m)
    n = st_add(n, le_bytes(8 * len(tail), 64))
    s = st_add(s, m)
    h = st_g([0] * 64, h, n)
    h = st_g([0] * 64, h, s)
    return h if bits == 512 else h[32:]


def streebog(data, bits=512):
    data = list(data)
    st = (st_iv(bits), [0] * 64, [0] * 64)
    full = len(data) // 64
    for i in range(full):
        st = st_step(st, data[64 * i:64 * i + 64])
    return st_final(st, data[64 * full:], bits)


# ---------------------------------------------------------------- HMAC, PBKDF2, PRNG
def hmac(key, data, bits=512):
    k = list(key) + [0] * (64 - len(key))
    inner = streebog([b ^ 0x36 for b in k] + list(data), bits)
    return streebog([b ^ 0x5c for b in k] + inner, bits)


def pbkdf2(password, salt, count, dk_len):
    out, i = [], 1
    while len(out) < dk_len:
        u = hmac(password, list(salt) + be_bytes(i, 4))
        t = u
        for _ in range(count - 1):
            u = hmac(password, u)
            t = xor(t, u)
        out += t
        i += 1
    return out[:dk_len]


class Prng:
    def __init__(self, seed):
        self.u = int.from_bytes(bytes(seed) + bytes(63 - len(seed)), 'big')

    def random(self, size):
        out = []
        while size > 0:
            self.u = (self.u + 1) % (1 << 504)
            h = streebog(self.u.to_bytes(63, 'big'))
            out += h if size >= 64 else h[64 - size:]
            size -= 64
        return out


# ---------------------------------------------------------------- GOST R 34.10-2012
def ec_add(P, Q, a, p):
    """group law; None is the point at infinity"""
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0:
            return None
        lam = (3 * P[0] * P[0] + a) * pow(2 * P[1], -1, p) % p
    else:
        lam = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
    x = (lam * lam - P[0] - Q[0]) % p
    return x, (lam * (P[0] - x) - P[1]) % p


def _jdbl(P, a, p):
    X, Y, Z = P
    if Z == 0 or Y == 0:
        return (1, 1, 0)
    YY = Y * Y % p
    S = 4 * X * YY % p
    M = (3 * X * X + a * pow(Z, 4, p)) % p
    X3 = (M * M - 2 * S) % p
    return X3, (M * (S - X3) - 8 * YY * YY) % p, 2 * Y * Z % p


def _jadd(P, Q, a, p):
    """Q affine"""
    X1, Y1, Z1 = P
    if Z1 == 0:
        return Q[0], Q[1], 1
    ZZ = Z1 * Z1 % p
    U2, S2 = Q[0] * ZZ % p, Q[1] * Z1 * ZZ % p
    H, R = (U2 - X1) % p, (S2 - Y1) % p
    if H == 0:
        return _jdbl(P, a, p) if R == 0 else (1, 1, 0)
    HH = H * H % p
    HHH, V = H * HH % p, X1 * HH % p
    X3 = (R * R - HHH - 2 * V) % p
    return X3, (R * (V - X3) - Y1 * HHH) % p, Z1 * H % p


def ec_mul(k, P, a, p):
    if P is None:
        return None
    R = (1, 1, 0)
    for bit in bin(k)[2:] if k else '':
        R = _jdbl(R, a, p)
        if bit == '1':
            R = _jadd(R, P, a, p)
    if R[2] == 0:
        return None
    zi = pow(R[2], -1, p)
    return R[0] * zi * zi % p, R[1] * zi * zi * zi % p


class Curve:
    def __init__(self, d):
        self.p, self.q, self.m = d['p'], d['q'], d['m']
        a, b, x, y = (d.get(k, 0) for k in 'abxy')
        if a == b == x == y == 0:
            a, b, x, y = edwards(d)
        self.a, self.b, self.P = a, b, (x, y)
        self.size = 32 if self.q < 1 << 256 else 64

    def on(self, P):
        return P is None or (P[1] ** 2 - P[0] ** 3 - self.a * P[0] - self.b) % self.p == 0

    def mul(self, k, P=0):
        return ec_mul(k, self.P if P == 0 else P, self.a, self.p)

    def add(self, P, Q):
        return ec_add(P, Q, self.a, self.p)

    def sign_k(self, d, e, k):
        """one attempt with this k: (r, s)"""
        r = self.mul(k)[0] % self.q
        return r, (r * d + k * e) % self.q

    def e(self, digest):
        return int.from_bytes(digest, 'big') % self.q or 1

    def verify(self, Q, digest, sig):
        n, q = self.size, self.q
        r, s = int.from_bytes(sig[:n], 'big'), int.from_bytes(sig[n:], 'big')
        if not (0 < r < q and 0 < s < q):
            return False
        v = pow(self.e(digest), -1, q)
        C = self.add(self.mul(s * v % q), self.mul(-r * v % q, Q))
        return C is not None and C[0] % q == r


def edwards(d):
    """R 1323565.1.024-2019: e u^2 + v^2 = 1 + d u^2 v^2 to short Weierstrass"""
    p, e, dd, u, v = d['p'], d.get('e', 0), d.get('d', 0), d.get('u', 0), d.get('v', 0)
    s, t = (e - dd) * pow(4, -1, p) % p, (e + dd) * pow(6, -1, p) % p
    a, b = (s * s - 3 * t * t) % p, (2 * t ** 3 - t * s * s) % p
    x = (s * (1 + v) * pow(1 - v, -1, p) + t) % p
    y = s * (1 + v) * pow((1 - v) * u, -1, p) % p
    return a, b, x, y


def curve_ok(d, size):
    """the acceptance conditions of C16 on canonical parameters"""
    p, q, m = d['p'], d['q'], d['m']
    a, b, x, y = (d.get(k, 0) for k in 'abxy')
    if a == b == x == y == 0:
        a, b, x, y = edwards(d)
    if m == p or (y * y - x ** 3 - a * x - b) % p:
        return False
    lo = 1 << (254 if size == 32 else 508)
    if q < lo or q > 1 << (8 * size):
        return False
    v = 1
    for _ in range(31 if size == 32 else 131):
        v = v * p % q
        if v == 1 % q:
            return False
    return True


# ---------------------------------------------------------------- DER object identifiers
def oid_arc(v):
    out = [v & 0x7f]
    v >>= 7
    while v:
        out.insert(0, 0x80 | (v & 0x7f))
        v >>= 7
    return out


def oid_content(arcs):
    if len(arcs) < 2 or min(arcs) < 0 or arcs[0] > 2 or (arcs[0] < 2 and arcs[1] > 39):
        return None
    out = oid_arc(40 * arcs[0] + arcs[1])
    for v in arcs[2:]:
        out += oid_arc(v)
    return out


def der_len(n):
    if n < 128:
        return [n]
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return [0x80 | len(b)] + list(b)


def oid_der(arcs):
    c = oid_content(arcs)
    return None if c is None else [6] + der_len(len(c)) + c
