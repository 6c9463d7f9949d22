"""Validates the frozen constants and the reference functions against the standards' own
vectors and against independent algebraic facts. Run by setup and by every check."""
from . import ref as r
H = bytes.fromhex


def main():
    # pi by its published discrete-logarithm (TKlog) structure, independent of any table
    def mul(a, b):
        x = 0
        while b:
            if b & 1:
                x ^= a
            a <<= 1
            if a & 0x100:
                a ^= 0x11d
            b >>= 1
        return x
    pw = [1]
    for _ in range(254):
        pw.append(mul(pw[-1], 2))
    lam = (0x12, 0x26, 0x24, 0x30)
    sp = (0, 12, 9, 8, 7, 4, 14, 6, 5, 10, 2, 11, 1, 3, 13)

    def kap(x):
        v = 0xfc
        for i in range(4):
            if x >> i & 1:
                v ^= lam[i]
        return v
    pi = [0] * 256
    pi[0] = kap(0)
    for j in range(1, 16):
        pi[pw[17 * j % 255]] = kap(16 - j)
    for i in range(1, 17):
        for j in range(15):
            pi[pw[(i + 17 * j) % 255]] = kap(16 - i) ^ pw[17 * sp[j]]
    tk = pi == list(r.PI)
    # Kuznechik, RFC 7801
    key = H('8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef')
    c = r.Cipher('kuznechik', key)
    assert bytes(c.enc(list(H('1122334455667700ffeeddccbbaa9988')))) == H('7f679d90bebc24305a468d42b9d4edcd')
    assert bytes(c.dec(list(H('7f679d90bebc24305a468d42b9d4edcd')))) == H('1122334455667700ffeeddccbbaa9988')
    # Magma, RFC 8891
    m = r.Cipher('magma', H('ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff'))
    assert bytes(m.enc(list(H('fedcba9876543210')))) == H('4ee901e5c2d8ca3d')
    assert bytes(m.dec(list(H('4ee901e5c2d8ca3d')))) == H('fedcba9876543210')
    # modes, GOST R 34.13-2015 annex
    P = H('1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a0011')
    iv = H('1234567890abcef0a1b2c3d4e5f0011223344556677889901213141516171819')
    assert bytes(r.cbc_enc(c, iv, P)[0])[:16] == H('689972d4a085fa4d90e52e3d6d7dcc27')
    assert bytes(r.cfb_enc(c, iv, P)[0])[:16] == H('81800a59b1842b24ff1f795e897abd95')
    assert bytes(r.ofb(c, iv, P)[0])[:16] == H('81800a59b1842b24ff1f795e897abd95')
    assert bytes(r.ctr(c, list(H('1234567890abcef0')) + [0] * 8, P)[0])[:16] == H('f195d8bec10ed1dbd57b5fa240bda1b8')
    assert bytes(r.mac(c, P, 8)) == H('336f4d296059fbe3')
    Q = H('92def06b3c130a59db54c704f8189d204a98fb2e67a8024c8912409b17b57e41')
    assert bytes(r.mac(m, Q, 4)) == H('154e7210')
    # Streebog, RFC 6986 (message given there as a number; octets reversed)
    m1 = b'012345678901234567890123456789012345678901234567890123456789012'
    assert bytes(r.streebog(m1)) == H('1b54d01a4af5b9d5cc3d86d68d285462b19abc2475222f35c085122be4ba1ffa00ad30f8767b3a82384c6574f024c311e2a481332b08ef7f41797891c1646f48')
    assert bytes(r.streebog(m1, 256)) == H('9d151eefd8590b89daa6ba6cb74af9275dd051026bb149a452fd84e5e57b5500')
    # HMAC, RFC 7836
    k = bytes(range(32))
    t = H('0126bdb87800af214341456563780100')
    assert bytes(r.hmac(k, t, 256)) == H('a1aa5f7de402d7b3d323f2991c8d4534013137010a83754fd0af6d7cd4922ed9')
    assert bytes(r.hmac(k, t, 512)).hex().startswith('a59bab22ecae19c65fbde6e5f4e9f5d8')
    # PBKDF2, RFC 7836-family vectors
    assert bytes(r.pbkdf2(b'password', b'salt', 1, 64)).hex().startswith('64770af7f748c3b1c9ac831dbcfd85c2')
    # curves
    for n, d in r.CURVES.items():
        C = r.Curve(d)
        assert C.on(C.P) and C.mul(C.q) is None and C.m % C.q == 0, n
        assert pow(2, C.p - 1, C.p) == 1 and pow(2, C.q - 1, C.q) == 1
        assert (4 * C.a ** 3 + 27 * C.b ** 2) % C.p
        assert C.P == r.ec_add(C.mul(5), C.mul(C.q - 4), C.a, C.p)
        assert abs(C.m - C.p - 1) ** 2 <= 4 * C.p, n
        assert r.curve_ok(d, C.size)
    # RFC 7091 example 1
    d = dict(p=0x8000000000000000000000000000000000000000000000000000000000000431, a=7,
             b=0x5fbff498aa938ce739b8e022fbafef40563f6e6a3472fc2a514c0ce9dae23b7e,
             m=0x8000000000000000000000000000000150fe8a1892976154c59cfc193accf5b3,
             q=0x8000000000000000000000000000000150fe8a1892976154c59cfc193accf5b3, x=2,
             y=0x08e2a8a0e65147d4bd6316030e16d19c85c97f0a9ca267122b96abbcea7e8fc8)
    C = r.Curve(d)
    dd = 0x7a929ade789bb9be10ed359dd39a72c11b60961f49397eee1d19ce9891ec3b28
    rr, ss = C.sign_k(dd, C.e(H('2dfbc1b372d89a1188c09c52e0eec61fce52032ab1022e8e67ece6672b043ee5')),
                      0x77105c9b20bcd3122823c8cf6fcc7b956de33814e95b7fe64fed924594dceab3)
    assert rr == 0x41aa28d2f1ab148280cd9ed56feda41974053554a42767b83ad043fd39dc0493
    assert ss == 0x01456c64ba4642a1653c235a98a60249bcd6d3f746b631df928014f6c5bf9c40
    assert r.oid_der((1, 2, 840, 113549)) == list(H('06062a864886f70d'))
    return tk


if __name__ == '__main__':
    print('selftest ok; TKlog structure of pi confirmed:', main())
