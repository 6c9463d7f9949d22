"""C02: every Magma block operation equals the standard, for all keys and blocks."""
from pyvc.api import *
from spec import ref

FUNCTIONS = ['gost_34_12_2015.GOST34122015Magma.' + f for f in (
    '__init__', '_expand_iter_key', '_expand_iter_key_final', '_cipher_t', '_cipher_add_32', '_cipher_g', '_cipher_g_iter_result',
    '_cipher_g_iter', '_cipher_g_prev', '_cipher_g_fin', 'encrypt', 'decrypt', 'block_size', 'key_size')] + ['utils.add_xor', 'utils.zero_fill']
ASSUMPTIONS = ['CPython semantics of the operations in pyvc/core.py (bytes, bytearray, integer operators, struct.pack)',
               'spec/ref.py states GOST R 34.12-2015 (checked against the vectors of RFC 8891 by spec/selftest.py)']
BACKENDS = {'pyvc normal forms (GF(2) vectors over Boolean-function and carry atoms)': 1}
EXPLANATION = ('The real constructor, encrypt and decrypt are executed on 256 symbolic key bits and 64 symbolic block bits (loops are '
               'bounded by constants, so this is complete); carries of the 32-bit additions are canonical functions of the summands.')


def block(direction, ktype, btype):
    def t(ctx):
        K = M('cipher').GOST34122015Magma
        key = fresh_bytes('key', 32, ktype)
        kv = key.vec()
        obj = K(key)
        ctx.check('block size 8, key size 32', obj.block_size == 8 and obj.key_size == 32)
        blk = fresh_bytes('block', 8, btype)
        bv = blk.vec()
        f = Frame(obj=obj, key=key, blk=blk)
        r = getattr(obj, direction)(blk)
        f.same(ctx, 'cipher object, key and block are unchanged')
        ks = ref.mag_keys(kv)
        want = (ref.mag_enc_ks if direction == 'encrypt' else ref.mag_dec_ks)(ks, bv)
        ctx.equal('result is the block of the standard', r, sb(want), 'bytearray')
        ctx.equal('key as given', key, sb(kv))
        disjoint(ctx, 'result shares nothing with object and arguments', [r], [obj, key, blk])
        disjoint(ctx, 'object keeps no reference to the key buffer', [obj], [key])
    return t


def rounds_inverse(ctx):
    """the specified decryption inverts encryption: Feistel rounds undo each other for any round function values"""
    # one round with an arbitrary value g for the round function of the half it is computed from
    a1, a0, g = (sb_int('a1'), sb_int('a0'), sb_int('g'))
    b1, b0 = a0, g ^ a1                   # round
    c0, c1 = b1, g ^ b0                   # inverse round: same g, because it is computed from b1 == a0
    for n, x, y in (('a1', a1, c1), ('a0', a0, c0)):
        ctx.check('inverse round restores ' + n, all(u == v for u, v in zip(x.bits(), (y.bits() if isinstance(y, SInt) else []))))
    # final round keeps the halves in place
    d1, d0 = g ^ a1, a0
    e1 = g ^ d1
    ctx.check('inverse final round', all(u == v for u, v in zip(a1.bits(), e1.bits())) and d0 is a0)


def sb_int(n):
    v = fresh_bytes(n, 4).vec()
    r = 0
    for x in v:
        r = (r << 8) + x
    return r


TASKS = [Task('%s(key %s, block %s)' % (d, 'bytearray' if k else 'bytes', 'bytearray' if b else 'bytes'), block(d, k, b), cost=9,
              expect=['result is the block of the standard'])
         for d in ('encrypt', 'decrypt') for k in (False, True) for b in (False, True)]
TASKS.append(Task('lemma: rounds are inverted by the reverse schedule', rounds_inverse))
