"""C01: every Kuznechik block operation equals the standard, for all keys and blocks."""
from pyvc.api import *
from spec import ref

FUNCTIONS = ['gost_34_12_2015.GOST34122015Kuznechik.' + f for f in (
    '__init__', '_cipher_get_c', '_cipher_s', '_cipher_s_reverse', '_cipher_r', '_cipher_r_reverse', '_cipher_l',
    '_cipher_l_reverse', 'encrypt', 'decrypt', 'block_size', 'key_size')] + ['utils.add_xor']
ASSUMPTIONS = ['CPython semantics of the operations in pyvc/core.py (bytes, bytearray, integer operators)',
               'spec/ref.py states GOST R 34.12-2015 (checked against the vectors of the standard by spec/selftest.py)']
BACKENDS = {'pyvc normal forms (GF(2) vectors over Boolean-function atoms)': 1}
EXPLANATION = ('The real constructor, encrypt and decrypt are executed on 256 symbolic key bits and 128 symbolic block bits '
               '(loops are bounded by constants, so this is complete); each result bit is compared with the specification in a '
               'normal form in which equal Boolean functions of the S-box inputs are identical.')


def block(direction, ktype, btype):
    def t(ctx):
        K = M('cipher').GOST34122015Kuznechik
        key = fresh_bytes('key', 32, ktype)
        kv = key.vec()
        obj = K(key)
        ctx.check('block size 16, key size 32', obj.block_size == 16 and obj.key_size == 32)
        blk = fresh_bytes('block', 16, btype)
        bv = blk.vec()
        f = Frame(obj=obj, key=key, blk=blk)
        r = getattr(obj, direction)(blk)
        f.same(ctx, 'cipher object, key and block are unchanged')
        ks = ref.kuz_keys(kv)
        want = (ref.kuz_enc_ks if direction == 'encrypt' else ref.kuz_dec_ks)(ks, bv)
        ctx.equal('result is the block of the standard', r, sb(want), 'bytearray')
        ctx.equal('key as given', key, sb(kv))
        disjoint(ctx, 'result shares nothing with object and arguments', [r], [obj, key, blk])
        disjoint(ctx, 'object keeps no reference to the key buffer', [obj], [key])
    return t


def lemma_inverse():
    """S^-1 S = S S^-1 = id (256 values), L^-1 L = L L^-1 = id (linear, on a basis), so the specified D_K inverts E_K"""
    ok1 = all(ref.PI_INV[ref.PI[a]] == a and ref.PI[ref.PI_INV[a]] == a for a in range(256))
    unit = [[(1 << (b % 8)) if b // 8 == i else 0 for i in range(16)] for b in range(128)]
    ok2 = all(ref.kuz_Li(ref.kuz_L(u)) == u and ref.kuz_L(ref.kuz_Li(u)) == u for u in unit)
    lin = all(t[a ^ b] == t[a] ^ t[b] for t in ref.GFT.values() for a in range(256) for b in (1, 2, 4, 8, 16, 32, 64, 128))
    # one round: undo(do(x)) with the above; dec = xor k0 . prod (Si . Li . xor k_i) is the reverse composition of enc
    return [('S-box and inverse', 'discharged' if ok1 else 'failed', ''), ('L and inverse on a basis', 'discharged' if ok2 else 'failed', ''),
            ('multiplication tables are linear', 'discharged' if lin else 'failed', '')]


TASKS = [Task('%s(key %s, block %s)' % (d, 'bytearray' if k else 'bytes', 'bytearray' if b else 'bytes'), block(d, k, b), cost=9,
              expect=['result is the block of the standard'])
         for d in ('encrypt', 'decrypt') for k in (False, True) for b in (False, True)]
TASKS.append(Task('lemma: decryption inverts encryption', lemma_inverse, kind='direct'))
