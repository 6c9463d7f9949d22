"""C08: Streebog equals the standard for every message."""
from .hashing import *

FUNCTIONS = ['gost_34_11_2012.' + f for f in (
    'new', 'GOST34112012.__init__', 'GOST34112012._hash_init', 'GOST34112012._hash_add_512', 'GOST34112012._hash_lps',
    'GOST34112012._hash_get_key', 'GOST34112012._hash_e', 'GOST34112012._hash_g', 'GOST34112012.update', 'GOST34112012.hash_final',
    'GOST34112012.get_hash', 'GOST34112012.digest', 'GOST34112012.hexdigest', 'GOST34112012.copy', 'GOST34112012.digest_size')] + ['utils.add_xor']
ASSUMPTIONS = ['CPython semantics of the operations in pyvc/core.py', 'spec/ref.py states GOST R 34.11-2012 (checked against RFC 6986 vectors by spec/selftest.py)',
               'copy.deepcopy copies the instrumented objects as CPython copies the real ones']


def digest(bits, mutable, part, parts):
    """any message of 64 q + r bytes, r in the given eighth: real update loop, final block, length and checksum"""
    def t(ctx):
        w = HashWorld(ctx, bits)
        q = ctx.var('q', 0)
        r = ctx.concretize(ctx.var('r', part * 64 // parts, (part + 1) * 64 // parts - 1))
        N = 64 * q + r
        data = w.data(0, N, mutable)
        w.g.replay = lambda e: dict(bits=bits, data=bytes_of(e, 'P', 0, N), k=int(mutable))
        f = Frame(data=data)
        obj = w.new(data)
        b = Frame(obj=obj)
        res = obj.digest()
        ctx.equal('digest is the standard\'s', res, w.final(q, r), 'bytearray')
        b.same(ctx, 'digest changes nothing')
        f.same(ctx, 'data buffer unchanged')
        disjoint(ctx, 'result and object are separate', [res], [obj, data])
        disjoint(ctx, 'object keeps no reference to the data', [obj], [data])
    return t


internal()
TASKS = [Task('internal functions', lambda: internal()[1], kind='direct')]
TASKS += [Task('streebog%d data(%s) tail %d/16' % (b, 'bytearray' if k else 'bytes', i + 1), digest(b, k, i, 16), cost=10, expect=["digest is the standard's"])
          for b, k in ((256, False), (512, True)) for i in range(16)]
