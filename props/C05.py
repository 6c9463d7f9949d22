"""C05: CTR."""
from .modeslib import *

FUNCTIONS = ['gost_34_13_2015.' + f for f in (
    'new', 'GOST34132015.__init__', 'GOST34132015._get_num_block', 'GOST34132015._get_block', 'GOST34132015.block_size',
    'GOST34132015Cipher.encrypt', 'GOST34132015Cipher.decrypt', 'GOST34132015ctr.__init__', 'GOST34132015ctr._inc_ctr',
    'GOST34132015ctr.counter', 'GOST34132015ctr.encrypt', 'GOST34132015ctr.decrypt')] + ['utils.add_xor', 'utils.check_value']
ASSUMPTIONS = ['CPython semantics of the operations in pyvc/core.py', 'block cipher by its contract (proved by C01, C02, C19)']
TASKS = [Task('%s %s(%s) lengths %d/4' % (a, d, 'bytearray' if b else 'bytes', k + 1), counter(a, d, b, k), cost=8, expect=["output is the standard's"])
         for a in ('kuznechik', 'magma') for d in ('encrypt', 'decrypt') for b in (False, True) for k in range(4)]
TASKS += [Task('%s %s twice, lengths %d/4' % (a, d, k + 1), counter2(a, d, k), cost=19, expect=['counter after two calls'])
          for a in ('kuznechik', 'magma') for d in ('encrypt', 'decrypt') for k in range(4)]
