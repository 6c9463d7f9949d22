"""C03: ECB and CBC."""
from .modeslib import *

FUNCTIONS = ['gost_34_13_2015.' + f for f in (
    'new', 'GOST34132015.__init__', 'GOST34132015._get_num_block', 'GOST34132015._get_pad_size', 'GOST34132015._get_block', 'GOST34132015.block_size',
    'GOST34132015Cipher.encrypt', 'GOST34132015Cipher.decrypt', 'GOST34132015CipherPadding.__init__', 'GOST34132015CipherPadding._set_pad_mode_1',
    'GOST34132015CipherPadding._set_pad_mode_2', 'GOST34132015CipherPadding._set_padding', 'GOST34132015CipherPadding.encrypt',
    'GOST34132015CipherPadding.decrypt', 'GOST34132015CipherFeedBack.__init__', 'GOST34132015CipherFeedBack._set_init_vect',
    'GOST34132015CipherFeedBack.iv', 'GOST34132015ecb.encrypt', 'GOST34132015ecb.decrypt', 'GOST34132015cbc.__init__',
    'GOST34132015cbc.encrypt', 'GOST34132015cbc.decrypt')] + ['utils.add_xor', 'utils.check_value']
ASSUMPTIONS = ['CPython semantics of the operations in pyvc/core.py', 'block cipher by its contract (proved by C01, C02, C19)']
TASKS = [Task('%s %s %s%s(%s)' % (a, m, d, '' if d == 'decrypt' else ' pad1' if p == PAD1 else ' pad2', 'bytearray' if b else 'bytes'),
              feedback(a, m, d, b, p), cost=5, expect=["output is the standard's"])
         for a in ('kuznechik', 'magma') for m in ('ecb', 'cbc') for d in ('encrypt', 'decrypt')
         for p in (PAD1, PAD2) for b in (False, True)]
