"""C04: CFB and OFB."""
from .modeslib import *

FUNCTIONS = ['gost_34_13_2015.' + f for f in (
    'new', 'GOST34132015.__init__', 'GOST34132015._get_num_block', 'GOST34132015._get_block', 'GOST34132015.block_size',
    'GOST34132015Cipher.encrypt', 'GOST34132015Cipher.decrypt', 'GOST34132015CipherFeedBack.__init__',
    'GOST34132015CipherFeedBack._get_gamma', 'GOST34132015CipherFeedBack._set_init_vect', 'GOST34132015CipherFeedBack._get_final_block',
    'GOST34132015CipherFeedBack._final_cipher', 'GOST34132015CipherFeedBack.iv', 'GOST34132015cfb.encrypt', 'GOST34132015cfb.decrypt',
    'GOST34132015ofb.encrypt', 'GOST34132015ofb.decrypt')] + ['utils.add_xor', 'utils.check_value']
ASSUMPTIONS = ['CPython semantics of the operations in pyvc/core.py', 'block cipher by its contract (proved by C01, C02, C19)']
TASKS = [Task('%s %s %s(%s)' % (a, m, d, 'bytearray' if b else 'bytes'), feedback(a, m, d, b), cost=5,
              expect=["output is the standard's"])
         for a in ('kuznechik', 'magma') for m in ('cfb', 'ofb') for d in ('encrypt', 'decrypt') for b in (False, True)]
