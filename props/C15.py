"""C15: inversion, addition, multiplication and public keys, every curve and scalar."""
from .siglib import *

SAMPLER = sampler
FUNCTIONS = ['gost_34_10_2012.GOST34102012.' + f for f in ('__init__', '_invert', '_invert.gcdex', '_add', '_bits', '_mul_point', 'public_key_generate')] + \
            ['utils.int_to_bytearray', 'utils.bytearray_to_int', 'utils.compare', 'utils.compare_to_zero', 'utils.check_value']
TASKS = util_tasks() + [Task('inversion', invert_task(), kind='int')]
for S in (32, 64):
    TASKS += [Task('addition, %d' % S, add_task(S, False), kind='int'), Task('doubling, %d' % S, add_task(S, True), kind='int')]
    TASKS += [Task("public key, %d, %s" % (S, "bytearray" if B else "bytes"), pubkey_task(S, B), kind="int") for B in (False, True)]
    for G in (False, True):
        TASKS += [Task('multiplication, %d, %s' % (S, 'given point' if G else 'base point'), mul_task(S, G), kind='int')]
