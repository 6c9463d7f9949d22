"""C13: signing, every curve, key, digest and random value."""
from .siglib import *

SAMPLER = sampler
FUNCTIONS = ['gost_34_10_2012.GOST34102012.' + f for f in ('__init__', 'sign', '_get_rand_k', '_set_e')] + \
            ['utils.int_to_bytearray', 'utils.bytearray_to_int', 'utils.compare_to_zero', 'utils.check_value', 'utils.zero_fill']
TASKS = util_tasks()
for S in (32, 64):
    TASKS.append(Task('random value, %d bytes' % S, rand_task(S), kind='int'))
    for R in (None, S, 'any'):
        for Z in (True, False):
            TASKS.append(Task('signing, %d bytes, random value of %s bytes, a %s 0' % (S, R, '=' if Z else '!='), sign_task(S, R == S, R, Z), kind='int'))
