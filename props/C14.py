"""C14: verification, every curve, public key, digest and signature."""
from .siglib import *

SAMPLER = sampler
FUNCTIONS = ['gost_34_10_2012.GOST34102012.' + f for f in ('__init__', 'verify', '_get_r_s', '_verify_step_1', '_check_public_key', '_set_e', '_add', 'sign',
                                                           'public_key_generate')] + \
            ['utils.int_to_bytearray', 'utils.bytearray_to_int', 'utils.compare', 'utils.compare_to_zero', 'utils.check_value']
TASKS = util_tasks()
for S in (32, 64):
    for Z in (True, False):
        A = 'a %s 0' % ('=' if Z else '!=')
        TASKS.append(Task('verification, %d bytes, %s' % (S, A), verify_task(S, S == 32, Z), kind='int', cost=3))
        for G in (True, False):
            TASKS.append(Task('matching key, %d bytes, %s, random value %s' % (S, A, 'given' if G else 'drawn'), matching_task(S, G, Z), kind='int', cost=2))
    TASKS.append(Task('public key check, %d bytes' % S, verify_key_task(S, S == 64), kind='int'))
