"""C06: decryption returns the encrypted message."""
from .modeslib import *
from .C03 import FUNCTIONS as F3
from .C04 import FUNCTIONS as F4
from .C05 import FUNCTIONS as F5

FUNCTIONS = sorted(set(F3 + F4 + F5))
ASSUMPTIONS = ['CPython semantics of the operations in pyvc/core.py', 'block cipher by its contract, D(E(x)) = x (proved by C01, C02, C19)']
TASKS = [Task('%s %s%s' % (a, m, '' if m not in ('ecb', 'cbc') else ' pad1' if p == PAD1 else ' pad2'), roundtrip(a, m, p),
              cost=5, expect=['both objects are in the same state again'])
         for a in ('kuznechik', 'magma') for m in ('ecb', 'cbc', 'cfb', 'ofb') for p in (PAD1, PAD2) if p == PAD1 or m in ('ecb', 'cbc')]
TASKS += [Task('%s ctr lengths %d/4' % (a, k + 1), roundtrip(a, 'ctr', part=k), cost=14, expect=['both objects are in the same state again'])
          for a in ('kuznechik', 'magma') for k in range(4)]
