#!/usr/bin/env python3-vt
"""Self checks of the trusted parts of the machinery (nothing is installed)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
from irv import difftest, selftest, specs, speccheck  # noqa: E402

if not selftest.run(2000, 1):
    sys.exit('term constructors: mismatch')
print('term constructors: ok')
if not selftest.run_facts(6000, 1):
    sys.exit('path facts: mismatch')
print('path facts and solver encoding: ok')
print('specifications against reference implementations: %d cases ok' % specs.selfcheck())
print('contract terms against reference implementations: %d cases ok' % speccheck.run())
print('executor against native execution: %d runs of random programs, %d of the hashers ok' % (difftest.run(12, 3, 1), difftest.hashers()))
