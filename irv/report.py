"""Evidence and verdict of one check run."""
import json
import os
import subprocess
import sys
import time
from . import build

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))

TRUSTED = [
    'clang 18 -O1 front end: the verified text is the LLVM IR it makes of the headers in /repo (always_inline and flatten redefined so that library functions stay separate)',
    'the symbolic executor and rewriter in /verif/irv (irv/difftest.py compares it with native execution on random programs and on the hashers)',
    'z3 and cvc5',
    'models of memcpy, memmove, memset and of the libstdc++/compiler-rt externals in irv/externs.py',
    'the specification functions in irv/specs.py (checked against hashlib and published vectors by irv/selftest.py)',
]
ASSUME = [
    'messages are shorter than 2^61 bytes and size_t is 64 bits',
    'the input does not overlap the hasher object or the output buffer',
    'little-endian 64-bit target, as compiled',
]


def versions():
    out = []
    for c in ('clang++-18', 'g++-14'):
        try:
            out.append(subprocess.run([c, '--version'], stdout=subprocess.PIPE, text=True).stdout.splitlines()[0])
        except (OSError, IndexError):
            pass
    return out


CURRENT = None


class Report:
    def __init__(self, prop):
        global CURRENT
        CURRENT = self
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.obls = []          # (unit, Obl)
        self.functions = {}
        self.units = {}
        self.smt = 0
        self.smt_time = 0.0
        self.paths = 0
        self.bounded = []
        self.found = []
        self.notes = []
        self.assume = list(ASSUME)
        self.trusted = list(TRUSTED)
        self.backend = 'irv weakest-path symbolic execution over contracts; obligations closed by term rewriting, else z3/cvc5 (QF_AUFBV)'

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def elapsed(self):
        return time.time() - self.t0

    def add(self, unit, r):
        self.units[unit] = {'obligations': len(r.obls), 'discharged': len(r.discharged), 'paths': r.paths, 'smt_queries': r.smt_queries,
                            'smt_seconds': round(r.smt_time, 2), 'wall_s': round(r.wall, 2)}
        for o in r.obls:
            self.obls.append((unit, o))
        for f, (role, n) in r.functions.items():
            self.functions[f] = role
        self.smt += r.smt_queries
        self.smt_time += r.smt_time
        self.paths += r.paths

    def failed(self):
        return [(u, o) for u, o in self.obls if o.ok is False]

    def undecided(self):
        return [(u, o) for u, o in self.obls if o.ok is None]

    def violation(self, found, obls):
        """found: replay.Found or None"""
        self.found.append(found)
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, '%s-replay-%d.txt' % (self.prop, len(self.found)))
        with open(path, 'w') as f:
            f.write('property %s\n\n' % self.prop)
            if found is not None:
                f.write('failing input on the real code (driver source in /verif/replay, built from /repo with %s):\n  command: %s\n  %s\n\n' % ('g++-14 -std=c++23 -O2', found.cmd, found.text))
            f.write('failed obligations:\n')
            for u, o in obls[:60]:
                f.write('  [%s] %s\n      %s\n      model: %s\n' % (u, o.name, o.detail, o.model))
            und = self.undecided()
            if und:
                f.write('undecided obligations:\n')
                for u, o in und[:20]:
                    f.write('  [%s] %s\n      %s\n' % (u, o.name, o.detail))
        print('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if found is not None else ' no-failing-input-found'))

    def write(self, extra=None):
        os.makedirs(EVID, exist_ok=True)
        nd = sum(1 for _, o in self.obls if o.ok is True)
        cov = {
            'obligations': len(self.obls),
            'discharged': nd,
            'failed': len(self.failed()),
            'undecided': len(self.undecided()),
            'checker_cmd': 'python3-vt check.py %s' % self.prop,
            'trusted_base': self.trusted,
            'back_end': self.backend,
            'units': self.units,
            'functions_under_contract': [{'function': f, 'contract': r} for f, r in sorted(self.functions.items())],
            'paths': self.paths,
            'solver_queries': self.smt,
            'solver_seconds': round(self.smt_time, 2),
            'bounded': self.bounded,
            'tools': versions(),
        }
        if self.notes:
            cov['notes'] = self.notes[:40]
        und = self.undecided()
        if und:
            cov['undecided_obligations'] = ['[%s] %s: %s' % (u, o.name, str(o.detail)[:300]) for u, o in und[:20]]
        if extra:
            cov.update(extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'proof', 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(self.elapsed(), 2), 'violations': len(self.found)}
        p = os.path.join(EVID, self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)

    def finish(self):
        self.write()
        fa, un = self.failed(), self.undecided()
        print('%s: %d obligations, %d discharged, %d failed, %d undecided, %d bounded runs, %.1f s' % (
            self.prop, len(self.obls), sum(1 for _, o in self.obls if o.ok is True), len(fa), len(un), len(self.bounded), self.elapsed()))
        for u, o in (fa + un)[:5]:
            print('  [%s] %s' % (u, str(o)[:300]))
        sys.stdout.flush()
        return 1 if self.found else 0
