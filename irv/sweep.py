"""Equality of two word-level term lists: identity of normal forms, random
simulation (refutes), then bottom-up sweeping with local SMT proofs."""
import random
import time
from . import terms as t
from . import smt

STATS = {'identical': 0, 'swept': 0, 'smt': 0, 'refuted': 0, 'unknown': 0, 'time': 0.0}
NV = 12


class Undecided(Exception):
    pass


def rand_word(r, w, i):
    k = r.random()
    if i == 0:
        return 0
    if i == 1:
        return t.full(w)
    if k < 0.7:
        return r.getrandbits(w)
    if k < 0.8:
        return r.getrandbits(w) & r.getrandbits(w) & r.getrandbits(w)
    if k < 0.9:
        return r.getrandbits(w) | r.getrandbits(w) | r.getrandbits(w)
    return 1 << r.randrange(w)


class Sim:
    """evaluates terms on NV vectors; leaves get random values"""

    def __init__(self, seed=1, fixed=None):
        self.r = random.Random(seed)
        self.val = {}
        self.ufv = {}
        if fixed:
            self.val.update(fixed)

    def run(self, roots):
        val = self.val
        for x in t.topo(roots):
            if x in val:
                continue
            if x.op == 'c':
                val[x] = (x.d,) * NV
            elif x.op == 's' or x.op == 'M' or x.op == 'uf':
                if x.op == 's':
                    um = x.um if x.um is not None else t.full(x.w)
                    vs = []
                    for i in range(NV):
                        v = rand_word(self.r, x.w, i)
                        vs.append(v if v <= um else v % (um + 1))
                    val[x] = tuple(vs)
                else:
                    # functions: a fresh random value per argument tuple
                    vs = []
                    for i in range(NV):
                        key = (x.d, x.w, tuple(val[y][i] for y in x.a))
                        v = self.ufv.get(key)
                        if v is None:
                            v = self.ufv[key] = rand_word(self.r, x.w, i)
                        vs.append(v)
                    val[x] = tuple(vs)
            else:
                ev = t.ev1
                a = [val[y] for y in x.a]
                val[x] = tuple(ev(x, [b[i] for b in a]) for i in range(NV))
        return [val[x] for x in roots]


LOGIC = ('X', '&', 'box', 'eq0')


def local_eq(a, b, timeout):
    """prove a == b by SMT, cutting at shared sub-terms first: at any shared
    node, then at shared arithmetic nodes only, then not at all"""
    ca, cb = set(t.topo([a])), set(t.topo([b]))
    shared = ca & cb
    last = None
    for policy in (1, 2, 3, 4):
        mp = {}
        stack = [(a, 0), (b, 0)]
        seen = set()
        while stack:
            x, d = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in ('c', 's'):
                continue
            if d > 0 and x in shared and policy < 4 and \
               (policy == 1 or (policy == 2 and x.op not in LOGIC) or (policy == 3 and x.op not in LOGIC and d >= 4)):
                mp[x] = t.sym('cut#%d' % id(x), x.w)
                continue
            for y in x.a:
                stack.append((y, d + 1))
        key = frozenset(mp)
        if key == last:
            continue
        last = key
        a2, b2 = t.subst([a, b], mp) if mp else (a, b)
        if a2 is b2:
            return True
        if len(t.topo([a2, b2])) > 1500:
            return None
        STATS['smt'] += 1
        r, _ = smt.check([t.ne(a2, b2)], None, timeout, False)
        if r == 'unsat':
            return True
        if not mp and r == 'sat':
            return False
    return None


def equal(impl, spec, seed=1, timeout=3000, budget=60, sim=None):
    """-> ('proved', None) | ('refuted', env {leaf: value}) | ('unknown', index)"""
    t0 = time.time()
    try:
        return _equal(impl, spec, seed, timeout, budget, sim)
    finally:
        STATS['time'] += time.time() - t0


def refute(impl, spec, seed=1, sim=None):
    """random simulation only: environment of a disagreement, or None"""
    sim = sim or Sim(seed)
    va = sim.run(impl)
    vb = sim.run(spec)
    for i, (x, y) in enumerate(zip(va, vb)):
        if x != y:
            for k in range(NV):
                if x[k] != y[k]:
                    env = {l: sim.val[l][k] for l in t.topo(list(impl) + list(spec)) if l.op in ('s', 'M', 'uf')}
                    return env, i
    return None


def _equal(impl, spec, seed, timeout, budget, sim):
    if all(a is b for a, b in zip(impl, spec)):
        STATS['identical'] += len(impl)
        return 'proved', None
    sim = sim or Sim(seed)
    r = refute(impl, spec, seed, sim)
    if r is not None:
        STATS['refuted'] += 1
        return 'refuted', r
    t1 = time.time() + budget
    val = sim.val
    # representatives: spec nodes first
    reps = {}
    for x in t.topo(spec):
        reps.setdefault((x.w, val[x]), []).append(x)
    mp = {}
    bad = set()
    for x in t.topo(impl):
        if x in mp:
            continue
        na = tuple(mp.get(y, y) for y in x.a)
        y = x if na == x.a else t.rebuild(x, na)
        if y not in val:
            sim.run([y])
        cands = reps.setdefault((y.w, val[y]), [])
        if y.op in ('c', 's', 'M'):
            mp[x] = y
            if y not in cands:
                cands.append(y)
            continue
        for c in cands:
            if c is y:
                mp[x] = y
                break
        else:
            for c in cands[:4]:
                if time.time() > t1:
                    raise_undecided = True
                    STATS['unknown'] += 1
                    return 'unknown', 0
                if local_eq(y, c, timeout):
                    STATS['swept'] += 1
                    mp[x] = c
                    break
            else:
                mp[x] = y
                cands.append(y)
    for i, (a, b) in enumerate(zip(impl, spec)):
        if mp[a] is not b:
            if local_eq(mp[a], b, timeout * 3):
                continue
            STATS['unknown'] += 1
            return 'unknown', i
    return 'proved', None
