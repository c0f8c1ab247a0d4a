"""Loops whose states repeat up to a renaming of ghost variables (squeezing the
next block is squeezing the first one with the block number one higher): a
path that arrives at a loop header in a state that is an earlier arrival under
the renaming is covered by the exploration of that arrival."""
from . import terms as t
from .execu import PathEnd, Limit
from .facts import Infeasible
from .loopcut import prune, reads, cells_words


class RenameCut:
    """renaming: {symbol: term}, the ghost variables one period later; steps:
    the path is only covered when the ghost position has advanced, so every
    cycle makes progress"""

    def __init__(self, renamings, cap=4000):
        self.renamings = renamings
        self.arr = {}
        self.cap = cap
        self.n = 0
        self.covered = 0

    def stale(self, st):
        return False

    def settle(self):
        pass

    def note_low(self, *a):
        pass

    def __call__(self, M, st, fr, blk):
        prune(M, st)
        key = tuple((f.f.name, f.blk, f.ix if i < len(st.frames) - 1 else 0) for i, f in enumerate(st.frames))
        L = self.arr.setdefault(key, [])
        for s in L:
            for mp in self.renamings:
                if self.instance(M, st, s, mp):
                    self.covered += 1
                    raise PathEnd('covered', 'renaming')
        self.n += 1
        if self.n > self.cap:
            raise Limit('too many loop arrivals')
        L.append(st.copy())

    def instance(self, M, st, s, mp):
        """st is s under mp, and satisfies what s assumes"""
        memo = {}

        def sv(x):
            return t.subst(x, mp, memo)

        def same(a, b):
            if a.__class__ is tuple:
                return b.__class__ is tuple and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
            if b.__class__ is tuple:
                return False
            return a is sv(b)
        for fs, fg in zip(st.frames, s.frames):
            for r, v in fg.regs.items():
                if r[0] == '#':
                    continue
                x = fs.regs.get(r)
                if x is None or not same(x, v):
                    return False
        for name, v in s.ghost.items():
            if isinstance(v, t.T) and not same(st.ghost[name], v):
                return False
        for oid, og in s.mem.items():
            if og.kind in ('global', 'input', 'emit'):
                continue
            os = st.mem.get(oid)
            if os is None:
                return False
            if os.alive != og.alive:
                return False
            if not og.alive or os.cells is og.cells:
                if og.alive and any(sv(x) is not x for x, _ in og.cells.values()):
                    return False
                continue
            for off, (x, n) in cells_words(og.cells).items():
                y = reads(os.cells, off, n)
                if y is None or y is not sv(x):
                    return False
        for x, (lo, hi) in s.facts.iv.items():
            a, b = st.facts.rng(sv(x))
            if a < lo or b > hi:
                return False
        for c in s.facts.conds:
            c, v = c if c.__class__ is tuple else (c, 1)
            if st.facts.decide(sv(c)) != v:
                return False
        for c, v in s.facts.bools.items():
            if st.facts.decide(sv(c)) != v:
                return False
        return True
