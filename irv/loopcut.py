"""Loop invariants for loops that absorb or emit an unbounded amount of data.

A loop is cut when ghost progress (st.prog) is made in its body.  The
invariant is inferred from two consecutive arrivals at the loop header
(generalised to be affine in a fresh iteration counter k, everything else that
changed is havocked), and is then *proved*: the arrival that gave it implies
it at k = 0, and every path from the header back to the header, started in an
arbitrary state satisfying it, re-establishes it at k+1.  Facts that a
quantity does not underflow are eliminated by introducing the remaining amount
u as a variable (v := lo + u + rho*k), whose non-negativity is part of the
proof and makes u a variant: the loop terminates."""
from . import terms as t
from . import antiunify as au
from .execu import PathEnd, Limit, Split
from .facts import Facts, Infeasible


_LIVE = {}
_BACK = {}


def gen2(a, b, k):
    """generalisation that knows chain(0) is the initial value"""
    G = au.gen(a, b, k)
    if G is not None:
        return G
    from . import contracts as C
    fam = C.CUR['fam']
    if fam is not None and b.op == 'uf' and b.d[0] == 'chain' and a is fam.iv[b.d[2]]:
        p = au.gen(t.const(0, 64), b.a[0], k)
        if p is not None:
            return t.uf(b.d, b.w, (p,))
    return None


class Restart(Exception):
    pass


class Invariant:
    n = 0

    def __init__(self, key, state, k, subst, facts_iv, u, ustep, entry):
        Invariant.n += 1
        self.id = Invariant.n
        self.key = key
        self.state = state          # generic state, a function of k (and u)
        self.k = k
        self.u = u                  # remaining-amount variable or None
        self.ustep = ustep
        self.v = None               # the variable it replaces, and its expression
        self.vexp = None
        self.iv = facts_iv          # ranges of the base variables
        self.entry = entry
        self.version = 0
        self.proved_back = 0
        self.hav = set()
        self.alive = True


def live_regs(M, f):
    """live registers at every header (after its phis) and across blocks"""
    c = _LIVE.get(f)
    if c is not None:
        return c
    blocks, _ = M.prep(f)
    defs, uses, phiuse, succ = {}, {}, {}, {}
    allregs = {p[1] for p in f.params}
    for b, insts in blocks.items():
        for op, res, a in insts:
            if res is not None:
                allregs.add(res)

    def collect(x, out):
        if x.__class__ is str:
            if x in allregs:
                out.add(x)
        elif x.__class__ in (tuple, list):
            for y in x:
                collect(y, out)
        elif x.__class__ is dict:
            for y in x.values():
                collect(y, out)
    for b, insts in blocks.items():
        d, u = set(), set()
        for op, res, a in insts:
            if op == 'phi':
                d.add(res)
                for pb, v in a[1].items():
                    s = phiuse.setdefault((pb, b), set())
                    collect(v, s)
                continue
            s = set()
            collect(a, s)
            u |= s - d
            if res is not None:
                d.add(res)
        defs[b], uses[b] = d, u
        from . import ir
        succ[b] = list(ir.succs(f.blocks[b][-1]))
    livein = {b: set() for b in blocks}
    phidefs = {b: {res for op, res, a in insts if op == 'phi'} for b, insts in blocks.items()}
    changed = True
    liveout = {}
    while changed:
        changed = False
        for b in reversed(list(blocks)):
            lo = set()
            for s in succ[b]:
                lo |= livein[s] - phidefs[s]
                lo |= phiuse.get((b, s), set())
            liveout[b] = lo
            li = uses[b] | (lo - defs[b])
            if li != livein[b]:
                livein[b] = li
                changed = True
    after = {}
    for b in blocks:
        # after the phis: uses in the block plus live-out
        d = set()
        u = set()
        for op, res, a in blocks[b]:
            if op == 'phi':
                continue
            s = set()
            collect(a, s)
            u |= s - d
            if res is not None:
                d.add(res)
        after[b] = u | (liveout[b] - d)
    _LIVE[f] = r = (after, liveout, collect, allregs)
    return r


def back_edges(f):
    c = _BACK.get(f)
    if c is not None:
        return c
    from . import ir
    out = set()
    color = {}
    st = [(f.entry, iter(ir.succs(f.blocks[f.entry][-1])))]
    color[f.entry] = 1
    while st:
        b, it = st[-1]
        for s in it:
            if color.get(s) == 1:
                out.add((b, s))
            elif s not in color:
                color[s] = 1
                st.append((s, iter(ir.succs(f.blocks[s][-1]))))
                break
        else:
            color[b] = 2
            st.pop()
    _BACK[f] = out
    return out


def prune(M, st):
    """drop dead registers so that states can be compared"""
    for i, fr in enumerate(st.frames):
        after, liveout, collect, allregs = live_regs(M, fr.f)
        if i == len(st.frames) - 1:
            live = after[fr.blk]
        else:
            blocks, _ = M.prep(fr.f)
            live = set(liveout[fr.blk])
            for op, res, a in blocks[fr.blk][fr.ix + 1:]:
                s = set()
                collect(a, s)
                live |= s
        fr.regs = {r: v for r, v in fr.regs.items() if r in live or r[0] == '#'}


def cells_words(cells):
    """group byte cells into words: {off: (term, nbytes)}"""
    out = {}
    done = set()
    for o in sorted(cells):
        if o in done:
            continue
        x, k = cells[o]
        if k == 0:
            n = x.w // 8
            if all(cells.get(o + i, (None, 0))[0] is x and cells[o + i][1] == i for i in range(n)):
                out[o] = (x, n)
                done.update(range(o, o + n))
                continue
        out[o] = (x if x.w == 8 else t.ext(x, 8 * k, 8), 1)
        done.add(o)
    return out


def reads(cells, off, n):
    """value of n bytes, or None if one is missing"""
    bs = []
    c0 = cells.get(off)
    if c0 is None:
        return None
    x, k = c0
    if k == 0 and x.w == 8 * n and all(cells.get(off + i, (None, 0))[0] is x and cells[off + i][1] == i for i in range(n)):
        return x
    for i in range(n):
        c = cells.get(off + i)
        if c is None:
            return None
        x, k = c
        bs.append(x if x.w == 8 else t.ext(x, 8 * k, 8))
    return t.cat(bs[::-1])


class Cutter:
    def __init__(self, M):
        self.M = M
        self.known = set()          # (function, header) pairs with ghost progress
        self.invs = {}              # key -> [Invariant]
        self.log = []
        self.enabled = True
        self.recognizer = None
        self.max_widen = 40
        self.low = {}
        self.deferred = []

    def key(self, st):
        return tuple((fr.f.name, fr.blk, fr.ix if i < len(st.frames) - 1 else 0) for i, fr in enumerate(st.frames))

    def __call__(self, M, st, fr, blk):
        if not self.enabled:
            return
        back = (fr.prev, blk) in back_edges(fr.f)
        fkey = (fr.f.name, blk)
        loops = fr.loops
        if fkey not in self.known:
            if back:
                p = loops.get(blk)
                if p is not None and p[0] != st.prog:
                    self.known.add(fkey)
                    raise Restart()
                loops[blk] = [st.prog]
            else:
                loops[blk] = [st.prog]
            return
        if self.recognizer:
            self.recognizer(M, st)
        prune(M, st)
        key = self.key(st)
        if back:
            # which invariant does this path start from?
            for iid, ver in reversed(st.cuts):
                inv = self.byid(iid)
                if inv is not None and inv.key == key:
                    if inv.version != ver or not inv.alive:
                        raise PathEnd('covered', 'stale')
                    self.check_back(M, st, inv)
                    raise PathEnd('covered', 'loop invariant re-established')
            snap = loops.get(blk)
            if snap is not None and snap[0] == 'snap':
                self.build(M, snap[1], st, key)
                raise PathEnd('covered', 'generalised')
            raise Limit('back edge without a snapshot')
        # arrival from outside
        st.cuts = tuple(c for c in st.cuts if self.byid(c[0]) is None or self.byid(c[0]).key != key)
        for inv in self.invs.get(key, []):
            if inv.alive:
                r = self.instance(M, st, inv)
                if r:
                    raise PathEnd('covered', 'covered by loop invariant %d' % inv.id)
        s = st.copy()
        loops[blk] = ['snap', s]

    def byid(self, iid):
        for l in self.invs.values():
            for i in l:
                if i.id == iid:
                    return i
        return None

    # ---------------------------------------------------------------- build
    def build(self, M, s0, s1, key):
        k = t.fresh('k', 64)
        g = s0.copy()
        havoc = []
        for i, (f0, f1) in enumerate(zip(g.frames, s1.frames)):
            regs = {}
            for r, v in f0.regs.items():
                if r[0] == '#':
                    regs[r] = v
                    continue
                w = f1.regs.get(r)
                regs[r] = self.genval(v, w, k, havoc, '%s' % r)
            f0.regs = regs
            f0.loops = {}
        for oid, o1 in s1.mem.items():
            o0 = g.mem.get(oid)
            if o0 is None or o0 is o1:
                continue
            if o0.kind == 'input' or o0.kind == 'global':
                continue
            c0, c1 = o0.cells, o1.cells
            if c0 == c1:
                continue
            w1 = cells_words(c1)
            new = {}
            w0 = cells_words(c0)
            for off, (x, n) in w1.items():
                y = reads(c0, off, n)
                if y is None:
                    continue    # not initialised before the first iteration: arbitrary
                G = gen2(y, x, k)
                if G is None and n > 1:
                    for i in range(n):
                        yb, xb = reads(c0, off + i, 1), reads(c1, off + i, 1)
                        G = au.gen(yb, xb, k)
                        if G is None:
                            G = self.fresh_hv(8, o0, off + i)
                        new[off + i] = (G, 0)
                    continue
                if G is None:
                    G = self.fresh_hv(8 * n, o0, off)
                for i in range(n):
                    new[off + i] = (G, i)
            o = g.wobj(oid)
            o.cells = new
        for name, v in list(g.ghost.items()):
            if isinstance(v, t.T) and s1.ghost.get(name) is not v:
                G = au.gen(v, s1.ghost[name], k)
                if G is None:
                    raise Limit('ghost variable %s not affine in the iteration' % name)
                g.ghost[name] = G
        # the remaining amount: a variable whose quantity decreases with k
        iv = {x: r for x, r in s0.facts.iv.items() if x.op == 's'}
        u, v, vexp, ustep = self.remaining(g, k, s0, iv)
        self.install(M, g, k, u, v, vexp, ustep, iv, s0, key)

    def fresh_hv(self, w, o, off):
        return t.fresh('hv:%s+%d' % (o.name, off), w)

    def genval(self, v, w, k, havoc, name):
        if v.__class__ is tuple:
            return tuple(self.genval(a, b, k, havoc, name) for a, b in zip(v, w))
        if w is None:
            w = v
        G = gen2(v, w, k)
        if G is None:
            if v.w == 64 and (self.M.bases_in(v) or self.M.bases_in(w)):
                raise Limit('pointer not affine in the iteration: %s' % name)
            G = t.fresh('hv:' + name, v.w)
        return G

    def all_terms(self, g):
        out = []
        for fr in g.frames:
            for r, v in fr.regs.items():
                if r[0] != '#':
                    st = [v]
                    while st:
                        x = st.pop()
                        if x.__class__ is tuple:
                            st.extend(x)
                        else:
                            out.append(x)
        for o in g.mem.values():
            if o.kind not in ('global', 'input'):
                out.extend(x for x, _ in o.cells.values())
        return out

    def remaining(self, g, k, s0, iv):
        """a variable d with coefficient c > 0 in a term where k has coefficient -c*rho"""
        terms = set(self.all_terms(g))
        cands = {}
        ptrs = set()
        lin = []
        for x in terms:
            if x.w == 64 and x.op in ('L', 's'):
                lin.append(x)
        full = t.full(64)

        def sg(c):
            return c - (1 << 64) if c >> 63 else c

        def note(x):
            if x.op != 'L':
                return
            p = {y: sg(c) for y, c in zip(x.a, x.d[1])}
            ck = p.get(k)
            if not ck:
                return
            for y, c in p.items():
                if y is not k and y in iv and c * ck < 0 and ck % c == 0:
                    rho = -ck // c
                    cands[(y, rho)] = cands.get((y, rho), 0) + 1
        for x in lin:
            note(x)
        # differences of pairs: one grows, the other does not
        grow = [x for x in lin if x.op == 'L' and k in x.a]
        if k in terms:
            grow.append(k)
        still = [x for x in lin if not (x.op == 'L' and k in x.a) and x is not k]
        for a in grow[:40]:
            for b in still[:60]:
                note(t.sub(b, a))
                note(t.sub(a, b))
        for (y, rho), cnt in sorted(cands.items(), key=lambda z: -z[1]):
            lo, hi = s0.facts.rng(y)
            u = t.fresh('u', 64)
            return u, y, t.add(t.const(lo, 64), t.add(u, t.mulc(k, rho))), rho
        raise Limit('no decreasing quantity found for the loop (termination)')

    def install(self, M, g, k, u, v, vexp, ustep, iv, s0, key, hav=None):
        if v is not None:
            mp = {v: vexp}
            self.subst_state(g, mp)
        inv = Invariant(key, g, k, None, iv, u, ustep, s0)
        inv.v, inv.vexp = v, vexp
        self.invs.setdefault(key, []).append(inv)
        self.start(M, inv)
        return inv

    def subst_state(self, g, mp):
        memo = {}
        g.token = object()

        def sv(x):
            if x.__class__ is tuple:
                return tuple(sv(y) for y in x)
            return t.subst(x, mp, memo)
        for fr in g.frames:
            fr.regs = {r: (sv(v) if r[0] != '#' else v) for r, v in fr.regs.items()}
        for oid, o in list(g.mem.items()):
            if o.kind == 'global':
                continue
            o2 = g.wobj(oid)
            o2.cells = {i: (sv(x), j) for i, (x, j) in o.cells.items()}
            for a in ('size', 'pos0', 'lo'):
                x = getattr(o2, a)
                if isinstance(x, t.T):
                    setattr(o2, a, sv(x))
        for n, x in g.ghost.items():
            if isinstance(x, t.T):
                g.ghost[n] = sv(x)

    def base_facts(self, inv):
        F = Facts()
        for x, (a, b) in inv.iv.items():
            if x is not inv.v:
                F.set_range(x, a, b)
        lo, hi = inv.iv[inv.v]
        F.set_range(inv.u, 0, hi - lo)
        F.set_range(inv.k, 0, (hi - lo) // inv.ustep)
        F.set_range(inv.vexp, lo, hi)
        return F

    def start(self, M, inv):
        """explore from an arbitrary state satisfying the invariant"""
        st = inv.state.copy()
        try:
            st.facts = self.base_facts(inv)
        except Infeasible:
            raise Limit('invariant facts contradictory')
        st.cuts = tuple(c for c in st.cuts if c[0] != inv.id) + ((inv.id, inv.version),)
        st.prog = 0
        M.extra_work.append(st)
        M.n['loops_cut'] += 1

    # ------------------------------------------------------------- matching
    def compare(self, M, st, g, mp, inv, mode):
        """st is an instance of g under the substitution mp; returns mismatches"""
        memo = {}
        F = st.facts
        bad = []

        def sv(x):
            return t.subst(x, mp, memo)
        fixed = {y: t.const(lo, y.w) for y, (lo, hi) in F.iv.items() if y.op == 's' and lo == hi}
        m2 = {}

        def same(a, b):
            if a is b:
                return True
            if fixed:
                a, b = t.subst([a, b], fixed, m2)
                if a is b:
                    return True
            return None

        def cmpv(where, a, b):
            if a.__class__ is tuple:
                for i, (x, y) in enumerate(zip(a, b)):
                    cmpv(where + (i,), x, y)
                return
            e = sv(b)
            if e.op == 's' and e in inv.hav:
                return
            if same(a, e):
                return
            bad.append((where, a, e))
        hv = inv.hav
        for i, (fs, fg) in enumerate(zip(st.frames, g.frames)):
            for r, v in fg.regs.items():
                if r[0] == '#':
                    continue
                x = fs.regs.get(r)
                if x is None:
                    bad.append((('reg', i, r), None, v))
                    continue
                if self.is_hv(v):
                    continue
                cmpv(('reg', i, r), x, v)
        for oid, og in g.mem.items():
            if og.kind == 'global':
                continue
            os = st.mem.get(oid)
            if os is None:
                raise Limit('object %s missing at the loop header' % og.name)
            if os.cells is og.cells:
                continue
            for off, (x, n) in cells_words(og.cells).items():
                if self.is_hv(x):
                    continue
                y = reads(os.cells, off, n)
                if y is None:
                    bad.append((('mem', oid, off, n), None, x))
                    continue
                e = sv(x)
                if not same(y, e):
                    if n > 1:
                        anyb = False
                        for i in range(n):
                            yb, eb = reads(os.cells, off + i, 1), t.ext(e, 8 * i, 8)
                            if not same(yb, eb):
                                bad.append((('mem', oid, off + i, 1), yb, eb))
                                anyb = True
                        if not anyb:
                            continue
                    else:
                        bad.append((('mem', oid, off, n), y, e))
            for a in ('size', 'pos0', 'lo'):
                x, y = getattr(os, a), getattr(og, a)
                if isinstance(y, t.T):
                    if a == 'lo' and mode == 'entry' and not same(x, sv(y)):
                        self.pend.append((inv, oid, x))
                        continue
                    if not same(x, sv(y)):
                        raise Limit('object %s changed shape at the loop header' % og.name)
        for n, x in g.ghost.items():
            if isinstance(x, t.T):
                if not same(st.ghost[n], sv(x)):
                    bad.append((('ghost', n), st.ghost[n], sv(x)))
        return bad

    def is_hv(self, v):
        return v.__class__ is not tuple and v.op == 's' and isinstance(v.d, str) and v.d.startswith('hv:')

    def prove_rest(self, st, bad):
        left = []
        for where, a, e in bad:
            if a is not None and a.w == e.w and st.facts.proves_eq(a, e, 3000):
                continue
            left.append((where, a, e))
        return left

    def instance(self, M, st, inv):
        """does the arriving state satisfy the invariant at k = 0?"""
        mp = {inv.k: t.const(0, 64)}
        if inv.u is not None:
            lo, hi = inv.iv[inv.v]
            a, b = st.facts.rng(inv.v)
            if a < lo or b > hi:
                return False
            mp[inv.u] = t.sub(inv.v, t.const(lo, 64))
        for x, (lo, hi) in inv.iv.items():
            a, b = st.facts.rng(x)
            if a < lo or b > hi:
                return False
        self.pend = []
        bad = self.compare(M, st, inv.state, mp, inv, 'entry')
        if bad and any(w[0] == 'ghost' for w, _, _ in bad):
            return False
        bad = self.prove_rest(st, bad)
        if bad:
            # widen the invariant when only cells without ghost data differ
            if inv.version < self.max_widen and all(self.can_havoc(a, e) for _, a, e in bad):
                self.widen(M, inv, bad)
            else:
                return False
        self.deferred += [(i, oid, x) for i, oid, x in self.pend]
        return True

    def can_havoc(self, a, e):
        """never give up pointers or chaining values"""
        for x in (a, e):
            if x is None:
                continue
            if x.w == 64 and (self.M.bases_in(x)):
                return False
            for y in t.topo([x]):
                if y.op == 'uf' and y.d[0] == 'chain':
                    return False
        return True

    def check_back(self, M, st, inv):
        mp = {inv.k: t.add(inv.k, t.const(1, 64))}
        ok = True
        if inv.u is not None:
            un = t.sub(inv.u, t.const(inv.ustep, 64))
            mp[inv.u] = un
            # u - step >= 0
            c = t.ule(t.const(inv.ustep, 64), inv.u)
            if st.facts.decide(c) != 1:
                ok = False
        bad = self.compare(M, st, inv.state, mp, inv, 'back')
        if bad:
            bad = self.prove_rest(st, bad)
        if not ok:
            inv.alive = False
            raise Limit('the remaining amount of the loop may underflow: no inductive invariant found')
        if bad:
            if any(w[0] == 'ghost' for w, _, _ in bad) or not all(self.can_havoc(a, e) for _, a, e in bad):
                w, a, e = next((b for b in bad if b[0][0] == 'ghost' or not self.can_havoc(b[1], b[2])))
                raise Limit('loop invariant not inductive at %r: %s vs %s' % (w, t.show(a)[:200] if a is not None else None, t.show(e)[:200]))
            self.widen(M, inv, bad)
            return
        inv.proved_back += 1

    def widen(self, M, inv, bad):
        inv.version += 1
        if inv.version > self.max_widen:
            raise Limit('invariant inference does not converge')
        g = inv.state.copy()
        for where, a, e in bad:
            if where[0] == 'reg':
                fr = g.frames[where[1]]
                r = where[2]
                if len(where) > 3:
                    fr.regs[r] = _setin(fr.regs[r], where[3:], t.fresh('hv:' + r, e.w))
                elif a is None:
                    fr.regs.pop(r, None)
                else:
                    fr.regs[r] = t.fresh('hv:' + r, e.w)
            else:
                _, oid, off, n = where
                o = g.wobj(oid)
                if a is None:
                    for i in range(n):
                        o.cells.pop(off + i, None)
                else:
                    hv = t.fresh('hv:%s+%d' % (o.name, off), 8 * n)
                    for i in range(n):
                        o.cells[off + i] = (hv, i)
        inv.state = g
        inv.proved_back = 0
        self.start(M, inv)

    def note_low(self, st, o, off):
        """positions read below which nothing may be read, per variable part"""
        from .facts import keyof
        key, c, sg = keyof(off)
        cs = c - (1 << 64) if c >> 63 else c
        for iid, ver in st.cuts:
            d = self.low.setdefault((iid, ver, o.id), {})
            k = (key, sg)
            if k not in d or cs < d[k][0]:
                d[k] = (cs, off)

    def settle(self):
        """lower bounds of the inputs of arrivals covered by a shared invariant"""
        todo, self.deferred = self.deferred, []
        done = set()
        for inv, oid, lo in todo:
            key = (inv.id, inv.version, oid, lo)
            if key in done or not inv.alive:
                continue
            done.add(key)
            F = self.base_facts(inv)
            lo = t.subst(lo, {inv.v: inv.vexp})
            for cs, off in self.low.get((inv.id, inv.version, oid), {}).values():
                c = t.ule(lo, off)
                if F.decide_fast(c) != 1 and F.sat(t.not_(c), 4000) != 'unsat':
                    inv.alive = False
                    raise Limit('lower bound of the input not preserved by the shared loop invariant: %s vs %s' % (t.show(lo), t.show(off)))

    def stale(self, st):
        for iid, ver in st.cuts:
            inv = self.byid(iid)
            if inv is not None and (inv.version != ver or not inv.alive):
                return True
        return False


def _setin(agg, idx, v):
    if not idx:
        return v
    return agg[:idx[0]] + (_setin(agg[idx[0]], idx[1:], v),) + agg[idx[0] + 1:]
