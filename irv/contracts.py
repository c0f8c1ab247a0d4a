"""Function contracts of the compression layer.

A function of the extracted code whose pointer arguments have the footprint of
one of the roles below is put under contract: its body is executed once on
arbitrary memory contents, and the proof obligation is that everything it
writes is what the role's specification says, for all contents.  Callers are
then checked against the contract (an uninterpreted specification function),
not against the body.  Functions that have no role are executed in place.

Ghost state: chain_i(g) is the specification's chaining value after absorbing
the first g bytes of the ghost message M; its defining equations
(chain(0) = initial value, chain(g+B) = step(chain(g), M[g..g+B))) are applied
when a step term is built."""
import time
from . import terms as t
from . import specs
from . import sweep
from .execu import Split, PathEnd, Limit, Outcome
from .facts import Infeasible

MID = 1 << 20
LOG = {'tried': 0, 'proved': [], 'refuted': [], 'unknown': [], 'time': 0.0, 'applied': 0}


class Family:
    """one hash construction: block size, state words, ghost chain"""

    def __init__(self, kind, w, block, nst, iv=None, order='be'):
        self.kind = kind        # 'sha2' 'keccak' 'xx'
        self.w = w
        self.wb = w // 8
        self.B = block
        self.n = nst
        self.iv = iv            # list of terms (chain at 0), may be symbolic
        self.order = order

    def words(self, bs):
        return specs.be_words(bs, self.wb) if self.order == 'be' else specs.le_words(bs, self.wb)


CUR = {'fam': None, 'arr': 'M'}


def chain(i, pos, arr=None):
    """ghost chaining value word i after pos bytes"""
    fam = CUR['fam']
    arr = arr or CUR['arr']
    if pos.op == 'c' and pos.d == 0:
        return fam.iv[i]
    return t.uf(('chain', arr, i), fam.w, (pos,))


def _chain_hook(d, w, a):
    return chain(d[2], a[0], d[1])


def chain_pos(x, i):
    """x is chain_i(g) -> (arr, g)"""
    if x.op == 'uf' and x.d[0] == 'chain' and x.d[2] == i:
        return x.d[1], x.a[0]
    return None


def msg_bytes(ws, order, wb):
    """words -> byte terms in message order"""
    out = []
    for x in ws:
        bs = [t.ext(x, 8 * k, 8) for k in range(wb)]
        out += bs[::-1] if order == 'be' else bs
    return out


def _consecutive(bs, arr, g):
    for k, b in enumerate(bs):
        if b.op != 'M' or b.d != arr or t.sub(b.a[0], g) is not t.const(k, 64):
            return False
    return True


def _head(H, bs):
    """H = chain(g) and bs = M[g..g+B) -> (arr, g)"""
    fam = CUR['fam']
    b0 = bs[0]
    if b0.op != 'M':
        return None
    arr, g = b0.d, b0.a[0]
    if not _consecutive(bs, arr, g):
        return None
    for i, h in enumerate(H):
        if h is not chain(i, g, arr):
            return None
    return arr, g


def mk_step(kind, w, H, ws):
    """specification step: state words and message words -> new state words"""
    fam = CUR['fam']
    n = len(H)
    if fam is not None and kind == fam.kind and w == fam.w and kind in ('sha2', 'xx'):
        r = _head(H, msg_bytes(ws, fam.order, fam.wb))
        if r:
            return [chain(i, t.add(r[1], t.const(fam.B, 64)), r[0]) for i in range(n)], True
    if kind == 'xx':
        return [t.uf(('xxround', w), w, (h, x)) for h, x in zip(H, ws)], False
    return [t.uf((kind + 'step', w, i), w, tuple(H) + tuple(ws)) for i in range(n)], False


def mk_sched(w, ws):
    n = 64 if w == 32 else 80
    return list(ws) + [t.uf(('sched', w, i), w, tuple(ws)) for i in range(16, n)]


def mk_rounds(w, H, W):
    m = tuple(W[:16])
    for i in range(16, len(W)):
        x = W[i]
        if not (x.op == 'uf' and x.d == ('sched', w, i) and x.a == m):
            return [t.uf(('rounds', w, i), w, tuple(H) + tuple(W)) for i in range(8)], False
    return mk_step('sha2', w, H, W[:16])


def mk_kf(lanes):
    fam = CUR['fam']
    x = lanes[0]
    if x.op == 'uf' and x.d == ('sq', 0):
        # the squeeze states: sq(h+1) = keccak_f(sq(h)) by definition
        h = x.a[0]
        if all(y.op == 'uf' and y.d == ('sq', i) and y.a[0] is h for i, y in enumerate(lanes)):
            return [t.uf(('sq', i), 64, (t.add(h, t.const(1, 64)),)) for i in range(25)], True
    if fam is not None and fam.kind == 'keccak':
        nl = fam.B // 8
        r = None
        last = lanes[24]
        cp = chain_pos(last, 24)
        if cp:
            arr, g = cp
        elif last is fam.iv[24] and lanes[0].a:
            arr, g = None, t.const(0, 64)
            for x in t.topo([lanes[0]]):
                if x.op == 'M':
                    arr = x.d
        else:
            arr = None
        if arr is not None and all(lanes[i] is chain(i, g, arr) for i in range(nl, 25)):
            bs = []
            for i in range(nl):
                x = t.xor(lanes[i], chain(i, g, arr))
                bs += [t.ext(x, 8 * k, 8) for k in range(8)]
            if _consecutive(bs, arr, g):
                return [chain(i, t.add(g, t.const(fam.B, 64)), arr) for i in range(25)], True
    return [t.uf(('kf', i), 64, tuple(lanes)) for i in range(25)], False


t.UFHOOK['chain'] = _chain_hook


def _rehook(d, w, a):
    """re-apply the defining equations after a substitution"""
    if d[0] == 'sha2step':
        return mk_step('sha2', d[1], list(a[:8]), list(a[8:]))[0][d[2]]
    if d[0] == 'kf':
        return mk_kf(list(a))[0][d[1]]
    raise KeyError(d)


t.UFHOOK['sha2step'] = _rehook
t.UFHOOK['kf'] = _rehook


# ------------------------------------------------------------------- roles
class Role:
    def __init__(self, name, kind, w, nin, nst, nout, advances):
        self.name, self.kind, self.w, self.nin, self.nst, self.nout = name, kind, w, nin, nst, nout
        self.advances = advances


ROLES = [
    Role('message schedule (FIPS 180-4 6.2.2 step 1, 32 bit)', 'sched', 32, 64, 0, 256, False),
    Role('message schedule (FIPS 180-4 6.4.2 step 1, 64 bit)', 'sched', 64, 128, 0, 640, False),
    Role('64 rounds and state addition (FIPS 180-4 6.2.2 steps 2-4)', 'rounds', 32, 256, 32, 32, True),
    Role('80 rounds and state addition (FIPS 180-4 6.4.2 steps 2-4)', 'rounds', 64, 640, 64, 64, True),
    Role('compression of one block (FIPS 180-4 6.2.2)', 'step', 32, 64, 32, 32, True),
    Role('compression of one block (FIPS 180-4 6.4.2)', 'step', 64, 128, 64, 64, True),
    Role('Keccak-f[1600] (FIPS 202 3.3)', 'kf', 64, 0, 200, 200, True),
    Role('XXH32 lane round', 'xx', 32, 16, 16, 16, True),
    Role('XXH64 lane round', 'xx', 64, 32, 32, 32, True),
]


def _runs(offs):
    """sorted set of offsets -> list of (start, length)"""
    out = []
    for o in sorted(offs):
        if out and out[-1][0] + out[-1][1] == o:
            out[-1][1] += 1
        else:
            out.append([o, 1])
    return [(a, b) for a, b in out]


class Leaf:
    """a proved function contract"""
    __slots__ = ('role', 'src', 'state', 'out', 'order', 'w', 'how', 'ret')


class LeafContracts:
    def __init__(self, M, families=None, budget=20):
        self.M = M
        self.cache = {}
        self.weight = {}
        self.budget = budget
        self.enabled = True
        self.used = set()
        self.fails = {}

    # ---- static filter
    def heavy(self, fname, seen=None):
        v = self.weight.get(fname)
        if v is not None:
            return v
        seen = seen if seen is not None else set()
        f = self.M.m.funcs.get(fname)
        if f is None or fname in seen:
            return 0
        seen.add(fname)
        tx = f.text
        n = 0
        for k in (' xor ', ' mul ', 'fshl', 'fshr', ' lshr ', ' shl ', ' and '):
            n += tx.count(k)
        blocks, _ = self.M.prep(f)
        for b in blocks.values():
            for op, res, a in b:
                if op in ('call', 'invoke') and a[1].__class__ is str and a[1] in self.M.m.funcs:
                    n += self.heavy(a[1], seen)
        self.weight[fname] = n
        return n

    def __call__(self, M, st, fname, args):
        if not self.enabled:
            return None
        f = M.m.funcs.get(fname)
        if f is None or self.heavy(fname) < 8:
            return None
        # argument pattern
        pat = []
        ptrs = []
        groups = {}
        for (ty, nm, info), x in zip(f.params, args):
            if x.__class__ is tuple:
                return None
            if M.m.rt(ty) == 'ptr':
                if x.op == 'c':
                    return None
                try:
                    o, off = M.resolve(st, x)
                except (Split, PathEnd, Limit):
                    return None
                if off.op != 'c' and o.kind != 'input':
                    return None
                g = groups.get(o.id)
                if g is None:
                    g = groups[o.id] = (len(groups), off, o)
                    pat.append(('p', g[0], 0))
                else:
                    d = t.sub(off, g[1])
                    if d.op != 'c':
                        return None
                    pat.append(('p', g[0], d.d))
                ptrs.append((o, off))
            else:
                if x.op != 'c':
                    return None
                pat.append(('c', x.d, x.w))
        if not groups:
            return None
        key = (fname, tuple(pat))
        leaf = self.cache.get(key, 0)
        if leaf == 0:
            if self.fails.get(fname, 0) >= 4:
                return None
            t0 = time.time()
            leaf = self.cache[key] = self.prove(fname, f, pat, len(groups))
            LOG['time'] += time.time() - t0
            if leaf is None:
                self.fails[fname] = self.fails.get(fname, 0) + 1
            else:
                self.fails[fname] = -1000
        if leaf is None:
            return None
        return self.apply(M, st, leaf, {g[0]: (g[2], g[1]) for g in groups.values()})

    # ---- proof of one function
    def prove(self, fname, f, pat, ngroups):
        M = self.M
        LOG['tried'] += 1
        st = M.new_state()
        objs = []
        inits = []
        for k in range(ngroups):
            o = M.new_obj(st, 'lazy', None, 'ctr%d' % k)
            made = {}

            def init(off, n=1, k=k, made=made):
                x = t.sym('in!%d!%d!%d' % (k, off, n), 8 * n)
                for i in range(n):
                    made[off + i] = t.ext(x, 8 * i, 8)
                return x
            o.init = init
            o.rd = set()
            o.wr = set()
            objs.append(o)
            inits.append((made, init))
        args = []
        for p in pat:
            if p[0] == 'p':
                d = p[2] - (1 << 64) if p[2] >> 63 else p[2]
                args.append(t.add(objs[p[1]].base, t.const(MID + d, 64)))
            else:
                args.append(t.const(p[1], p[2]))
        hooks, M.hooks = M.hooks, [self]
        cutter, M.cutter = M.cutter, None
        dl, M.deadline = M.deadline, time.time() + self.budget
        try:
            fr0 = M.m.funcs[fname]
            M.push(st, fr0, args)
            work = []
            try:
                while True:
                    out = M.step_block(st)
                    if out is not None:
                        break
            except (Split, PathEnd, Limit, Infeasible):
                return None
        finally:
            M.hooks = hooks
            M.cutter = cutter
            M.deadline = dl
        if out.kind != 'ret' or (out.val is not None and out.val.__class__ is tuple):
            return None
        # footprints
        cand = []
        fin = [st.mem[o.id] for o in objs]
        ret = out.val
        if ret is not None:
            # a returned pointer into an argument is fine
            rp = None
            for k, o in enumerate(objs):
                d = t.sub(ret, o.base) if ret.w == 64 else None
                if d is not None and d.op == 'c':
                    rp = (k, d.d - MID)
            if rp is None:
                return None
            ret = rp
        rd = [_runs([x for x in inits[k][0]]) for k in range(ngroups)]
        wr = [_runs(fin[k].wr) for k in range(ngroups)]
        wtot = [(k, a, n) for k in range(ngroups) for a, n in wr[k]]
        rtot = [(k, a, n) for k in range(ngroups) for a, n in rd[k]]
        if len(wtot) != 1:
            return None
        wk, wa, wn = wtot[0]
        for role in ROLES:
            leaf = self.match(fname, role, wk, wa, wn, rtot, fin, inits)
            if leaf is not None:
                leaf.ret = ret
                self.used.add((fname, role.name))
                return leaf
        return None

    def initial(self, inits, k, a, n):
        made, init = inits[k]
        out = []
        for i in range(n):
            x = made.get(a + i)
            if x is None:
                x = init(a + i, 1)
                x = made[a + i]
            out.append(x)
        return out

    def match(self, fname, role, wk, wa, wn, rtot, fin, inits):
        wb = role.w // 8
        M = self.M

        def final(k, a, n, m=wb):
            o = fin[k]
            st = _Shim(fin)
            return [M.load_at(st, o, t.const(a + i, 64), m) for i in range(0, n, m)]
        src = state = None
        if role.kind == 'sched':
            if wn == role.nout and len(rtot) == 1 and rtot[0][2] == role.nin:
                src = (rtot[0][0], rtot[0][1])
                out = (wk, wa)
                whole = True
            elif wn == role.nout - role.nin and len(rtot) == 1 and rtot[0][2] == role.nin and (rtot[0][0], rtot[0][1] + role.nin) == (wk, wa):
                src = (rtot[0][0], rtot[0][1])
                out = (wk, wa)
                whole = False
            else:
                return None
            if src[0] == wk and whole:
                return None
            ib = self.initial(inits, src[0], src[1], role.nin)
            S = specs.Sha2(role.w)
            got = final(wk, wa, wn)
            for order in ('be', 'le'):
                ws = specs.be_words(ib, wb) if order == 'be' else specs.le_words(ib, wb)
                exp = S.schedule(ws)
                if not whole:
                    exp = exp[16:]
                alt = mk_sched(role.w, ws)
                leaf = self.conclude(fname, role, got, exp, alt if whole else alt[16:])
                if leaf:
                    leaf.src, leaf.state, leaf.out, leaf.order = src, None, (wk, wa, whole), order
                    return leaf
            return None
        if wn != role.nout:
            return None
        # state: read and written at the same place; source: one more range
        rest = []
        ok = False
        for k, a, n in rtot:
            if (k, a, n) == (wk, wa, role.nst):
                ok = True
            elif k == wk and a <= wa and wa + role.nst <= a + n:
                # adjacent to the source in the same object
                ok = True
                if a < wa:
                    rest.append((k, a, wa - a))
                if wa + role.nst < a + n:
                    rest.append((k, wa + role.nst, a + n - wa - role.nst))
            else:
                rest.append((k, a, n))
        if not ok:
            return None
        if role.nin == 0:
            if rest:
                return None
        else:
            if len(rest) != 1 or rest[0][2] != role.nin:
                return None
            src = (rest[0][0], rest[0][1])
        state = (wk, wa)
        H = specs.le_words(self.initial(inits, wk, wa, role.nst), wb)
        got = final(wk, wa, role.nst)
        orders = ['le'] if role.kind in ('rounds', 'kf') else ['be', 'le']
        for order in orders:
            if src:
                ib = self.initial(inits, src[0], src[1], role.nin)
                ws = specs.be_words(ib, wb) if order == 'be' else specs.le_words(ib, wb)
            alt = None
            if role.kind == 'rounds':
                exp = specs.Sha2(role.w).compress(H, ws)
                alt, _ = mk_rounds(role.w, H, ws)
            elif role.kind == 'step':
                exp = specs.Sha2(role.w).step(H, ws)
                alt, _ = mk_step('sha2', role.w, H, ws)
            elif role.kind == 'kf':
                exp = specs.keccak_f(H)
                alt, _ = mk_kf(H)
            elif role.kind == 'xx':
                exp = specs.XX(role.w).step(H, ws)
                alt, _ = mk_step('xx', role.w, H, ws)
            leaf = self.conclude(fname, role, got, exp, alt)
            if leaf:
                leaf.src, leaf.state, leaf.out, leaf.order = src, state, (wk, wa, True), order
                return leaf
        return None

    def conclude(self, fname, role, got, exp, alt=None):
        if alt is not None and all(a is b for a, b in zip(got, alt)):
            r, info = 'proved', None    # by the callee's contract
        elif any(x.op == 'uf' for x in t.topo(got)):
            r, info = 'unknown', None
        else:
            r, info = sweep.equal(got, exp, budget=60)
        if r == 'proved':
            leaf = Leaf()
            leaf.role = role
            leaf.w = role.w
            leaf.ret = None
            LOG['proved'].append((fname, role.name, len(got)))
            return leaf
        if r == 'refuted':
            env, i = info
            LOG['refuted'].append((fname, role.name, i))
        else:
            LOG['unknown'].append((fname, role.name))
        return None

    # ---- use at a call site
    def apply(self, M, st, leaf, objs):
        role = leaf.role
        wb = leaf.w // 8

        def at(k, a):
            o, off = objs[k]
            return o, t.add(off, t.const(a - MID, 64))

        def rd(k, a, n):
            o, off = at(k, a)
            o = st.mem.get(o.id, o)
            M.check_bounds(st, o, off, n, False)
            out = []
            for i in range(0, n, wb):
                o = st.mem.get(o.id, o)
                out.append(M.load_at(st, o, t.add(off, t.const(i, 64)), wb))
            return out

        def wr(k, a, ws):
            o, off = at(k, a)
            for i, x in enumerate(ws):
                M.store(st, t.add(t.add(o.base, off), t.const(i * wb, 64)), x)
        ws = None
        if leaf.src:
            ws = rd(leaf.src[0], leaf.src[1], role.nin)
            if leaf.order == 'be':
                ws = [t.bswap(x) for x in ws]
        adv = False
        if role.kind == 'sched':
            out = mk_sched(leaf.w, ws)
            if leaf.out[2]:
                wr(leaf.out[0], leaf.out[1], out)
            else:
                wr(leaf.out[0], leaf.out[1], out[16:])
        else:
            H = rd(leaf.state[0], leaf.state[1], role.nst)
            if role.kind == 'rounds':
                out, adv = mk_rounds(leaf.w, H, ws)
            elif role.kind == 'step':
                out, adv = mk_step('sha2', leaf.w, H, ws)
            elif role.kind == 'xx':
                out, adv = mk_step('xx', leaf.w, H, ws)
            else:
                out, adv = mk_kf(H)
            wr(leaf.out[0], leaf.out[1], out)
        if adv:
            st.prog = (st.prog or 0) + 1
        LOG['applied'] += 1
        if leaf.ret is not None:
            k, d = leaf.ret
            o, off = objs[k]
            return (t.add(o.base, t.add(off, t.const(d, 64))),)
        return (None,)


class _Shim:
    """state lookalike for reading final contents"""

    def __init__(self, fin):
        self.mem = {o.id: o for o in fin}

    def wobj(self, oid):
        return self.mem[oid]
