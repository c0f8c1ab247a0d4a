"""Contracts of one incremental hasher: class invariant R(q, bu) relating the
object to the ghost message M, contracts of constructor, update and final."""
import time
from . import terms as t
from . import specs
from . import contracts as C
from . import loopcut as LC
from . import antiunify as au
from .execu import Machine, Limit, PathEnd, Split, Outcome
from .facts import Facts, Infeasible, STATS
from . import smt

QMAX = 1 << 61


# ------------------------------------------------------------------- specs
class HashSpec:
    def __init__(self, name, kind, w, block, digest, iv=None, suffix=0, lenbytes=8, seed=None):
        self.name, self.kind, self.w, self.B, self.digest = name, kind, w, block, digest
        self.suffix = suffix
        self.lenbytes = lenbytes
        if kind == 'sha2':
            self.fam = C.Family('sha2', w, block, 8, [t.const(x, w) for x in iv], 'be')
        elif kind == 'keccak':
            self.fam = C.Family('keccak', 64, block, 25, [t.const(0, 64)] * 25, 'le')
        else:
            self.seed = t.sym('seed', w) if seed is None else t.const(seed, w)
            self.X = specs.XX(w)
            self.fam = C.Family('xx', w, block, 4, self.X.init(self.seed), 'le')

    def activate(self):
        C.CUR['fam'] = self.fam

    def M(self, pos, arr='M'):
        return t.sel(arr, pos)

    def digest_terms(self, q, bu, n=None, short=None, arr='M'):
        """digest bytes of M[0 .. B*q+bu) by the standard; q term, bu number"""
        B = self.B
        g = t.mulc(q, B)
        tail = [self.M(t.add(g, t.const(i, 64)), arr) for i in range(bu)]
        n = self.digest if n is None else n
        H = [C.chain(i, g, arr) for i in range(self.fam.n)]
        if self.kind == 'sha2':
            T8 = t.mulc(t.add(g, t.const(bu, 64)), 8)
            ln = [t.const(0, 8)] * (self.lenbytes - 8) + specs.be_bytes(T8)
            bs = tail + [t.const(0x80, 8)]
            bs += [t.const(0, 8)] * ((-len(bs) - self.lenbytes) % B) + ln
            for i in range(0, len(bs), B):
                H, _ = C.mk_step('sha2', self.w, H, self.fam.words(bs[i:i + B]))
            out = []
            for x in H:
                out += specs.be_bytes(x)
            return out[:n]
        if self.kind == 'keccak':
            bs = tail + [t.const(self.suffix, 8)] + [t.const(0, 8)] * (B - bu - 1)
            bs[-1] = t.xor(bs[-1], t.const(0x80, 8))
            ws = specs.le_words(bs, 8)
            H = [t.xor(h, ws[i]) if i < len(ws) else h for i, h in enumerate(H)]
            H, _ = C.mk_kf(H)
            out = []
            while True:
                for x in H[:B // 8]:
                    out += specs.le_bytes(x)
                if len(out) >= n:
                    return out[:n]
                H, _ = C.mk_kf(H)
        X = self.X
        w = self.w
        h = t.add(self.seed, t.const(X.P[4], w)) if short else X.converge(H)
        T = t.add(g, t.const(bu, 64))
        h = t.add(h, t.trunc(T, w) if w < 64 else T)
        h = X.avalanche(X.remainder(h, tail))
        return specs.be_bytes(h)


class Obl:
    """one proof obligation and its verdict"""

    def __init__(self, name, ok, detail='', model=None):
        self.name = name
        self.ok = ok            # True discharged / False failed / None undecided
        self.detail = detail
        self.model = model

    def __repr__(self):
        return '%s %s %s' % ({True: 'discharged', False: 'FAILED', None: 'undecided'}[self.ok], self.name, self.detail)


class HashUnit:
    """proves the contracts of one hasher type in one extracted module"""

    def __init__(self, text, spec, size, fns, machine=None):
        self.spec = spec
        self.M = machine or Machine(text)
        self.leaf = C.LeafContracts(self.M)
        self.M.hooks.append(self.leaf)
        self.cut = LC.Cutter(self.M)
        self.M.cutter = self.cut
        self.size = size
        self.fn = fns           # ctor / update / final names
        self.obls = []
        self.templates = {}
        self._inst = {}         # instances of the invariant (terms are hash-consed)
        self.q = t.sym('q', 64)
        self.d = t.sym('d', 64)
        self.f = t.sym('f', 64)
        self.n_paths = 0

    def guarded(self, name, fn, *a, **k):
        """run one proof; what the engine cannot handle is undecided"""
        try:
            return fn(*a, **k)
        except Limit as e:
            self.M.extra_work = []
            self.obls.append(Obl(name, None, 'engine limit: %s' % (e,)))
        except (Split, PathEnd, Infeasible) as e:
            self.obls.append(Obl(name, None, 'engine: %r' % (e,)))
        except (KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, NotImplementedError, RecursionError) as e:
            import traceback
            self.obls.append(Obl(name, None, 'engine error: %s %s' % (e.__class__.__name__, traceback.format_exc()[-600:])))

    # ---------------------------------------------------------------- running
    def explore(self, mk, budget=None):
        """run mk() -> (state, fname, args) to the end of every path; outcomes"""
        M = self.M
        self.spec.activate()
        for attempt in range(12):
            st, fname, args = mk()
            outs = []
            try:
                M.extra_work = []
                for o in M.run(st, fname, args):
                    outs.append((o, o.state.cuts))
                M.extra_work = []
                self.cut.settle()
            except LC.Restart:
                continue
            res = []
            for o, cuts in outs:
                o.state.cuts = cuts
                if self.cut.stale(o.state):
                    continue
                res.append(o)
            return res
        raise Limit('loop discovery does not settle')

    def fresh_this(self, st, cells=None):
        o = self.M.new_obj(st, 'arg', self.size, 'this', ident=('this',))
        if cells:
            o.cells = dict(cells)
        return o

    def input(self, st, lo, hi, arr='M'):
        o = self.M.new_obj(st, 'input', None, 'in', ident=('in', arr))
        o.writable = False
        o.arr = arr
        o.pos0 = t.const(0, 64)
        o.lo = lo
        o.size = hi
        return o

    # ------------------------------------------------------------- invariant
    def constructed(self):
        def mk():
            st = self.M.new_state()
            o = self.fresh_this(st)
            return st, self.fn['ctor'], [o.base] + self.ctor_args()
        outs = self.explore(mk)
        if len(outs) != 1 or outs[0].kind != 'ret':
            self.conc_fail.append(('constructor', [(o.kind, o.msg) for o in outs]))
            return None
        return dict(outs[0].state.mem[self.M.ident[('this',)]].cells)

    def concrete(self, prev, T, d, lo=0):
        """objects after an update that takes a message of T bytes, with object
        contents prev, to d blocks and f further bytes: {f: cells}"""
        if prev is None:
            return {}
        B = self.spec.B
        f = self.f

        def mk():
            st = self.M.new_state()
            o = self.fresh_this(st, prev)
            E = t.add(t.const(B * d, 64), f)
            i = self.input(st, t.const(T, 64), E)
            st.facts.set_range(f, lo, B - 1)
            return st, self.fn['update'], [o.base, t.add(i.base, t.const(T, 64)), t.sub(E, t.const(T, 64))]
        en, self.cut.enabled = self.cut.enabled, False
        try:
            outs = self.explore(mk)
        finally:
            self.cut.enabled = en
        oid = self.M.ident[('this',)]
        res = {}
        for o in outs:
            if o.kind != 'ret':
                if not self.conc_fail:
                    self.conc_fail.append(('%d bytes, then up to %d blocks and f bytes' % (T, d), (o.kind, o.msg, o.state.facts.rng(f))))
                continue
            a, b = o.state.facts.rng(f)
            for v in range(a, b + 1):
                if a != b:
                    s2 = o.state.facts.copy()
                    try:
                        s2.set_range(f, v, v)
                    except Infeasible:
                        continue
                    if s2.sat(None, 3000) == 'unsat':
                        continue
                mp = {f: t.const(v, 64)}
                memo = {}
                res[v] = {k: (t.subst(x, mp, memo), i) for k, (x, i) in o.state.mem[oid].cells.items()}
        return res

    def ctor_args(self):
        return [self.spec.seed] if self.spec.kind == 'xx' else []

    def infer(self):
        """templates R(q, bu) for every fill level of the partial block"""
        self.conc_fail = []
        B = self.spec.B
        k = t.sym('q-1', 64)
        c = self.constructed()
        one = self.concrete(c, 0, 0)
        A1 = self.concrete(c, 0, 1)
        A2 = self.concrete(c, 0, 2)
        A3 = self.concrete(one.get(1), 1, 1)
        A4 = self.concrete(one.get(B - 1), B - 1, 1)
        A5 = self.concrete(A1.get(0), B, 1)
        A6 = self.concrete(one.get(1), 1, 0, 1)
        A7 = self.concrete(one.get(B // 2), B // 2, 0, B // 2)
        for bu in range(B):
            c0 = [one.get(bu)]
            if bu == 0:
                c0.append(c)
            if bu >= 1:
                c0.append(A6.get(bu))
            if bu >= B // 2:
                c0.append(A7.get(bu))
            c1 = [A1.get(bu), A3.get(bu), A4.get(bu), A5.get(bu)]
            c2 = [A2.get(bu)]
            if any(x is None for x in c0 + c1 + c2):
                self.obls.append(Obl('class invariant base cases at fill %d' % bu, False, str(self.conc_fail[:1])))
                self.templates[bu] = None
                continue
            tm = {}
            for off, (x, n) in LC.cells_words(c1[0]).items():
                y = LC.reads(c2[0], off, n)
                if y is None:
                    continue
                G = au.gen(x, y, k)
                pieces = [(off, n, x, y)]
                if G is None:
                    if n == 1:
                        continue
                    pieces = [(off + i, 1, LC.reads(c1[0], off + i, 1), LC.reads(c2[0], off + i, 1)) for i in range(n)]
                for po, pn, px, py in pieces:
                    G = au.gen(px, py, k)
                    if G is None:
                        continue
                    self.try_cell(tm, po, pn, G, k, c0, c1)
            self.templates[bu] = tm

    def try_cell(self, tm, off, n, G, k, c0, c1):
        R = t.subst(G, {k: t.sub(self.q, t.const(1, 64))})
        at1 = t.subst(R, {self.q: t.const(1, 64)})
        at0 = t.subst(R, {self.q: t.const(0, 64)})
        ok = all(LC.reads(c, off, n) is at1 for c in c1) and all(LC.reads(c, off, n) is at0 for c in c0)
        if ok:
            for i in range(n):
                tm[off + i] = (R, i)
        elif n > 1:
            for i in range(n):
                r1 = t.ext(at1, 8 * i, 8)
                r0 = t.ext(at0, 8 * i, 8)
                if all(LC.reads(c, off + i, 1) is r1 for c in c1) and all(LC.reads(c, off + i, 1) is r0 for c in c0):
                    tm[off + i] = (t.ext(R, 8 * i, 8), 0)

    def template(self, bu, q=None):
        tm = self.templates[bu]
        if q is None or q is self.q:
            cells = dict(tm)
        else:
            memo = {}
            cells = {o: (t.subst(x, {self.q: q}, memo), i) for o, (x, i) in tm.items()}
        # everything else: arbitrary but fixed
        for o in range(self.size):
            if o not in cells:
                cells[o] = (t.sym('any:this+%d' % o, 8), 0)
        return cells

    # ------------------------------------------------------------ obligations
    def check_R(self, st, oid, q, bu, name):
        """state satisfies R(q, bu)"""
        tm = self.templates[bu]
        if tm is None:
            return Obl(name, None, 'no invariant')
        memo = self._inst.setdefault((bu, q, id(tm)), {})
        cells = st.mem[oid].cells
        F = st.facts
        fixed = {y: t.const(lo, y.w) for y, (lo, hi) in F.iv.items() if y.op == 's' and lo == hi}
        mp = {self.q: q}
        m2 = {}
        for off, (x, n) in LC.cells_words(tm).items():
            y = LC.reads(cells, off, n)
            e = t.subst(x, mp, memo)
            if y is e:
                continue
            if y is None:
                return Obl(name, False, 'object byte %d uninitialised' % off)
            a, b = t.subst([y, e], fixed, m2) if fixed else (y, e)
            if a is b:
                continue
            if any(z.op == 'uf' for z in t.topo([a, b])):
                # uninterpreted chaining values: equality of arguments decides
                pass
            if not F.proves_eq(a, b, 4000):
                return Obl(name, False, 'object bytes %d..%d: %s, the invariant requires %s' % (off, off + n - 1, t.show(a)[:160], t.show(b)[:160]), self.model(st))
        return Obl(name, True)

    def model(self, st, extra=None):
        try:
            m = []
            r = st.facts.sat(extra, 3000, m)
            if r != 'sat':
                return None
            m = m[0]
            out = {}
            for x in (self.q, self.d, self.f):
                out[x.d] = smt.model_value(m, x)
            for nm, x in st.ghost.items():
                if isinstance(x, t.T):
                    out[nm] = smt.model_value(m, x)
            return out
        except Exception as e:      # no model: the failed obligation stands on its own
            return None

    def prove_ctor(self):
        def mk():
            st = self.M.new_state()
            o = self.fresh_this(st)
            return st, self.fn['ctor'], [o.base] + self.ctor_args()
        outs = self.explore(mk)
        self.finish('constructor', outs, lambda st, val: self.check_R(st, self.M.ident[('this',)], t.const(0, 64), 0, 'constructor establishes R(0,0)'))

    def finish(self, name, outs, post):
        bad = 0
        for o in outs:
            self.n_paths += 1
            if bad >= 8 and o.kind == 'ret':
                continue
            if o.kind != 'ret':
                self.obls.append(Obl('%s: no trap, bounds, frame' % name, False, '%s: %s' % (o.kind, o.msg), self.model(o.state)))
                continue
            try:
                r = post(o.state, o.val)
            except Infeasible:
                continue
            self.obls.append(r)
            bad += r.ok is False
        if bad >= 8:
            self.obls.append(Obl('%s: remaining exits' % name, None, 'not examined after %d failures' % bad))
        if not outs:
            self.obls.append(Obl('%s: vacuous' % name, None, 'no path'))

    def prove_update(self, bu, null=False):
        """R(q,bu), any input of n bytes  ==>  R of the extended message"""
        name = 'update from fill %d' % bu
        if self.templates.get(bu) is None:
            self.obls.append(Obl(name, None, 'no invariant'))
            return
        if null:
            self.update_case(name + ' (null, 0)', bu, None)
        else:
            self.update_case(name + ', no block completed', bu, t.const(0, 64))
            self.update_case(name + ', blocks completed', bu, self.d)

    def update_case(self, name, bu, d):
        B = self.spec.B
        q, f = self.q, self.f
        T = t.add(t.mulc(q, B), t.const(bu, 64))
        if d is not None:
            E = t.add(t.mulc(t.add(q, d), B), f)
            n = t.sub(E, T)

        def mk():
            st = self.M.new_state()
            o = self.fresh_this(st, self.template(bu))
            st.facts.set_range(q, 0, QMAX // B)
            if d is None:
                st.ghost['eq'] = q
                st.ghost['ef'] = t.const(bu, 64)
                return st, self.fn['update'], [o.base, t.const(0, 64), t.const(0, 64)]
            i = self.input(st, T, E)
            if d.op == 'c':
                st.facts.set_range(f, bu, B - 1)
            else:
                st.facts.set_range(f, 0, B - 1)
                st.facts.set_range(d, 1, QMAX // B)
            st.ghost['eq'] = t.add(q, d)
            st.ghost['ef'] = f
            return st, self.fn['update'], [o.base, t.add(i.base, T), n]
        outs = self.explore(mk)
        self.finish(name, outs, lambda st, val: self.reaches(name, st, val))

    def reaches(self, name, st, val):
        """the object represents the message of eq blocks and ef bytes, and is
        what is returned"""
        oid = self.M.ident[('this',)]
        lo, hi = st.facts.rng(st.ghost['ef'])
        if lo != hi:
            # several lengths reach this exit: prove each
            res = []
            for v in range(lo, hi + 1):
                s2 = st.copy()
                try:
                    s2.facts.set_range(st.ghost['ef'], v, v)
                    if s2.facts.sat(None, 3000) == 'unsat':
                        continue
                    res.append(self.reaches(name, s2, val))
                except Infeasible:
                    continue
            bad = [r for r in res if r.ok is not True]
            return bad[0] if bad else (res[0] if res else Obl(name, True))
        eq = st.facts.simplify(st.ghost['eq'])
        o = st.mem[oid]
        if val is not None and t.sub(val, o.base) is not t.const(0, 64):
            return Obl(name + ': returns *this', False, t.show(val))
        return self.check_R(st, oid, eq, lo, name + ' to fill %d' % lo)

    def final_cases(self):
        """values of q the specification distinguishes"""
        if self.spec.kind == 'xx':
            return [('q=0', t.const(0, 64), True), ('q>=1', self.q, False)]
        return [('', self.q, False)]

    def prove_final(self, bu, which='final', nbytes=None, out_size=None):
        B = self.spec.B
        n = nbytes or self.spec.digest
        for label, q, short in self.final_cases():
            name = '%s at fill %d %s' % (which, bu, label)
            if self.templates.get(bu) is None:
                self.obls.append(Obl(name, None, 'no invariant'))
                continue

            def mk():
                st = self.M.new_state()
                o = self.fresh_this(st, self.template(bu, q))
                out = self.M.new_obj(st, 'arg', out_size or n, 'out', ident=('out',))
                if q is self.q:
                    st.facts.set_range(q, 1 if self.spec.kind == 'xx' else 0, QMAX // B)
                st.ghost['eq'] = q
                st.ghost['ef'] = t.const(bu, 64)
                return st, self.fn[which], [o.base, out.base]
            outs = self.explore(mk)
            self.spec.activate()
            exp = self.spec.digest_terms(q, bu, n, short)
            oid = self.M.ident[('out',)]

            def post(st, val):
                cells = st.mem[oid].cells
                if self.spec.kind == 'xx':
                    r = self.check_R(st, self.M.ident[('this',)], q, bu, name + ' leaves the object unchanged')
                    if r.ok is not True:
                        return r
                return self.check_digest(st, [LC.reads(cells, i, 1) for i in range(n)], exp, name)
            self.finish(name, outs, post)

    def prove_copy(self, which, fn, bu):
        """the new object represents the same message, the source is unchanged"""
        name = '%s at fill %d' % (which, bu)
        if self.templates.get(bu) is None:
            self.obls.append(Obl(name, None, 'no invariant'))
            return

        def mk():
            st = self.M.new_state()
            o = self.fresh_this(st, self.template(bu))
            c = self.M.new_obj(st, 'arg', self.size, 'copy', ident=('copy',))
            st.facts.set_range(self.q, 0, QMAX // self.spec.B)
            st.ghost['eq'] = self.q
            st.ghost['ef'] = t.const(bu, 64)
            return st, fn, [c.base, o.base]

        def post(st, val):
            r = self.check_R(st, self.M.ident[('this',)], self.q, bu, name + ' leaves the source unchanged')
            if r.ok is not True:
                return r
            return self.check_R(st, self.M.ident[('copy',)], self.q, bu, name)
        self.finish(name, self.explore(mk), post)

    def prove_size(self, bu, fn):
        name = 'size() at fill %d' % bu
        q = self.q

        def mk():
            st = self.M.new_state()
            o = self.fresh_this(st, self.template(bu))
            st.facts.set_range(q, 0, QMAX // self.spec.B)
            st.ghost['eq'] = q
            st.ghost['ef'] = t.const(bu, 64)
            return st, fn, [o.base]
        exp = t.add(t.mulc(q, self.spec.B), t.const(bu, 64))

        def post(st, val):
            if not st.facts.proves_eq(val, exp):
                return Obl(name, False, 'returns %s, absorbed %s' % (t.show(val), t.show(exp)), self.model(st))
            return self.check_R(st, self.M.ident[('this',)], q, bu, name + ' leaves the object unchanged')
        self.finish(name, self.explore(mk), post)

    def prove_direct(self, fn, longer):
        """update_and_final on a fresh object and any input"""
        B = self.spec.B
        d, f = self.d, self.f
        if not longer:
            d = t.const(0, 64)
        name = 'update_and_final, %s' % ('blocks and remainder' if longer else 'less than a block')
        n = t.add(t.mulc(d, B), f)

        def mk():
            st = self.M.new_state()
            o = self.fresh_this(st, self.template(0, t.const(0, 64)))
            self.M.new_obj(st, 'arg', self.spec.digest, 'out', ident=('out',))
            i = self.input(st, t.const(0, 64), n)
            st.facts.set_range(f, 0, B - 1)
            if longer:
                st.facts.set_range(d, 1, QMAX // B)
            st.ghost['eq'] = d
            st.ghost['ef'] = f
            return st, fn, [o.base, i.base, n, st.mem[self.M.ident[('out',)]].base]
        outs = self.explore(mk)
        oid = self.M.ident[('out',)]

        def post(st, val):
            lo, hi = st.facts.rng(st.ghost['ef'])
            last = Obl(name, True)
            for v in range(lo, hi + 1):
                s2 = st.copy()
                try:
                    s2.facts.set_range(st.ghost['ef'], v, v)
                    if lo != hi and s2.facts.sat(None, 3000) == 'unsat':
                        continue
                except Infeasible:
                    continue
                self.spec.activate()
                exp = self.spec.digest_terms(s2.facts.simplify(st.ghost['eq']), v, None, not longer)
                cells = s2.mem[oid].cells
                r = self.check_digest(s2, [LC.reads(cells, i, 1) for i in range(self.spec.digest)], exp, name + ', remainder %d' % v)
                if r.ok is not True:
                    return r
                last = r
            return last
        self.finish(name, outs, post)

    def check_digest(self, st, got, exp, name):
        bad = None
        for i, (a, b) in enumerate(zip(got, exp)):
            if a is b:
                continue
            if a is None:
                return Obl(name, False, 'digest byte %d not written' % i, self.model(st))
            bad = i
            break
        if bad is None:
            return Obl(name, True)
        F = st.facts
        if F.sat(None, 3000) == 'unsat':
            return Obl(name + ' (path not feasible)', True)
        a, b = t.cat(got[::-1]), t.cat(exp[::-1])
        a, b = F.simplify(a), F.simplify(b)
        if a is b:
            return Obl(name, True)
        from . import sweep
        r, info = sweep.equal([F.simplify(x) for x in got], [F.simplify(x) for x in exp], budget=20)
        if r == 'proved':
            return Obl(name, True)
        for x, y in zip(got, exp):
            if not F.proves_eq(x, y, 4000):
                return Obl(name, False, 'digest byte %d is %s, specification %s' % (bad, t.show(got[bad])[:200], t.show(exp[bad])[:200]), self.model(st))
        return Obl(name, True)

    # ----------------------------------------------------- extendable output
    def lanes_at(self):
        """offset of the 25 state words in the object, from the class invariant"""
        tm = self.templates.get(0)
        for off, (x, n) in LC.cells_words(tm or {}).items():
            if n == 8 and x.op == 'uf' and x.d[0] == 'chain' and x.d[2] == 0:
                if all(LC.reads(tm, off + 8 * i, 8) is C.chain(i, t.mulc(self.q, self.spec.B)) for i in range(25)):
                    return off
        raise Limit('state words not found in the object')

    def hash_at(self):
        """offset of the chaining value in the object, from the class invariant"""
        n, w = self.spec.fam.n, self.spec.w // 8
        tm = self.templates.get(0) or {}
        for off, (x, k) in LC.cells_words(tm).items():
            if k == w and all(LC.reads(tm, off + w * i, w) is C.chain(i, t.mulc(self.q, self.spec.B)) for i in range(n)):
                return off
        raise Limit('chaining value not found in the object')

    def prove_finalize(self, bu, fn):
        """R(q,bu) ==> after fn(this) the state words are the chaining value of
        the padded message"""
        name = 'finalize at fill %d' % bu
        if self.templates.get(bu) is None:
            self.obls.append(Obl(name, None, 'no invariant'))
            return
        at, w = self.hash_at(), self.spec.w // 8

        def mk():
            st = self.M.new_state()
            o = self.fresh_this(st, self.template(bu))
            st.facts.set_range(self.q, 0, QMAX // self.spec.B)
            st.ghost['eq'] = self.q
            st.ghost['ef'] = t.const(bu, 64)
            return st, fn, [o.base]
        outs = self.explore(mk)
        self.spec.activate()
        exp = self.spec.digest_terms(self.q, bu, w * 8)
        oid = self.M.ident[('this',)]

        def post(st, val):
            cells = st.mem[oid].cells
            got = [LC.reads(cells, at + w * i + (w - 1 - k), 1) for i in range(8) for k in range(w)]
            return self.check_digest(st, got, exp, name)
        self.finish(name, outs, post)

    def prove_tail(self, which, fin, nbytes):
        """for every fill level at once: which() calls fin(this), whose contract
        is proved, and yields the first bytes of the state words it leaves"""
        name = '%s for every fill level, by the contract of finalize' % which
        at, w = self.hash_at(), self.spec.w // 8
        H = [t.sym('fin%d' % i, self.spec.w) for i in range(8)]
        M = self.M

        def contract(M, st, args, fr, a, op):
            if st.ghost.get('fin') or args[0] is not base[0]:
                raise Limit('finalize called twice or on another object')
            st.ghost['fin'] = True
            for o in range(self.size):
                M.store(st, t.add(args[0], t.const(o, 64)), t.sym('after:this+%d' % o, 8))
            for i in range(8):
                M.store(st, t.add(args[0], t.const(at + w * i, 64)), H[i])
            return None
        base = [None]

        def mk():
            st = M.new_state()
            o = self.fresh_this(st, {o: (t.sym('any:this+%d' % o, 8), 0) for o in range(self.size)})
            base[0] = o.base
            out = M.new_obj(st, 'arg', nbytes, 'out', ident=('out',))
            return st, self.fn[which], [o.base, out.base]
        M.externs[fin] = contract
        try:
            outs = self.explore(mk)
        finally:
            del M.externs[fin]
        exp = []
        for x in H:
            exp += specs.be_bytes(x)
        oid = M.ident[('out',)]

        def post(st, val):
            if not st.ghost.get('fin'):
                return Obl(name, False, 'finalize not called')
            return self.check_digest(st, [LC.reads(st.mem[oid].cells, i, 1) for i in range(nbytes)], exp[:nbytes], name)
        self.finish(name, outs, post)

    def prove_absorb(self, bu, fn):
        """R(q,bu) ==> the state words are sq(0), the first squeeze state of M"""
        name = 'final_absorb at fill %d' % bu
        if self.templates.get(bu) is None:
            self.obls.append(Obl(name, None, 'no invariant'))
            return
        at = self.lanes_at()
        B = self.spec.B

        def mk():
            st = self.M.new_state()
            o = self.fresh_this(st, self.template(bu))
            st.facts.set_range(self.q, 0, QMAX // B)
            st.ghost['eq'] = self.q
            st.ghost['ef'] = t.const(bu, 64)
            return st, fn, [o.base]
        outs = self.explore(mk)
        self.spec.activate()
        g = t.mulc(self.q, B)
        bs = [self.spec.M(t.add(g, t.const(i, 64))) for i in range(bu)] + [t.const(self.spec.suffix, 8)] + [t.const(0, 8)] * (B - bu - 1)
        bs[-1] = t.xor(bs[-1], t.const(0x80, 8))
        ws = specs.le_words(bs, 8)
        H = [C.chain(i, g) for i in range(25)]
        H, _ = C.mk_kf([t.xor(h, ws[i]) if i < len(ws) else h for i, h in enumerate(H)])
        oid = self.M.ident[('this',)]

        def post(st, val):
            cells = st.mem[oid].cells
            for i in range(25):
                x = LC.reads(cells, at + 8 * i, 8)
                if x is not H[i] and (x is None or not st.facts.proves_eq(x, H[i], 4000)):
                    return Obl(name, False, 'state word %d is %s' % (i, t.show(x)[:200] if x is not None else None), self.model(st))
            return Obl(name, True)
        self.finish(name, outs, post)

    def prove_squeeze(self, fn, arg=None):
        """state words sq(h), N - rate*h bytes of room: squeeze() writes the
        bytes of sq(h), sq(h+1), ... in order, all of them, and nothing else"""
        from .graph import RenameCut
        name = 'squeeze of any length'
        B = self.spec.B
        at = self.lanes_at()
        self.spec.activate()
        M = self.M
        N, h = t.sym('N', 64), t.sym('h', 64)
        done = t.mulc(h, B)
        m = t.sub(N, done)
        st = M.new_state()
        cells = {o: (t.sym('any:this+%d' % o, 8), 0) for o in range(self.size)}
        for i in range(25):
            x = t.uf(('sq', i), 64, (h,))
            for k in range(8):
                cells[at + 8 * i + k] = (x, k)
        o = self.fresh_this(st, cells)
        out = M.new_obj(st, 'emit', N, 'out', ident=('emit',))
        bad = []

        def emit(s, ob, off, bs):
            for i, b in enumerate(bs):
                c = t.sub(t.add(off, t.const(i, 64)), done)
                if c.op != 'c' or c.d >> 40:
                    raise Limit('output position %s' % t.show(off))
                w = t.uf(('sq', c.d % B // 8), 64, (t.add(h, t.const(c.d // B, 64)),))
                e = t.ext(w, 8 * (c.d % 8), 8)
                if b is not e and not s.facts.proves_eq(b, e, 3000):
                    raise PathEnd('bad', 'output byte %d of block h + %d is %s' % (c.d % B, c.d // B, t.show(b)[:120]))
            if s.ghost['pos'] is not off:
                raise Limit('output not written in order')
            s.ghost['pos'] = t.add(off, t.const(len(bs), 64))
        out.init = emit
        st.facts.set_range(N, 0, QMAX)
        st.facts.set_range(h, 0, QMAX // B)
        st.facts.set_range(m, 0, QMAX)
        st.ghost['pos'] = done
        st.ghost['N'] = N
        cut = RenameCut([{h: t.add(h, t.const(1, 64))}])
        old, M.cutter = M.cutter, cut
        cap, M.loop_cap = M.loop_cap, 4 * B
        M.soft_limit = True
        outs = []
        try:
            M.extra_work = []
            for o in M.run(st, fn, [o.base, t.add(out.base, done), m]):
                if o.kind == 'limit':
                    self.obls.append(Obl(name, None, 'engine limit: ' + o.msg))
                    continue
                outs.append(o)
        finally:
            M.cutter, M.loop_cap, M.soft_limit = old, cap, False
        if not cut.covered:
            self.obls.append(Obl(name, None, 'no path closes the loop'))

        def post(s, val):
            left = t.sub(N, s.ghost['pos'])
            if s.facts.rng(left) == (0, 0) or s.facts.proves_eq(left, t.const(0, 64), 4000):
                return Obl(name, True)
            return Obl(name, False, 'returns with %s bytes not written' % t.show(left))
        self.finish(name, outs, post)
