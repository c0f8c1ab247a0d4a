"""The same bytes in any carrier: every public overload of update(), simple()
and update_and_final() is the reference overload (a span of std::byte), or
makes exactly one call of the code of the reference on exactly the bytes of
its argument, or satisfies the reference's contract by itself."""
import time
from . import terms as t
from . import build
from . import canon
from . import harness as hs
from . import runner
from .execu import Machine, Limit, PathEnd, Split
from .facts import Infeasible
from .hashunit import Obl

TYPES = [('byte', 'std::byte'), ('char', 'char'), ('uchar', 'unsigned char'), ('schar', 'signed char'), ('char8', 'char8_t')]
CHARS = ('char', 'char8')
SIZES = (1, 2, 7, 64, 65, 136)

PRE = hs.PRE + r'''
#include <array>
#include <vector>
#include <string>
#include <string_view>
#include <type_traits>
template <class H, class X> __attribute__((__always_inline__)) inline H * feed(H * h, const X & x) {
	if constexpr (requires { h->update(x); }) return &h->update(x);
	else return nullptr;
}
template <class H, class X> __attribute__((__always_inline__)) inline bool once(void * out, const X & x) {
	if constexpr (requires { cthash::simple<H>(x); }) { new (out) auto(cthash::simple<H>(x)); return true; }
	else return false;
}
template <class H, class X, class S> __attribute__((__always_inline__)) inline bool once(void * out, const X & x, S s) {
	if constexpr (requires { cthash::simple<H>(x, s); }) { new (out) auto(cthash::simple<H>(x, s)); return true; }
	else return false;
}
'''


class Entry:
    """one harness function: what it is given, and how many bytes that is"""

    def __init__(self, fn, what, form, n=None, simple=False, seeded=False):
        self.fn, self.what, self.form, self.n, self.simple, self.seeded = fn, what, form, n, simple, seeded


def entries(h, small=False):
    """(source, [Entry])"""
    src, es = [], []

    def add(fn, par, expr, what, form, n=None):
        src.append('extern "C" H_%s * %s(H_%s * h, %s) { return feed(h, %s); }' % (h.id, fn, h.id, par, expr))
        es.append(Entry('@' + fn, what, form, n))
        if not h.shake and not small:
            src.append('extern "C" bool s_%s(void * out, %s) { return once<H_%s>(out, %s); }' % (fn, par, h.id, expr))
            es.append(Entry('@s_' + fn, 'simple(%s)' % what, form, n, True))
        if h.kind == 'xx' and not small:
            src.append('extern "C" bool z_%s(void * out, %s, std::uint%d_t s) { return once<H_%s>(out, %s, s); }' % (fn, par, h.w, h.id, expr))
            es.append(Entry('@z_' + fn, 'simple(%s, seed)' % what, form, n, True, True))
    for s, ty in TYPES if small else ():
        add('c_span_' + s, 'const %s * p, size_t n' % ty, 'std::span<const %s>(p, n)' % ty, 'span<const %s>' % ty, 'pn')
        if s in CHARS:
            add('c_sv_' + s, 'const %s * p, size_t n' % ty, 'std::basic_string_view<%s>(p, n)' % ty, 'basic_string_view<%s>' % ty, 'pn')
            for n in (1, 7):
                add('c_lit_%s_%d' % (s, n), 'const %s (*v)[%d]' % (ty, n + 1), '*v', 'string literal of %d %s' % (n, ty), 'p', n)
    for s, ty in TYPES if not small else ():
        add('c_span_' + s, 'const %s * p, size_t n' % ty, 'std::span<const %s>(p, n)' % ty, 'span<const %s>' % ty, 'pn')
        add('c_mspan_' + s, '%s * p, size_t n' % ty, 'std::span<%s>(p, n)' % ty, 'span<%s>' % ty, 'pn')
        add('c_vec_' + s, 'const std::vector<%s> * v' % ty, '*v', 'vector<%s>' % ty, 'vec')
        if s in CHARS:
            add('c_sv_' + s, 'const %s * p, size_t n' % ty, 'std::basic_string_view<%s>(p, n)' % ty, 'basic_string_view<%s>' % ty, 'pn')
            add('c_str_' + s, 'const std::basic_string<%s> * v' % ty, '*v', 'basic_string<%s>' % ty, 'str')
        for n in SIZES:
            add('c_arr_%s_%d' % (s, n), 'const std::array<%s, %d> * v' % (ty, n), '*v', 'array<%s, %d>' % (ty, n), 'p', n)
            add('c_fspan_%s_%d' % (s, n), 'const %s * p' % ty, 'std::span<const %s, %d>(p, %d)' % (ty, n, n), 'span<const %s, %d>' % (ty, n), 'p', n)
            if s in CHARS:
                add('c_lit_%s_%d' % (s, n), 'const %s (*v)[%d]' % (ty, n + 1), '*v', 'string literal of %d %s' % (n, ty), 'p', n)
            else:
                add('c_raw_%s_%d' % (s, n), 'const %s (*v)[%d]' % (ty, n), '*v', '%s[%d]' % (ty, n), 'p', n)
    return '\n'.join(src), es


def chain(idx, fn):
    """fn and the functions it only forwards its arguments to"""
    out = [fn]
    while True:
        plain, cs = canon._calls(idx[out[-1]])
        cs = [c for c in cs if not c[0].startswith('@llvm.')]
        if not plain or len(cs) != 1 or cs[0][1] != ['%0', '%1', '%2'] or not idx.get(cs[0][0], '').startswith('define') or cs[0][0] in out:
            return out
        out.append(cs[0][0])


def reach(idx, fn):
    seen, todo = [fn], [fn]
    while todo:
        for m in canon.NAME.finditer(idx[todo.pop()]):
            x = m.group(0)
            if x[0] == '@' and x not in seen and idx.get(x, '').startswith('define'):
                seen.append(x)
                todo.append(x)
    return seen


QMAX = 1 << 61


def absent(idx, fn):
    body = [x.strip() for x in idx[fn].split('\n')[1:] if x.strip()]
    return len(body) == 1 and body[0] in ('ret ptr null', 'ret i1 false')


def argument(M, st, e, base, n):
    """the argument values that describe the bytes [base, base+n)"""
    if e.form == 'pn':
        return [base, n]
    if e.form == 'p':
        return [base]
    o = M.new_obj(st, 'arg', 32 if e.form == 'str' else 24, 'container', ident=('container', e.form))
    o.writable = False

    def put(off, x):
        for k in range(8):
            o.cells[off + k] = (x, k)
    if e.form == 'vec':
        put(0, base)
        put(8, t.add(base, n))
        put(16, t.add(base, n))
    else:
        put(0, base)
        put(8, n)
    return [o.base]


def forwards(text, idx, e, refs, objsize):
    """exactly one call of a function in refs, on (this, bytes of the argument)"""
    M = Machine(text)
    M.deadline = time.time() + 30
    st = M.new_state()
    this = M.new_obj(st, 'arg', objsize, 'this', ident=('this',))
    this.cells.update({o: (t.sym('this[%d]' % o, 8), 0) for o in range(objsize)})
    before = dict(this.cells)
    i = M.new_obj(st, 'input', None, 'in', ident=('in', 'M'))
    i.writable = False
    i.arr = 'M'
    i.pos0 = t.const(0, 64)
    i.lo = t.const(0, 64)
    if e.n is None:
        n = t.sym('n', 64)
        st.facts.set_range(n, 0, QMAX)
    else:
        n = t.const(e.n, 64)
    i.size = n
    st.ghost['calls'] = ()

    def call(M, st, args, fr, a, op):
        st.ghost['calls'] = st.ghost['calls'] + (tuple(args[:3]),)
        return args[0]
    for r in refs:
        M.externs[r] = call
    k = 0
    for o in M.run(st, e.fn, [this.base] + argument(M, st, e, i.base, n)):
        k += 1
        if o.kind != 'ret':
            return Obl(e.what, None, '%s: %s' % (o.kind, o.msg))
        cs = o.state.ghost['calls']
        if not cs and o.state.facts.proves_eq(n, t.const(0, 64), 3000):
            continue
        if len(cs) != 1:
            return Obl(e.what, None, '%d calls' % len(cs))
        th, p, m = cs[0]
        if th is not this.base or not (p is i.base or o.state.facts.proves_eq(p, i.base, 3000)) or not (m is n or o.state.facts.proves_eq(m, n, 3000)):
            return Obl(e.what, None, 'called with %s, %s' % (t.show(p)[:80], t.show(m)[:80]))
        if o.val is not this.base or o.state.mem[M.ident[('this',)]].cells != before:
            return Obl(e.what, None, 'changes more than the call does')
    return Obl(e.what, True) if k else Obl(e.what, None, 'no path')


def runs(U, e, mk):
    """every path; with a fixed number of bytes no loop needs an invariant"""
    en, U.cut.enabled = U.cut.enabled, U.cut.enabled and e.n is None
    try:
        return U.explore(mk)
    finally:
        U.cut.enabled = en


def full(U, e, fills, limit):
    """the contract of the reference, proved for this overload by itself"""
    B = U.spec.B
    q, d, f = U.q, U.d, U.f
    end = time.time() + limit
    for bu in fills:
        T = t.add(t.mulc(q, B), t.const(bu, 64))
        cases = [(t.const((bu + e.n) // B, 64), t.const((bu + e.n) % B, 64))] if e.n is not None else [(t.const(0, 64), f), (d, f)]
        for dd, ff in cases:
            name = '%s: update contract from fill %d' % (e.what, bu)
            if U.templates.get(bu) is None:
                return Obl(name, None, 'no invariant')
            E = t.add(t.mulc(t.add(q, dd), B), ff)

            def mk():
                st = U.M.new_state()
                o = U.fresh_this(st, U.template(bu))
                st.facts.set_range(q, 0, QMAX // B)
                i = U.input(st, T, E)
                if e.n is None:
                    st.facts.set_range(f, bu if dd.op == 'c' else 0, B - 1)
                    if dd.op != 'c':
                        st.facts.set_range(d, 1, QMAX // B)
                st.ghost['eq'] = t.add(q, dd)
                st.ghost['ef'] = ff
                return st, e.fn, [o.base] + argument(U.M, st, e, t.add(i.base, T), t.sub(E, T))
            U.M.deadline = end
            for o in runs(U, e, mk):
                if o.kind != 'ret':
                    return Obl(name, False, '%s: %s' % (o.kind, o.msg), U.model(o.state))
                r = U.reaches(name, o.state, o.val)
                if r.ok is not True:
                    return r
    return Obl('%s: update contract from every fill' % e.what, True)


def oneshot(U, e, limit):
    """simple(x): the digest of exactly the bytes of x"""
    from . import loopcut as LC
    B = U.spec.B
    d, f = U.d, U.f
    name = e.what
    U.M.deadline = time.time() + limit
    cases = [(t.const(e.n // B, 64), t.const(e.n % B, 64))] if e.n is not None else [(t.const(0, 64), f), (d, f)]
    dg = U.spec.digest
    k = 0
    for dd, ff in cases:
        n = t.add(t.mulc(dd, B), ff)

        def mk():
            st = U.M.new_state()
            out = U.M.new_obj(st, 'arg', dg, 'out', ident=('out',))
            i = U.input(st, t.const(0, 64), n)
            if e.n is None:
                st.facts.set_range(f, 0, B - 1)
                if dd.op != 'c':
                    st.facts.set_range(d, 1, QMAX // B)
            st.ghost['eq'] = dd
            st.ghost['ef'] = ff
            return st, e.fn, [out.base] + argument(U.M, st, e, i.base, n) + ([U.spec.seed] if e.seeded else [])
        outs = runs(U, e, mk)
        oid = U.M.ident[('out',)]
        for o in outs:
            k += 1
            if o.kind != 'ret':
                return Obl(name, False, '%s: %s' % (o.kind, o.msg), U.model(o.state))
            st = o.state
            try:
                lo, hi = st.facts.rng(st.ghost['ef'])
                for v in range(lo, hi + 1):
                    s2 = st.copy()
                    try:
                        if lo != hi:
                            s2.facts.set_range(st.ghost['ef'], v, v)
                            if s2.facts.sat(None, 3000) == 'unsat':
                                continue
                    except Infeasible:
                        continue
                    U.spec.activate()
                    short = U.spec.kind == 'xx' and (dd.op == 'c' and dd.d == 0)
                    exp = U.spec.digest_terms(s2.facts.simplify(st.ghost['eq']), v, None, short)
                    F = s2.facts
                    fixed = {y: t.const(a, y.w) for y, (a, b) in F.iv.items() if y.op == 's' and a == b}
                    got = [LC.reads(s2.mem[oid].cells, j, 1) for j in range(dg)]
                    if None not in got:
                        got = t.subst(got, dict(fixed))
                    r = U.check_digest(s2, got, t.subst(exp, dict(fixed)), '%s, remainder %d' % (name, v))
                    if r.ok is not True:
                        return r
            except Infeasible:
                continue
    return Obl(name + ': the digest of its bytes', True) if k else Obl(name, None, 'no path')


def task(hid, include=None, limit=300, small=False, single=False):
    """all carriers of one hash; (obligations, paths, functions)"""
    h = hs.HASHES[hid]
    end = time.time() + limit
    src, es = entries(h, small)
    pre = PRE.replace('cthash/cthash.hpp', 'cthash-single-header.hpp') if single else PRE
    text = build.compile_ir('carrier-' + h.id, pre + h.tu() + src, include)
    idx = canon.index(text)
    ref = chain(idx, '@v_update_' + h.id)
    eq = canon.Equiv({'': idx})
    obls, funcs, paths = [], {}, 0
    U = runner.make_unit(h, text)

    def same(fn):
        return any(eq.same(('', fn), ('', r)) for r in ref)
    left, once, offered = [], {}, 0
    for e in es:
        if absent(idx, e.fn):
            continue
        offered += 1
        funcs[e.fn] = 'absorbs exactly the bytes of %s' % e.what if not e.simple else 'digest of exactly the bytes of its argument'
        if e.simple:
            k = eq.cls['', e.fn], e.form, e.n
            if k in once:
                obls.append(Obl('%s: same code as %s' % (e.what, once[k].what), True))
            else:
                once.setdefault(k, e)
                left.append(e)
            continue
        if same(e.fn) and e.form == 'pn':
            obls.append(Obl('%s: same code as the reference' % e.what, True))
            continue
        refs = [x for x in reach(idx, e.fn) if same(x)]
        r = None
        if refs:
            try:
                r = forwards(text, idx, e, refs, U.size)
                paths += 1
            except (Limit, Split, PathEnd, Infeasible, KeyError, AttributeError, TypeError, ValueError, IndexError) as x:
                r = Obl(e.what, None, repr(x)[:300])
        if r is not None and r.ok:
            obls.append(Obl('%s: one call of the reference on exactly its bytes' % e.what, True))
            continue
        left.append(e)
    if not offered:
        obls.append(Obl('no overload is offered', None))
    if not left:
        return obls, paths, funcs
    # what is not the reference's code: the contract itself
    units = {}

    def unit(e):
        k = e.simple and h.kind == 'xx' and not e.seeded
        if k not in units:
            u = runner.make_unit(h, text, 0 if k else None)
            u.M.deadline = time.time() + 120
            u.spec.activate()
            u.guarded('class invariant', u.infer)
            units[k] = u
        u = units[k]
        u.spec.activate()
        return u
    bad = []
    for e in left:
        if time.time() > end:
            obls.append(Obl(e.what, None, 'time limit'))
            continue
        u = unit(e)
        u.obls = []

        def go():
            lim = max(5, min(120, end - time.time()))
            u.obls.append(oneshot(u, e, lim) if e.simple else full(u, e, range(u.spec.B), lim))
        u.guarded(e.what, go)
        for o in u.obls:
            if o.ok is False:
                bad.append(o)
            obls.append(o)
    paths += sum(u.n_paths for u in units.values())
    if bad:
        # only a failure if the reference itself keeps the contract
        U.M.deadline = time.time() + 60
        U.obls = []
        U.guarded('class invariant', U.infer)
        U.guarded('ctor', U.prove_ctor)
        for b in (0, 1, U.spec.B - 1):
            U.guarded('update', U.prove_update, b)
            if not h.shake:
                U.guarded('final', U.prove_final, b, which='value')
        if not all(o.ok for o in U.obls):
            for o in bad:
                o.ok = None
                o.detail = 'the reference itself does not keep this contract; ' + o.detail
    return obls, paths, funcs
