"""Translation of terms to z3 bit-vectors."""
import z3
from . import terms as t

_cache = {}
_funcs = {}
_keep = []
LOG = {'queries': 0}


def clear():
    _cache.clear()
    _funcs.clear()


def fun(name, doms, rng):
    k = (str(name), tuple(doms), rng)
    f = _funcs.get(k)
    if f is None:
        f = _funcs[k] = z3.Function('%s/%d' % (k[0], len(doms)), *([z3.BitVecSort(d) for d in doms] + [z3.BitVecSort(rng)]))
    return f


def to_z3(x):
    for n in t.topo([x]):
        if n in _cache:
            continue
        _cache[n] = _conv(n)
    return _cache[x]


def _conv(n):
    op = n.op
    w = n.w
    a = [_cache[y] for y in n.a]
    BV = z3.BitVecVal
    if op == 'c':
        return BV(n.d, w)
    if op == 's':
        return z3.BitVec(str(n.d) + '#%d' % w, w)
    if op == 'X':
        r = BV(n.d[0], w) if n.d[0] else None
        for (s, m), y, z in zip(n.d[1], n.a, a):
            W = max(w, y.w)
            e = z3.ZeroExt(W - y.w, z) if y.w < W else z
            if s > 0:
                if y.w + s > W and W < w:
                    pass
                e = e << s
            elif s < 0:
                e = z3.LShR(e, -s)
            if W > w:
                e = z3.Extract(w - 1, 0, e)
            full_in = ((t.full(y.w) << s) if s >= 0 else (t.full(y.w) >> -s)) & t.full(w)
            if m != full_in:
                e = e & BV(m, w)
            r = e if r is None else r ^ e
        return r
    if op == 'L':
        r = BV(n.d[0], w)
        for c, z in zip(n.d[1], a):
            r = r + (z if c == 1 else z * BV(c, w))
        return r
    if op == '&':
        r = a[0]
        for z in a[1:]:
            r = r & z
        return r
    if op == 'box':
        return a[0]
    if op == 'ite':
        return z3.If(a[0] == BV(1, 1), a[1], a[2])
    if op == 'eq0':
        return z3.If(a[0] == BV(0, n.a[0].w), BV(1, 1), BV(0, 1))
    if op == 'ult':
        return z3.If(z3.ULT(a[0], a[1]), BV(1, 1), BV(0, 1))
    if op == 'sext':
        return z3.SignExt(w - n.a[0].w, a[0])
    if op == '*':
        return a[0] * a[1]
    if op == 'udiv':
        return z3.UDiv(a[0], a[1])
    if op == 'urem':
        return z3.URem(a[0], a[1])
    if op == 'sdiv':
        return a[0] / a[1]
    if op == 'srem':
        return z3.SRem(a[0], a[1])
    if op == 'shlv':
        return a[0] << a[1]
    if op == 'lshrv':
        return z3.LShR(a[0], a[1])
    if op == 'ashrv':
        return a[0] >> a[1]
    if op == 'tbl':
        iw = n.a[0].w
        # balanced selection tree on the index bits
        vals = list(n.d[1])

        def sel(lo, hi):
            if hi - lo == 1:
                return BV(vals[lo], w) if lo < len(vals) else BV(0, w)
            if all(v == vals[lo] for v in vals[lo:hi]) and hi <= len(vals):
                return BV(vals[lo], w)
            if lo >= len(vals):
                return BV(0, w)
            mid = (lo + hi) // 2
            return z3.If(z3.ULT(a[0], BV(mid, iw)), sel(lo, mid), sel(mid, hi))
        m = 1
        while m < len(vals):
            m *= 2
        m = min(m, 1 << iw)
        if m < (1 << iw):
            return z3.If(z3.ULT(a[0], BV(m, iw)), sel(0, m), BV(0, w))
        return sel(0, m)
    if op == 'M':
        return fun('M_' + str(n.d), [n.a[0].w], 8)(a[0])
    if op == 'uf':
        if not a:
            return z3.BitVec('uf_%s#%d' % (n.d, w), w)
        return fun('uf_%s' % (n.d,), [y.w for y in n.a], w)(*a)
    if op in ('ctpop', 'ctlz', 'cttz'):
        W = n.a[0].w
        if op == 'ctpop':
            r = BV(0, w)
            for i in range(W):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a[0])) if w > 1 else r + z3.Extract(i, i, a[0])
            return r
        r = BV(W, w)
        rg = range(W) if op == 'ctlz' else range(W - 1, -1, -1)
        for i in rg:
            v = W - 1 - i if op == 'ctlz' else i
            r = z3.If(z3.Extract(i, i, a[0]) == BV(1, 1), BV(v, w), r)
        return r
    raise KeyError(op)


def symbols(ts):
    return [x for x in t.topo(ts) if x.op in ('s', 'M', 'uf')]


def _atoms_bounds(ts, facts):
    out = []
    for x in t.topo(ts):
        if x.op == 's' and x.um is not None and x.um < t.full(x.w):
            out.append(z3.ULE(to_z3(x), z3.BitVecVal(x.um, x.w)))
    return out


def check(extra, facts, timeout=4000, want_model=True):
    LOG['queries'] += 1
    conds = [c for c in extra if c is not None]
    rel = list(conds)
    if facts is not None:
        rel += facts.conds
    ivs = []
    rest = []
    if facts is not None:
        atoms = set(t.topo(rel))
        for k, (lo, hi) in facts.iv.items():
            if k in atoms or (k.a and k.op == 'L' and all(y in atoms for y in k.a)):
                ivs.append((k, lo, hi))
            elif k.a:
                rest.append((k, lo, hi))
    s = z3.SolverFor('QF_UFBV') if any(x.op in ('M', 'uf') for x in t.topo(rel + (list(facts.iv) if facts is not None else []))) else z3.SolverFor('QF_BV')
    s.set('timeout', timeout)
    for c in rel:
        s.add(to_z3(c) == z3.BitVecVal(1, 1))
    def add(ivs):
        for k, lo, hi in ivs:
            z = to_z3(k)
            if lo:
                s.add(z3.UGE(z, z3.BitVecVal(lo, k.w)))
            if hi < t.full(k.w):
                s.add(z3.ULE(z, z3.BitVecVal(hi, k.w)))
        for b in _atoms_bounds(rel + [k for k, _, _ in ivs], facts):
            s.add(b)
    add(ivs)
    r = s.check()
    if r == z3.sat and rest:
        # bounds of terms the query does not mention may still contradict it
        have = set(t.topo([k for k, _, _ in rest]))
        add(rest + [(k, lo, hi) for k, (lo, hi) in facts.iv.items() if not k.a and k in have])
        r = s.check()
        if r == z3.unknown and not extra:
            return 'unknown', None
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        m = s.model() if want_model else None
        return 'sat', m
    return 'unknown', None


def model_value(m, x):
    v = m.eval(to_z3(x), model_completion=True)
    return v.as_long()
