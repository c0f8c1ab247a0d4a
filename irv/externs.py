"""Contracts of compiler intrinsics and of the few external functions met.
These are assumptions (trusted contracts) listed in the evidence."""
from . import terms as t


def install(M):
    E = M.externs
    E.clear()
    M.extern_prefix = []

    def pre(p, h):
        M.extern_prefix.append((p, h))

    def nop(M, st, args, fr, a, op):
        return None
    for p in ('@llvm.lifetime', '@llvm.dbg', '@llvm.assume', '@llvm.experimental.noalias', '@llvm.donothing', '@llvm.invariant', '@llvm.prefetch'):
        pre(p, nop)

    def n_of(M, st, x):
        return M.concretize(st, x, 1024)

    def memcpy(M, st, args, fr, a, op):
        M.memcpy(st, args[0], args[1], n_of(M, st, args[2]))
        return args[0]

    def memset(M, st, args, fr, a, op):
        v = args[1]
        M.memset(st, args[0], v if v.w == 8 else t.trunc(v, 8), n_of(M, st, args[2]))
        return args[0]
    pre('@llvm.memcpy.', memcpy)
    pre('@llvm.memmove.', memcpy)
    pre('@llvm.memset.', memset)
    E['@memcpy'] = memcpy
    E['@memmove'] = memcpy
    E['@memset'] = memset

    pre('@llvm.bswap.', lambda M, st, args, fr, a, op: t.bswap(args[0]))

    def fshl(M, st, args, fr, a, op):
        x, y, s = args
        w = x.w
        if s.op != 'c':
            s = t.const(M.concretize(st, t.and_(s, t.const(w - 1, w))), w)
        k = s.d % w
        if x is y:
            return t.rotl(x, k)
        if k == 0:
            return x
        return t.or_(t.shl(x, k), t.lshr(y, w - k))

    def fshr(M, st, args, fr, a, op):
        x, y, s = args
        w = x.w
        if s.op != 'c':
            s = t.const(M.concretize(st, t.and_(s, t.const(w - 1, w))), w)
        k = s.d % w
        if x is y:
            return t.rotl(x, w - k)
        if k == 0:
            return y
        return t.or_(t.shl(x, w - k), t.lshr(y, k))
    pre('@llvm.fshl.', fshl)
    pre('@llvm.fshr.', fshr)

    def minmax(cmp, pick):
        def h(M, st, args, fr, a, op):
            x, y = args
            c = cmp(x, y)
            d = st.facts.decide_fast(c)
            if d is None:
                if M.is_control(c):
                    d = M.branch(st, c)
                else:
                    return t.ite(c, x, y) if pick else t.ite(c, y, x)
            if pick:
                return x if d else y
            return y if d else x
        return h
    pre('@llvm.umin.', minmax(t.ult, True))
    pre('@llvm.umax.', minmax(t.ult, False))
    pre('@llvm.smin.', minmax(t.slt, True))
    pre('@llvm.smax.', minmax(t.slt, False))

    def absf(M, st, args, fr, a, op):
        x = args[0]
        neg = t.slt(x, t.const(0, x.w))
        return t.ite(neg, t.sub(t.const(0, x.w), x), x)
    pre('@llvm.abs.', absf)

    pre('@llvm.ctpop.', lambda M, st, args, fr, a, op: t.ctop('ctpop', args[0]))
    pre('@llvm.ctlz.', lambda M, st, args, fr, a, op: t.ctop('ctlz', args[0]))
    pre('@llvm.cttz.', lambda M, st, args, fr, a, op: t.ctop('cttz', args[0]))
    pre('@llvm.expect.', lambda M, st, args, fr, a, op: args[0])

    def ovf(kind):
        def h(M, st, args, fr, a, op):
            x, y = args
            w = x.w
            if kind == 'uadd':
                r = t.add(x, y)
                return (r, t.ult(r, x))
            if kind == 'usub':
                return (t.sub(x, y), t.ult(x, y))
            if kind == 'umul':
                W = 2 * w
                p = t.mul(t.zext(x, W), t.zext(y, W))
                return (t.mul(x, y), t.ne(t.ext(p, w, w), t.const(0, w)))
            s = {'sadd': t.add, 'ssub': t.sub}.get(kind)
            if s is not None:
                r = s(x, y)
                # sign analysis through one more bit
                big = s(t.sext(x, w + 1), t.sext(y, w + 1))
                xl, xh = srange(st, x)
                yl, yh = srange(st, y)
                lo, hi = (xl + yl, xh + yh) if kind == 'sadd' else (xl - yh, xh - yl)
                if lo >= -(1 << (w - 1)) and hi < 1 << (w - 1):
                    return (r, t.false())
                return (r, t.ne(big, t.sext(r, w + 1)))
            if kind == 'smul':
                r = t.mul(x, y)
                xl, xh = srange(st, x)
                yl, yh = srange(st, y)
                c = [xl * yl, xl * yh, xh * yl, xh * yh]
                if min(c) >= -(1 << (w - 1)) and max(c) < 1 << (w - 1):
                    return (r, t.false())
                big = t.mul(t.sext(x, 2 * w), t.sext(y, 2 * w))
                return (r, t.ne(big, t.sext(r, 2 * w)))
        return h
    for k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
        pre('@llvm.%s.with.overflow.' % k, ovf(k))

    def usubsat(M, st, args, fr, a, op):
        x, y = args
        c = t.ult(x, y)
        d = st.facts.decide_fast(c)
        if d is None:
            d = M.branch(st, c)
        return t.const(0, x.w) if d else t.sub(x, y)
    pre('@llvm.usub.sat.', usubsat)

    def uaddsat(M, st, args, fr, a, op):
        x, y = args
        r = t.add(x, y)
        return t.ite(t.ult(r, x), t.const(t.full(x.w), x.w), r)
    pre('@llvm.uadd.sat.', uaddsat)

    def scmp(M, st, args, fr, a, op):
        raise KeyError
    # printing before an abort: no effect on the verified state
    E['@printf'] = lambda M, st, args, fr, a, op: t.const(0, 32)
    E['@puts'] = lambda M, st, args, fr, a, op: t.const(0, 32)
    pre('@llvm.objectsize', lambda M, st, args, fr, a, op: t.const(-1, 64))
    pre('@llvm.is.constant', lambda M, st, args, fr, a, op: t.const(0, 1))

    def bcmp(M, st, args, fr, a, op):
        n = n_of(M, st, args[2])
        acc = t.true()
        for i in range(n):
            x = M.load(st, t.add(args[0], t.const(i, 64)), 1)
            y = M.load(st, t.add(args[1], t.const(i, 64)), 1)
            acc = t.and_(acc, t.eq(x, y))
        return t.ite(acc, t.const(0, 32), t.const(1, 32))
    E['@bcmp'] = bcmp

    def memcmp(M, st, args, fr, a, op):
        n = n_of(M, st, args[2])
        r = t.const(0, 32)
        same = t.true()
        for i in range(n - 1, -1, -1):
            x = M.load(st, t.add(args[0], t.const(i, 64)), 1)
            y = M.load(st, t.add(args[1], t.const(i, 64)), 1)
            same = t.and_(same, t.eq(x, y))
            r = t.ite(t.eq(x, y), r, t.sub(t.zext(x, 32), t.zext(y, 32)))
        # equality is a fact about every byte; inequality one about the result
        if M.branch(st, same):
            return t.const(0, 32)
        st.facts.assume(t.eq0(r), 0)
        return r
    E['@memcmp'] = memcmp

    def memchr(M, st, args, fr, a, op):
        n = n_of(M, st, args[2])
        v = t.trunc(args[1], 8)
        r = t.const(0, 64)
        for i in range(n - 1, -1, -1):
            p = t.add(args[0], t.const(i, 64))
            x = M.load(st, p, 1)
            r = t.ite(t.eq(x, v), p, r)
        return r
    E['@memchr'] = memchr

    def strlen(M, st, args, fr, a, op):
        i = 0
        while True:
            x = M.load(st, t.add(args[0], t.const(i, 64)), 1)
            if x.op != 'c':
                d = M.branch(st, t.eq0(x))
                if d:
                    return t.const(i, 64)
            elif x.d == 0:
                return t.const(i, 64)
            i += 1
    E['@strlen'] = strlen

    # allocation
    def opnew(M, st, args, fr, a, op):
        n = args[0]
        if n.op != 'c':
            lo, hi = st.facts.rng(n)
            n = lo if lo == hi else M.concretize(st, n, 4096)
        else:
            n = n.d
        o = M.new_obj(st, 'heap', n, 'heap')
        return o.base

    def opdel(M, st, args, fr, a, op):
        p = args[0]
        if p.op == 'c' and p.d == 0:
            return None
        o, off = M.resolve(st, p)
        if o.kind != 'heap' or off.op != 'c' or off.d != 0:
            from .execu import PathEnd
            raise PathEnd('trap', 'invalid delete')
        o = st.wobj(o.id)
        o.alive = False
        return None
    E['@_Znwm'] = opnew
    E['@_Znam'] = opnew
    E['@_ZdlPv'] = opdel
    E['@_ZdlPvm'] = opdel
    E['@_ZdaPv'] = opdel

    # exceptions
    def thrower(what):
        def h(M, st, args, fr, a, op):
            return M.throw(st, what, fr, a, op)
        return h

    def cxa_alloc(M, st, args, fr, a, op):
        o = M.new_obj(st, 'heap', 64, 'exception')
        return o.base
    E['@__cxa_allocate_exception'] = cxa_alloc
    E['@__cxa_free_exception'] = nop

    def cxa_throw(M, st, args, fr, a, op):
        nm = None
        for b, c in M.bases_in(args[1]):
            oid = M.by_base.get(b)
            nm = M.gname.get(oid)
        return M.throw(st, nm or 'exception', fr, a, op)
    E['@__cxa_throw'] = cxa_throw
    pre('@_ZSt20__throw_', thrower('std'))
    for k in ('16', '17', '18', '19', '20', '21', '22', '23', '24', '25', '26', '28'):
        pre('@_ZSt%s__throw_' % k, thrower('std::__throw'))
    E['@_ZNSt16invalid_argumentC1EPKc'] = nop
    E['@_ZNSt16invalid_argumentC2EPKc'] = nop
    E['@_ZNSt16invalid_argumentD1Ev'] = nop
    E['@__cxa_begin_catch'] = lambda M, st, args, fr, a, op: args[0]
    E['@__cxa_end_catch'] = nop


def srange(st, x):
    """signed range of x"""
    w = x.w
    h = 1 << (w - 1)
    if x.op == 'sext':
        return srange(st, x.a[0])
    lo, hi = st.facts.rng(x)
    if hi < h:
        return lo, hi
    if lo >= h:
        return lo - (1 << w), hi - (1 << w)
    # try the shifted window
    y = t.add(x, t.const(h, w))
    lo, hi = st.facts.rng(y)
    return lo - h, hi - h
