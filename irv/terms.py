"""Hash-consed bit-vector terms with a canonicalising constructor set.

Two normal forms do most of the work:
  X  bit-linear form:  const ^ XOR_i ((atom_i << shift_i) & mask_i)
     (xor, constant shifts, rotates, byte swaps, concatenation, extraction,
      zero extension, masking, disjoint or -- all become X)
  L  linear form modulo 2^w:  c0 + SUM_i coef_i * atom_i
Every other operator is opaque.  Equality of canonical nodes is identity.
Every constructor is value preserving; selftest.py checks each against z3 and
against direct evaluation.
"""
import itertools


class T:
    __slots__ = ('op', 'w', 'a', 'd', 'id', 'um', '_pm', 'tags')

    def __repr__(self):
        return show(self)


_table = {}
_ids = itertools.count()
_FULL = [(1 << i) - 1 for i in range(0, 2050)]


def full(w):
    return _FULL[w] if w < 2050 else (1 << w) - 1


def reset():
    _table.clear()
    _const_cache.clear()


def _mk(op, w, d, a):
    key = (op, w, d, a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.d = d
        t.a = a
        t.id = next(_ids)
        t.um = None
        t._pm = None
        t.tags = None
        _table[key] = t
    return t


_const_cache = {}


def const(v, w):
    v &= full(w)
    k = (v, w)
    t = _const_cache.get(k)
    if t is None:
        t = _const_cache[k] = _mk('c', w, v, ())
    return t


TRUE = None
FALSE = None


def true():
    return const(1, 1)


def false():
    return const(0, 1)


def sym(name, w, umax=None):
    t = _mk('s', w, name, ())
    if umax is not None:
        t.um = umax
        # possible bits
        t._pm = full(umax.bit_length()) & full(w)
    return t


_fresh = itertools.count()


def fresh(prefix, w, umax=None):
    return sym('%s!%d' % (prefix, next(_fresh)), w, umax)


def isc(t):
    return t.op == 'c'


# ------------------------------------------------------------------ bounds
def umax(t):
    if t.um is not None:
        return t.um
    op = t.op
    if op == 'c':
        r = t.d
    elif op == 'X':
        r = pm(t)
    elif op == 'L':
        tot = t.d[0]
        fw = full(t.w)
        for c, x in zip(t.d[1], t.a):
            tot += c * umax(x)
            if tot > fw:
                break
        r = tot if tot <= fw else fw
    elif op == 'ite':
        r = max(umax(t.a[1]), umax(t.a[2]))
    elif op == '&':
        r = min(umax(x) for x in t.a)
    elif op == 'udiv':
        if isc(t.a[1]) and t.a[1].d:
            r = umax(t.a[0]) // t.a[1].d
        else:
            r = full(t.w)
    elif op == 'urem':
        r = umax(t.a[0])
        if isc(t.a[1]) and t.a[1].d:
            r = min(r, t.a[1].d - 1)
    elif op == 'tbl':
        r = max(t.d[1])
    elif op in ('ctpop', 'cttz', 'ctlz'):
        r = t.a[0].w
    elif op == '*':
        r = umax(t.a[0]) * umax(t.a[1])
        r = min(r, full(t.w))
    else:
        r = full(t.w)
    t.um = r
    return r


def pm(t):
    """mask of bits that can be one"""
    p = t._pm
    if p is not None:
        return p
    op = t.op
    if op == 'c':
        p = t.d
    elif op == 'X':
        p = t.d[0]
        fw = full(t.w)
        for (s, m), x in zip(t.d[1], t.a):
            xp = pm(x)
            p |= ((xp << s) if s >= 0 else (xp >> -s)) & m
        p &= fw
    elif op == '&':
        p = full(t.w)
        for x in t.a:
            p &= pm(x)
    elif op == 'ite':
        p = pm(t.a[1]) | pm(t.a[2])
    elif op == 'tbl':
        p = 0
        for v in t.d[1]:
            p |= v
    elif op == 'L':
        p = full(umax(t).bit_length())
        # common trailing zeros
        tz = _tz(t.d[0]) if t.d[0] else t.w
        for c, x in zip(t.d[1], t.a):
            tz = min(tz, _tz(c) + _tz_pm(x))
        p &= full(t.w) & ~full(min(tz, t.w))
    else:
        p = full(umax(t).bit_length())
    t._pm = p
    return p


def _tz(v):
    return (v & -v).bit_length() - 1 if v else 0


def _tz_pm(x):
    p = pm(x)
    return _tz(p) if p else x.w


# ------------------------------------------------------------------ X form
BOX = 40


def xparts(t):
    if t.op == 'c':
        return t.d, {}
    if t.op == 'X':
        return t.d[0], {(x, s): m for (s, m), x in zip(t.d[1], t.a)}
    return 0, {(t, 0): full(t.w)}


def mkX(w, c, parts):
    fw = full(w)
    c &= fw
    if parts:
        out = {}
        for (x, s), m in parts.items():
            m &= fw
            xp = pm(x)
            m &= (xp << s) if s >= 0 else (xp >> -s)
            if not m:
                continue
            if x.op == 'sext':
                y = x.a[0]
                sm = (m >> s) if s >= 0 else (m << -s)
                if sm & ~full(y.w) == 0:
                    # only the low part: replace by the operand
                    cy, py = xparts(y)
                    c ^= ((cy << s) if s >= 0 else (cy >> -s)) & m
                    for (z, s2), m2 in py.items():
                        mm = ((m2 << s) if s >= 0 else (m2 >> -s)) & m
                        if mm:
                            k = (z, s2 + s)
                            mm ^= out.get(k, 0)
                            if mm:
                                out[k] = mm
                            else:
                                out.pop(k, None)
                    continue
            k = (x, s)
            if k in out:
                m ^= out[k]
                if m:
                    out[k] = m
                else:
                    del out[k]
            else:
                out[k] = m
        parts = out
    if not parts:
        return const(c, w)
    if len(parts) == 1:
        ((x, s), m), = parts.items()
        if x.op == 'L' and c & m == 0:
            if s == 0:
                # pure low mask / truncation / zero extension of a linear form
                k = m.bit_length()
                if m == full(k):
                    if k < x.w:
                        y = trunc_L(x, k)
                        if y.op != 'L':
                            r = zext(y, w) if w > k else y
                            return xor(r, const(c, w)) if c else r
                        x = y
                    if c == 0:
                        if x.w == w:
                            return x
                        # zero extension without overflow distributes
                        if _L_exact(x):
                            return mkL(w, x.d[0], {zext(y, w): cf for cf, y in zip(x.d[1], x.a)})
            elif s > 0:
                # left shift of linear form keeping all bits -> multiply
                if x.w == w and m == (fw << s) & fw & ((pm(x) << s) & fw) and c == 0 and \
                        m == (pm(x) << s) & fw:
                    return mkL(w, x.d[0] << s, {y: cf << s for cf, y in zip(x.d[1], x.a)})
            else:
                # right shift of a linear form all of whose coefficients divide
                k = -s
                if m == (pm(x) >> k) and x.w - k > 0:
                    if all(cf & full(k) == 0 for cf in x.d[1]):
                        nw = x.w - k
                        y = mkL(nw, x.d[0] >> k, {trunc(yy, nw): cf >> k for cf, yy in zip(x.d[1], x.a)}) \
                            if len({trunc(yy, nw) for yy in x.a}) == len(x.a) else None
                        if y is not None:
                            r = zext(y, w) if w > nw else trunc(y, w)
                            return xor(r, const(c, w)) if c else r
        if c == 0 and s == 0:
            if x.w == w and m == pm(x):
                return x
            if x.w > w and m == (pm(x) & fw):
                if x.op == 'ite':
                    return ite(x.a[0], trunc(x.a[1], w), trunc(x.a[2], w))
                if x.op == '*':
                    return mul(trunc(x.a[0], w), trunc(x.a[1], w))
        if x.op == 'ite' and (isc(x.a[1]) or isc(x.a[2])) :
            # push unary masks into ite of constants
            return ite(x.a[0], _app(x.a[1], s, m, c, w), _app(x.a[2], s, m, c, w))
        if x.op == 'tbl':
            # table of masked values
            tb = tuple((((v << s) if s >= 0 else (v >> -s)) & m) ^ c for v in x.d[1])
            return tbl(x.d[0], tb, w, x.a[0])
    elif len(parts) > BOX:
        return _mk('box', w, None, (_mkXraw(w, c, parts),))
    return _mkXraw(w, c, parts)


def _mkXraw(w, c, parts):
    items = sorted(parts.items(), key=_xkey)
    return _mk('X', w, (c, tuple((k[1], m) for k, m in items)), tuple(k[0] for k, m in items))


def _xkey(it):
    return (it[0][0].id, it[0][1])


def _app(t, s, m, c, w):
    ct, pt = xparts(t)
    c2 = c ^ (((ct << s) if s >= 0 else (ct >> -s)) & m)
    out = {}
    for (z, s2), m2 in pt.items():
        mm = ((m2 << s) if s >= 0 else (m2 >> -s)) & m
        if mm:
            out[(z, s2 + s)] = mm
    return mkX(w, c2, out)


def xor(a, b):
    assert a.w == b.w, (a, b)
    if a is b:
        return const(0, a.w)
    ca, pa = xparts(a)
    cb, pb = xparts(b)
    if len(pa) < len(pb):
        pa, pb = pb, pa
    out = dict(pa)
    for k, m in pb.items():
        m ^= out.get(k, 0)
        if m:
            out[k] = m
        else:
            out.pop(k, None)
    return mkX(a.w, ca ^ cb, out)


def xorn(w, ts):
    r = const(0, w)
    for t in ts:
        r = xor(r, t)
    return r


def not_(a):
    return xor(a, const(full(a.w), a.w))


def _shift(a, s, w, mask=None):
    """bits of a moved by s (left positive), result width w"""
    c, p = xparts(a)
    fw = full(w)
    if mask is not None:
        fw &= mask
    c = ((c << s) if s >= 0 else (c >> -s)) & fw
    out = {}
    for (x, s0), m in p.items():
        m = ((m << s) if s >= 0 else (m >> -s)) & fw
        if m:
            out[(x, s0 + s)] = m
    return mkX(w, c, out)


def shl(a, s):
    if s == 0:
        return a
    if s >= a.w:
        return const(0, a.w)
    if a.op == 'L':
        return mkL(a.w, a.d[0] << s, {y: cf << s for cf, y in zip(a.d[1], a.a)})
    return _shift(a, s, a.w)


def lshr(a, s):
    if s == 0:
        return a
    if s >= a.w:
        return const(0, a.w)
    return _shift(a, -s, a.w)


def rotl(a, s):
    s %= a.w
    if s == 0:
        return a
    w = a.w
    c, p = xparts(a)
    fw = full(w)
    out = {}
    for (x, s0), m in p.items():
        m1 = (m << s) & fw
        if m1:
            k = (x, s0 + s)
            out[k] = out.get(k, 0) ^ m1
        m2 = m >> (w - s)
        if m2:
            k = (x, s0 + s - w)
            out[k] = out.get(k, 0) ^ m2
    return mkX(w, ((c << s) | (c >> (w - s))) & fw, out)


def rotr(a, s):
    return rotl(a, a.w - (s % a.w))


def ext(a, lo, w):
    if lo == 0 and w == a.w:
        return a
    if lo == 0 and a.op == 'L':
        return trunc_L(a, w)
    return _shift(a, -lo, w)


def trunc(a, w):
    return ext(a, 0, w)


def trunc_L(a, w):
    parts = {}
    for cf, y in zip(a.d[1], a.a):
        cf &= full(w)
        if not cf:
            continue
        z = trunc(y, w)
        parts.setdefault(z, 0)
        parts[z] += cf
    return mkL(w, a.d[0], parts)


def zext(a, w):
    if w == a.w:
        return a
    c, p = xparts(a)
    return mkX(w, c, p)


def sext(a, w):
    if w == a.w:
        return a
    if isc(a):
        v = a.d
        if v >> (a.w - 1):
            v |= full(w) & ~full(a.w)
        return const(v, w)
    if not (pm(a) >> (a.w - 1)) & 1:
        return zext(a, w)
    if a.w == 1:
        return ite(a, const(full(w), w), const(0, w))
    if a.op == 'sext':
        return sext(a.a[0], w)
    if a.op == 'ite' and (isc(a.a[1]) or isc(a.a[2])):
        return ite(a.a[0], sext(a.a[1], w), sext(a.a[2], w))
    return _mk('sext', w, None, (a,))


def cat(parts):
    """parts: most significant first"""
    w = sum(p.w for p in parts)
    c = 0
    out = {}
    pos = w
    for t in parts:
        pos -= t.w
        ct, pt = xparts(t)
        c |= ct << pos
        for (x, s), m in pt.items():
            k = (x, s + pos)
            out[k] = out.get(k, 0) ^ (m << pos)
    return mkX(w, c, out)


def bswap(a):
    n = a.w // 8
    return cat([ext(a, 8 * i, 8) for i in range(n)])


def and_(a, b):
    assert a.w == b.w
    if a is b:
        return a
    if isc(a):
        a, b = b, a
    if isc(b):
        m = b.d
        if m == full(a.w):
            return a
        if isc(a):
            return const(a.d & m, a.w)
        if m == 0:
            return b
        if a.op == 'L':
            k = m.bit_length()
            if m == full(k):
                return zext(trunc_L(a, k), a.w)
        c, p = xparts(a)
        return mkX(a.w, c & m, {k: v & m for k, v in p.items()})
    pp = pm(a) & pm(b)
    if pp == 0:
        return const(0, a.w)
    args = set()
    for t in (a, b):
        if t.op == '&':
            args.update(t.a)
        else:
            args.add(t)
    # x & ~x
    f = full(a.w)
    for t in args:
        if t.op == 'X' and t.d[0] == f:
            if not_(t) in args:
                return const(0, a.w)
    # a & (b with restricted support): restrict the masks of the X parts
    if len(args) == 1:
        return next(iter(args))
    if pp != f:
        # canonicalise to common support
        na = set()
        for t in args:
            na.add(and_(t, const(pp, a.w)))
        if na != args:
            r = None
            for t in sorted(na, key=lambda x: x.id):
                r = t if r is None else and_(r, t)
            return r
    if a.w == 1:
        # booleans: absorb contradictions of simple comparisons lightly
        pass
    return _mk('&', a.w, None, tuple(sorted(args, key=lambda x: x.id)))


def or_(a, b):
    if a is b:
        return a
    if pm(a) & pm(b) == 0:
        return xor(a, b)
    if isc(b):
        a, b = b, a
    if isc(a):
        return xor(and_(b, const(~a.d, a.w)), a)
    return xor(xor(a, b), and_(a, b))


# ------------------------------------------------------------------ L form
def lparts(t):
    if t.op == 'c':
        return t.d, {}
    if t.op == 'L':
        return t.d[0], dict(zip(t.a, t.d[1]))
    if t.op == 'X' and len(t.a) == 1:
        c = t.d[0]
        (s, m), = t.d[1]
        x = t.a[0]
        w = t.w
        if x.w == w and s >= 0 and m == (pm(x) << s) & full(w):
            if c & m == 0:
                return c, {x: 1 << s}
            if s == 0 and c == full(w):
                return full(w), {x: full(w)}
        elif x.w < w and c and c & m == 0:
            return c, {_mkX1(w, x, s, m): 1}
        elif c and c & m == 0:
            return c, {_mkX1(w, x, s, m): 1}
    return 0, {t: 1}


def _mkX1(w, x, s, m):
    return mkX(w, 0, {(x, s): m})


def mkL(w, c, parts):
    fw = full(w)
    c &= fw
    out = {}
    for x, cf in parts.items():
        cf &= fw
        if cf:
            out[x] = cf
    if not out:
        return const(c, w)
    if len(out) == 1:
        (x, cf), = out.items()
        if c == 0 and cf & (cf - 1) == 0:
            if cf == 1:
                return x
            return _shift(x, cf.bit_length() - 1, w)
        if cf == fw and c == fw:
            return not_(x)
        if x.op == 'ite' and isc(x.a[1]) and isc(x.a[2]):
            return ite(x.a[0], const(x.a[1].d * cf + c, w), const(x.a[2].d * cf + c, w))
        if w == 1:
            return xor(x, const(c, 1))
    items = sorted(out.items(), key=lambda it: it[0].id)
    return _mk('L', w, (c, tuple(cf for x, cf in items)), tuple(x for x, cf in items))


def _L_exact(t):
    tot = t.d[0]
    for cf, x in zip(t.d[1], t.a):
        tot += cf * umax(x)
    return tot <= full(t.w)


def lin(w, c, pairs):
    acc = {}
    for t, k in pairs:
        ct, pt = lparts(t)
        c += ct * k
        for x, cf in pt.items():
            acc[x] = acc.get(x, 0) + cf * k
    return mkL(w, c, acc)


def add(a, b):
    assert a.w == b.w, (a, b)
    if isc(a) and isc(b):
        return const(a.d + b.d, a.w)
    if a.w == 1:
        return xor(a, b)
    ca, pa = lparts(a)
    cb, pb = lparts(b)
    if len(pa) < len(pb):
        pa, pb = pb, pa
    acc = dict(pa)
    for x, cf in pb.items():
        acc[x] = acc.get(x, 0) + cf
    return mkL(a.w, ca + cb, acc)


def sub(a, b):
    assert a.w == b.w
    if a is b:
        return const(0, a.w)
    if a.w == 1:
        return xor(a, b)
    ca, pa = lparts(a)
    cb, pb = lparts(b)
    acc = dict(pa)
    for x, cf in pb.items():
        acc[x] = acc.get(x, 0) - cf
    return mkL(a.w, ca - cb, acc)


def mulc(a, k):
    c, p = lparts(a)
    return mkL(a.w, c * k, {x: cf * k for x, cf in p.items()})


def mul(a, b):
    if isc(a):
        return mulc(b, a.d)
    if isc(b):
        return mulc(a, b.d)
    if a.id > b.id:
        a, b = b, a
    return _mk('*', a.w, None, (a, b))


def addn(w, ts):
    return lin(w, 0, [(t, 1) for t in ts])


# ------------------------------------------------------------------ others
def ite(c, a, b):
    assert c.w == 1 and a.w == b.w
    if isc(c):
        return a if c.d else b
    if a is b:
        return a
    if c.op == 'X' and c.d[0] == 1:
        return ite(not_(c), b, a)
    if a.w == 1:
        # boolean ite
        if isc(a):
            return or_(c, b) if a.d else and_(not_(c), b)
        if isc(b):
            return or_(not_(c), a) if b.d else and_(c, a)
        return xor(and_(c, a), and_(not_(c), b))
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return _mk('ite', a.w, None, (c, a, b))


def eq(a, b):
    assert a.w == b.w, (a, b)
    if a is b:
        return true()
    if a.w == 1:
        return not_(xor(a, b))
    return eq0(sub(a, b))


def eq0(d):
    if isc(d):
        return true() if d.d == 0 else false()
    w = d.w
    c, p = lparts(d)
    # parity
    tz = min(_tz(cf) + _tz_pm(x) for x, cf in p.items())
    if c & full(min(tz, w)):
        return false()
    if len(p) == 1:
        (x, cf), = p.items()
        if cf == full(w):
            # -x + c == 0
            cf = 1
            c = -c & full(w)
        if cf == 1:
            v = -c & full(w)
            # x == v
            if v & ~pm(x):
                return false()
            if v > umax(x):
                return false()
            k = max(pm(x).bit_length(), 1)
            if k < w and x.op == 'X' and len(x.a) > 1:
                return eq(trunc(x, k), const(v, k))
            if x.op == 'ite' and (isc(x.a[1]) or isc(x.a[2])):
                return ite(x.a[0], eq(x.a[1], const(v, w)), eq(x.a[2], const(v, w)))
            if x.op == 'tbl':
                return tbl(x.d[0], tuple(1 if y == v else 0 for y in x.d[1]), 1, x.a[0])
            if x.op == 'X' and len(x.a) == 1:
                (s, m), = x.d[1]
                cx = x.d[0]
                # fixed bits
                if (v ^ cx) & ~m:
                    return false()
                y = x.a[0]
                vv = (v ^ cx) & m
                sv = (vv >> s) if s >= 0 else (vv << -s)
                sm = (m >> s) if s >= 0 else (m << -s)
                if sm == pm(y) and y.w < w:
                    return eq(y, const(sv, y.w))
                if (s != 0 or cx) and y.w <= w:
                    return eq(and_(y, const(sm, y.w)), const(sv, y.w))
            return _mk('eq0', 1, None, (mkL(w, -v, {x: 1}),))
    # sign normalise: make the first coefficient "small positive"
    items = sorted(p.items(), key=lambda it: it[0].id)
    if items[0][1] >> (w - 1):
        d = mkL(w, -c, {x: -cf for x, cf in p.items()})
    return _mk('eq0', 1, None, (d,))


def ne(a, b):
    return not_(eq(a, b))


def ult(a, b):
    if a is b:
        return false()
    w = a.w
    if w == 1:
        return and_(not_(a), b)
    if isc(b):
        if b.d == 0:
            return false()
        if isc(a):
            return true() if a.d < b.d else false()
        if umax(a) < b.d:
            return true()
        if b.d == 1:
            return eq0(a)
        k = pm(a).bit_length()
        if k < w and _narrowable(a, k):
            return ult(trunc(a, k), const(b.d, k))
        if a.op == 'ite' and (isc(a.a[1]) or isc(a.a[2])):
            return ite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
        if a.op == 'tbl':
            return tbl(a.d[0], tuple(1 if v < b.d else 0 for v in a.d[1]), 1, a.a[0])
        # power of two bound: upper bits are zero
        return _mk('ult', 1, None, (a, b))
    if isc(a):
        if a.d == full(w):
            return false()
        return not_(ult(b, const(a.d + 1, w)))
    k = max(pm(a).bit_length(), pm(b).bit_length(), 1)
    if k < w and _narrowable(a, k) and _narrowable(b, k):
        return ult(trunc(a, k), trunc(b, k))
    return _mk('ult', 1, None, (a, b))


def _narrowable(x, k):
    return x.op == 'X' and all(y.w <= k for y in x.a)


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    w = a.w
    if w == 1:
        return and_(a, not_(b))
    h = 1 << (w - 1)
    if not (pm(a) & h) and not (pm(b) & h):
        return ult(a, b)
    if isc(b) and b.d == 0:
        return ext(a, w - 1, 1)
    if isc(a) and a.d == full(w):
        return not_(ext(b, w - 1, 1))
    if a.op == 'sext' and (b.op == 'sext' and b.a[0].w == a.a[0].w):
        return slt(a.a[0], b.a[0])
    if a.op == 'sext' and isc(b):
        iw = a.a[0].w
        v = b.d - (1 << w) if b.d & h else b.d
        if -(1 << (iw - 1)) <= v < (1 << (iw - 1)):
            return slt(a.a[0], const(v, iw))
        return true() if v > 0 else false()
    if b.op == 'sext' and isc(a):
        iw = b.a[0].w
        v = a.d - (1 << w) if a.d & h else a.d
        if -(1 << (iw - 1)) <= v < (1 << (iw - 1)):
            return slt(const(v, iw), b.a[0])
        return false() if v > 0 else true()
    hc = const(h, w)
    return ult(add(a, hc), add(b, hc))


def sle(a, b):
    return not_(slt(b, a))


def udiv(a, b):
    if isc(b) and b.d:
        if isc(a):
            return const(a.d // b.d, a.w)
        if b.d & (b.d - 1) == 0:
            return lshr(a, b.d.bit_length() - 1)
        if umax(a) < b.d:
            return const(0, a.w)
        if a.op == 'L' and _L_exact(a):
            # exact (no wrap) linear form: split off multiples of the divisor
            q = {x: cf // b.d for cf, x in zip(a.d[1], a.a) if cf % b.d == 0}
            if q:
                rest = mkL(a.w, a.d[0] % b.d, {x: cf for cf, x in zip(a.d[1], a.a) if cf % b.d})
                return add(mkL(a.w, a.d[0] // b.d, q), udiv(rest, b))
    return _mk('udiv', a.w, None, (a, b))


def urem(a, b):
    if isc(b) and b.d:
        if isc(a):
            return const(a.d % b.d, a.w)
        if b.d & (b.d - 1) == 0:
            return and_(a, const(b.d - 1, a.w))
        if umax(a) < b.d:
            return a
        if a.op == 'L' and _L_exact(a):
            rest = mkL(a.w, a.d[0] % b.d, {x: cf % b.d for cf, x in zip(a.d[1], a.a)})
            if rest is not a:
                return urem(rest, b)
    return _mk('urem', a.w, None, (a, b))


def _sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def sdiv(a, b):
    if isc(a) and isc(b) and b.d:
        x, y = _sgn(a.d, a.w), _sgn(b.d, a.w)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, a.w)
    h = 1 << (a.w - 1)
    if not pm(a) & h and not pm(b) & h:
        return udiv(a, b)
    return _mk('sdiv', a.w, None, (a, b))


def srem(a, b):
    if isc(a) and isc(b) and b.d:
        x, y = _sgn(a.d, a.w), _sgn(b.d, a.w)
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r, a.w)
    h = 1 << (a.w - 1)
    if not pm(a) & h and not pm(b) & h:
        return urem(a, b)
    return _mk('srem', a.w, None, (a, b))


def shlv(a, b):
    if isc(b):
        return shl(a, b.d)
    if b.op == 'ite' and isc(b.a[1]) and isc(b.a[2]):
        return ite(b.a[0], shlv(a, b.a[1]), shlv(a, b.a[2]))
    return _mk('shlv', a.w, None, (a, b))


def lshrv(a, b):
    if isc(b):
        return lshr(a, b.d)
    return _mk('lshrv', a.w, None, (a, b))


def ashr(a, s):
    s = min(s, a.w - 1)
    if s == 0:
        return a
    return sext(ext(a, s, a.w - s), a.w)


def ashrv(a, b):
    if isc(b):
        return ashr(a, b.d)
    return _mk('ashrv', a.w, None, (a, b))


def tbl(name, vals, w, idx):
    """constant table lookup; the index is known to be in range"""
    if isc(idx):
        return const(vals[idx.d], w) if idx.d < len(vals) else const(0, w)
    vals = tuple(v & full(w) for v in vals)
    first = vals[0]
    if all(v == first for v in vals) and len(vals) > umax(idx):
        return const(first, w)
    k = max(pm(idx).bit_length(), 1)
    if k < idx.w:
        idx = trunc(idx, k)
        if len(vals) > 1 << k:
            vals = vals[:1 << k]
    if w <= idx.w and len(vals) == 1 << idx.w and all(v == (i & full(w)) for i, v in enumerate(vals)):
        return trunc(idx, w)
    return _mk('tbl', w, ('t', vals), (idx,))


def uf(name, w, args):
    return _mk('uf', w, name, tuple(args))


def sel(array, pos):
    """byte `pos` of the ghost array `array`"""
    return _mk('M', 8, array, (pos,))


def ctop(op, a):
    if isc(a):
        v = a.d
        if op == 'ctpop':
            return const(bin(v).count('1'), a.w)
        if op == 'ctlz':
            return const(a.w - v.bit_length(), a.w)
        if op == 'cttz':
            return const(_tz(v) if v else a.w, a.w)
    return _mk(op, a.w, None, (a,))


# ------------------------------------------------------------------ utilities
def children(t):
    return t.a


def topo(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t in seen:
            continue
        seen.add(t)
        stack.append((t, True))
        for x in t.a:
            if x not in seen:
                stack.append((x, False))
    return out


def rebuild(t, a):
    op = t.op
    w = t.w
    if op == 'X':
        c = t.d[0]
        out = {}
        for (s, m), x in zip(t.d[1], a):
            cx, px = xparts(x)
            c ^= ((cx << s) if s >= 0 else (cx >> -s)) & m
            for (y, s2), m2 in px.items():
                mm = ((m2 << s) if s >= 0 else (m2 >> -s)) & m
                if mm:
                    k = (y, s + s2)
                    mm ^= out.get(k, 0)
                    if mm:
                        out[k] = mm
                    else:
                        out.pop(k, None)
        return mkX(w, c, out)
    if op == 'L':
        return lin(w, t.d[0], list(zip(a, t.d[1])))
    if op == '&':
        r = a[0]
        for x in a[1:]:
            r = and_(r, x)
        return r
    if op == 'box':
        return a[0] if a[0].op != 'X' or len(a[0].a) <= BOX else _mk('box', w, None, (a[0],))
    if op == 'ite':
        return ite(*a)
    if op == 'eq0':
        return eq0(a[0])
    if op == 'ult':
        return ult(*a)
    if op == 'sext':
        return sext(a[0], w)
    if op == '*':
        return mul(*a)
    if op == 'tbl':
        return tbl(t.d[0], t.d[1], w, a[0])
    if op == 'M':
        return sel(t.d, a[0])
    if op == 'udiv':
        return udiv(*a)
    if op == 'urem':
        return urem(*a)
    if op == 'sdiv':
        return sdiv(*a)
    if op == 'srem':
        return srem(*a)
    if op == 'shlv':
        return shlv(*a)
    if op == 'lshrv':
        return lshrv(*a)
    if op == 'ashrv':
        return ashrv(*a)
    if op in ('ctpop', 'ctlz', 'cttz'):
        return ctop(op, a[0])
    if op == 'uf':
        h = UFHOOK.get(t.d[0] if isinstance(t.d, tuple) else t.d)
        if h:
            return h(t.d, w, a)
        return _mk('uf', w, t.d, tuple(a))
    raise KeyError(op)


UFHOOK = {}


def subst(roots, mp, memo=None):
    """simultaneous substitution of terms (by identity)"""
    memo = {} if memo is None else memo
    memo.update(mp)
    single = isinstance(roots, T)
    rs = [roots] if single else roots
    stack = [r for r in rs if r not in memo]
    while stack:
        t = stack[-1]
        if t in memo:
            stack.pop()
            continue
        if not t.a:
            memo[t] = t
            stack.pop()
            continue
        todo = [x for x in t.a if x not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        na = tuple([memo[x] for x in t.a])
        memo[t] = t if na == t.a else rebuild(t, na)
    return memo[roots] if single else [memo[r] for r in rs]


def ev1(t, v):
    """value of t given the values v of its arguments"""
    op = t.op
    if op == 'X':
        r = t.d[0]
        for (s, m), x in zip(t.d[1], v):
            r ^= ((x << s) if s >= 0 else (x >> -s)) & m
        return r & full(t.w)
    if op == 'L':
        r = t.d[0]
        for c, x in zip(t.d[1], v):
            r += c * x
        return r & full(t.w)
    if op == '&':
        r = v[0]
        for x in v[1:]:
            r &= x
        return r
    if op == 'box':
        return v[0]
    if op == 'ite':
        return v[1] if v[0] else v[2]
    if op == 'eq0':
        return 1 if v[0] == 0 else 0
    if op == 'ult':
        return 1 if v[0] < v[1] else 0
    if op == 'sext':
        iw = t.a[0].w
        x = v[0]
        if x >> (iw - 1):
            x |= full(t.w) & ~full(iw)
        return x
    if op == '*':
        return v[0] * v[1] & full(t.w)
    if op == 'tbl':
        return t.d[1][v[0]] if v[0] < len(t.d[1]) else 0
    if op == 'udiv':
        return v[0] // v[1] if v[1] else full(t.w)
    if op == 'urem':
        return v[0] % v[1] if v[1] else v[0]
    if op in ('sdiv', 'srem'):
        w = t.w
        x, y = _sgn(v[0], w), _sgn(v[1], w)
        if y == 0:
            return (1 if x < 0 else full(w)) if op == 'sdiv' else v[0]
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == 'sdiv' else x - q * y) & full(w)
    if op == 'shlv':
        return (v[0] << v[1]) & full(t.w) if v[1] < t.w else 0
    if op == 'lshrv':
        return v[0] >> v[1] if v[1] < t.w else 0
    if op == 'ashrv':
        return (_sgn(v[0], t.w) >> min(v[1], t.w)) & full(t.w)
    if op == 'ctpop':
        return bin(v[0]).count('1')
    if op == 'ctlz':
        return t.w - v[0].bit_length()
    if op == 'cttz':
        return _tz(v[0]) if v[0] else t.w
    raise KeyError(op)


def evaluate(roots, env, fn=None):
    """env: dict for symbols (by T); fn(t, argvalues) for M / uf nodes"""
    memo = dict(env)
    single = isinstance(roots, T)
    rs = [roots] if single else roots
    for t in topo(rs):
        if t in memo:
            continue
        if t.op == 'c':
            memo[t] = t.d
        elif t.op in ('s', 'M', 'uf'):
            memo[t] = fn(t, [memo[x] for x in t.a])
        else:
            memo[t] = ev1(t, [memo[x] for x in t.a])
    return memo[roots] if single else [memo[r] for r in rs]


def show(t, depth=6):
    if depth == 0:
        return '..'
    op = t.op
    if op == 'c':
        return hex(t.d) if t.d > 9 else str(t.d)
    if op == 's':
        return str(t.d)
    f = lambda x: show(x, depth - 1)
    if op == 'X':
        ps = []
        if t.d[0]:
            ps.append(hex(t.d[0]))
        for (s, m), x in zip(t.d[1], t.a):
            if s == 0 and m == full(x.w):
                ps.append(f(x))
            else:
                ps.append('(%s%s)&%x' % (f(x), ('<<%d' % s if s > 0 else '>>%d' % -s if s else ''), m))
        return '{' + '^'.join(ps) + '}'
    if op == 'L':
        ps = []
        for c, x in zip(t.d[1], t.a):
            if c >> (t.w - 1):
                c -= 1 << t.w
            ps.append(f(x) if c == 1 else '%d*%s' % (c, f(x)))
        c = t.d[0]
        if c >> (t.w - 1):
            c -= 1 << t.w
        if c:
            ps.append(str(c))
        return '(' + '+'.join(ps) + ')'
    if op == 'M':
        return '%s[%s]' % (t.d, f(t.a[0]))
    if op == 'uf':
        return '%s(%s)' % (t.d, ','.join(f(x) for x in t.a[:6]) + (',..' if len(t.a) > 6 else ''))
    if op == 'tbl':
        return 'tbl[%s]' % f(t.a[0])
    return '%s(%s)' % (op, ','.join(f(x) for x in t.a))


def size(t):
    return len(topo([t]))
