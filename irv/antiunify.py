"""Generalisation of two terms into one that is affine in a fresh counter."""
from . import terms as t


def kw(k, w):
    if w == k.w:
        return k
    return t.trunc(k, w) if w < k.w else t.zext(k, w)


def gen(a, b, k, memo=None, depth=0):
    """G(k) with G(0) = a and G(1) = b, or None"""
    if a is b:
        return a
    if a.w != b.w:
        return None
    if depth == 0:
        memo = {}
    key = (a, b)
    if key in memo:
        return memo[key]
    memo[key] = None
    r = _gen(a, b, k, memo, depth)
    memo[key] = r
    return r


def _gen(a, b, k, memo, depth):
    if depth > 60:
        return None
    w = a.w
    if w > 1:
        d = t.sub(b, a)
        if d.op == 'c':
            if w < 32:
                return None
            c = d.d
            return t.add(a, t.mulc(kw(k, w), c))
    if a.op == 'c' or b.op == 'c' or a.op != b.op:
        return None
    op = a.op
    if op == 's':
        return None
    if op == 'X':
        return _genX(a, b, k, memo, depth)
    if a.d != b.d or len(a.a) != len(b.a):
        if op == 'L' and len(a.a) == len(b.a):
            return _genL(a, b, k, memo, depth)
        return None
    if op == 'L':
        return _genL(a, b, k, memo, depth)
    na = []
    for x, y in zip(a.a, b.a):
        g = gen(x, y, k, memo, depth + 1)
        if g is None:
            return None
        na.append(g)
    return t.rebuild(a, tuple(na))


def _genL(a, b, k, memo, depth):
    """match the addends that differ"""
    pa = dict(zip(a.a, a.d[1]))
    pb = dict(zip(b.a, b.d[1]))
    common = {y: c for y, c in pa.items() if pb.get(y) == c}
    ra = [(y, c) for y, c in pa.items() if y not in common]
    rb = [(y, c) for y, c in pb.items() if y not in common]
    if len(ra) != len(rb) or len(ra) > 40:
        return None
    parts = list(common.items())
    for y, c in ra:
        for i, (z, e) in enumerate(rb):
            if c == e and y.op == z.op and y.w == z.w:
                g = gen(y, z, k, memo, depth + 1)
                if g is not None:
                    parts.append((g, c))
                    del rb[i]
                    break
        else:
            return None
    c0, c1 = a.d[0], b.d[0]
    r = t.lin(a.w, c0, parts)
    if c0 != c1:
        r = t.add(r, t.mulc(kw(k, a.w), c1 - c0))
    return r


def _genX(a, b, k, memo, depth):
    if a.d[0] != b.d[0]:
        return None
    sa, sb = {}, {}
    ca, pa = t.xparts(a)
    cb, pb = t.xparts(b)
    # group the segments of each atom
    for (y, s), m in pa.items():
        sa.setdefault(y, []).append((s, m))
    for (y, s), m in pb.items():
        sb.setdefault(y, []).append((s, m))
    out = []
    left = {}
    for y, segs in sa.items():
        segs.sort()
        if y in sb and sorted(sb[y]) == segs:
            out.append((y, segs))
        else:
            left[y] = segs
    used = {y for y, _ in out}
    rb = [(y, sorted(segs)) for y, segs in sb.items() if y not in used]
    if len(rb) != len(left):
        return None
    for y, segs in left.items():
        for i, (z, e) in enumerate(rb):
            if e == segs and z.op == y.op and z.w == y.w:
                g = gen(y, z, k, memo, depth + 1)
                if g is not None:
                    out.append((g, segs))
                    del rb[i]
                    break
        else:
            return None
    r = t.const(a.d[0], a.w)
    for g, segs in out:
        for s, m in segs:
            x = t.zext(g, max(a.w, g.w))
            x = t.shl(x, s) if s >= 0 else t.lshr(x, -s)
            x = t.trunc(x, a.w)
            r = t.xor(r, t.and_(x, t.const(m, a.w)))
    return r


def check_gen(g, k, a, b):
    return t.subst(g, {k: t.const(0, k.w)}) is a and t.subst(g, {k: t.const(1, k.w)}) is b
