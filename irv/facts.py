"""Path conditions: an interval domain over canonical terms, with an SMT
fallback.  decide() answers 1 / 0 when the condition is implied / refuted,
None when both outcomes are feasible."""
import time
from . import terms as t

STATS = {'interval': 0, 'witness': 0, 'smt': 0, 'smt_time': 0.0, 'smt_unknown': 0, 'syntactic': 0}


class Infeasible(Exception):
    pass


def keyof(x):
    """x = key + c  (key has no constant part, sign normalised) -> key, c, sign"""
    if x.op == 'L':
        c, p = x.d[0], None
        w = x.w
        if len(x.a) == 1 and x.d[1][0] == t.full(w):
            return x.a[0], c, -1
        if x.d[1][0] > 1 << (w - 1):
            key = t.mkL(w, 0, {y: -cf for cf, y in zip(x.d[1], x.a)})
            return key, c, -1
        if c == 0:
            return x, 0, 1
        return t.mkL(w, 0, dict(zip(x.a, x.d[1]))), c, 1
    c, p = t.lparts(x)
    if c and len(p) == 1:
        (y, cf), = p.items()
        if cf == 1:
            return y, c, 1
        if cf == t.full(x.w):
            return y, c, -1
    return x, 0, 1


class Facts:
    __slots__ = ('iv', 'conds', 'bools')

    def __init__(self):
        self.iv = {}
        self.conds = []
        self.bools = {}

    def copy(self):
        f = Facts()
        f.iv = dict(self.iv)
        f.conds = list(self.conds)
        f.bools = dict(self.bools)
        return f

    # ---- ranges
    def rng(self, x, depth=0):
        if x.op == 'c':
            return x.d, x.d
        w = x.w
        fw = t.full(w)
        r = self.iv.get(x)
        lo, hi = r if r else (0, t.umax(x))
        op = x.op
        if op == 'L':
            key, c, sg = keyof(x)
            r = self.iv.get(key)
            if r:
                a, b = r
                if sg < 0:
                    a, b = -b, -a
                a += c
                b += c
                a, b = _wrap(a, b, w)
                lo, hi = max(lo, a), min(hi, b)
            if depth < 3 and lo != hi:
                a, b = self._lrange(x, depth)
                a, b = _wrap(a, b, w)
                lo, hi = max(lo, a), min(hi, b)
                if lo != hi:
                    # use facts on linear sub-forms
                    mine = dict(zip(x.a, x.d[1]))
                    for k, (ka, kb) in self.iv.items():
                        if k.op == 'L' and k.w == w and k is not key and k.a[0] in mine:
                            k0 = k.d[1][0]
                            m0 = mine[k.a[0]]
                            if m0 == k0:
                                s = 1
                            elif (m0 + k0) & fw == 0:
                                s = -1
                            else:
                                continue
                            if all(y in mine and mine[y] == (s * cf) & fw for cf, y in zip(k.d[1], k.a)):
                                rest = t.mkL(w, x.d[0], {y: cf for y, cf in mine.items() if y not in k.a})
                                ra, rb = self.rng_signed(rest, depth + 1)
                                if s > 0:
                                    a, b = _wrap(ka + ra, kb + rb, w)
                                else:
                                    a, b = _wrap(ra - kb, rb - ka, w)
                                lo, hi = max(lo, a), min(hi, b)
        elif op == 'X':
            if len(x.a) == 1 and x.d[0] == 0:
                (s, m), = x.d[1]
                y = x.a[0]
                ya, yb = self.rng(y, depth + 1)
                if s >= 0:
                    if m == (t.pm(y) << s) & fw and (yb << s) <= fw:
                        lo, hi = max(lo, ya << s), min(hi, yb << s)
                    elif s == 0 and m == t.full(m.bit_length()) and yb <= m:
                        lo, hi = max(lo, ya), min(hi, yb)
                elif m == (t.pm(y) >> -s) & fw and yb >> -s <= fw:
                    lo, hi = max(lo, ya >> -s), min(hi, yb >> -s)
                if s <= 0:
                    # bits k and above of y >> -s, all of them inside the mask
                    k = (m & -m).bit_length() - 1
                    if m == t.full(m.bit_length()) & ~t.full(k) and yb >> -s <= t.full(m.bit_length()):
                        lo, hi = max(lo, (ya >> -s) >> k << k), min(hi, (yb >> -s) >> k << k)
            elif len(x.a) == 1:
                (s, m), = x.d[1]
                if s == 0 and m == fw and x.d[0] == fw and x.a[0].w == w:
                    ya, yb = self.rng(x.a[0], depth + 1)
                    lo, hi = max(lo, fw - yb), min(hi, fw - ya)
        elif op == 'ite':
            d = self.decide_fast(x.a[0]) if depth < 4 else None
            if d == 1:
                return self.rng(x.a[1], depth + 1)
            if d == 0:
                return self.rng(x.a[2], depth + 1)
            a, b = self.rng(x.a[1], depth + 1)
            c, e = self.rng(x.a[2], depth + 1)
            lo, hi = max(lo, min(a, c)), min(hi, max(b, e))
        elif op == '&':
            hi = min([hi] + [self.rng(y, depth + 1)[1] for y in x.a])
        elif op == 'udiv' and x.a[1].op == 'c' and x.a[1].d:
            a, b = self.rng(x.a[0], depth + 1)
            lo, hi = max(lo, a // x.a[1].d), min(hi, b // x.a[1].d)
        elif op == 'urem' and x.a[1].op == 'c' and x.a[1].d:
            a, b = self.rng(x.a[0], depth + 1)
            hi = min(hi, x.a[1].d - 1, b)
        elif op == 'tbl':
            a, b = self.rng(x.a[0], depth + 1)
            vs = x.d[1][a:b + 1]
            if vs:
                lo, hi = max(lo, min(vs)), min(hi, max(vs))
        elif op == '*':
            a, b = self.rng(x.a[0], depth + 1)
            c, e = self.rng(x.a[1], depth + 1)
            if b * e <= fw:
                lo, hi = max(lo, a * c), min(hi, b * e)
        if lo > hi:
            raise Infeasible()
        return lo, hi

    def _lrange(self, x, depth):
        w = x.w
        h = 1 << (w - 1)
        lo = hi = x.d[0] - (1 << w) if x.d[0] & h else x.d[0]
        for cf, y in zip(x.d[1], x.a):
            if cf & h:
                cf -= 1 << w
            a, b = self.rng(y, depth + 1)
            if cf >= 0:
                lo += cf * a
                hi += cf * b
            else:
                lo += cf * b
                hi += cf * a
        return lo, hi

    def rng_signed(self, x, depth=0):
        """integer range reading big constants as negative"""
        if x.op == 'c':
            return (x.d - (1 << x.w), ) * 2 if x.d >> (x.w - 1) else (x.d, x.d)
        if x.op == 'L':
            return self._lrange(x, depth)
        return self.rng(x, depth)

    def set_range(self, x, lo, hi):
        """record lo <= x <= hi (unsigned)"""
        if lo > hi:
            raise Infeasible()
        if x.op == 'c':
            if not lo <= x.d <= hi:
                raise Infeasible()
            return
        w = x.w
        key, c, sg = keyof(x)
        if key is not x:
            a, b = lo - c, hi - c
            if sg < 0:
                a, b = -b, -a
            M = 1 << w
            # place in window; only usable when it does not wrap
            sh = a // M
            a -= sh * M
            b -= sh * M
            if b >= M:
                # wrapped interval; intersect with the known one if that lies on one side
                ka, kb = self.rng(key)
                if kb < a:
                    a, b = 0, b - M
                elif ka > b - M:
                    b = M - 1
                else:
                    return
            self.set_range(key, a, b)
            return
        ca, cb = self.rng(x)
        lo, hi = max(lo, ca), min(hi, cb)
        if lo > hi:
            raise Infeasible()
        if (lo, hi) != (0, t.full(w)) and (lo, hi) != (ca, cb) or x not in self.iv:
            old = self.iv.get(x)
            self.iv[x] = (lo, hi)
            if x.op == 's' and old != (lo, hi):
                # the sums it occurs in bound the other addends
                for y in [y for y in self.iv if y.op == 'L' and x in y.a]:
                    r = self.iv[y]
                    self.set_range(y, r[0], r[1])
        if x.op == 'X' and len(x.a) == 1 and x.d[0] == 0:
            (s, m), = x.d[1]
            y = x.a[0]
            if s >= 0 and m == (t.pm(y) << s) & t.full(w):
                ylo = -(-lo >> s) if s else lo
                yhi = hi >> s
                if y.w + s <= w or (t.umax(y) << s) <= t.full(w) or (self.rng(y)[1] << s) <= t.full(w):
                    self.set_range(y, ylo, min(yhi, t.full(y.w)))
            elif s < 0 and m == (t.pm(y) >> -s) & t.full(w) and self.rng(y)[1] >> -s <= t.full(w):
                self.set_range(y, lo << -s, min((hi << -s) | t.full(-s), t.full(y.w)))
            elif s <= 0:
                k = (m & -m).bit_length() - 1
                if m == t.full(m.bit_length()) & ~t.full(k) and self.rng(y)[1] >> -s <= t.full(m.bit_length()):
                    self.set_range(y, (-(-lo >> k) << k) << -s, min(((hi >> k << k) | t.full(k)) << -s | t.full(-s), t.full(y.w)))
        elif x.op == 'L':
            # the integer value of the sum equals x when it cannot wrap:
            # propagate its bounds to the addends
            h = 1 << (w - 1)
            sl, sh = self._lrange(x, 0)
            if hi < h and -h < sl and sh < (1 << w) and (sl >= 0 or sh < h):
                c0 = x.d[0] - (1 << w) if x.d[0] & h else x.d[0]
                rs = []
                for cf, y in zip(x.d[1], x.a):
                    if cf & h:
                        cf -= 1 << w
                    a, b = self.rng(y)
                    rs.append((cf, y, a, b))
                for cf, y, a, b in rs:
                    ol, oh = (sl - cf * a, sh - cf * b) if cf > 0 else (sl - cf * b, sh - cf * a)
                    # lo <= cf*y + others <= hi
                    vl, vh = lo - oh, hi - ol
                    if cf > 0:
                        na, nb = -(-vl // cf), vh // cf
                    else:
                        na, nb = -(vh // -cf), -vl // -cf
                    na, nb = max(a, na), min(b, nb)
                    if na > nb:
                        raise Infeasible()
                    if (na, nb) != (a, b):
                        self.set_range(y, na, nb)

    def simplify(self, x, memo=None):
        """replace symbols the path fixes by their value"""
        fixed = {}
        for y, (lo, hi) in self.iv.items():
            if y.op == 's' and lo == hi:
                fixed[y] = t.const(lo, y.w)
        if not fixed:
            return x
        return t.subst(x, fixed, memo)

    # ---- booleans
    def assume(self, cond, val=1):
        if cond.op == 'c':
            if cond.d != val:
                raise Infeasible()
            return
        if cond.op == 'X' and cond.d[0] == 1 and len(cond.a) == 1:
            return self.assume(t.not_(cond), 1 - val)
        d = self.decide_fast(cond)
        if d is not None:
            if d != val:
                raise Infeasible()
            return
        if cond.op == '&' and val:
            for y in cond.a:
                self.assume(y, 1)
            self.bools[cond] = 1
            return
        self._learn(cond, val)
        # keep the condition unless the intervals alone imply it now
        if self.decide_fast(cond) != val:
            self.bools[cond] = val
            self.conds.append(cond if val else t.not_(cond))

    def _learn(self, cond, val):
        op = cond.op
        if op == '&' and val:
            for y in cond.a:
                try_ = self.decide_fast(y)
                if try_ == 0:
                    raise Infeasible()
                if try_ is None:
                    self.bools[y if not (y.op == 'X' and y.d[0] == 1) else y] = 1
                    if y.op == 'X' and y.d[0] == 1 and len(y.a) == 1:
                        self._learn(t.not_(y), 0)
                    else:
                        self._learn(y, 1)
        elif op == 'eq0':
            x = cond.a[0]
            if val:
                self.set_range(x, 0, 0)
            else:
                lo, hi = self.rng(x)
                key, c, sg = keyof(x)
                if sg > 0:
                    bad = -c & t.full(x.w)
                else:
                    bad = c & t.full(x.w)
                lo, hi = self.rng(key)
                if lo == bad:
                    self.set_range(key, lo + 1, hi)
                elif hi == bad:
                    self.set_range(key, lo, hi - 1)
        elif op == 'ult':
            a, b = cond.a
            fw = t.full(a.w)
            la, ha = self.rng(a)
            lb, hb = self.rng(b)
            if val:
                if hb == 0:
                    raise Infeasible()
                self.set_range(a, la, min(ha, hb - 1))
                self.set_range(b, max(lb, la + 1), hb)
                d = t.sub(b, a)
                if d.op != 'c' and b.op != 'c':
                    self.set_range(d, max(1, lb - ha), hb - la)
            else:
                self.set_range(a, max(la, lb), ha)
                self.set_range(b, lb, min(hb, ha))
                d = t.sub(a, b)
                if d.op != 'c' and b.op != 'c':
                    self.set_range(d, max(0, la - hb), ha - lb)
        elif op == 'X' and cond.w == 1 and len(cond.a) == 1:
            # a single bit of a wider term
            (s, m), = cond.d[1]
            y = cond.a[0]
            if s < 0 and -s == y.w - 1:
                bit = val ^ cond.d[0]
                h = 1 << (y.w - 1)
                if bit:
                    self.set_range(y, h, t.full(y.w))
                else:
                    self.set_range(y, 0, h - 1)

    def decide_fast(self, cond):
        op = cond.op
        if op == 'c':
            return cond.d
        v = self.bools.get(cond)
        if v is not None:
            return v
        if op == 'eq0':
            lo, hi = self.rng(cond.a[0])
            if lo > 0:
                return 0
            if hi == 0:
                return 1
            # x == v as a range on the key
            key, c, sg = keyof(cond.a[0])
            if key is not cond.a[0]:
                v = (-c if sg > 0 else c) & t.full(key.w)
                lo, hi = self.rng(key)
                if v < lo or v > hi:
                    return 0
                if lo == hi:
                    return 1
            return None
        if op == 'ult':
            a, b = cond.a
            la, ha = self.rng(a)
            lb, hb = self.rng(b)
            if ha < lb:
                return 1
            if la >= hb:
                return 0
            if b.op != 'c':
                # same base: a = k + c1, b = k + c2 without wrap
                d = t.sub(b, a)
                if d.op == 'c':
                    # b = a + d
                    if ha + d.d <= t.full(a.w):
                        return 1 if d.d else 0
                    neg = (1 << a.w) - d.d
                    if la >= neg:
                        return 0
                else:
                    ld, hd = self.rng(d)
                    # b - a (mod) is in [ld,hd]; if small and a cannot wrap
                    if ha + hd <= t.full(a.w):
                        if ld > 0:
                            return 1
                        if hd == 0:
                            return 0
                    d2 = t.sub(a, b)
                    ld, hd = self.rng(d2)
                    if hb + hd <= t.full(a.w):
                        return 0
            return None
        if op == 'X' and cond.w == 1:
            r = cond.d[0]
            for (s, m), y in zip(cond.d[1], cond.a):
                if y.w == 1:
                    v = self.decide_fast(y)
                    if v is None:
                        return None
                    r ^= v
                else:
                    lo, hi = self.rng(y)
                    if s == 1 - y.w:
                        h = 1 << (y.w - 1)
                        if lo >= h:
                            r ^= 1
                        elif hi < h:
                            pass
                        else:
                            return None
                    elif lo == hi:
                        r ^= (lo >> -s) & 1
                    elif hi < (1 << -s):
                        pass
                    else:
                        return None
            return r
        if op == '&':
            allone = True
            for y in cond.a:
                v = self.decide_fast(y)
                if v == 0:
                    return 0
                if v is None:
                    allone = False
            return 1 if allone else None
        if op == 'ite':
            v = self.decide_fast(cond.a[0])
            if v is not None:
                return self.decide_fast(cond.a[1 if v else 2])
            return None
        if op == 'tbl':
            lo, hi = self.rng(cond.a[0])
            vs = set(cond.d[1][lo:hi + 1])
            if len(vs) == 1 and hi < len(cond.d[1]):
                return vs.pop()
            return None
        return None

    def decide(self, cond, timeout=4000):
        v = self.decide_fast(cond)
        if v is not None:
            STATS['interval'] += 1
            return v
        w1 = self.witness(cond, 1)
        if w1 == 0:
            return 0
        w0 = self.witness(cond, 0)
        if w0 == 0:
            return 1
        if w1 and w0:
            STATS['witness'] += 1
            return None
        pos = 'sat' if w1 else self.sat(cond, timeout)
        if pos == 'unsat':
            return 0
        neg = 'sat' if w0 else self.sat(t.not_(cond), timeout)
        if neg == 'unsat':
            return 1
        return None

    def witness(self, cond, val):
        """1: the path has a state with cond == val (shown by an assignment);
        0: it has none (shown by the intervals); None: not known"""
        F = self.copy()
        try:
            F.assume(cond, val)
        except Infeasible:
            return 0
        roots = F.conds + [cond]
        cs = list(roots)
        keys = [k for k in F.iv if k.op != 's']
        syms = []
        for x in t.topo(roots + keys):
            if x.op == 's':
                syms.append(x)
            elif x.op == 'M' or x.op == 'uf':
                return None
        if len(syms) > 10:
            return None
        rg = []
        free = 0
        for x in syms:
            a, b = F.rng(x)
            if a != b:
                free += 1
            rg.append((x, a, b))
        allr = roots + keys
        for mask in range(1 << min(free, 3)):
            env = {}
            j = 0
            for x, a, b in rg:
                if a == b:
                    env[x] = a
                else:
                    env[x] = b if (mask >> min(j, 2)) & 1 else a
                    j += 1
            vs = t.evaluate(allr, env)
            ok = all(v == 1 for v in vs[:len(F.conds)]) and vs[len(F.conds)] == val
            if ok:
                for k, v in zip(keys, vs[len(roots):]):
                    a, b = F.iv[k]
                    if not a <= v <= b:
                        ok = False
                        break
            if ok:
                return 1
        return None

    def relevant(self, extra):
        """conditions transitively sharing atoms with `extra` (+ everything small)"""
        return self.conds

    def sat(self, extra=None, timeout=4000, model=None):
        from . import smt
        t0 = time.time()
        r, m = smt.check([extra] if extra is not None else [], self, timeout)
        STATS['smt'] += 1
        STATS['smt_time'] += time.time() - t0
        if r == 'unknown':
            STATS['smt_unknown'] += 1
        if model is not None and r == 'sat':
            model.append(m)
        return r

    def proves_eq(self, a, b, timeout=6000):
        """a == b under the path condition"""
        if a is b:
            STATS['syntactic'] += 1
            return True
        if a.w != b.w:
            return False
        c = t.eq(a, b)
        v = self.decide_fast(c)
        if v is not None:
            STATS['interval'] += 1
            return v == 1
        return self.sat(t.not_(c), timeout) == 'unsat'


def _wrap(a, b, w):
    M = 1 << w
    sh = a // M
    a -= sh * M
    b -= sh * M
    if b >= M:
        return 0, M - 1
    return a, b
