"""Contract of the format specification parser: for a text of any length and
any contents, formatter::parse selects the encoding the text up to the closing
brace names, leaves the iterator at the brace (or the end), and throws for
every other text.  The scanning loop is unrolled while it fills its buffer and
then cut with an inferred, inductively proved invariant."""
from . import terms as t
from . import build
from .execu import Limit, PathEnd
from .loopcut import Cutter, back_edges, prune
from .facts import Infeasible
from .valunit import Unit, CHARS
from .encunit import ALPHA
from .renderunit import PRE, text_of, check_text

ALT = {'base64url': 'base64_url', 'z_base32': 'zbase32', 'base16': 'hexdec', 'base16_uppercase': 'HEXDEC', 'base8': 'octal', 'base2': 'binary'}
NAMES = []
for _e in ALPHA:
    NAMES.append(({'base16_uppercase': 'BASE16'}.get(_e, _e), _e))
    if _e in ALT:
        NAMES.append((ALT[_e], _e))
BIG = 1 << 50

VALUES = [('hv5', 'cthash::hash_value<5>', 5, 'base16'), ('sha256', 'cthash::sha256_value', 32, 'base16'), ('xxh32', 'cthash::xxhash32_value', 4, 'base16'),
          ('t64', 'cthash::tagged_hash_value<t64>', 10, 'base64'), ('t32', 'cthash::tagged_hash_value<t32>', 9, 'z_base32'), ('tno', 'cthash::tagged_hash_value<tno>', 11, 'base16')]


class LateCutter(Cutter):
    """cuts a loop only after K arrivals on one path; the conditions of the
    path that mention only rigid ghost symbols stay"""

    def __init__(self, M, K):
        super().__init__(M)
        self.K = K

    def __call__(self, M, st, fr, blk):
        if not self.enabled or (fr.prev, blk) not in back_edges(fr.f):
            return
        cnt = fr.regs['#' + blk]
        if cnt < self.K:
            return
        prune(M, st)
        key = self.key(st)
        for iid, ver in reversed(st.cuts):
            inv = self.byid(iid)
            if inv is not None and inv.key == key:
                if inv.version != ver or not inv.alive:
                    raise PathEnd('covered', 'stale')
                self.check_back(M, st, inv)
                raise PathEnd('covered', 'loop invariant re-established')
        snap = fr.loops.get(blk)
        if snap is not None and snap[0] == 'snap':
            self.build(M, snap[1], st, key)
            raise PathEnd('covered', 'generalised')
        fr.loops[blk] = ['snap', st.copy()]

    def base_facts(self, inv):
        F = super().base_facts(inv)
        ok = self.rigid(inv)
        for c in inv.entry.facts.conds:
            if ok(c):
                F.assume(c)
        for c, v in inv.entry.facts.bools.items():
            if ok(c):
                F.assume(c, v)
        return F

    def rigid(self, inv):
        def ok(c):
            for x in t.topo([c]):
                if x is inv.v or x is inv.k or (x.op == 's' and isinstance(x.d, str) and x.d.startswith(('hv:', 'uninit'))):
                    return False
            return True
        return ok


def tu(items):
    s = PRE
    for id, ty, ch in items:
        c = CHARS[ch][0]
        k = '%s_%s' % (id, ch)
        s += '''extern "C" {
unsigned long v_fsz_%(k)s() { return sizeof(std::formatter<%(ty)s, %(c)s>); }
const %(c)s * v_parse_%(k)s(void * f, const %(c)s * p, size_t n) { auto * x = new (f) std::formatter<%(ty)s, %(c)s>(); PC<%(c)s> pc{p, p + n}; return x->parse(pc); }
%(c)s * v_format_%(k)s(const void * f, const %(ty)s * v, %(c)s * o) { FC<%(c)s> x{o}; return static_cast<const std::formatter<%(ty)s, %(c)s> *>(f)->format(*v, x); }
}
''' % dict(k=k, ty=ty, c=c)
    return s


def prove(U, id, ty, n, dflt, ch):
    cname, cw = CHARS[ch]
    cb = cw // 8
    k = '%s_%s' % (id, ch)
    what = 'specification (%s) of %s' % (cname, ty)
    M = U.M
    for r in M.run(M.new_state(), '@v_fsz_' + k, []):
        size = r.val.d
    st = M.new_state()
    i = M.new_obj(st, 'input', None, 'text', ident=('spectext',))
    i.writable = False
    i.arr = 'M'
    i.pos0 = t.const(0, 64)
    N = t.sym('n', 64)
    st.facts.set_range(N, 0, BIG)
    i.size = t.mulc(N, cb)
    st.ghost['n'] = N
    f = M.new_obj(st, 'arg', size, 'formatter', ident=('fmt',))
    cut = LateCutter(M, 24)
    old, M.cutter = M.cutter, cut

    def char(j):
        return t.cat([t.sel('M', t.const(j * cb + b, 64)) for b in range(cb)][::-1])

    def brace(j, nn):
        """the text ends at j: end of the text, or a brace"""
        return t.or_(t.eq(nn, t.const(j, 64)), t.and_(t.ult(t.const(j, 64), nn), t.eq(char(j), t.const(ord('}'), cw))))

    def is_name(nm, nn):
        c = t.ule(t.const(len(nm), 64), nn)
        for j, x in enumerate(nm):
            c = t.and_(c, t.eq(char(j), t.const(ord(x), cw)))
        return t.and_(c, brace(len(nm), nn))

    def excluded(st, c):
        d = st.facts.decide(c)
        if d is not None:
            return d == 0, None
        ms = []
        r = st.facts.sat(c, 8000, ms)
        return (True if r == 'unsat' else False if r == 'sat' else None), c
    seen = set()
    outs = []
    try:
        for o in M.run(st, '@v_parse_' + k, [f.base, i.base, N]):
            U.paths += 1
            outs.append(o)
    finally:
        M.cutter = old
    for o in outs:
        s = o.state
        nn = s.ghost['n']
        if o.kind == 'throw':
            if 'invalid_argument' not in str(o.msg):
                U.ob(what + ': the error is std::invalid_argument', False if 'invalid' not in str(o.msg) else None, str(o.msg), U.model(s))
            for nm, e in NAMES + [('', dflt)]:
                ok, c = excluded(s, is_name(nm, nn))
                U.ob('%s: an error only where the text is not "%s"' % (what, nm), ok, '' if ok else 'the text is "%s"' % nm, U.model(s, c) if ok is False else None)
            seen.add('error')
            continue
        if o.kind != 'ret':
            U.ob('%s: no trap, bounds, frame' % what, False, '%s: %s' % (o.kind, o.msg), U.model(s))
            continue
        d = t.sub(o.val, i.base)
        if d.op != 'c':
            lo, hi = s.facts.rng(d)
            if lo == hi:
                d = t.const(lo, 64)
        if d.op != 'c' or d.d % cb:
            # a text longer than every name was accepted
            U.ob('%s: where the iterator is left' % what, False if s.facts.sat(None, 4000) == 'sat' else None, 'at %s' % t.show(d), U.model(s))
            continue
        e = d.d // cb
        c = brace(e, nn)
        for j in range(e):
            c = t.and_(c, t.not_(t.eq(char(j), t.const(ord('}'), cw))))
        ok, w = excluded(s, t.not_(c))
        U.ob('%s: the iterator is left at the closing brace or the end (%d characters)' % (what, e), ok, '', U.model(s, w) if ok is False else None)
        # which name is it, as far as the path knows
        encs = None
        for nm, en in NAMES + [('', dflt)]:
            if s.facts.decide(is_name(nm, nn)) == 1:
                encs = (nm, en)
                break
        if encs is None:
            poss = [(nm, en) for nm, en in NAMES + [('', dflt)] if s.facts.sat(is_name(nm, nn), 4000) != 'unsat']
            bad = t.true()
            for nm, en in poss:
                bad = t.and_(bad, t.not_(is_name(nm, nn)))
            ms = []
            r = s.facts.sat(bad, 8000, ms)
            U.ob('%s: only known names are accepted (%d characters)' % (what, e), False if r == 'sat' else True if r == 'unsat' else None,
                 'accepted a text that is none of the names', U.model(s, bad) if r == 'sat' else None)
            if len({en for _, en in poss}) != 1:
                if r != 'sat':
                    U.ob('%s: the encoding selected' % what, None, 'one path for several names: %s' % poss)
                continue
            encs = poss[0]
        nm, en = encs
        seen.add(nm)
        # the selected encoding, observed through format()
        v, xs = U.obj(s, 'value', n)
        exp = text_of(xs, en, cw)
        out = U.out(s, len(exp) * cb + 64)
        for x in U.run('%s "%s": format' % (what, nm), '@v_format_' + k, lambda: (s, [f.base, v.base, out.base])):
            from .loopcut import reads
            got = []
            while len(got) < len(exp) + 64 // cb:
                y = U.cells(x.state, out, len(got) * cb, cb)
                if y is None:
                    break
                got.append(y)
            check_text(U, '%s "%s" selects %s' % (what, nm, en), x.state, got, exp)
    for nm, e in NAMES + [('', dflt)]:
        U.ob('%s: "%s" is accepted' % (what, nm), nm in seen, 'no path accepts it')
    U.ob('%s: other texts are errors' % what, 'error' in seen, 'no path throws')
    nloop = sum(len(l) for l in cut.invs.values())
    return nloop


def mod(items, tag):
    U = Unit('f', build.compile_ir('spec_%s' % tag, tu([(a, b, c) for a, b, n, d, c in items])))
    fs = {}
    for it in items:
        U.guarded('specification of %s (%s)' % (it[1], CHARS[it[4]][0]), prove, U, *it)
        fs['std::formatter<%s, %s>::parse' % (it[1], CHARS[it[4]][0])] = 'selects exactly the named encoding, any text of any length'
        fs['std::formatter<%s, %s>::format' % (it[1], CHARS[it[4]][0])] = 'writes the text of the selected encoding'
    return U.obls, U.paths, fs


def tasks():
    items = [v + (ch,) for v in VALUES for ch in ('c', 'w')]
    return [('format specification %d' % i, mod, ([it], str(i))) for i, it in enumerate(items)]
