"""Contracts of hash values: construction from text, comparison, slices and
rendering.  Every function is explored over symbolic contents (all values of
the given length at once)."""
import time
from . import terms as t
from . import facts
from . import build
from .execu import Machine, Limit, PathEnd, Split
from .facts import Infeasible
from .hashunit import Obl

HEXV = {c: int(chr(c), 16) for c in b'0123456789abcdefABCDEF'}


class Unit:
    """one extracted module; obligations over its harness functions"""

    def __init__(self, id, text):
        self.id = id
        self.M = Machine(text)
        self.obls = []
        self.paths = 0
        self.syms = {}

    def ob(self, name, ok, detail='', model=None):
        self.obls.append(Obl(name, ok, detail, model))

    def guarded(self, name, fn, *a, **k):
        try:
            return fn(*a, **k)
        except Limit as e:
            self.M.extra_work = []
            self.ob(name, None, 'engine limit: %s' % e)
        except (Split, PathEnd, Infeasible) as e:
            self.ob(name, None, 'engine: %r' % e)
        except (KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, NotImplementedError, RecursionError):
            import traceback
            self.ob(name, None, 'engine error: ' + traceback.format_exc()[-600:])

    # symbolic objects
    def obj(self, st, name, n, writable=False, w=8, fill=True):
        """n items of w bits with symbolic contents name[i]"""
        o = self.M.new_obj(st, 'arg', n * w // 8, name, ident=('val', name, n, w))
        o.writable = writable
        xs = []
        if fill:
            for i in range(n):
                x = t.sym('%s[%d]' % (name, i), w)
                xs.append(x)
                for k in range(w // 8):
                    o.cells[i * (w // 8) + k] = (x, k)
        return o, xs

    def out(self, st, n, name='out'):
        return self.M.new_obj(st, 'arg', n, name, ident=('out', name, n))

    def run(self, name, fn, mk, allow_throw=False):
        """outcomes of every path"""
        st, args = mk()
        res = []
        for o in self.M.run(st, fn, args):
            self.paths += 1
            if o.kind != 'ret' and not (allow_throw and o.kind == 'throw'):
                self.ob('%s: no trap, bounds, frame, exception' % name, False, '%s: %s' % (o.kind, o.msg), self.model(o.state))
                continue
            res.append(o)
        if not res and not any(x.ok is False for x in self.obls[-1:]):
            self.ob(name, None, 'no path returns')
        return res

    def model(self, st, extra=None):
        """concrete contents of the symbolic objects"""
        try:
            ms = []
            if st.facts.sat(extra, 5000, ms) != 'sat':
                return None
            from . import smt
            names = set()
            roots = list(st.facts.conds) + ([extra] if extra is not None else [])
            for x in t.topo(roots):
                if x.op == 's':
                    names.add(x)
            return {x.d: smt.model_value(ms[0], x) for x in sorted(names, key=lambda x: str(x.d))}
        except Exception:
            return None

    def same(self, name, st, got, exp, timeout=8000):
        if got is None:
            return self.ob(name, False, 'not written', self.model(st))
        got, exp = st.facts.simplify(got), st.facts.simplify(exp)
        if got is exp or st.facts.proves_eq(got, exp, timeout):
            return self.ob(name, True)
        d = t.ne(got, exp)
        ms = []
        r = st.facts.sat(d, timeout, ms)
        ok = False if r == 'sat' else None
        if r == 'unsat':
            ok = True
        self.ob(name, ok, 'is %s, required %s' % (t.show(got)[:160], t.show(exp)[:160]) if ok is not True else '', self.model(st, d) if ok is False else None)

    def cells(self, st, o, i, n=1):
        from .loopcut import reads
        return reads(st.mem[o.id].cells, i, n)

    def finite(self, name, term, doms, want, detail=''):
        """term equals want(values) for every combination of values of its leaves"""
        leaves = [x for x in t.topo([term]) if x.op in ('s', 'M')]
        extra = [x for x in leaves if x not in doms]
        if extra:
            return self.ob(name, False, 'depends on %s' % ', '.join(t.show(x) for x in extra[:4]))
        ls = list(doms)

        def rec(i, env):
            if i == len(ls):
                got = t.evaluate([term], env)[0]
                if got != want(env):
                    return dict(env), got
                return None
            for v in doms[ls[i]]:
                env[ls[i]] = v
                r = rec(i + 1, env)
                if r:
                    return r
            return None
        bad = rec(0, {})
        if bad:
            return self.ob(name, False, 'is %r' % bad[1], {k.d: v for k, v in bad[0].items()})
        self.ob(name, True)


# ------------------------------------------------------------------- C11
PRE = '''
#include <cthash/cthash.hpp>
#include <new>
#include <span>
#include <sstream>
#include <cstddef>
#include <cstdint>
'''
CHARS = {'c': ('char', 8), 'c8': ('char8_t', 8), 'c16': ('char16_t', 16), 'c32': ('char32_t', 32), 'w': ('wchar_t', 32), 'uc': ('unsigned char', 8), 'sc': ('signed char', 8)}
TYPES = [('sha224', 'cthash::sha224_value', 28), ('sha256', 'cthash::sha256_value', 32), ('sha384', 'cthash::sha384_value', 48), ('sha512', 'cthash::sha512_value', 64),
         ('sha512_224', 'cthash::sha512t_value<224>', 28), ('sha512_256', 'cthash::sha512t_value<256>', 32), ('sha512_8', 'cthash::sha512t_value<8>', 1), ('sha512_488', 'cthash::sha512t_value<488>', 61),
         ('sha3_224', 'cthash::sha3_224_value', 28), ('sha3_256', 'cthash::sha3_256_value', 32), ('sha3_384', 'cthash::sha3_384_value', 48), ('sha3_512', 'cthash::sha3_512_value', 64),
         ('shake128', 'cthash::shake128_value<128>', 16), ('shake128b', 'cthash::shake128_value<1600>', 200), ('shake256', 'cthash::shake256_value<256>', 32), ('shake256b', 'cthash::shake256_value<72>', 9),
         ('xxh32', 'cthash::xxhash32_value', 4), ('xxh64', 'cthash::xxhash64_value', 8)]
LITS = {'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64, 'sha512_224': 28, 'sha512_256': 32, 'sha3_224': 28, 'sha3_256': 32, 'sha3_384': 48, 'sha3_512': 64,
        'shake128': 20, 'shake256': 40, 'xxh32': 4, 'xxh64': 8, 'hash': 17}


def tu_parse(items):
    s = PRE
    for id, ty, n, ch in items:
        ct = CHARS[ch][0]
        s += 'extern "C" void v_arr_%s_%s(void * o, const %s * in) { static_assert(sizeof(%s) == %d); new (o) %s(*reinterpret_cast<const %s (*)[%d]>(in)); }\n' % (id, ch, ct, ty, n, ty, ct, 2 * n + 1)
        s += 'extern "C" void v_fix_%s_%s(void * o, const cthash::fixed_string<%s, %d> * in) { new (o) %s(*in); }\n' % (id, ch, ct, 2 * n, ty)
    return s


def prove_parse(U, id, n, ch):
    w = CHARS[ch][1]
    for kind in ('arr', 'fix'):
        name = '%s from %s of %s' % (id, 'character array' if kind == 'arr' else 'fixed_string', CHARS[ch][0])
        st = U.M.new_state()
        cnt = 2 * n + (1 if kind == 'arr' else 0)
        i, xs = U.obj(st, 'text', cnt, w=w)
        o = U.out(st, n)
        for r in U.run(name, '@v_%s_%s_%s' % (kind, id, ch), lambda: (st, [o.base, i.base])):
            for k in range(n):
                x = U.cells(r.state, o, k)
                if x is None:
                    U.ob('%s, byte %d' % (name, k), False, 'not written')
                    continue
                U.finite('%s, byte %d' % (name, k), x, {xs[2 * k]: HEXV, xs[2 * k + 1]: HEXV}, lambda e, a=xs[2 * k], b=xs[2 * k + 1]: HEXV[e[a]] << 4 | HEXV[e[b]])


def tu_round(ns):
    s = PRE
    for n in ns:
        s += 'extern "C" void v_round_%d(void * o, const cthash::hash_value<%d> * v) { new (o) cthash::hash_value<%d>(to_fixed_string(*v)); }\n' % (n, n, n)
        s += 'extern "C" void v_roundu_%d(void * o, const cthash::hash_value<%d> * v) { new (o) cthash::hash_value<%d>(to_fixed_string<cthash::encoding::base16_uppercase>(*v)); }\n' % (n, n, n)
    return s


def prove_round(U, n):
    for f in ('round', 'roundu'):
        name = 'hash_value<%d> rendered (%s) and parsed back' % (n, 'lower case' if f == 'round' else 'upper case')
        st = U.M.new_state()
        v, xs = U.obj(st, 'value', n)
        o = U.out(st, n)
        for r in U.run(name, '@v_%s_%d' % (f, n), lambda: (st, [o.base, v.base])):
            for k in range(n):
                x = U.cells(r.state, o, k)
                if x is None:
                    U.ob('%s, byte %d' % (name, k), False, 'not written')
                    continue
                U.finite('%s, byte %d' % (name, k), x, {xs[k]: range(256)}, lambda e, a=xs[k]: e[a])


def lit_text(sfx, n, k):
    import random
    r = random.Random('%s %d' % (sfx, k))
    bs = bytes([0x0f, 0xf0, 0xff, 0x00, 0x80, 0x7f, 0xa5, 0x5a, 0x9a, 0xa9][j % 10] if k == 0 else r.randrange(256) for j in range(n))
    tx = bs.hex()
    if k == 1:
        tx = tx.upper()
    elif k == 2:
        tx = ''.join(r.choice((c.upper(), c)) for c in tx)
    return tx, bs


def tu_lits():
    s = PRE + 'using namespace cthash::literals;\n'
    for sfx, n in LITS.items():
        for k in range(3):
            tx, bs = lit_text(sfx, n, k)
            for pi, p in enumerate(('', 'u8', 'u', 'U', 'L')):
                s += 'extern "C" void v_lit_%s_%d_%d(void * o) { auto v = %s"%s"_%s; static_assert(sizeof(v) == %d); new (o) decltype(v)(v); }\n' % (sfx, k, pi, p, tx, sfx, n)
    return s


def prove_lits(U, sfx):
    n = LITS[sfx]
    for k in range(3):
        tx, bs = lit_text(sfx, n, k)
        for pi in range(5):
            name = 'literal %s"%s"_%s' % (('', 'u8', 'u', 'U', 'L')[pi], tx, sfx)
            st = U.M.new_state()
            o = U.out(st, n)
            for r in U.run(name, '@v_lit_%s_%d_%d' % (sfx, k, pi), lambda: (st, [o.base])):
                got = [U.cells(r.state, o, i) for i in range(n)]
                g = bytes(x.d if x is not None and x.op == 'c' else 0 for x in got)
                ok = g == bs and all(x is not None and x.op == 'c' for x in got)
                U.ob(name, ok, '' if ok else 'is %s' % g.hex())


# ------------------------------------------------------------------- C12
def tu_cmp(items):
    """items: (id, type a, n a, type b, n b)"""
    s = PRE
    for id, a, na, b, nb in items:
        s += '''extern "C" {
unsigned v_eq_%(id)s(const %(a)s * a, const %(b)s * b) { return *a == *b ? 1u : 0u; }
unsigned v_ne_%(id)s(const %(a)s * a, const %(b)s * b) { return *a != *b ? 1u : 0u; }
int v_cmp_%(id)s(const %(a)s * a, const %(b)s * b) { auto c = *a <=> *b; return c < 0 ? -1 : c > 0 ? 1 : c == 0 ? 0 : 7; }
unsigned v_lt_%(id)s(const %(a)s * a, const %(b)s * b) { return *a < *b ? 1u : 0u; }
unsigned v_gt_%(id)s(const %(a)s * a, const %(b)s * b) { return *a > *b ? 1u : 0u; }
unsigned v_le_%(id)s(const %(a)s * a, const %(b)s * b) { return *a <= *b ? 1u : 0u; }
unsigned v_ge_%(id)s(const %(a)s * a, const %(b)s * b) { return *a >= *b ? 1u : 0u; }
}
''' % dict(id=id, a=a, b=b)
    return s


def prove_cmp(U, id, na, nb):
    n = min(na, nb)
    for op in ('eq', 'ne', 'cmp', 'lt', 'gt', 'le', 'ge'):
        name = '%s of %s' % ({'eq': '==', 'ne': '!=', 'cmp': '<=>', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}[op], id)
        st = U.M.new_state()
        a, xs = U.obj(st, 'a', na)
        b, ys = U.obj(st, 'b', nb)
        A = t.cat(xs[:n])
        B = t.cat(ys[:n])
        eq, lt = t.true(), t.false()
        for x, y in reversed(list(zip(xs[:n], ys[:n]))):
            e = t.eq(x, y)
            lt = t.ite(e, lt, t.ult(x, y))
            eq = t.and_(e, eq)
        if op == 'cmp':
            exp = t.ite(eq, t.const(0, 32), t.ite(lt, t.const(-1, 32), t.const(1, 32)))
        else:
            c = {'eq': eq, 'ne': t.not_(eq), 'lt': lt, 'gt': t.and_(t.not_(lt), t.not_(eq)), 'le': t.or_(lt, eq), 'ge': t.not_(lt)}[op]
            exp = t.zext(c, 32)
        for r in U.run(name, '@v_%s_%s' % (op, id), lambda: (st, [a.base, b.base])):
            U.cmp_same(name, r.state, r.val, exp, xs[:n], ys[:n], op)


def _cmp_same(U, name, st, got, exp, xs, ys, op):
    """the path conditions fix where the first difference is"""
    F = st.facts
    got = F.simplify(got)
    # walk along the bytes as far as the path knows them to be equal
    memo = {}
    known = {}
    for x, y in zip(xs, ys):
        e = t.eq(x, y)
        d = F.decide_fast(e)
        if d is None:
            d = F.decide(e, 2000) if got.op == 'c' else None
        if d is None:
            break
        if e.op != 'c':
            known[e] = t.const(d, 1)
        if d == 0:
            lt = t.ult(x, y)
            l = F.decide(lt, 2000)
            if l is not None and lt.op != 'c':
                known[lt] = t.const(l, 1)
            break
    e2 = t.subst(exp, known, memo) if known else exp
    U.same(name, st, got, e2, 15000)


Unit.cmp_same = _cmp_same


def tu_slice(items):
    s = PRE
    for n, k in items:
        s += 'extern "C" void v_pre_%d_%d(void * o, const cthash::hash_value<%d> * v) { auto r = v->prefix<%d>(); static_assert(sizeof(r) == %s); new (o) decltype(r)(r); }\n' % (n, k, n, k, max(k, 1))
        s += 'extern "C" void v_suf_%d_%d(void * o, const cthash::hash_value<%d> * v) { auto r = v->suffix<%d>(); static_assert(sizeof(r) == %s); new (o) decltype(r)(r); }\n' % (n, k, n, k, max(k, 1))
    return s


def prove_slice(U, n, k):
    for f in ('pre', 'suf'):
        name = '%s<%d> of hash_value<%d>' % ('prefix' if f == 'pre' else 'suffix', k, n)
        st = U.M.new_state()
        v, xs = U.obj(st, 'value', n)
        o = U.out(st, max(k, 1))
        for r in U.run(name, '@v_%s_%d_%d' % (f, n, k), lambda: (st, [o.base, v.base])):
            bad = None
            for i in range(k):
                x = U.cells(r.state, o, i)
                e = xs[i] if f == 'pre' else xs[n - k + i]
                if x is not e and (x is None or not r.state.facts.proves_eq(x, e, 3000)):
                    bad = (i, x)
                    break
            U.ob(name, bad is None, '' if bad is None else 'byte %d is %s' % (bad[0], t.show(bad[1]) if bad[1] is not None else 'not written'))


# ------------------------------------------------------------------- modules
def _out(U, fs):
    return U.obls, U.paths, fs


def mod_parse(items):
    U = Unit('p', build.compile_ir('parse_%s_%s' % (items[0][0], items[0][3]), tu_parse(items)))
    fs = {}
    for id, ty, n, ch in items:
        U.guarded('%s from %s' % (ty, CHARS[ch][0]), prove_parse, U, id, n, ch)
        fs['%s(const %s (&)[%d])' % (ty, CHARS[ch][0], 2 * n + 1)] = 'byte k is the value of digits 2k and 2k+1, every digit in every case'
        fs['%s(const fixed_string<%s, %d> &)' % (ty, CHARS[ch][0], 2 * n)] = 'byte k is the value of digits 2k and 2k+1, every digit in every case'
    return _out(U, fs)


def mod_round(ns):
    U = Unit('r', build.compile_ir('round_%d' % ns[0], tu_round(ns)))
    fs = {}
    for n in ns:
        U.guarded('round trip of %d bytes' % n, prove_round, U, n)
        fs['hash_value<%d>(to_fixed_string(hash_value<%d>))' % (n, n)] = 'identity, for every value'
    return _out(U, fs)


def mod_lits():
    U = Unit('l', build.compile_ir('lits', tu_lits()))
    for sfx in LITS:
        U.guarded('literal ' + sfx, prove_lits, U, sfx)
    return _out(U, {'operator""_%s' % s: 'bounded: 15 literals' for s in LITS})


def mod_cmp(items):
    U = Unit('c', build.compile_ir('cmp_' + items[0][0], tu_cmp(items)))
    fs = {}
    for id, a, na, b, nb in items:
        U.guarded('comparison of ' + id, prove_cmp, U, id, na, nb)
        for op in ('==', '!=', '<=>', '<', '>', '<=', '>='):
            fs['%s %s %s' % (a, op, b)] = 'unsigned lexicographic order of %d bytes, for all values' % min(na, nb)
    return _out(U, fs)


def mod_slice(items):
    U = Unit('s', build.compile_ir('slice_%d_%d' % items[0], tu_slice(items)))
    fs = {}
    for n, k in items:
        U.guarded('slices of %d bytes' % k, prove_slice, U, n, k)
        fs['hash_value<%d>::prefix<%d>' % (n, k)] = fs['hash_value<%d>::suffix<%d>' % (n, k)] = 'exactly the first / last bytes'
    return _out(U, fs)


def chunked(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def tasks_parse():
    items = [(i, ty, n, ch) for i, ty, n in TYPES for ch in ('c', 'c8', 'c16', 'c32', 'w')]
    items += [('hv%d' % n, 'cthash::hash_value<%d>' % n, n, ch) for n in list(range(1, 65)) + [66, 100, 128] for ch in ('c', 'w', 'uc', 'c16')[n % 4:n % 4 + 1] + ('c',) * (n % 4 != 0)]
    tasks = [('literals', mod_lits, ())]
    tasks += [('parse %d' % i, mod_parse, (p,)) for i, p in enumerate(chunked(items, 12))]
    tasks += [('round trip %d' % i, mod_round, (p,)) for i, p in enumerate(chunked(list(range(1, 65)), 8))]
    return tasks


def tasks_cmp():
    same = [('value%d' % n, 'cthash::hash_value<%d>' % n, n, 'cthash::hash_value<%d>' % n, n) for n in range(1, 65)]
    same += [(i, ty, n, ty, n) for i, ty, n in TYPES if n <= 64]
    shake = []
    for v, w in ((128, 'shake128_value'), (256, 'shake256_value')):
        for x, y in ((128, 64), (8, 1600), (256, 264), (24, 200), (512, 512), (160, 168), (64, 8), (320, 136), (72, 64), (512, 1024), (384, 520)):
            for p, q in ((x, y), (y, x)):
                if p != q:
                    shake.append(('shake%d_%d_%d' % (v, p, q), 'cthash::%s<%d>' % (w, p), p // 8, 'cthash::%s<%d>' % (w, q), q // 8))
    sl = [(n, k) for n in (1, 2, 20, 28, 32, 48, 64) for k in range(0, n + 1)] + [(200, k) for k in (0, 1, 20, 64, 199, 200)]
    big = [x for x in same + shake if min(x[2], x[4]) > 40]
    small = [x for x in same + shake if min(x[2], x[4]) <= 40]
    tasks = [('comparison %d' % i, mod_cmp, (p,)) for i, p in enumerate(chunked(big, 3))]
    tasks += [('comparison %d' % (100 + i), mod_cmp, (p,)) for i, p in enumerate(chunked(small, 6))]
    tasks += [('slices %d' % i, mod_slice, (p,)) for i, p in enumerate(chunked(sl, 40))]
    return tasks
