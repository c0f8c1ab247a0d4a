"""Contracts of the bit-chunk and base-N iterators.

Ghost state: g complete groups of the input have been consumed (a group is the
least common multiple of element and digit width), r digits of the current
group have been taken, rem elements remain from the start of the group.  The
invariant of an iterator is a finite set of states, exact in everything except
g (arbitrary), rem (an exact number, or at least K) and the input bytes
(arbitrary); it is inferred by running the operations and proved closed: the
state after begin() is in it, ++ leads from it into it, == end() holds exactly
when the digits are used up, and * yields digit r.  All four are obligations
per state; the union of the states covers every input of every length."""
import time
from . import terms as t
from . import build
from .execu import Machine, Limit, PathEnd, Split
from .facts import Infeasible
from .hashunit import Obl
from math import lcm

BIG = 1 << 50

PRE = r'''
#include <cthash/cthash.hpp>
#include <new>
#include <span>
#include <cstddef>
#include <cstdint>
'''
ENC = r'''
namespace n_@id@ {
using R = std::span<const @elem@>;
using V = cthash::encode_to_view<cthash::encoding::@enc@, @char@, R>;
using It = decltype(std::declval<@const@ V &>().begin());
}
extern "C" {
unsigned long v_sizeof_@id@() { return sizeof(n_@id@::It); }
void v_begin_@id@(void * o, const @elem@ * p, size_t n) { n_@id@::V v{n_@id@::R(p, n)}; new (o) n_@id@::It(static_cast<@const@ n_@id@::V &>(v).begin()); }
void v_next_@id@(n_@id@::It * i) { ++*i; }
void v_post_@id@(n_@id@::It * i, void * o) { new (o) n_@id@::It((*i)++); }
@char@ v_deref_@id@(const n_@id@::It * i) { return **i; }
unsigned v_done_@id@(const n_@id@::It * i) { n_@id@::V::sentinel e{}; return (*i == e) ? 1u : 0u; }
size_t v_size_@id@(const @elem@ * p, size_t n) { const n_@id@::V v{n_@id@::R(p, n)}; return v.size(); }
}
'''
CHUNK = r'''
namespace n_@id@ {
using R = std::span<const @elem@>;
using V = cthash::chunk_of_bits_view<@bits@, @pad@, R>;
using It = decltype(std::declval<@const@ V &>().begin());
}
extern "C" {
unsigned long v_sizeof_@id@() { return sizeof(n_@id@::It); }
void v_begin_@id@(void * o, const @elem@ * p, size_t n) { n_@id@::V v{n_@id@::R(p, n)}; new (o) n_@id@::It(static_cast<@const@ n_@id@::V &>(v).begin()); }
void v_next_@id@(n_@id@::It * i) { ++*i; }
void v_post_@id@(n_@id@::It * i, void * o) { new (o) n_@id@::It((*i)++); }
unsigned long v_deref_@id@(const n_@id@::It * i) { return (unsigned long)(**i).value; }
unsigned long v_missing_@id@(const n_@id@::It * i) { auto r = **i; return (unsigned long)r.missing_bits; }
unsigned v_ispad_@id@(const n_@id@::It * i) { return (**i).is_padding() ? 1u : 0u; }
unsigned v_done_@id@(const n_@id@::It * i) { n_@id@::V::sentinel e{}; return (*i == e) ? 1u : 0u; }
size_t v_size_@id@(const @elem@ * p, size_t n) { const n_@id@::V v{n_@id@::R(p, n)}; return v.size(); }
}
'''

ALPHA = {
    'base2': '01', 'base4': '0123', 'base8': '01234567', 'base16': '0123456789abcdef', 'base16_uppercase': '0123456789ABCDEF',
    'base32': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567', 'base32_no_padding': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567', 'z_base32': 'ybndrfg8ejkmcpqxot1uwisza345h769',
    'base64': 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/', 'base64_no_padding': 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/',
    'base64url': 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_',
}
PADDED = {'base8', 'base32', 'base64'}


class Enc:
    """one instantiation: an encoding, or a chunk view when enc is None"""

    def __init__(self, id, elem, width, bits=None, pad=False, enc=None, char='char', const='const', cw=8):
        self.id, self.elem, self.W, self.enc, self.char, self.const, self.cw = id, elem, width, enc, char, const, cw
        if enc:
            self.B = len(ALPHA[enc]).bit_length() - 1
            self.pad = enc in PADDED
        else:
            self.B, self.pad = bits, pad
        self.L = lcm(self.B, self.W)
        self.ic, self.oc = self.L // self.W, self.L // self.B

    def tu(self):
        s = ENC if self.enc else CHUNK
        for k, v in (('id', self.id), ('elem', self.elem), ('enc', self.enc), ('char', self.char), ('const', self.const), ('bits', self.B), ('pad', 'true' if self.pad else 'false')):
            s = s.replace('@%s@' % k, str(v))
        return s

    def ndig(self, m):
        if self.pad:
            return -(-m // self.ic) * self.oc
        return -(-m * self.W // self.B)


class EncUnit:
    def __init__(self, M, e):
        self.M, self.e = M, e
        self.obls = []
        self.paths = 0
        self.g = t.sym('g', 64)
        self.rem = t.sym('rem', 64)
        self.esz = e.W // 8
        st = M.new_state()
        for o in M.run(st, '@v_sizeof_' + e.id, []):
            self.size = o.val.d
        self.states = {}
        self.work = []
        self.cap = 3000

    # ------------------------------------------------------------ environment
    def env(self, lo, hi):
        """state with the input of rem elements from group g on"""
        st = self.M.new_state()
        i = self.M.new_obj(st, 'input', None, 'in', ident=('encin',))
        i.writable = False
        i.arr = 'M'
        i.pos0 = t.const(0, 64)
        at = t.mulc(self.g, self.esz * self.e.ic)
        m = t.const(lo, 64) if lo == hi else self.rem
        i.lo = at
        i.size = t.add(at, t.mulc(m, self.esz))
        st.facts.set_range(self.g, 0, BIG)
        if lo != hi:
            st.facts.set_range(self.rem, lo, hi)
        return st, t.add(i.base, at), m

    def it(self, st, cells, writable):
        o = self.M.new_obj(st, 'arg', self.size, 'it', ident=('it',))
        o.cells = dict(cells)
        o.writable = writable
        return o

    def elem(self, e):
        """element e of the group, as bytes in memory order"""
        p = t.add(t.mulc(self.g, self.esz * self.e.ic), t.const(e * self.esz, 64))
        bs = [t.sel('M', t.add(p, t.const(i, 64))) for i in range(self.esz)]
        return t.cat(bs[::-1])

    def digit(self, r, m):
        """(value of w=64 bits, missing bits) of digit r with m elements left (None: enough)"""
        B, W = self.e.B, self.e.W
        parts = []          # from most significant
        b = r * B
        while b < (r + 1) * B:
            e, k = divmod(b, W)
            n = min(W - k, (r + 1) * B - b)
            x = t.const(0, n) if m is not None and e >= m else t.ext(self.elem(e), W - k - n, n)
            parts.append(x)
            b += n
        v = t.cat(parts)    # most significant part first
        miss = 0 if m is None else max(0, min(B, (r + 1) * B - m * W))
        return v, miss

    # -------------------------------------------------------------- obligation
    def ob(self, name, ok, detail='', st=None):
        model = None
        if ok is False and st is not None:
            try:
                ms = []
                if st.facts.sat(None, 3000, ms) == 'sat':
                    from . import smt
                    model = {x.d: smt.model_value(ms[0], x) for x in (self.g, self.rem)}
            except Exception:
                pass
        self.obls.append(Obl(name, ok, detail, model))

    def call(self, name, st, fn, args):
        """outcomes of one operation; traps and bad accesses are failed obligations"""
        out = []
        for o in self.M.run(st, '@v_%s_%s' % (fn, self.e.id), args):
            self.paths += 1
            if o.kind != 'ret':
                self.ob('%s: no trap, bounds, frame' % name, False, '%s: %s' % (o.kind, o.msg), o.state)
                continue
            out.append(o)
        return out

    def clean(self, st, cells):
        r = {}
        for i, (x, k) in cells.items():
            if x.op == 's' and isinstance(x.d, str) and x.d.startswith('uninit'):
                continue
            r[i] = (x, k)
        return r

    def key(self, cells):
        out = []
        for i in sorted(cells):
            x, k = cells[i]
            out.append((i, x if x.w == 8 else t.ext(x, 8 * k, 8)))
        return tuple(out)

    def add(self, r, cells, lo, hi):
        e = self.e
        K = 2 * e.ic + 1
        if lo != hi and lo < K:
            for v in range(lo, min(K, hi + 1)):
                self.add(r, {i: (t.subst(x, {self.rem: t.const(v, 64)}), k) for i, (x, k) in cells.items()}, v, v)
            if hi >= K:
                self.add(r, cells, K, hi)
            return
        if lo != hi:
            hi = BIG
        k = (r, lo, hi, self.key(cells))
        if k in self.states:
            return
        self.states[k] = 1
        if len(self.states) > self.cap:
            raise Limit('too many iterator states')
        self.work.append((r, cells, lo, hi))

    def prove(self, limit):
        e = self.e
        self.M.deadline = time.time() + limit
        try:
            self.start()
            while self.work:
                self.visit(*self.work.pop())
            self.prove_size()
        except Limit as x:
            self.M.extra_work = []
            self.obls.append(Obl('iterator contracts', None, 'engine limit: %s' % x))
        except (Split, PathEnd, Infeasible) as x:
            self.obls.append(Obl('iterator contracts', None, 'engine: %r' % x))
        except (KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, RecursionError) as x:
            import traceback
            self.obls.append(Obl('iterator contracts', None, 'engine error: ' + traceback.format_exc()[-500:]))

    def start(self):
        K = 2 * self.e.ic + 1
        for lo, hi in [(v, v) for v in range(K)] + [(K, BIG)]:
            st, p, m = self.env(lo, hi)
            o = self.it(st, {}, True)
            oid = o.id
            for x in self.call('begin with %s elements' % (lo if lo == hi else '%d or more' % lo), st, 'begin', [o.base, p, m]):
                a, b = (lo, hi) if lo == hi else x.state.facts.rng(self.rem)
                self.add(0, self.clean(x.state, x.state.mem[oid].cells), a, b)
        st, p, m = self.env(0, 0)
        o = self.it(st, {}, True)
        oid = o.id
        for x in self.call('begin with a null range', st, 'begin', [o.base, t.const(0, 64), t.const(0, 64)]):
            s2 = x.state
            dn = [y.val for y in self.call('end of a null range', self.with_it(s2, 0, 0), 'done', [s2.mem[oid].base])]
            self.ob('a null range is at its end', all(v is t.const(1, v.w) for v in dn) and bool(dn), str(dn))

    def with_it(self, s0, lo, hi):
        st, p, m = self.env(lo, hi)
        o = self.it(st, s0.mem[self.M.ident[('it',)]].cells, False)
        return st

    def visit(self, r, cells, lo, hi):
        e = self.e
        exact = lo == hi
        tag = 'digit %d of a group, %s elements left' % (r, lo if exact else '%d or more' % lo)
        m = lo if exact else None
        at_end = exact and r >= e.ndig(lo)

        def mk(w):
            st, p, mm = self.env(lo, hi)
            o = self.it(st, cells, w)
            return st, o
        st, o = mk(False)
        for x in self.call(tag + ': == end', st, 'done', [o.base]):
            v = x.val
            ok = v is t.const(1 if at_end else 0, v.w) or x.state.facts.proves_eq(v, t.const(1 if at_end else 0, v.w), 4000)
            self.ob(tag + ': == end', ok, 'is %s, the digits are %sused up' % (t.show(v), '' if at_end else 'not '), x.state)
        if at_end:
            return
        val, miss = self.digit(r, m)
        st, o = mk(False)
        for x in self.call(tag + ': *it', st, 'deref', [o.base]):
            if e.enc:
                if miss == e.B:
                    exp = t.const(ord('='), e.cw)
                else:
                    exp = t.tbl(None, tuple(ord(c) for c in ALPHA[e.enc]), e.cw, t.zext(val, 64))
                got = t.trunc(x.val, e.cw) if x.val.w > e.cw else x.val
            else:
                exp, got = (t.zext(val, 64) if e.B < 64 else val), x.val
            self.same(tag + ': *it', x.state, got, exp)
        if not e.enc:
            st, o = mk(False)
            for x in self.call(tag + ': missing bits', st, 'missing', [o.base]):
                self.same(tag + ': missing bits', x.state, x.val, t.const(miss, 64))
            st, o = mk(False)
            for x in self.call(tag + ': is padding', st, 'ispad', [o.base]):
                self.same(tag + ': is padding', x.state, x.val, t.const(1 if miss == e.B else 0, x.val.w))
        st, o = mk(True)
        oid = o.id
        for x in self.call(tag + ': ++it', st, 'next', [o.base]):
            self.succ(r, x, oid, lo, hi)
        if r < 2 and (not exact or lo <= 1):
            st, o = mk(True)
            c = self.M.new_obj(st, 'arg', self.size, 'old', ident=('old',))
            for x in self.call(tag + ': it++', st, 'post', [o.base, c.base]):
                self.succ(r, x, oid, lo, hi)
                k1 = self.key(self.clean(x.state, x.state.mem[c.id].cells))
                self.ob(tag + ': it++ returns the old position', k1 == self.key(cells), '', x.state)

    def same(self, name, st, got, exp):
        if got.w < exp.w:
            got = t.zext(got, exp.w)
        elif got.w > exp.w:
            exp = t.zext(exp, got.w)
        ok = got is exp or st.facts.proves_eq(got, exp, 6000)
        if not ok:
            # a disagreement needs a witness: otherwise the solver gave up
            ms = []
            if st.facts.sat(t.ne(got, exp), 6000, ms) != 'sat':
                ok = None
        self.ob(name, ok, '' if ok else 'is %s, required %s' % (t.show(got)[:150], t.show(exp)[:150]), st)

    def succ(self, r, x, oid, lo, hi):
        e = self.e
        cells = self.clean(x.state, x.state.mem[oid].cells)
        if lo != hi:
            lo, hi = x.state.facts.rng(self.rem)
        r += 1
        if r == e.oc and not (lo == hi and r >= e.ndig(lo)):
            mp = {self.g: t.sub(self.g, t.const(1, 64)), self.rem: t.add(self.rem, t.const(e.ic, 64))}
            memo = {}
            cells = {i: (t.subst(y, mp, memo), k) for i, (y, k) in cells.items()}
            r = 0
            lo, hi = lo - e.ic, hi - e.ic
        self.add(r, cells, lo, hi)

    def prove_size(self):
        e = self.e
        st = self.M.new_state()
        i = self.M.new_obj(st, 'input', None, 'in', ident=('encin',))
        i.writable = False
        i.arr = 'M'
        i.pos0 = t.const(0, 64)
        n = t.sym('n', 64)
        st.facts.set_range(n, 0, BIG)
        i.size = t.mulc(n, self.esz)
        for x in self.call('size()', st, 'size', [i.base, n]):
            if e.pad:
                exp = t.mulc(t.udiv(t.add(n, t.const(e.ic - 1, 64)), t.const(e.ic, 64)), e.oc)
            else:
                exp = t.udiv(t.add(t.mulc(n, e.W), t.const(e.B - 1, 64)), t.const(e.B, 64))
            self.same('size()', x.state, x.val, exp)


def bases():
    out = []
    for i, enc in enumerate(ALPHA):
        for j, (el, nm) in enumerate((('std::byte', 'byte'), ('unsigned char', 'uc'), ('char', 'c'), ('signed char', 'sc'))):
            out.append(Enc('%s_%s' % (enc, nm), el, 8, enc=enc, const='const' if (i + j) % 2 == 0 else ''))
        for j, (ch, cw) in enumerate((('wchar_t', 32), ('char8_t', 8), ('char16_t', 16), ('char32_t', 32))):
            out.append(Enc('%s_%s' % (enc, ch), 'std::byte', 8, enc=enc, char=ch, cw=cw, const='const' if (i + j) % 2 else ''))
        out.append(Enc('%s_nonconst' % enc, 'unsigned char' if i % 2 else 'std::byte', 8, enc=enc, const='' if i % 2 == 0 else 'const'))
    return out


def chunks():
    out = []
    ty = {8: ('std::byte', 'unsigned char', 'signed char', 'char'), 16: ('uint16_t', 'int16_t'), 32: ('uint32_t', 'int32_t'), 64: ('uint64_t', 'int64_t')}
    for W, els in ty.items():
        k = 0
        for B in range(1, 65):
            if lcm(B, W) > 64:
                continue
            for pad in (False, True):
                for el in ((els[k % len(els)], els[(k + 1) % len(els)]) if W > 8 else (els[k % 4], els[(k + 1) % 4])):
                    for const in (('const',) if k % 2 else ('', )):
                        out.append(Enc('c%d_%d%s_%d' % (W, B, 'p' if pad else '', len(out)), el, W, bits=B, pad=pad, const=const))
                k += 1
    return out


def module(insts, limit):
    """one extraction module with several instantiations"""
    name = insts[0].id
    ir = build.compile_ir('enc_' + name, PRE + ''.join(e.tu() for e in insts))
    M = Machine(ir)
    obls, paths, fs = [], 0, {}
    for e in insts:
        U = EncUnit(M, e)
        U.prove(limit)
        what = ('%s of %s to %s' % (e.enc, e.elem, e.char) if e.enc else 'chunk_of_bits<%d, %s> of %s' % (e.B, 'true' if e.pad else 'false', e.elem)) + (' (const view)' if e.const else '')
        for o in U.obls:
            o.name = what + ': ' + o.name
        obls += U.obls
        paths += U.paths
        for f in ('begin', 'operator++', 'operator++(int)', 'operator*', 'operator==(sentinel)', 'size'):
            fs['%s::%s' % (what, f)] = 'iterator contract: %d states, any input length' % len(U.states)
    return obls, paths, fs
