"""Contracts of the renderings of a hash value: every function that yields text
yields exactly the digits of the bytes, for all values of the given length."""
from . import terms as t
from . import build
from .valunit import Unit, CHARS, chunked
from .encunit import ALPHA, PADDED

PRE = '''
#include <cthash/cthash.hpp>
#include <new>
#include <span>
#include <sstream>
#include <format>
#include <string>
#include <cstddef>
#include <cstdint>
namespace ce = cthash::encoding;
struct t64 { static constexpr size_t digest_length = 10; using encoding = ce::base64; };
struct t32 { static constexpr size_t digest_length = 9; using encoding = ce::z_base32; };
struct tup { static constexpr size_t digest_length = 7; using encoding = ce::base16_uppercase; };
struct tno { static constexpr size_t digest_length = 11; };
template <size_t N, class E> struct tg { static constexpr size_t digest_length = N; using encoding = E; };
template <class C> struct PC { using iterator = const C *; const C * b, * e; const C * begin() const { return b; } const C * end() const { return e; } };
template <class C> struct FC { C * o; C * out() const { return o; } };
template <class C> struct str_of { static constexpr C lit[] = {}; };
'''
# lengths and defaults of further tags that declare an encoding
DEFAULTS = [(1, 'base64'), (4, 'base2'), (8, 'base8'), (16, 'base64url'), (20, 'base32'), (28, 'base4'), (32, 'base64_no_padding'), (32, 'z_base32'), (48, 'base16_uppercase'), (64, 'base64url'), (64, 'base32_no_padding'), (64, 'base32')]
# value types: id, C++ type, bytes, default encoding
VALUES = [
    ('sha224', 'cthash::sha224_value', 28, 'base16'), ('sha256', 'cthash::sha256_value', 32, 'base16'), ('sha384', 'cthash::sha384_value', 48, 'base16'),
    ('sha512', 'cthash::sha512_value', 64, 'base16'), ('sha512_8', 'cthash::sha512t_value<8>', 1, 'base16'), ('sha512_488', 'cthash::sha512t_value<488>', 61, 'base16'),
    ('sha3_256', 'cthash::sha3_256_value', 32, 'base16'), ('sha3_512', 'cthash::sha3_512_value', 64, 'base16'),
    ('shake128', 'cthash::shake128_value<160>', 20, 'base16'), ('shake256', 'cthash::shake256_value<72>', 9, 'base16'), ('shake128l', 'cthash::shake128_value<1600>', 200, 'base16'),
    ('xxh32', 'cthash::xxhash32_value', 4, 'base16'), ('xxh64', 'cthash::xxhash64_value', 8, 'base16'),
    ('t64', 'cthash::tagged_hash_value<t64>', 10, 'base64'), ('t32', 'cthash::tagged_hash_value<t32>', 9, 'z_base32'), ('tup', 'cthash::tagged_hash_value<tup>', 7, 'base16_uppercase'),
    ('tno', 'cthash::tagged_hash_value<tno>', 11, 'base16'),
] + [('tg%d%s' % (n, e), 'cthash::tagged_hash_value<tg<%d, ce::%s>>' % (n, e), n, e) for n, e in DEFAULTS] + [('hv%d' % n, 'cthash::hash_value<%d>' % n, n, 'base16') for n in (1, 2, 3, 4, 5, 6, 7, 8, 13, 16, 20, 33, 64)]
NAME = {e: e for e in ALPHA}
NAME['base16_uppercase'] = 'BASE16'


def text_of(xs, enc, cw):
    """the characters of the encoding of bytes xs"""
    a = ALPHA[enc]
    B = len(a).bit_length() - 1
    n = len(xs) * 8
    out = []
    b = 0
    tb = tuple(ord(c) for c in a)
    while b < n:
        ps = []
        p = b
        while p < b + B:
            e, k = divmod(p, 8)
            m = min(8 - k, b + B - p)
            ps.append(t.ext(xs[e], 8 - k - m, m) if e < len(xs) else t.const(0, m))
            p += m
        out.append(t.tbl(None, tb, cw, t.zext(t.cat(ps), 64)))
        b += B
    if enc in PADDED:
        while len(out) * B % 8:
            out.append(t.const(ord('='), cw))
    return out


def tu(items):
    """items: (id, type, encoding or None, char key)"""
    s = PRE
    for id, ty, enc, ch in items:
        c = CHARS[ch][0]
        e = 'ce::%s' % enc if enc else ''
        k = '%s_%s_%s' % (id, enc or 'def', ch)
        T = '<%s, %s>' % (e, c) if enc else ''
        s += 'extern "C" {\n'
        if enc or ch == 'c':
            s += 'void v_str_%s(void * o, const %s * v) { new (o) std::basic_string<%s>(to_string%s(*v)); }\n' % (k, ty, c, T)
            s += 'unsigned long v_fixsz_%s() { return sizeof(to_fixed_string%s(std::declval<const %s &>())); }\n' % (k, T, ty)
            s += 'void v_fix_%s(void * o, const %s * v) { using R = decltype(to_fixed_string%s(*v)); new (o) R(to_fixed_string%s(*v)); }\n' % (k, ty, T, T)
        if ch in ('c', 'w'):
            s += 'void v_print_%s(std::basic_ostream<%s> * os, const %s * v) { v->print_into%s(*os); }\n' % (k, c, ty, '<%s>' % e if enc else '')
            if not enc:
                s += 'void v_os_%s(std::basic_ostream<%s> * os, const %s * v) { *os << *v; }\n' % (k, c, ty)
            L = '' if ch == 'c' else 'L'
            nm = NAME[enc] if enc else ''
            for q, sfx in (('fmt', '}'), ('fmte', '')):
                s += '%s * v_%s_%s(%s * o, const %s * v) { static constexpr %s sp[] = %s"%s"; std::formatter<%s, %s> f; PC<%s> p{sp, sp + %d}; f.parse(p); FC<%s> x{o}; return f.format(*v, x); }\n' % (
                    c, q, k, c, ty, c, L, nm + sfx, ty, c, c, len(nm + sfx), c)
        if enc:
            s += 'void v_vstr_%s(void * o, const %s * v) { new (o) std::basic_string<%s>((*v | cthash::encode_to<%s, %s>).to_string()); }\n' % (k, ty, c, e, c)
            s += 'size_t v_vsize_%s(const %s * v) { return (*v | cthash::encode_to<%s, %s>).size(); }\n' % (k, ty, e, c)
            if ch in ('c', 'w'):
                s += 'void v_vos_%s(std::basic_ostream<%s> * os, const %s * v) { *os << (*v | cthash::encode_to<%s, %s>); }\n' % (k, c, ty, e, c)
                s += '%s * v_vfmt_%s(%s * o, const %s * v) { auto w = *v | cthash::encode_to<%s, %s>; static constexpr %s sp[] = {%s(0)}; std::formatter<decltype(w), %s> f; PC<%s> p{sp, sp}; f.parse(p); FC<%s> x{o}; return f.format(w, x); }\n' % (
                    c, k, c, ty, e, c, c, c, c, c, c)
        s += '}\n'
    return s


def install(M):
    def put(cw):
        def h(M, st, args, fr, a, op):
            x = args[1]
            st.ghost['out'] = st.ghost.get('out', ()) + (t.trunc(x, cw) if x.w > cw else x,)
            return args[0]
        return h
    M.externs['@_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c'] = put(8)
    M.externs['@_ZStlsIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_S3_'] = put(32)

    def put_n(cw):
        def h(M, st, args, fr, a, op):
            n = M.concretize(st, args[2], 4096)
            for i in range(n):
                x = M.load(st, t.add(args[1], t.const(i * cw // 8, 64)), cw // 8)
                st.ghost['out'] = st.ghost.get('out', ()) + (x,)
            return args[0]
        return h
    M.externs['@_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l'] = put_n(8)
    M.externs['@_ZSt16__ostream_insertIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_PKS3_l'] = put_n(32)
    M.externs['@_ZNSo3putEc'] = put(8)
    M.externs['@_ZNSt13basic_ostreamIwSt11char_traitsIwEE3putEw'] = put(32)
    M.externs['@_ZNSo5writeEPKcl'] = put_n(8)
    M.externs['@_ZNSt13basic_ostreamIwSt11char_traitsIwEE5writeEPKwl'] = put_n(32)


def stream_obj(U, st):
    """a std::basic_ostream: its virtual base at offset 8, with arbitrary
    precision, flags and state, and no field width"""
    vt = U.M.new_obj(st, 'arg', 64, 'vtable', ident=('vtable',))
    vt.writable = False
    for k in range(8):
        vt.cells[k] = (t.const(8, 64), k)
    os = U.M.new_obj(st, 'arg', 4096, 'os', ident=('os',))
    # ios_base: vptr, precision, width, flags, exceptions, state
    fields = [(0, 8, t.add(vt.base, t.const(24, 64))), (16, 8, t.sym('os.precision', 64)), (24, 8, t.const(0, 64)),
              (32, 4, t.sym('os.flags', 32)), (36, 4, t.sym('os.exceptions', 32)), (40, 4, t.const(0, 32))]
    for o, n, x in fields:
        for k in range(n):
            os.cells[o + k] = (x, k)
    return os


def check_text(U, name, st, got, exp):
    if len(got) != len(exp):
        return U.ob(name, False, '%d characters, required %d' % (len(got), len(exp)), U.model(st))
    for i, (g, e) in enumerate(zip(got, exp)):
        if g is None:
            return U.ob('%s, character %d' % (name, i), False, 'not written', U.model(st))
        if g is e:
            continue
        k = len(U.obls)
        U.same('%s, character %d' % (name, i), st, g, e)
        if U.obls[k].ok is not True:
            return
        U.obls.pop()
    U.ob('%s: all %d characters' % (name, len(exp)), True)


def prove(U, id, ty, n, dflt, enc, ch):
    cname, cw = CHARS[ch]
    k = '%s_%s_%s' % (id, enc or 'def', ch)
    what = '%s as %s in %s' % (ty, enc or 'default', cname)
    cb = cw // 8

    def val(st):
        v, xs = U.obj(st, 'value', n)
        return v, xs, text_of(xs, enc or dflt, cw)

    def read(st, o, off, cnt):
        out = []
        for i in range(cnt):
            out.append(U.cells(st, o, off + i * cb, cb))
        return out

    def string(fn, nm):
        st = U.M.new_state()
        v, xs, exp = val(st)
        o = U.out(st, 32)
        for r in U.run(nm, '@v_%s_%s' % (fn, k), lambda: (st, [o.base, v.base])):
            p, sz = U.cells(r.state, o, 0, 8), U.cells(r.state, o, 8, 8)
            if p is None or sz is None or sz.op != 'c':
                U.ob(nm, None, 'string of unknown shape')
                continue
            so, off = U.M.resolve(r.state, p)
            if off.op != 'c' or not so.alive:
                U.ob(nm, None if so.alive else False, 'string storage at %s' % t.show(off))
                continue
            if sz.d != len(exp):
                U.ob(nm, False, '%d characters, required %d' % (sz.d, len(exp)), U.model(r.state))
                continue
            check_text(U, nm, r.state, read(r.state, so, off.d, sz.d), exp)
            z = U.cells(r.state, so, off.d + sz.d * cb, cb)
            U.ob(nm + ': terminating zero', z is not None and z.op == 'c' and z.d == 0, str(z))

    def stream(fn, nm):
        st = U.M.new_state()
        v, xs, exp = val(st)
        os = stream_obj(U, st)
        for r in U.run(nm, '@v_%s_%s' % (fn, k), lambda: (st, [os.base, v.base])):
            check_text(U, nm, r.state, r.state.ghost.get('out', ()), exp)

    def fmt(fn, nm):
        st = U.M.new_state()
        v, xs, exp = val(st)
        o = U.out(st, len(exp) * cb + 16)
        for r in U.run(nm, '@v_%s_%s' % (fn, k), lambda: (st, [o.base, v.base])):
            want = t.add(o.base, t.const(len(exp) * cb, 64))
            U.ob(nm + ': end of output', r.val is want, 'is %s' % t.show(r.val), None)
            check_text(U, nm, r.state, read(r.state, o, 0, len(exp)), exp)
            x = U.cells(r.state, o, len(exp) * cb, 1)
            U.ob(nm + ': nothing after the text', x is None)
    if enc or ch == 'c':
        string('str', 'to_string of ' + what)
        st = U.M.new_state()
        for r in U.run(what, '@v_fixsz_' + k, lambda: (st, [])):
            ln = len(text_of([t.const(0, 8)] * n, enc or dflt, cw))
            U.ob('length of to_fixed_string of ' + what, r.val.op == 'c' and r.val.d == ln * cb, '%s bytes, required %d' % (t.show(r.val), ln * cb))
        st = U.M.new_state()
        v, xs, exp = val(st)
        o = U.out(st, len(exp) * cb)
        for r in U.run('to_fixed_string of ' + what, '@v_fix_' + k, lambda: (st, [o.base, v.base])):
            check_text(U, 'to_fixed_string of ' + what, r.state, read(r.state, o, 0, len(exp)), exp)
    if ch in ('c', 'w'):
        stream('print', 'print_into of ' + what)
        if not enc:
            stream('os', 'operator<< of ' + what)
        fmt('fmt', 'formatter of ' + what)
        fmt('fmte', 'formatter of %s, specification at the end of the text' % what)
    if enc:
        string('vstr', 'encode_to(...).to_string() of ' + what)
        st = U.M.new_state()
        v, xs, exp = val(st)
        for r in U.run(what, '@v_vsize_' + k, lambda: (st, [v.base])):
            U.ob('size of the encoded view of ' + what, r.val.op == 'c' and r.val.d == len(exp), t.show(r.val))
        if ch in ('c', 'w'):
            stream('vos', 'operator<< of the encoded view of ' + what)
            fmt('vfmt', 'formatter of the encoded view of ' + what)


def mod(items, tag):
    """items: (id, type, n, default, enc, ch)"""
    U = Unit('r', build.compile_ir('render_%s' % tag, tu([(a, b, e, c) for a, b, n, d, e, c in items])))
    install(U.M)
    fs = {}
    for it in items:
        U.guarded('rendering %s as %s' % (it[1], it[4] or 'default'), prove, U, *it)
        what = '%s, %s, %s' % (it[1], it[4] or 'default', CHARS[it[5]][0])
        for f in ('to_string', 'to_fixed_string', 'print_into', 'formatter::parse+format', 'encode_to view'):
            fs['%s(%s)' % (f, what)] = 'the text of the bytes, for all values'
    return U.obls, U.paths, fs


def tasks():
    items = []
    for j, (id, ty, n, d) in enumerate(VALUES):
        for ch in ('c', 'w'):
            items.append((id, ty, n, d, None, ch))
        for i, enc in enumerate(ALPHA):
            if id[:2] == 'tg':
                continue
            items.append((id, ty, n, d, enc, 'c'))
            if (i + j) % 3 == 0 or n in (5, 9):
                items.append((id, ty, n, d, enc, 'w'))
            if (i + j) % 6 == 1:
                items.append((id, ty, n, d, enc, ('c8', 'c16', 'c32')[(i + j) // 6 % 3]))
    return [('rendering %d' % i, mod, (p, str(i))) for i, p in enumerate(chunked(items, 12))]
