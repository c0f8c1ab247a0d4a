"""The executor against native execution: random programs and the compiled
hashers, on concrete data."""
import ctypes
import os
import random
import subprocess
import time
from . import build
from . import terms as t
from .execu import Limit, Machine

TY = ['uint8_t', 'int8_t', 'uint16_t', 'int16_t', 'uint32_t', 'int32_t', 'uint64_t', 'int64_t']


def program(r):
    """random C++ functions u64 f(u64 a, u64 b, unsigned char * p), without
    undefined behaviour; p has 64 bytes"""
    vs = [('a', 'uint64_t'), ('b', 'uint64_t')]
    body = []

    def pick():
        return r.choice(vs[-6:])[0]

    def lit():
        return '%dull' % r.choice([0, 1, 2, 3, 5, 7, 8, 15, 31, 63, 64, 127, 128, 255, 256, 65535, 0x80000000, 0xffffffff, r.getrandbits(32), r.getrandbits(64)])
    for i in range(r.randint(4, 14)):
        T = r.choice(TY)
        U = T if T[0] == 'u' else 'u' + T
        w = int(''.join(c for c in T if c.isdigit()))
        x = pick()
        y = pick() if r.random() < 0.6 else lit()
        c = '(%s)%s %s (%s)%s' % (T, x, r.choice(['<', '<=', '==', '!=', '>', '>=']), T, y)
        op = r.randrange(15)
        n = 'v%d' % i
        if op < 3:
            e = '(uint64_t)%s %s (uint64_t)%s' % (x, r.choice(['+', '-', '*', '&', '|', '^']), y)
        elif op == 3:
            e = '(%s)%s %s ((uint64_t)%s %% %d)' % (U, x, r.choice(['<<', '>>']), y, w if w < 32 else w)
        elif op == 4:
            e = '(%s)%s >> ((uint64_t)%s %% %d)' % (T, x, y, w)
        elif op == 5:
            e = '(%s)%s %s ((%s)%s | 1u)' % (U, x, r.choice('/%'), U, y)
        elif op == 6:
            e = '(%s) ? (uint64_t)%s : (uint64_t)%s' % (c, pick(), y)
        elif op == 7:
            e = 'std::%s((%s)%s, int((uint64_t)%s %% 90))' % (r.choice(['rotl', 'rotr']), U, x, y)
        elif op == 8:
            e = '__builtin_bswap%d(%s)' % (max(w, 16), x)
        elif op == 9:
            e = 'std::%s((%s)%s, (%s)%s)' % (r.choice(['min', 'max']), T, x, T, y)
        elif op == 10:
            e = 'std::%s((%s)%s)' % (r.choice(['countl_zero', 'countr_zero', 'popcount']), U, x)
        elif op == 11:
            body.append('\t{ uint64_t m = (uint64_t)%s; memcpy(p + ((uint64_t)%s %% 56), &m, %d); }' % (x, y, 1 << r.randrange(4)))
            e = '0; memcpy(&%s, p + ((uint64_t)%s %% 56), sizeof %s)' % (n, pick(), n)
        elif op == 12:
            e = '0; for (uint64_t i = 0; i != ((uint64_t)%s %% 9); ++i) { %s = (%s)((uint64_t)%s * 31u + p[i * %d] + i); if ((%s)%s %% 5u == 4u) break; }' % (x, n, T, n, r.randint(1, 7), U, n)
        elif op == 13:
            e = '0; switch ((uint64_t)%s %% 6) { case 0: %s = 11; break; case 1: %s = (%s)%s; break; case 3: %s = (%s)(%s + 1u); [[fallthrough]]; case 4: ++p[3]; break; default: %s = 7; }' % (x, n, n, T, y, n, T, '(uint64_t)' + pick(), n)
        else:
            e = '0; { struct s { uint8_t k; %s m; uint32_t q; } z[3] = {{1, (%s)%s, 2}, {3, (%s)4, 5}, {6, 7, (uint32_t)%s}}; %s = (%s)(z[(uint64_t)%s %% 3].m ^ z[(uint64_t)%s %% 3].q); }' % (
                T, T, x, T, y, n, T, pick(), pick())
        # statements: the variable may be wider than the literal
        body.append('\t%s %s = (%s)(%s);' % (T, n, T, e) if '; ' not in e else '\t%s %s = %s%s' % (T, n, e, '' if e.endswith('}') else ';'))
        vs.append((n, T))
    ret = ' ^ '.join('(uint64_t)%s * %du' % (n, 2 * k + 1) for k, (n, _) in enumerate(vs))
    return '{\n%s\n\treturn %s;\n}\n' % ('\n'.join(body), ret)


def run(n=40, calls=6, seed=1):
    """number of comparisons; raises AssertionError"""
    r = random.Random(seed)
    src = '#include <cstdint>\n#include <cstring>\n#include <bit>\n#include <algorithm>\n'
    for i in range(n):
        src += 'extern "C" uint64_t f%d(uint64_t a, uint64_t b, unsigned char * p) %s' % (i, program(r))
    M = Machine(build.compile_ir('difftest', src))
    so = os.path.join(build.workdir(), 'difftest.so')
    subprocess.run(['g++-14', '-std=c++23', '-O0', '-w', '-shared', '-fPIC', os.path.join(build.workdir(), 'difftest.cpp'), '-o', so], check=True)
    lib = ctypes.CDLL(so)
    done = 0
    for i in range(n):
        f = getattr(lib, 'f%d' % i)
        slow = set()
        f.restype = ctypes.c_uint64
        f.argtypes = [ctypes.c_uint64, ctypes.c_uint64, ctypes.c_void_p]
        for k in range(calls):
            a, b = (r.choice([0, 1, 255, 1 << 31, (1 << 64) - 1, r.getrandbits(8), r.getrandbits(64), r.getrandbits(64)]) for _ in range(2))
            mem = r.randbytes(64)
            buf = ctypes.create_string_buffer(mem, 64)
            want = f(a, b, ctypes.addressof(buf))
            for mode in sorted({0, 1, 2} - slow):
                st = M.new_state()
                o = M.new_obj(st, 'arg', 64, 'p')
                xs = []
                for j in range(64):
                    # mode 1, 2: symbolic contents whose value is known as a fact
                    x = t.const(mem[j], 8)
                    if mode == 1 and j % 3 == 0:
                        x = t.sym('p[%d]' % j, 8)
                        st.facts.set_range(x, mem[j], mem[j])
                    o.cells[j] = (x, 0)
                args = [t.const(a, 64), t.const(b, 64)]
                env = {}
                if mode:
                    sa = t.sym('a', 64)
                    st.facts.set_range(sa, a, a) if mode == 1 else st.facts.assume(t.eq(sa, t.const(a, 64)), 1)
                    args[0] = sa
                    env[sa] = a
                M.n['paths'] = 0
                M.max_paths = 60
                M.deadline = time.time() + 3
                try:
                    outs = [x for x in M.run(st, '@f%d' % i, args + [o.base])]
                except Limit:
                    assert mode, 'f%d' % i
                    slow.add(mode)
                    continue
                good = 0
                for x in outs:
                    assert x.kind == 'ret', ('f%d' % i, a, b, x.kind, x.msg)
                    en = dict(env)
                    cells = x.state.mem[o.id].cells
                    fk = list(x.state.facts.iv)
                    cs = list(x.state.facts.conds)
                    roots = [x.val] + [cells[j][0] for j in range(64)] + fk + cs
                    for y in t.topo(roots):
                        if y.op == 's' and y not in en:
                            s = str(y.d)
                            assert s.startswith('p['), s
                            en[y] = mem[int(s[2:-1])]
                    vals = t.evaluate(roots, en)
                    iv = [x.state.facts.iv[y] for y in fk]
                    holds = all(lo <= v <= hi for v, (lo, hi) in zip(vals[65:], iv)) and all(vals[65 + len(fk):])
                    if not holds:
                        continue
                    got = bytes((v >> (8 * cells[j][1])) & 255 for j, v in enumerate(vals[1:65]))
                    assert vals[0] == want and got == buf.raw, ('f%d(%#x, %#x) in mode %d: native %#x, executor %#x' % (i, a, b, mode, want, vals[0]), mem.hex())
                    good += 1
                assert good, ('f%d(%#x, %#x) in mode %d: %d paths, none possible' % (i, a, b, mode, len(outs)), mem.hex())
                done += 1
    return done


def hashers(seed=1):
    """the compiled hashers, interpreted on concrete messages, against the
    reference implementations"""
    import hashlib
    from . import harness as hs
    from . import specs
    r = random.Random(seed)
    done = 0
    H = list(hs.HASHES.values())
    irs = build.compile_many({h.id: (hs.PRE + h.tu(), None, ()) for h in H})
    for h in H:
        M = Machine(irs[h.id])
        for n in (0, 1, h.block - 1, h.block, h.block + 9, 2 * h.block + h.block // 2 + 3):
            data = r.randbytes(n)
            cut = sorted(r.randint(0, n) for _ in range(2))
            st = M.new_state()
            size = next(iter(M.run(st, '@v_sizeof_' + h.id, []))).val.d
            st = M.new_state()
            o = M.new_obj(st, 'arg', size, 'obj')
            d = M.new_obj(st, 'arg', n + 1, 'data')
            for k, c in enumerate(data):
                d.cells[k] = (t.const(c, 8), 0)

            def call(st, fn, *args):
                x = list(M.run(st, fn, list(args)))
                assert len(x) == 1 and x[0].kind == 'ret', (fn, [(y.kind, y.msg) for y in x])
                return x[0].state
            ctor = '@v_ctor_' + h.id
            st = call(st, ctor, o.base, *([t.const(0, h.w)] if h.kind == 'xx' else []))
            for lo, hi in zip([0] + cut, cut + [n]):
                st = call(st, '@v_update_' + h.id, o.base, t.add(d.base, t.const(lo, 64)), t.const(hi - lo, 64))
            nb = h.digest or 33
            out = M.new_obj(st, 'arg', nb, 'out')
            if h.shake:
                st = call(st, '@v_absorb_' + h.id, o.base)
                st = call(st, '@v_squeeze_' + h.id, o.base, out.base, t.const(nb, 64))
            else:
                st = call(st, '@v_final_' + h.id, o.base, out.base)
            cells = st.mem[out.id].cells
            got = bytes((t.evaluate([cells[k][0]], {})[0] >> (8 * cells[k][1])) & 255 for k in range(nb))
            if h.kind == 'xx':
                want = specs.xx_concrete(h.w, data).to_bytes(nb, 'big')
            elif h.shake:
                want = getattr(hashlib, h.pyname)(data).digest(nb)
            else:
                want = getattr(hashlib, h.pyname)(data).digest()
            assert got == want, (h.id, n, got.hex(), want.hex())
            done += 1
    return done
