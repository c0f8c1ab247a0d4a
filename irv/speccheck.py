"""The digest contract terms (ghost chain, padding, truncation) evaluated on
concrete messages against the independent concrete implementations."""
import hashlib
from . import contracts as C
from . import harness as hs
from . import specs
from . import terms as t


def chain_value(h, sp, data, seed, g):
    w = h.w
    H = [x if x.op == 'c' else t.subst(x, {sp.seed: t.const(seed, w)}) for x in sp.fam.iv]
    for i in range(0, g, h.block):
        bs = specs.cbytes(data[i:i + h.block])
        if h.kind == 'sha2':
            H = specs.Sha2(w).step(H, specs.be_words(bs, w // 8))
        elif h.kind == 'keccak':
            ws = specs.le_words(bs, 8)
            H = specs.keccak_f([t.xor(x, ws[k]) if k < len(ws) else x for k, x in enumerate(H)])
        else:
            H = specs.XX(w).step(H, specs.le_words(bs, w // 8))
    return [x.d for x in H]


def run():
    n = 0
    for h in list(hs.HASHES.values()) + [hs.sha512t(t_) for t_ in (8, 224, 256, 504)]:
        sp = h.spec()
        B = h.block
        for ln in (0, 1, B - 17, B - 16, B - 9, B - 8, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 3):
            if ln < 0:
                continue
            t.reset()
            sp = h.spec()
            sp.activate()
            q, bu = divmod(ln, B)
            data = bytes((i * 73 + ln * 29 + 200) & 255 for i in range(ln))
            seed = 0x123456789abcdef1 & t.full(h.w)
            N = h.digest or 2 * B + 3
            qs = t.sym('q', 64)
            memo = {}

            def interp(x, a):
                if x.op == 'M':
                    assert a[0] < ln, (h.id, ln, t.show(x), a)
                    return data[a[0]]
                d = x.d
                if d[0] == 'chain':
                    g = a[0]
                    if g not in memo:
                        memo[g] = chain_value(h, sp, data, seed, g)
                    return memo[g][d[2]]
                cs = [t.const(v, y.w) for v, y in zip(a, x.a)]
                if d[0] == 'sha2step':
                    return specs.Sha2(h.w).step(cs[:8], cs[8:])[d[2]].d
                if d[0] == 'kf':
                    key = tuple(a)
                    if key not in memo:
                        memo[key] = specs.keccak_f(cs)
                    return memo[key][d[1]].d
                raise KeyError(d)
            for sym in ([False, True] if q or h.kind != 'xx' else [False]):
                out = sp.digest_terms(qs if sym else t.const(q, 64), bu, N, h.kind == 'xx' and q == 0)
                env = {qs: q}
                if h.kind == 'xx':
                    env[sp.seed] = seed
                got = bytes(t.evaluate(out, env, interp))
                if h.kind == 'sha2':
                    exp = specs.sha2_concrete(h.w, h.iv, data, N)
                elif h.kind == 'keccak':
                    exp = specs.keccak_concrete(B, h.suffix, data, N)
                else:
                    exp = specs.xx_concrete(h.w, data, seed).to_bytes(h.w // 8, 'big')
                assert got == exp, (h.id, ln, sym)
                if h.pyname:
                    p = hashlib.new(h.pyname, data)
                    assert (p.digest(N) if h.shake else p.digest()) == exp, (h.id, ln)
                n += 1
    return n
