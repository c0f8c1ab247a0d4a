"""Randomised self test of the term constructors: every constructor must be
value preserving (this is the rewriting part of the trusted base)."""
import random
import sys
from . import terms as t
from .facts import Facts, Infeasible


def run(n=3000, seed=1):
    R = random.Random(seed)
    for it in range(n):
        if it % 500 == 0:
            t.reset()
        W = R.choice([8, 16, 32, 64])
        syms = [t.sym('a%d_%d' % (i, W), W) for i in range(3)] + [t.sym('q%d' % W, W, 37), t.sym('b8', 8), t.sym('f1', 1)]
        bound = {syms[3]: 37}
        pool = [(s, None) for s in syms]
        envs = []
        for _ in range(6):
            envs.append({s: R.choice([R.getrandbits(s.w), 0, t.full(s.w), 1 << (s.w - 1), R.randrange(4)]) & t.full(s.w) if s not in bound
                         else R.randrange(bound[s] + 1) for s in syms})
        pool = [(s, [e[s] for e in envs]) for s in syms]

        def pick(w):
            c = [p for p in pool if p[0].w == w]
            if not c or R.random() < .15:
                v = R.choice([0, 1, R.getrandbits(w), t.full(w), 1 << R.randrange(w), t.full(R.randrange(1, w + 1)), R.randrange(70)]) & t.full(w)
                return (t.const(v, w), [v] * len(envs))
            return R.choice(c[-6:] if R.random() < .6 else c)

        def sg(v, w):
            return v - (1 << w) if v >> (w - 1) else v
        for _ in range(R.randrange(3, 16)):
            w = R.choice([W, W, W, 8, 1])
            F = t.full(w)
            op = R.randrange(26)
            a = pick(w)
            b = pick(w)
            f = None
            s = R.randrange(w)
            if op == 0: r = t.add(a[0], b[0]); f = lambda x, y: x + y & F
            elif op == 1: r = t.sub(a[0], b[0]); f = lambda x, y: x - y & F
            elif op == 2: r = t.xor(a[0], b[0]); f = lambda x, y: x ^ y
            elif op == 3: r = t.and_(a[0], b[0]); f = lambda x, y: x & y
            elif op == 4: r = t.or_(a[0], b[0]); f = lambda x, y: x | y
            elif op == 5: r = t.shl(a[0], s); f = lambda x, y: x << s & F
            elif op == 6: r = t.lshr(a[0], s); f = lambda x, y: x >> s
            elif op == 7: r = t.rotl(a[0], s); f = lambda x, y: (x << s | x >> (w - s)) & F
            elif op == 8: r = t.ashr(a[0], s); f = lambda x, y: (sg(x, w) >> s) & F
            elif op == 9: r = t.eq(a[0], b[0]); f = lambda x, y: int(x == y)
            elif op == 10: r = t.ult(a[0], b[0]); f = lambda x, y: int(x < y)
            elif op == 11: r = t.slt(a[0], b[0]); f = lambda x, y: int(sg(x, w) < sg(y, w))
            elif op == 12: r = t.mul(a[0], b[0]); f = lambda x, y: x * y & F
            elif op == 13:
                w2 = R.choice([x for x in (1, 8, 16, 32, 64) if x >= w]); r = t.zext(a[0], w2); f = lambda x, y: x
            elif op == 14:
                w2 = R.choice([x for x in (1, 8, 16, 32, 64) if x >= w]); r = t.sext(a[0], w2); f = lambda x, y: sg(x, w) & t.full(w2)
            elif op == 15:
                w2 = R.choice([x for x in (1, 8, 16, 32, 64) if x <= w]); lo = R.randrange(w - w2 + 1); r = t.ext(a[0], lo, w2); f = lambda x, y: (x >> lo) & t.full(w2)
            elif op == 16:
                c = pick(1); r = t.ite(c[0], a[0], b[0]); vals = [x if k else y for k, x, y in zip(c[1], a[1], b[1])]
            elif op == 17: r = t.udiv(a[0], b[0]); f = lambda x, y: x // y if y else F
            elif op == 18: r = t.urem(a[0], b[0]); f = lambda x, y: x % y if y else x
            elif op == 19 and w >= 8: r = t.bswap(a[0]); f = lambda x, y: int.from_bytes(x.to_bytes(w // 8, 'big'), 'little')
            elif op == 20 and w <= 32: r = t.cat([a[0], b[0]]); f = lambda x, y: x << w | y
            elif op == 21:
                i = pick(8); tv = tuple(R.getrandbits(w) for _ in range(256)); r = t.tbl('z', tv, w, i[0]); vals = [tv[k] for k in i[1]]
            elif op == 22: r = t.shlv(a[0], b[0]); f = lambda x, y: (x << y) & F if y < w else 0
            elif op == 23:
                r = t.subst(a[0], {syms[0]: b[0]}) if b[0].w == W else a[0]
                if b[0].w != W: vals = a[1]
                else:
                    vals = [t.evaluate(a[0], {**e, syms[0]: y}, None) for e, y in zip(envs, b[1])]
                if b[0].w == W and any(syms[0] in (z,) for z in t.topo([a[0]])) and a[0] is not syms[0]:
                    pass
            elif op == 24: r = t.mulc(a[0], b[1][0]) if t.isc(b[0]) else a[0]; f = (lambda x, y: x * y & F) if t.isc(b[0]) else (lambda x, y: x)
            else: r = t.not_(a[0]); f = lambda x, y: ~x & F
            if f:
                vals = [f(x, y) for x, y in zip(a[1], b[1])]
            got = [t.evaluate(r, e, None) for e in envs]
            if got != vals:
                print('MISMATCH op', op, 'a', a[0], 'b', b[0], 'r', r, got, vals, envs)
                return False
            for v in vals:
                if v > t.umax(r) or v & ~t.pm(r):
                    print('BOUND', op, r, v, t.umax(r), hex(t.pm(r)))
                    return False
            pool.append((r, vals))
    return True


def run_facts(n=4000, seed=1):
    """Randomised test of the path facts: no interval or decision may exclude
    the assignment the facts were taken from."""
    R = random.Random(seed)
    for it in range(n):
        if it%200==0: t.reset()
        W=R.choice([8,16,64])
        syms=[t.sym('a%d'%W,W),t.sym('b%d'%W,W)]
        pool=list(syms)
        # "ordinary" ranges first
        small=R.random()<.6
        mx=R.choice([7,135,200]) if W>8 else R.choice([7,135,255])
        env={s:(R.randint(0,mx) if small else R.randint(0,t.full(W))) for s in syms}
        def const(w):
            return t.const(R.choice([0,1,2,3,4,5,6,7,8,9,16,64,135,136,t.full(w),t.full(w)-5,1<<(w-1),R.getrandbits(w)])&t.full(w),w)
        def other(w):
            c=[x for x in pool if x.w==w]
            return R.choice(c) if c and R.random()<.6 else const(w)
        for _ in range(R.randint(1,9)):
            x=R.choice(pool[-4:]); w=x.w
            k=R.randrange(17)
            try:
                if k==0: y=t.add(x,other(w))
                elif k==1: y=t.sub(other(w),x)
                elif k==2: y=t.sub(x,other(w))
                elif k==3: y=t.mulc(x,R.choice([1,2,3,8,64,136]))
                elif k==4: y=t.and_(x,t.const(R.choice([1,3,7,15,0xf8,0xf0,t.full(w)-7 ])&t.full(w),w))
                elif k==5: y=t.shl(x,R.randrange(w))
                elif k==6: y=t.lshr(x,R.randrange(w))
                elif k==7: y=t.xor(x,other(w))
                elif k==8 and w>3: y=t.trunc(x,R.choice([z for z in (1,3,8,16,32) if z<w]))
                elif k==9 and w<64: y=t.zext(x,R.choice([z for z in (8,16,32,64) if z>w]))
                elif k==10: y=t.urem(x,t.const(R.choice([1,2,3,5,8,16,100]) & t.full(w) or 1,w))
                elif k==11: y=t.udiv(x,t.const(R.choice([1,2,3,5,8,16,100]) & t.full(w) or 1,w))
                elif k==12:
                    o=other(w); y=t.ite(t.ult(x,o),x,o)
                elif k==13: y=t.or_(x,other(w))
                elif k==14: y=t.eq(x,other(w))
                elif k==15: y=t.ult(x,other(w))
                elif k==16: y=t.slt(x,other(w))
                else: continue
            except (ZeroDivisionError,): continue
            pool.append(y)
        vals=dict(zip(pool,t.evaluate(pool,env)))
        F=Facts(); log=[]
        try:
            if small:
                for s in syms:
                    if R.random()<.7: F.set_range(s,0,mx); log.append(('rng',t.show(s),0,mx))
            for _ in range(R.randint(1,6)):
                x=R.choice(pool); v=vals[x]
                if x.w==1 and R.random()<.8:
                    log.append(('assume',t.show(x),v)); F.assume(x,v)
                else:
                    a=R.choice([v,max(0,v-R.randint(0,9)),0]); b=R.choice([v,min(t.full(x.w),v+R.randint(0,9)),t.full(x.w)])
                    log.append(('rng',t.show(x),a,b)); F.set_range(x,a,b)
                for z in pool:
                    lo,hi=F.rng(z)
                    if not lo<=vals[z]<=hi: raise AssertionError(('range of',t.show(z),lo,hi,vals[z]))
                    if z.w==1:
                        d=F.decide_fast(z)
                        if d is not None and d!=vals[z]: raise AssertionError(('decide',t.show(z),d))
        except (Infeasible,AssertionError) as e:
            print('FACTS', seed, it, repr(e)[:300], {t.show(k): v for k, v in env.items()}, log)
            return False
        if it % 40 == 0:
            # the solver's reading of the terms is the evaluator's
            from . import smt
            G = Facts()
            for s in syms:
                G.set_range(s, env[s], env[s])
            big = [z for z in pool if z.w > 1][-1]
            for c in [t.ne(big, t.const(vals[big], big.w))] + [z if vals[z] == 0 else t.not_(z) for z in pool if z.w == 1][-2:]:
                if c.op == 'c':
                    if c.d:
                        return False
                elif smt.check([c], G, 4000)[0] == 'sat':
                    print('SMT', t.show(c), vals[big])
                    return False
    return True


if __name__ == '__main__':
    ok = run(int(sys.argv[1]) if len(sys.argv) > 1 else 3000, int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    print('selftest', 'ok' if ok else 'FAILED')
    sys.exit(0 if ok else 1)
