"""Symbolic executor for the parsed IR: generates the obligations of one
function body, path by path, applying contracts at calls."""
import time
from . import terms as t
from . import ir
from .facts import Facts, Infeasible, STATS

DEBUG = False


class Limit(Exception):
    """the verifier cannot decide (unsupported construct, budget): never a violation"""


class Split(Exception):
    def __init__(self, alts):
        self.alts = alts      # list of (cond, truth) sets: each alternative is a list of (cond,val)


class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg


class Obj:
    __slots__ = ('id', 'base', 'size', 'kind', 'cells', 'writable', 'arr', 'pos0', 'name', 'owner', 'alive', 'rd', 'wr', 'init', 'lo')

    def copy(self, owner):
        o = Obj()
        o.id = self.id
        o.base = self.base
        o.size = self.size
        o.kind = self.kind
        o.cells = dict(self.cells)
        o.writable = self.writable
        o.arr = self.arr
        o.pos0 = self.pos0
        o.name = self.name
        o.owner = owner
        o.alive = self.alive
        o.rd = self.rd
        o.wr = self.wr
        o.init = self.init
        o.lo = self.lo
        return o


class Frame:
    __slots__ = ('f', 'blk', 'ix', 'regs', 'prev', 'res', 'inv', 'allocas', 'loops', 'post', 'fid')

    def copy(self):
        g = Frame()
        g.f = self.f
        g.blk = self.blk
        g.ix = self.ix
        g.regs = dict(self.regs)
        g.prev = self.prev
        g.res = self.res
        g.inv = self.inv
        g.allocas = list(self.allocas)
        g.loops = {k: list(v) for k, v in self.loops.items()} if self.loops else {}
        g.post = self.post
        g.fid = self.fid
        return g


class State:
    __slots__ = ('frames', 'mem', 'facts', 'ghost', 'token', 'cuts', 'steps', 'trace', 'prog', 'exc')

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.ghost = dict(self.ghost)
        s.token = object()
        self.token = object()
        s.cuts = self.cuts
        s.steps = self.steps
        s.trace = self.trace
        s.prog = self.prog
        s.exc = self.exc
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner is not self.token:
            o = o.copy(self.token)
            self.mem[oid] = o
        return o


class Outcome:
    __slots__ = ('kind', 'state', 'val', 'msg')

    def __init__(self, kind, state, val=None, msg=''):
        self.kind = kind
        self.state = state
        self.val = val
        self.msg = msg


TRAPS = {'@abort', '@_ZSt21__glibcxx_assert_failPKciS0_S0_', '@llvm.ubsantrap', '@llvm.trap', '@__assert_fail', '@_ZSt9terminatev', '@__clang_call_terminate',
         '@exit', '@_exit', '@__cxa_pure_virtual', '@__cxa_bad_cast', '@__cxa_call_unexpected'}


class Machine:
    """one IR module with its globals laid out as objects"""

    def __init__(self, text, contracts=None):
        self.m = ir.parse(text)
        self.prepared = {}
        self.globals = {}
        self.gname = {}
        self.nobj = 0
        self.by_base = {}
        self.fn_addr = {}
        self.addr_fn = {}
        self.externs = {}
        self.hooks = []          # call hooks: f(machine, state, fname, args) -> None | value (contract applied)
        self.n = {'insts': 0, 'paths': 0, 'mem': 0, 'bounds_smt': 0, 'forks': 0, 'calls': 0, 'loops_cut': 0, 'traps_excluded': 0, 'branches': 0}
        self.max_steps = 40_000_000
        self.max_paths = 2_000_000
        self.deadline = None
        self.soft_limit = False
        self.loop_cap = 3000
        self.funcs_seen = set()
        self.init_mem = {}
        self.cutter = None
        self.ident = {}
        self.fids = {}
        self.extra_work = []
        self.strict_uninit = True
        self.global_writable = False
        from . import externs as ex
        ex.install(self)
        if contracts:
            contracts(self)

    # ------------------------------------------------------------- objects
    def new_obj(self, st, kind, size, name='', writable=True, lo_align=16, ident=None):
        oid = self.ident.get(ident) if ident is not None else None
        if oid is None:
            self.nobj += 1
            oid = self.nobj
            if ident is not None:
                self.ident[ident] = oid
        o = Obj()
        o.id = oid
        o.base = t.sym('&%s.%d' % (name or kind, oid), 64, (1 << 47) - 1)
        self.by_base[o.base] = o.id
        o.size = size
        o.kind = kind
        o.cells = {}
        o.writable = writable
        o.arr = None
        o.pos0 = None
        o.name = name
        o.owner = st.token if st else None
        o.alive = True
        o.rd = None
        o.wr = None
        o.init = None
        o.lo = None
        if st is not None:
            st.mem[o.id] = o
        else:
            self.init_mem[o.id] = o
        return o

    def global_base(self, name):
        if name in self.m.aliases:
            return self.const_val('ptr', self.m.aliases[name])
        if name in self.m.funcs or name in self.m.decls:
            b = self.fn_addr.get(name)
            if b is None:
                b = self.fn_addr[name] = t.sym('&fn' + name, 64, (1 << 47) - 1)
                self.addr_fn[b] = name
            return b
        o = self.globals.get(name)
        if o is None:
            g = self.m.globals.get(name)
            if g is None:
                raise Limit('unknown global ' + name)
            size = self.m.size(g.ty) if not g.ext else 1 << 20
            o = self.new_obj(None, 'global' if not g.ext else 'extglobal', size, name, writable=False)
            self.globals[name] = o
            self.gname[o.id] = name
            if g.init is not None and (g.const or self.global_writable):
                self.fill_const(o.cells, 0, g.ty, g.init)
        return o.base

    def fill_const(self, cells, off, ty, v):
        ty0 = self.m.rt(ty)
        k = v[0]
        if k == 'z' or (k == 'c' and v[1] == 0 and not isinstance(ty0, tuple)):
            z = t.const(0, 8)
            for i in range(self.m.size(ty0)):
                cells[off + i] = (z, 0)
        elif k == 'c':
            n = self.m.size(ty0)
            x = t.const(v[1], n * 8)
            for i in range(n):
                cells[off + i] = (t.const(v[1] >> (8 * i), 8), 0)
        elif k == 's':
            for i, b in enumerate(v[1]):
                cells[off + i] = (t.const(b, 8), 0)
        elif k == 'agg':
            if ty0[0] == 'arr':
                es = self.m.size(ty0[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.fill_const(cells, off + i * es, et, ev)
            elif ty0[0] == 'vec':
                es = self.m.size(ty0[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.fill_const(cells, off + i * es, et, ev)
            else:
                offs, sz = self.m.layout(ty0)
                for i in range(sz):
                    cells.setdefault(off + i, (t.const(0, 8), 0))
                for o, (et, ev) in zip(offs, v[1]):
                    self.fill_const(cells, off + o, et, ev)
        elif k == 'u':
            pass
        elif k == 'fc':
            raise Limit('float constant')
        else:
            x = self.const_val(ty0, v)
            for i in range(x.w // 8):
                cells[off + i] = (x, i)

    def width(self, ty):
        ty = self.m.rt(ty)
        if ty == 'ptr' or ty == 'metadata':
            return 64
        if ty[0] == 'i':
            return ty[1]
        raise Limit('width of %r' % (ty,))

    def const_val(self, ty, v):
        k = v[0]
        if k == 'c':
            return t.const(v[1], self.width(ty))
        if k == 'g':
            return self.global_base(v[1])
        if k == 'z':
            ty0 = self.m.rt(ty)
            if isinstance(ty0, tuple) and ty0[0] in ('st', 'arr', 'vec'):
                return self.zero_agg(ty0)
            return t.const(0, self.width(ty))
        if k == 'u':
            ty0 = self.m.rt(ty)
            if isinstance(ty0, tuple) and ty0[0] in ('st', 'arr', 'vec'):
                return self.undef_agg(ty0)
            return t.fresh('undef', self.width(ty))
        if k == 'gep':
            base = self.const_val('ptr', v[2])
            idx = [(it, self.const_val(it, iv)) for it, iv in v[3]]
            return t.add(base, self.gep_off(v[1], idx))
        if k == 'cast':
            x = self.const_val(v[2], v[3])
            return self.cast(v[1], x, self.width(v[4]))
        if k == 'cbin':
            a = self.const_val(v[2], v[3])
            b = self.const_val(v[2], v[4])
            return self.binop(v[1], a, b)
        if k == 'agg':
            return tuple(self.const_val(et, ev) for et, ev in v[1])
        raise Limit('const %r' % (v,))

    def zero_agg(self, ty):
        ty = self.m.rt(ty)
        if isinstance(ty, tuple) and ty[0] == 'st':
            return tuple(self.zero_agg(x) for x in ty[1])
        if isinstance(ty, tuple) and ty[0] in ('arr', 'vec'):
            return tuple(self.zero_agg(ty[2]) for _ in range(ty[1]))
        return t.const(0, self.width(ty))

    def undef_agg(self, ty):
        ty = self.m.rt(ty)
        if isinstance(ty, tuple) and ty[0] == 'st':
            return tuple(self.undef_agg(x) for x in ty[1])
        if isinstance(ty, tuple) and ty[0] in ('arr', 'vec'):
            return tuple(self.undef_agg(ty[2]) for _ in range(ty[1]))
        return t.fresh('undef', self.width(ty))

    def gep_off(self, ty, idx):
        """byte offset term of a GEP"""
        off = t.const(0, 64)
        first = True
        cur = ty
        for it, x in idx:
            if isinstance(x, tuple):
                raise Limit('vector gep')
            x64 = t.sext(x, 64) if x.w < 64 else x
            if first:
                off = t.add(off, t.mulc(x64, self.m.size(cur)))
                first = False
                continue
            c = self.m.rt(cur)
            if c[0] == 'st':
                off = t.add(off, t.const(self.m.layout(c)[0][x.d], 64))
                cur = c[1][x.d]
            else:
                off = t.add(off, t.mulc(x64, self.m.size(c[2])))
                cur = c[2]
        return off

    # ------------------------------------------------------------- operands
    def prep(self, f):
        """pre-resolve the operands of a function"""
        p = self.prepared.get(f.name)
        if p is not None:
            return p
        V = self.pv
        blocks = {}
        for b, insts in f.blocks.items():
            out = []
            for ins in insts:
                op, a = ins.op, ins.a
                try:
                    if op == 'bin':
                        a = (a[0], V(a[1], a[2]), V(a[1], a[3]), a[4], self.m.rt(a[1]))
                    elif op == 'cast':
                        a = (a[0], V(a[1], a[2]), self.width(a[3]), a[4])
                    elif op == 'icmp':
                        a = (a[0], V(a[1], a[2]), V(a[1], a[3]))
                    elif op == 'phi':
                        a = (a[0], {k: V(a[0], v) for k, v in a[1].items()})
                    elif op == 'select':
                        a = (V(('i', 1), a[0]), V(a[1], a[2]), V(a[1], a[3]))
                    elif op == 'load':
                        a = (self.m.rt(a[0]), V('ptr', a[1]))
                    elif op == 'store':
                        a = (self.m.rt(a[0]), V(a[0], a[1]), V('ptr', a[2]))
                    elif op == 'gep':
                        idx = [(it, V(it, iv)) for it, iv in a[2]]
                        b0 = V('ptr', a[1])
                        if all(isinstance(x, t.T) for _, x in idx):
                            a = (None, b0, self.gep_off(a[0], idx))
                        else:
                            a = (a[0], b0, idx)
                    elif op in ('call', 'invoke'):
                        fn = a[1][1] if a[1][0] == 'g' else V('ptr', a[1])
                        args = tuple(V(tt, v) for tt, v in a[2])
                        if isinstance(fn, str) and fn[0] == '@' and fn in self.m.aliases:
                            fn = self.m.aliases[fn][1]
                        a = (a[0], fn, args) + tuple(a[3:])
                    elif op == 'cbr':
                        a = (V(('i', 1), a[0]), a[1], a[2])
                    elif op == 'switch':
                        a = (V(a[0], a[1]), a[2], a[3])
                    elif op == 'ret':
                        a = None if a is None else V(a[0], a[1])
                    elif op == 'extractvalue':
                        a = (V(a[0], a[1]), a[2])
                    elif op == 'insertvalue':
                        a = (V(a[0], a[1]), V(a[2], a[3]), a[4])
                    elif op == 'freeze':
                        a = V(a[0], a[1])
                    elif op == 'resume':
                        a = V(a[0], a[1])
                    elif op == 'alloca':
                        a = (self.m.size(a[0]), None if a[1] is None else V(a[1][0], a[1][1]))
                except (Limit, ir.ParseError) as e:
                    op, a = 'unsupported', (str(e),)
                out.append((op, ins.res, a))
            blocks[b] = out
        p = self.prepared[f.name] = (blocks, ir.loop_headers(f))
        return p

    def pv(self, ty, v):
        if v[0] == 'r':
            return v[1]
        if v[0] == 'u':
            return ('undef', ty)
        return self.const_val(ty, v)

    def val(self, fr, x):
        if x.__class__ is str:
            return fr.regs[x]
        if x.__class__ is tuple and len(x) == 2 and x[0] == 'undef':
            return self.const_val(x[1], ('u',))
        return x

    # ------------------------------------------------------------- ops
    def binop(self, op, a, b):
        if op == 'add':
            return t.add(a, b)
        if op == 'sub':
            return t.sub(a, b)
        if op == 'mul':
            return t.mul(a, b)
        if op == 'and':
            return t.and_(a, b)
        if op == 'or':
            return t.or_(a, b)
        if op == 'xor':
            return t.xor(a, b)
        if op == 'shl':
            return t.shlv(a, b)
        if op == 'lshr':
            return t.lshrv(a, b)
        if op == 'ashr':
            return t.ashrv(a, b)
        if op == 'udiv':
            return t.udiv(a, b)
        if op == 'urem':
            return t.urem(a, b)
        if op == 'sdiv':
            return t.sdiv(a, b)
        if op == 'srem':
            return t.srem(a, b)
        raise Limit(op)

    def lin_split(self, st, o, x, y):
        """quotient / remainder by a constant of a sum whose parts separate"""
        c = y.d
        if o == 'lshr':
            c = 1 << y.d
        elif o == 'and':
            c = y.d + 1
            if c & (c - 1):
                return None
        if c <= 1 or c >> 32:
            return None
        w = x.w
        h = 1 << (w - 1)
        if st.facts.rng(x)[1] >= h:
            return None
        sl, sh = st.facts._lrange(x, 0)
        if sl <= -h or sh >= h:
            return None
        hi, lo = [], []
        for cf, z in zip(x.d[1], x.a):
            if cf & h:
                cf -= 1 << w
            q, r = divmod(cf, c)
            if r == 0:
                hi.append((z, q))
            else:
                lo.append((z, cf))
        if not hi:
            return None
        c0 = x.d[0] - (1 << w) if x.d[0] & h else x.d[0]
        rest = t.lin(w, c0, lo)
        rl, rh = st.facts.rng_signed(rest)
        q0 = rl // c
        if rh // c != q0:
            if rh // c - q0 > 3:
                return None
            # several quotients are possible: split on which
            m = t.const((q0 + 1) * c, w)
            raise Split([[(t.slt(rest, m), 1)], [(t.slt(rest, m), 0)]])
        if o in ('udiv', 'lshr'):
            return t.lin(w, q0, hi)
        return t.sub(rest, t.const(q0 * c, w))

    def cast(self, op, x, w):
        if op in ('zext', 'ptrtoint', 'inttoptr', 'bitcast'):
            if isinstance(x, tuple):
                raise Limit('vector cast')
            return t.zext(x, w) if w > x.w else t.trunc(x, w)
        if op == 'trunc':
            return t.trunc(x, w)
        if op == 'sext':
            return t.sext(x, w)
        raise Limit('cast ' + op)

    def bases_in(self, x):
        """pointer bases occurring with coefficient in a linear form"""
        if x in self.by_base:
            return [(x, 1)]
        if x.op == 'L':
            return [(y, c) for y, c in zip(x.a, x.d[1]) if y in self.by_base or y in self.addr_fn]
        if x in self.addr_fn:
            return [(x, 1)]
        if x.op == 'X' and len(x.a) == 1 and x.a[0] in self.by_base:
            return [(x.a[0], 0)]
        return []

    def icmp(self, st, pred, a, b):
        if pred in ('eq', 'ne'):
            if isinstance(a, tuple):
                raise Limit('vector icmp')
            if a.w == 64:
                ba, bb = self.bases_in(a), self.bases_in(b)
                if ba or bb:
                    d = t.sub(a, b)
                    bd = self.bases_in(d)
                    if bd:
                        # distinct objects, or null against an object
                        if len(bd) <= 2 and all(c in (1, t.full(64)) for _, c in bd):
                            r = t.false()
                            return r if pred == 'eq' else t.not_(r)
                    else:
                        r = t.eq0(d)
                        return r if pred == 'eq' else t.not_(r)
            r = t.eq(a, b)
            return r if pred == 'eq' else t.not_(r)
        if a.w == 64 and pred[0] == 'u':
            ba, bb = self.bases_in(a), self.bases_in(b)
            if ba and bb and ba == bb and ba[0][1] == 1:
                a2, b2 = t.sub(a, ba[0][0]), t.sub(b, ba[0][0])
                a, b = a2, b2
        if pred == 'ult':
            return t.ult(a, b)
        if pred == 'ugt':
            return t.ult(b, a)
        if pred == 'ule':
            return t.ule(a, b)
        if pred == 'uge':
            return t.ule(b, a)
        if pred == 'slt':
            return t.slt(a, b)
        if pred == 'sgt':
            return t.slt(b, a)
        if pred == 'sle':
            return t.sle(a, b)
        if pred == 'sge':
            return t.sle(b, a)
        raise Limit(pred)

    # ------------------------------------------------------------- memory
    def resolve(self, st, p):
        """pointer term -> (object, offset term)"""
        oid = self.by_base.get(p)
        if oid is not None:
            off = t.const(0, 64)
        else:
            if p.op == 'ite':
                c = p.a[0]
                d = st.facts.decide(c)
                if d is None:
                    raise Split([[(c, 1)], [(c, 0)]])
                return self.resolve(st, p.a[1] if d else p.a[2])
            if p.op != 'L':
                if p.op == 'c':
                    raise PathEnd('oob', 'access through invalid pointer %#x' % p.d)
                for y in t.topo([p]):
                    if y.op == 'ite' and y.w == 64:
                        d = st.facts.decide(y.a[0])
                        if d is None:
                            raise Split([[(y.a[0], 1)], [(y.a[0], 0)]])
                        p2 = t.subst(p, {y: y.a[1] if d else y.a[2]})
                        return self.resolve(st, p2)
                raise Limit('pointer %s' % t.show(p))
            base = None
            for y, c in zip(p.a, p.d[1]):
                if c == 1 and y in self.by_base:
                    if base is not None:
                        raise Limit('two bases in %s' % t.show(p))
                    base = y
            if base is None:
                for y in p.a:
                    if y.op == 'ite':
                        d = st.facts.decide(y.a[0])
                        if d is None:
                            raise Split([[(y.a[0], 1)], [(y.a[0], 0)]])
                        return self.resolve(st, t.subst(p, {y: y.a[1] if d else y.a[2]}))
                raise Limit('pointer %s' % t.show(p))
            oid = self.by_base[base]
            off = t.sub(p, base)
        o = st.mem.get(oid)
        if o is None:
            o = self.init_mem.get(oid)
            if o is None:
                raise PathEnd('oob', 'dead object')
        if not o.alive:
            raise PathEnd('oob', 'use of object %s after its lifetime' % o.name)
        return o, off

    def check_bounds(self, st, o, off, n, write):
        self.n['mem'] += 1
        if write and not o.writable:
            raise PathEnd('frame', 'write to %s, which the contract does not list as modified' % o.name)
        size = o.size
        if size is None:
            return
        if o.lo is not None:
            if st.cuts and self.cutter is not None:
                self.cutter.note_low(st, o, off)
            c = t.ule(o.lo, off)
            if st.facts.decide_fast(c) != 1:
                v = st.facts.sat(t.not_(c), 8000)
                if v == 'unknown':
                    raise Limit('bounds undecided: %s' % t.show(off))
                if v != 'unsat':
                    raise PathEnd('oob', 'access before the beginning of %s' % o.name)
        if off.op == 'c':
            v = off.d
            if isinstance(size, int):
                if v + n <= size:
                    return
                raise PathEnd('oob', '%s of %d bytes at offset %d of %s (size %d)' % ('write' if write else 'read', n, v - (1 << 64) if v >> 63 else v, o.name, size))
        F = st.facts
        S = t.const(size, 64) if isinstance(size, int) else size
        lo, hi = F.rng(off)
        d = t.sub(S, off)
        dl, dh = F.rng(d)
        if hi < 1 << 63 and dl >= n and dh < 1 << 63:
            return
        if isinstance(size, int) and hi + n <= size:
            return
        self.n['bounds_smt'] += 1
        ok = t.and_(t.ule(off, S), t.ule(t.const(n, 64), d))
        if F.decide_fast(ok) == 1:
            return
        v = F.sat(t.not_(ok), 8000)
        if v == 'unsat':
            return
        if v == 'unknown':
            raise Limit('bounds undecided: %s' % t.show(off))
        raise PathEnd('oob', '%s of %d bytes at offset %s of %s' % ('write' if write else 'read', n, t.show(off), o.name))

    def concretize(self, st, x, lim=600):
        """fork over the values of x (raises Split) unless it is already fixed"""
        if x.op == 'c':
            return x.d
        lo, hi = st.facts.rng(x)
        if lo == hi:
            return lo
        if hi - lo > lim:
            # try harder through the atoms
            raise Limit('cannot enumerate %s in [%d,%d]' % (t.show(x), lo, hi))
        alts = []
        for v in range(lo, hi + 1):
            alts.append([(t.eq(x, t.const(v, x.w)), 1)])
        raise Split(alts)

    def rd_cell(self, st, o, i):
        c = o.cells.get(i)
        if c is None:
            k = o.kind
            if k == 'input':
                c = (t.sel(o.arr, t.add(o.pos0, t.const(i, 64))), 0)
                return c
            if k == 'lazy':
                o = st.wobj(o.id)
                x = o.init(i)
                o.cells[i] = c = (x, 0)
                return c
            if k in ('global', 'extglobal'):
                nm = self.gname.get(o.id, '?')
                raise Limit('read of global %s without constant value' % nm)
            o = st.wobj(o.id)
            x = t.fresh('uninit:%s+%d' % (o.name, i), 8)
            o.cells[i] = c = (x, 0)
        return c

    def load(self, st, p, n):
        """n bytes -> T of width 8n"""
        o, off = self.resolve(st, p)
        self.check_bounds(st, o, off, n, False)
        return self.load_at(st, o, off, n)

    def load_at(self, st, o, off, n):
        if off.op != 'c':
            if o.kind == 'input':
                bs = [t.sel(o.arr, t.add(o.pos0, t.add(off, t.const(i, 64)))) for i in range(n)]
                return bs[0] if n == 1 else t.cat(bs[::-1])
            lo, hi = st.facts.rng(off)
            if lo == hi:
                off = t.const(lo, 64)
            elif o.kind == 'global':
                return self.table_load(st, o, off, n, lo, hi)
            elif hi - lo <= 600:
                # constant contents? otherwise fork
                off = t.const(self.concretize(st, off), 64)
            else:
                raise Limit('load at symbolic offset %s of %s' % (t.show(off), o.name))
        b = off.d
        if o.rd is not None:
            o.rd.update(range(b, b + n))
        cells = o.cells
        c0 = cells.get(b)
        if c0 is None:
            if o.kind == 'lazy' and n > 1 and all((b + i) not in cells for i in range(n)):
                o = st.wobj(o.id)
                x = o.init(b, n)
                for i in range(n):
                    o.cells[b + i] = (x, i)
                return x
            c0 = self.rd_cell(st, o, b)
        x, k = c0
        if n == 1:
            return x if x.w == 8 else t.ext(x, 8 * k, 8)
        if k == 0 and x.w == 8 * n:
            for i in range(1, n):
                c = cells.get(b + i)
                if c is None or c[0] is not x or c[1] != i:
                    break
            else:
                return x
        parts = []
        i = 0
        while i < n:
            c = cells.get(b + i)
            if c is None:
                o = st.mem.get(o.id, o)
                c = self.rd_cell(st, o, b + i)
                cells = st.mem.get(o.id, o).cells
            x, k = c
            if x.w == 8:
                parts.append(x)
                i += 1
                continue
            j = 1
            while i + j < n and k + j < x.w // 8:
                c2 = cells.get(b + i + j)
                if c2 is None or c2[0] is not x or c2[1] != k + j:
                    break
                j += 1
            parts.append(t.ext(x, 8 * k, 8 * j))
            i += j
        parts.reverse()
        return t.cat(parts)

    def table_load(self, st, o, off, n, lo, hi):
        """load at a symbolic offset of a constant object"""
        hi = min(hi, o.size - n)
        if off.op == 'L' and len(off.a) == 1:
            c, s, idx = off.d[0], off.d[1][0], off.a[0]
        elif off.op == 'X' and len(off.a) == 1 and off.d[0] == 0:
            ct, pt = t.lparts(off)
            (idx, s), = pt.items()
            c = ct
        else:
            c, s, idx = 0, 1, off
        if s == 1 and idx.op == 'X' and len(idx.a) == 1 and idx.d[0] == 0:
            (sh, m), = idx.d[1]
            if sh > 0:
                s = 1 << sh
                idx = t.lshr(idx, sh)
        ilo, ihi = st.facts.rng(idx)
        if ihi > 70000:
            raise Limit('table index range')
        vals = []
        for i in range(ihi + 1):
            a = (c + s * i) & t.full(64)
            if a + n <= o.size:
                x = self.load_at(st, o, t.const(a, 64), n)
                if x.op != 'c':
                    raise Limit('table of pointers')
                vals.append(x.d)
            else:
                vals.append(0)
        return t.tbl(None, tuple(vals), 8 * n, idx)

    def store(self, st, p, x):
        n = x.w // 8
        o, off = self.resolve(st, p)
        self.check_bounds(st, o, off, n, True)
        if o.kind == 'emit':
            o.init(st, o, off, [x if n == 1 else t.ext(x, 8 * i, 8) for i in range(n)])
            return
        if off.op != 'c':
            off = t.const(self.concretize(st, off), 64)
        o = st.wobj(o.id)
        b = off.d
        if o.wr is not None:
            o.wr.update(range(b, b + n))
        if n == 1:
            o.cells[b] = (x, 0)
        else:
            for i in range(n):
                o.cells[b + i] = (x, i)

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        so, soff = self.resolve(st, s)
        self.check_bounds(st, so, soff, n, False)
        do, doff = self.resolve(st, d)
        self.check_bounds(st, do, doff, n, True)
        if soff.op != 'c' and so.kind != 'input':
            soff = t.const(self.concretize(st, soff), 64)
        if do.kind == 'emit':
            bs = []
            for i in range(n):
                x = self.load_at(st, st.mem.get(so.id, so), t.add(soff, t.const(i, 64)), 1)
                bs.append(x)
            do.init(st, do, doff, bs)
            return
        if doff.op != 'c':
            doff = t.const(self.concretize(st, doff), 64)
        if so.kind == 'input':
            cs = [(t.sel(so.arr, t.add(so.pos0, t.add(soff, t.const(i, 64)))), 0) for i in range(n)]
        elif so.kind == 'lazy' or so.kind in ('global', 'extglobal'):
            cs = []
            for i in range(n):
                so = st.mem.get(so.id, so)
                cs.append(self.rd_cell(st, so, soff.d + i))
            if so.rd is not None:
                so.rd.update(range(soff.d, soff.d + n))
        else:
            b = soff.d
            cs = [so.cells.get(b + i) for i in range(n)]
        do = st.wobj(do.id)
        b = doff.d
        if do.wr is not None:
            do.wr.update(range(b, b + n))
        for i, c in enumerate(cs):
            if c is None:
                do.cells.pop(b + i, None)
            else:
                do.cells[b + i] = c

    def memset(self, st, d, v, n):
        if n == 0:
            return
        do, doff = self.resolve(st, d)
        self.check_bounds(st, do, doff, n, True)
        if do.kind == 'emit':
            do.init(st, do, doff, [v] * n)
            return
        if doff.op != 'c':
            doff = t.const(self.concretize(st, doff), 64)
        do = st.wobj(do.id)
        if do.wr is not None:
            do.wr.update(range(doff.d, doff.d + n))
        for i in range(n):
            do.cells[doff.d + i] = (v, 0)

    # ------------------------------------------------------------- running
    def new_state(self):
        st = State()
        st.frames = []
        st.mem = {}
        st.facts = Facts()
        st.ghost = {}
        st.token = object()
        st.cuts = ()
        st.steps = 0
        st.trace = None
        st.prog = 0
        st.exc = None
        return st

    def push(self, st, f, args, res=None, inv=None, post=None):
        fr = Frame()
        fr.f = f
        fr.blk = f.entry
        fr.ix = 0
        fr.regs = {}
        for (ty, nm, info), a in zip(f.params, args):
            fr.regs[nm] = a
        fr.prev = None
        fr.res = res
        fr.inv = inv
        fr.allocas = []
        fr.loops = {}
        fr.post = post
        if st.frames:
            up = st.frames[-1]
            key = (up.fid, f.name, up.blk, up.ix)
        else:
            key = (0, f.name, '', 0)
        fr.fid = self.fids.setdefault(key, len(self.fids) + 1)
        st.frames.append(fr)
        self.funcs_seen.add(f.name)
        if len(st.frames) > 200:
            raise Limit('call depth')

    def run(self, st, fname, args):
        """generator of Outcome for every path"""
        f = self.m.funcs[fname]
        self.push(st, f, args)
        work = [st]
        while work or self.extra_work:
            if self.extra_work:
                work.extend(self.extra_work)
                self.extra_work = []
            st = work.pop()
            if self.cutter is not None and st.cuts and self.cutter.stale(st):
                continue
            if self.deadline and time.time() > self.deadline:
                raise Limit('time budget')
            try:
                out = self.go(st, work)
            except Infeasible:
                continue
            if out is not None:
                self.n['paths'] += 1
                if self.n['paths'] > self.max_paths:
                    raise Limit('too many paths')
                yield out

    def fork(self, st, alts, work):
        """alts: list of lists of (cond,val); st continues with the first feasible one; others are pushed"""
        self.n['forks'] += len(alts) - 1
        good = []
        for alt in alts:
            s2 = st.copy()
            try:
                for c, v in alt:
                    s2.facts.assume(c, v)
            except Infeasible:
                continue
            good.append(s2)
        return good

    def go(self, st, work):
        """run one path to its end or to a fork (the siblings go on the work list)"""
        while True:
            try:
                r = self.step_block(st)
            except Split as sp:
                good = self.fork(st, sp.alts, work)
                if not good:
                    return None
                work.extend(reversed(good))
                return None
            except PathEnd as e:
                if e.kind == 'covered':
                    return None
                # confirm that the path is feasible before reporting
                if e.kind in ('trap', 'oob', 'frame', 'throw', 'bad'):
                    r = st.facts.sat(None, 8000)
                    if r == 'unsat':
                        self.n['traps_excluded'] += 1
                        return None
                return Outcome(e.kind, st, None, e.msg)
            except Limit as e:
                # this path only, where the caller counts it as undecided
                if not self.soft_limit or 'budget' in str(e):
                    raise
                return Outcome('limit', st, None, str(e))
            if r is not None:
                return r

    def step_block(self, st):
        """execute until a control transfer; returns Outcome at the end of the path"""
        fr = st.frames[-1]
        blocks, headers = self.prep(fr.f)
        insts = blocks[fr.blk]
        regs = fr.regs
        n_ix = len(insts)
        while True:
            op, res, a = insts[fr.ix]
            self.n['insts'] += 1
            if op == 'bin':
                x = self.val(fr, a[1])
                y = self.val(fr, a[2])
                if x.__class__ is tuple:
                    raise Limit('vector op')
                o = a[0]
                if o in ('udiv', 'urem', 'sdiv', 'srem') and y.op != 'c':
                    d = st.facts.decide(t.eq0(y))
                    if d != 0:
                        raise PathEnd('trap', 'division by zero')
                elif o in ('shl', 'lshr', 'ashr') and y.op != 'c':
                    lo, hi = st.facts.rng(y)
                    if hi >= y.w and st.facts.decide(t.ult(y, t.const(y.w, y.w))) != 1:
                        raise PathEnd('trap', 'shift amount not less than the width')
                    if lo == hi:
                        y = t.const(lo, y.w)
                    elif hi - lo <= 64 and x.op != 'c':
                        y = t.const(self.concretize(st, y), y.w)
                elif o in ('shl', 'lshr', 'ashr') and y.d >= y.w:
                    raise PathEnd('trap', 'shift amount not less than the width')
                if x.op == 'L' and y.op == 'c' and o in ('udiv', 'urem', 'lshr', 'and'):
                    r = self.lin_split(st, o, x, y)
                    if r is not None:
                        regs[res] = r
                        fr.ix += 1
                        continue
                regs[res] = self.binop(o, x, y)
            elif op == 'gep':
                b = self.val(fr, a[1])
                off = a[2] if a[0] is None else self.gep_off(a[0], [(it, self.val(fr, x)) for it, x in a[2]])
                regs[res] = t.add(b, off)
            elif op == 'load':
                regs[res] = self.do_load(st, a[0], self.val(fr, a[1]))
            elif op == 'store':
                self.do_store(st, a[0], self.val(fr, a[1]), self.val(fr, a[2]))
            elif op == 'icmp':
                regs[res] = self.icmp(st, a[0], self.val(fr, a[1]), self.val(fr, a[2]))
            elif op == 'cast':
                regs[res] = self.cast(a[0], self.val(fr, a[1]), a[2])
            elif op == 'br':
                self.jump(st, fr, a[0])
                return None
            elif op == 'cbr':
                c = self.val(fr, a[0])
                self.n['branches'] += 1
                d = c.d if c.op == 'c' else self.branch(st, c)
                self.jump(st, fr, a[1] if d else a[2])
                return None
            elif op == 'select':
                c = self.val(fr, a[0])
                x = self.val(fr, a[1])
                y = self.val(fr, a[2])
                if c.op != 'c':
                    d = st.facts.decide_fast(c)
                    if d is None:
                        if x.__class__ is tuple or self.is_control(c) or self.bases_in(x) or self.bases_in(y):
                            d = self.branch(st, c)
                        else:
                            regs[res] = t.ite(c, x, y)
                            fr.ix += 1
                            continue
                else:
                    d = c.d
                regs[res] = x if d else y
            elif op == 'phi':
                raise Limit('stray phi')
            elif op in ('call', 'invoke'):
                r = self.do_call(st, fr, op, res, a)
                if r is not None:
                    return r if r is not True else None
                if op == 'invoke':
                    self.jump(st, fr, a[3])
                    return None
            elif op == 'ret':
                v = None if a is None else self.val(fr, a)
                return self.do_ret(st, fr, v)
            elif op == 'switch':
                c = self.val(fr, a[0])
                tgt = self.do_switch(st, c, a)
                self.jump(st, fr, tgt)
                return None
            elif op == 'alloca':
                if a[1] is not None:
                    cnt = self.val(fr, a[1])
                    sz = a[0] * self.concretize(st, cnt)
                else:
                    sz = a[0]
                o = self.new_obj(st, 'local', sz, '%s:%s' % (fr.f.name[-24:], res), ident=(fr.fid, res, len(fr.allocas)))
                fr.allocas.append(o.id)
                regs[res] = o.base
            elif op == 'extractvalue':
                v = self.val(fr, a[0])
                for i in a[1]:
                    v = v[i]
                regs[res] = v
            elif op == 'insertvalue':
                regs[res] = _ins(self.val(fr, a[0]), a[2], self.val(fr, a[1]))
            elif op == 'freeze':
                regs[res] = self.val(fr, a)
            elif op == 'unreachable':
                raise PathEnd('trap', 'unreachable code reached in %s' % fr.f.name)
            elif op == 'landingpad':
                regs[res] = (t.fresh('exc', 64), t.fresh('excsel', 32))
            elif op == 'resume':
                return self.unwind(st)
            else:
                raise Limit('unsupported instruction %r' % (a,))
            fr.ix += 1

    def is_control(self, c):
        """conditions over lengths rather than over message bytes"""
        for x in t.topo([c]):
            if x.op == 'M' or (x.op == 's' and x.w == 8):
                return False
        return True

    def branch(self, st, c):
        d = st.facts.decide(c)
        if d is not None:
            return d
        for x in t.topo([c]):
            if x.op == 's' and isinstance(x.d, str) and (x.d.startswith('uninit') or x.d.startswith('undef')):
                if self.strict_uninit:
                    raise PathEnd('trap', 'branch on an uninitialised value (%s)' % x.d)
        raise Split([[(c, 1)], [(c, 0)]])

    def do_switch(self, st, c, a):
        dflt, cases = a[1], a[2]
        if c.op == 'c':
            for v, b in cases:
                if v & t.full(c.w) == c.d:
                    return b
            return dflt
        conds = []
        for v, b in cases:
            e = t.eq(c, t.const(v, c.w))
            d = st.facts.decide(e)
            if d == 1:
                return b
            if d is None:
                conds.append((e, b))
        if not conds:
            return dflt
        alts = []
        for e, b in conds:
            alts.append([(e, 1)])
        alts.append([(e, 0) for e, b in conds])
        raise Split(alts)

    def jump(self, st, fr, blk):
        blocks, headers = self.prep(fr.f)
        insts = blocks[blk]
        old = fr.blk
        # phis evaluated simultaneously
        i = 0
        news = []
        while i < len(insts) and insts[i][0] == 'phi':
            op, res, a = insts[i]
            news.append((res, self.val(fr, a[1][old])))
            i += 1
        back = False
        for r, v in news:
            fr.regs[r] = v
        fr.prev = old
        fr.blk = blk
        fr.ix = i
        if blk in headers:
            self.at_header(st, fr, blk, old)
        elif self.n['insts'] > self.max_steps:
            raise Limit('step budget')

    def at_header(self, st, fr, blk, old):
        cnt = fr.regs.get('#' + blk, 0) + 1
        fr.regs['#' + blk] = cnt
        if cnt > self.loop_cap:
            raise Limit('loop unrolled %d times without an invariant in %s' % (cnt, fr.f.name))
        if self.deadline and cnt % 64 == 0 and time.time() > self.deadline:
            raise Limit('time budget')
        if self.cutter is not None:
            self.cutter(self, st, fr, blk)

    def do_ret(self, st, fr, v):
        for oid in fr.allocas:
            st.mem.pop(oid, None)
        st.frames.pop()
        if fr.post:
            v = fr.post(self, st, v)
        if not st.frames:
            return Outcome('ret', st, v)
        up = st.frames[-1]
        if fr.res is not None:
            up.regs[fr.res] = v
        if fr.inv:
            self.jump(st, up, fr.inv[0])
        else:
            up.ix += 1
        return None

    def unwind(self, st):
        while st.frames:
            fr = st.frames.pop()
            for oid in fr.allocas:
                st.mem.pop(oid, None)
            if fr.inv and st.frames:
                self.jump(st, st.frames[-1], fr.inv[1])
                return None
        return Outcome('throw', st, None, str(st.exc))

    def throw(self, st, what, fr=None, a=None, op=None):
        """an exception leaves a call made by the current frame"""
        st.exc = what
        fr = st.frames[-1]
        if op == 'invoke':
            self.jump(st, fr, a[4])
            return True
        r = self.unwind_from(st)
        return True if r is None else r

    def unwind_from(self, st):
        return self.unwind(st)

    def do_load(self, st, ty, p):
        if ty == 'ptr':
            return self.load(st, p, 8)
        if ty[0] == 'i':
            w = ty[1]
            n = (w + 7) // 8
            x = self.load(st, p, n)
            return x if x.w == w else t.trunc(x, w)
        if ty[0] in ('st', 'arr'):
            if ty[0] == 'arr':
                es = self.m.size(ty[2])
                return tuple(self.do_load(st, self.m.rt(ty[2]), t.add(p, t.const(i * es, 64))) for i in range(ty[1]))
            offs, _ = self.m.layout(ty)
            return tuple(self.do_load(st, self.m.rt(e), t.add(p, t.const(o, 64))) for e, o in zip(ty[1], offs))
        raise Limit('load of %r' % (ty,))

    def do_store(self, st, ty, v, p):
        if v.__class__ is tuple:
            if ty[0] == 'arr':
                es = self.m.size(ty[2])
                for i, x in enumerate(v):
                    self.do_store(st, self.m.rt(ty[2]), x, t.add(p, t.const(i * es, 64)))
                return
            if ty[0] == 'st':
                offs, _ = self.m.layout(ty)
                for e, o, x in zip(ty[1], offs, v):
                    self.do_store(st, self.m.rt(e), x, t.add(p, t.const(o, 64)))
                return
            raise Limit('store of %r' % (ty,))
        if v.w % 8:
            v = t.zext(v, (v.w + 7) // 8 * 8)
        self.store(st, p, v)

    def do_call(self, st, fr, op, res, a):
        fn = a[1]
        args = [self.val(fr, x) for x in a[2]]
        if fn.__class__ is not str or fn[0] != '@':
            p = self.val(fr, fn)
            if p.op == 'ite':
                d = self.branch(st, p.a[0])
                p = p.a[1] if d else p.a[2]
            fn = self.addr_fn.get(p)
            if fn is None:
                raise Limit('indirect call through %s' % t.show(p))
        self.n['calls'] += 1
        for h in self.hooks:
            r = h(self, st, fn, args)
            if r is not None:
                if res is not None:
                    fr.regs[res] = r[0]
                return None
        if fn in TRAPS:
            if fn == '@llvm.ubsantrap':
                raise PathEnd('trap', 'undefined behaviour trap (kind %s) in %s' % (args[0].d if args else '?', fr.f.name))
            raise PathEnd('trap', '%s called in %s' % (fn[1:], fr.f.name))
        ex = self.externs.get(fn)
        if ex is None and fn not in self.m.funcs:
            ex = self.extern_match(fn)
        if ex is not None:
            r = ex(self, st, args, fr, a, op)
            if r is True or isinstance(r, Outcome):
                return r
            if res is not None:
                fr.regs[res] = r
            return None
        f = self.m.funcs.get(fn)
        if f is None:
            raise Limit('call of external %s without contract' % fn)
        self.push(st, f, args, res, (a[3], a[4]) if op == 'invoke' else None)
        return True

    def extern_match(self, fn):
        for pre, h in self.extern_prefix:
            if fn.startswith(pre):
                return h
        return None


def _ins(agg, idx, v):
    if len(idx) == 1:
        return agg[:idx[0]] + (v,) + agg[idx[0] + 1:]
    return agg[:idx[0]] + (_ins(agg[idx[0]], idx[1:], v),) + agg[idx[0] + 1:]
