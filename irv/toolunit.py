"""Contract of the checksum tool: main() of checksum.cpp, for every file content
and every algorithm name.

The hash functions it calls are used through their contracts (C01 to C05): a
call of update() on an object whose message is m makes it m + the bytes given,
final() gives the digest of the message.  The state of an object is opaque in
between, so it can be copied and moved, and nothing but the contract is used.
Everything else (mapping of the file, choice by name, rendering) is executed."""
import os
import re
import subprocess
from . import terms as t
from . import facts
from . import build
from . import canon
from . import harness as hs
from .execu import Limit, PathEnd
from .valunit import Unit
from .renderunit import text_of

SIZES = (32, 64, 128, 256, 512, 1024, 2048)
NAMES = {}
for _n in (224, 256, 384, 512):
    NAMES['sha-%d' % _n] = ('sha%d' % _n, _n // 8)
    NAMES['sha3-%d' % _n] = ('sha3_%d' % _n, _n // 8)
for _n in (224, 256):
    NAMES['sha-512/%d' % _n] = ('sha512_%d' % _n, _n // 8)
for _w in (128, 256):
    for _n in SIZES:
        NAMES['shake-%d/%d' % (_w, _n)] = ('shake%d' % _w, _n // 8)
NAMES['xxhash32'] = ('xx32', 4)
NAMES['xxhash64'] = ('xx64', 8)

UPDATE = re.compile(r'^@_ZN6cthash\d+(?:internal_hasher|basic_keccak_hasher|hasher|keccak_hasher|xxhash)I(.*?)EE?(?:28update_to_buffer_and_process|6update)I')
FINAL = re.compile(r'^@_ZNK?6cthash\d+(?:internal_hasher|basic_keccak_hasher|keccak_hasher|xxhash)I(.*?)EE?(?:8finalize|17write_result_into|5final)(?:I|E|S)')


def hashes():
    H = dict(hs.HASHES)
    for n in (224, 256):
        H['sha512_%d' % n] = hs.sha512t(n)
    return H


def tu(text):
    s = text + '\n#include <new>\n#include <span>\n#include <cstddef>\n'
    for h in hashes().values():
        k = dict(id=h.id, T=h.type)
        s += hs.sub('''extern "C" {
void vt_new_@id@(void * p) { new (p) @T@{}; }
unsigned long vt_size_@id@() { return sizeof(@T@); }
void vt_update_@id@(@T@ * h, const std::byte * p, size_t n) { h->update(std::span<const std::byte>(p, n)); }
''', **k)
        if h.shake:
            for n in SIZES:
                s += hs.sub('void vt_final_@id@_@n@(@T@ * h, void * o) { using V = decltype(h->final<@n@>()); new (o) V(h->final<@n@>()); }\n', n=n, **k)
        else:
            s += hs.sub('void vt_final_@id@(@T@ * h, void * o) { using V = decltype(h->final()); new (o) V(h->final()); }\n', **k)
        s += '}\n'
    return s


def read_source():
    with open(os.path.join(build.REPO, 'checksum.cpp'), encoding='utf-8') as f:
        return f.read()


class Tool:
    def __init__(self, U, H):
        self.U, self.M, self.H = U, U.M, H
        self.msgs, self.num = [], {}
        self.cls = {}           # class text in mangled names -> hash id
        self.size = {}
        self.fresh = {}
        self.called = set()
        for i in H:
            fn = U.M.m.funcs.get('@vt_update_' + i)
            M = U.M
            st = M.new_state()
            r = [o for o in M.run(st, '@vt_size_' + i, [])]
            self.size[i] = r[0].val.d
            st = M.new_state()
            o = M.new_obj(st, 'arg', self.size[i], 'obj')
            for r in M.run(st, '@vt_new_' + i, [o.base]):
                if r.kind != 'ret':
                    raise Limit('constructor of %s' % i)
                c = r.state.mem[o.id].cells
                self.fresh[i] = {k: self.byte(c[k]) for k in c}
        idx = canon.index(U.text)
        for i in H:
            for f in reach(idx, '@vt_update_' + i):
                m = UPDATE.match(f)
                if m:
                    self.cls.setdefault(m.group(1), i)
        M.hooks.append(self.hook)

    @staticmethod
    def byte(c):
        x, k = c
        return t.ext(x, 8 * k, 8) if x.w > 8 else x

    def msg(self, hid, pieces, done=False):
        k = (hid, pieces, done)
        n = self.num.get(k)
        if n is None:
            n = self.num[k] = len(self.msgs)
            self.msgs.append(k)
        return n

    def state_of(self, st, p, hid):
        """(object, offset, message) of the hasher at p"""
        M = self.M
        o, off = M.resolve(st, p)
        if off.op != 'c':
            raise Limit('hasher at a symbolic address')
        n = self.size[hid]
        cells = o.cells
        if all(k in f for f in (self.fresh[hid],) for k in f) and all(off.d + k in cells and self.byte(cells[off.d + k]) is x for k, x in self.fresh[hid].items()):
            return o, off.d, (hid, (), False)
        found = None
        for k in range(n):
            c = cells.get(off.d + k)
            if c is None:
                continue
            x = self.byte(c)
            m = re.match(r'^state(\d+)\[(\d+)\]$', str(x.d)) if x.op == 's' else None
            if not m or int(m.group(2)) != k or (found is not None and found != int(m.group(1))):
                raise Limit('state of a hasher that is neither constructed nor updated: byte %d is %s' % (k, t.show(x)[:60]))
            found = int(m.group(1))
        if found is None:
            raise Limit('state of a hasher without contents')
        return o, off.d, self.msgs[found]

    def put(self, st, o, off, n, name):
        o = st.wobj(o.id)
        for k in range(n):
            o.cells[off + k] = (t.sym('%s[%d]' % (name, k), 8), 0)

    def hook(self, M, st, fn, args):
        m = UPDATE.match(fn)
        if m:
            hid = self.cls.get(m.group(1))
            if hid is None or len(args) < 3:
                raise Limit('update of an unknown hash: %s' % fn)
            self.called.add((hid, fn))
            o, off, (h0, pieces, done) = self.state_of(st, args[0], hid)
            if done or h0 != hid:
                raise PathEnd('trap', 'update of a finished or foreign object')
            n = args[2]
            lo, hi = st.facts.rng(n)
            if hi > 0:
                if pieces and t.add(pieces[-1][0], pieces[-1][1]) is args[1]:
                    pieces = pieces[:-1] + ((pieces[-1][0], t.add(pieces[-1][1], n)),)
                else:
                    pieces = pieces + ((args[1], n),)
            self.put(st, o, off, self.size[hid], 'state%d' % self.msg(hid, pieces))
            return (args[0],)
        m = FINAL.match(fn)
        if m:
            hid = self.cls.get(m.group(1))
            if hid is None:
                raise Limit('final of an unknown hash: %s' % fn)
            self.called.add((hid, fn))
            return self.final(M, st, fn, args, hid)
        return None

    def final(self, M, st, fn, args, hid):
        h = self.H[hid]
        f = M.m.funcs.get(fn)
        void = f is None or M.m.rt(f.ret) == 'void'
        part = re.search(r'8finalize|17write_result_into', fn)
        nb = h.digest
        if h.shake:
            k = re.search(r'5finalILm(\d+)E', fn)
            if not k:
                raise Limit('final of %s: %s' % (hid, fn))
            nb = int(k.group(1)) // 8
        if part and part.group(0) == '8finalize':
            o, off, (h0, pieces, done) = self.state_of(st, args[0], hid)
            if done or h0 != hid:
                raise PathEnd('trap', 'second final of one object')
            self.put(st, o, off, self.size[hid], 'state%d' % self.msg(hid, pieces, True))
            return (None,)
        this, out = args[0], None
        if void:
            if len(args) != 2:
                raise Limit('final of %s with %d arguments' % (hid, len(args)))
            sret = not part and f is not None and self.is_sret(fn)
            this, out = (args[1], args[0]) if sret else (args[0], args[1])
        o, off, (h0, pieces, done) = self.state_of(st, this, hid)
        if h0 != hid or bool(part) != done:
            raise PathEnd('trap', 'digest of a foreign or unfinished object')
        D = [t.sym(self.digest_name(hid, pieces, i), 8) for i in range(nb)]
        if not done and not (h.kind == 'xx'):
            self.put(st, o, off, self.size[hid], 'state%d' % self.msg(hid, pieces, True))
        if out is not None:
            oo, of = M.resolve(st, out)
            M.check_bounds(st, oo, of, nb, True)
            if of.op != 'c':
                raise Limit('digest at a symbolic address')
            oo = st.wobj(oo.id)
            for i, x in enumerate(D):
                oo.cells[of.d + i] = (x, 0)
            return (None,)
        x = t.cat(D[::-1])
        rt = M.m.rt(f.ret)
        if rt[0] != 'i':
            if nb != 16:
                raise Limit('returned digest of %d bytes' % nb)
            return ((t.cat(D[7::-1]), t.cat(D[:7:-1])),)
        w = M.width(f.ret)
        if w != x.w:
            raise Limit('returned digest of %d bits as %d' % (x.w, w))
        return (x,)

    def is_sret(self, fn):
        return fn in self.U.sret

    def digest_name(self, hid, pieces, i):
        return 'digest %s of %d [%d]' % (hid, self.msg(hid, pieces, True), i)


def reach(idx, fn):
    seen, todo = set(), [fn]
    while todo:
        x = todo.pop()
        if x in seen or x not in idx:
            continue
        seen.add(x)
        todo += canon.NAME.findall(idx[x])
    return seen


def externs(T, st0=None):
    """models of the system and stream functions main() calls"""
    M = T.M
    E = M.externs

    def stream(x):
        for n in ('@_ZSt4cout', '@_ZSt4cerr', '@_ZSt4clog'):
            if n in M.m.globals and M.global_base(n) is x:
                return n[6:]
        raise Limit('output to another stream: %s' % t.show(x))

    def emit(st, s, xs):
        if stream(s) == 'cout':
            st.ghost['out'] = st.ghost.get('out', ()) + tuple(xs)

    def ch(M, st, args, fr, a, op):
        emit(st, args[0], [t.trunc(args[1], 8) if args[1].w > 8 else args[1]])
        return args[0]
    E['@_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c'] = ch
    E['@_ZNSo3putEc'] = ch

    def cstr(M, st, args, fr, a, op):
        if stream(args[0]) != 'cout':
            return args[0]
        i = 0
        xs = []
        while True:
            x = M.load(st, t.add(args[1], t.const(i, 64)), 1)
            if x.op != 'c':
                raise Limit('output of a symbolic text')
            if x.d == 0:
                break
            xs.append(x)
            i += 1
        emit(st, args[0], xs)
        return args[0]
    E['@_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc'] = cstr

    def chn(M, st, args, fr, a, op):
        if stream(args[0]) != 'cout':
            return args[0]
        n = M.concretize(st, args[2], 4096)
        emit(st, args[0], [M.load(st, t.add(args[1], t.const(i, 64)), 1) for i in range(n)])
        return args[0]
    E['@_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l'] = chn
    E['@_ZNSo5writeEPKcl'] = chn

    def endl(M, st, args, fr, a, op):
        emit(st, args[0], [t.const(10, 8)])
        return args[0]
    E['@_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_'] = endl
    E['@_ZNSo5flushEv'] = lambda M, st, args, fr, a, op: args[0]
    E['@_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_'] = E['@_ZNSo5flushEv']

    def number(M, st, args, fr, a, op):
        if stream(args[0]) == 'cout':
            st.ghost['out'] = st.ghost.get('out', ()) + (t.fresh('digits of a number', 8),)
        return args[0]
    M.extern_prefix.insert(0, ('@_ZNSo9_M_insertI', number))
    for k in 'ijlmxyst':
        E['@_ZNSolsE' + k] = number

    def now(M, st, args, fr, a, op):
        x = t.fresh('time', 64)
        st.facts.set_range(x, 0, 1 << 62)
        return x
    M.extern_prefix.insert(0, ('@_ZNSt6chrono3_V2', now))

    def strlen(M, st, args, fr, a, op):
        n = st.ghost.get('len:' + args[0].d) if args[0].op == 's' else None
        if n is None:
            raise Limit('length of the text at %s' % t.show(args[0]))
        return n
    E['@strlen'] = strlen

    def op_open(M, st, args, fr, a, op):
        if args[0] is not st.ghost['path']:
            raise PathEnd('trap', 'opens another file than its second argument')
        if args[1].op != 'c':
            raise Limit('flags of open')
        if args[1].d & 3 != 0 or args[1].d & 0o1200 & ~0o100000 and args[1].d & 0o1000:
            raise PathEnd('trap', 'opens the file for writing')
        if not M.branch(st, T.opens):
            st.ghost['unreadable'] = True
            return t.const(0xffffffff, 32)
        st.ghost['open'] = True
        return T.fd
    E['@open'] = op_open
    E['@open64'] = op_open

    def is_fd(st, x):
        if x is T.fd and st.ghost.get('open'):
            return True
        if x.op == 'c' and x.d >> 31:
            return False
        raise Limit('operation on descriptor %s' % t.show(x))

    def lseek(M, st, args, fr, a, op):
        off, wh = args[1], args[2]
        if not is_fd(st, args[0]):
            return t.const(-1, 64)
        if wh.op == 'c' and wh.d == 2 and off.op == 'c' and off.d == 0:
            if not M.branch(st, T.seeks):
                st.ghost['unreadable'] = True
                return t.const(-1, 64)
            st.ghost['pos'] = 'end'
            return T.sz
        if wh.op == 'c' and wh.d == 0 and off.op == 'c' and off.d == 0:
            return off
        raise Limit('lseek')
    E['@lseek'] = lseek
    E['@lseek64'] = lseek

    def mmap(M, st, args, fr, a, op):
        _, n, prot, flags, fd, off = args
        bad = t.const(-1, 64)
        if prot.op != 'c' or flags.op != 'c':
            raise Limit('mmap')
        if not is_fd(st, fd):
            if flags.d & 0x20:
                raise Limit('anonymous mmap')
            return bad
        if flags.d & 0x20 or not prot.d & 1 or prot.d & 2 and flags.d & 15 == 1:
            raise Limit('mmap with protection %d and flags %d' % (prot.d, flags.d))
        if off.op != 'c' or off.d % 4096:
            raise Limit('mmap offset')
        d = M.branch(st, t.eq0(n)) if st.facts.decide_fast(t.eq0(n)) is None else st.facts.decide_fast(t.eq0(n))
        if d:
            return bad
        lo, hi = st.facts.rng(n)
        if lo >= 1 << 61:
            return bad          # larger than any address space
        if not M.branch(st, T.maps):
            st.ghost['unreadable'] = True
            return bad
        if off.d:
            raise PathEnd('trap', 'maps the file from offset %d' % off.d)
        return T.file(st).base
    E['@mmap'] = mmap
    E['@mmap64'] = mmap
    E['@munmap'] = lambda M, st, args, fr, a, op: t.const(0, 32)
    E['@madvise'] = E['@posix_madvise'] = E['@munmap']

    def close(M, st, args, fr, a, op):
        return t.const(0, 32)
    E['@close'] = close

    def fstat(M, st, args, fr, a, op):
        if not is_fd(st, args[0]):
            return t.const(0xffffffff, 32)
        o, off = M.resolve(st, args[1])
        M.check_bounds(st, o, off, 144, True)
        for k in range(144):
            M.store(st, t.add(args[1], t.const(k, 64)), t.fresh('stat', 8))
        M.store(st, t.add(args[1], t.const(24, 64)), t.or_(t.const(0o100000, 32), t.zext(t.fresh('mode', 9), 32)))
        M.store(st, t.add(args[1], t.const(48, 64)), T.sz)
        return t.const(0, 32)
    E['@fstat'] = E['@fstat64'] = fstat


def setup(T, text, name=None, length=None):
    """state at the entry of main; name: concrete text, or bytes of a symbolic
    text of the given length"""
    M = T.M
    st = M.new_state()
    T.opens, T.seeks, T.maps = (t.sym(x, 1) for x in ('the file can be opened', 'the file has a size', 'the file can be mapped'))
    T.sz = t.sym('size of the file', 64)
    st.facts.set_range(T.sz, 0, (1 << 61) - 1)
    T.fd = t.sym('descriptor', 32)
    st.facts.set_range(T.fd, 0, (1 << 31) - 1)

    def file(s):
        # the content of the file is not looked at by main() itself
        o = M.new_obj(s, 'lazy', 1 << 61, 'file', ident=('file',))
        o.writable = False

        def init(i):
            raise Limit('reads the mapped file')
        o.init = init
        return o
    T.file = file
    a1 = M.new_obj(st, 'arg', (len(name) + 1) if name is not None else 1 << 50, 'argv1', ident=('argv1', name, length is None))
    a1.writable = False
    xs = None
    if name is not None:
        for k, c in enumerate(name.encode() + b'\0'):
            a1.cells[k] = (t.const(c, 8), 0)
        ln = t.const(len(name), 64)
    else:
        if isinstance(length, int):
            xs = [t.sym('name[%d]' % k, 8) for k in range(length)]
            for k, x in enumerate(xs):
                a1.cells[k] = (x, 0)
                st.facts.set_range(x, 1, 255)
            a1.cells[length] = (t.const(0, 8), 0)
            ln = t.const(length, 64)
        else:
            ln = t.sym('length of the name', 64)
            st.facts.set_range(ln, length[0], (1 << 50) - 2)
    st.ghost['len:' + a1.base.d] = ln
    a0 = M.new_obj(st, 'arg', 4096, 'argv0', ident=('argv0',))
    a2 = M.new_obj(st, 'arg', 4096, 'argv2', ident=('argv2',))
    st.ghost['path'] = a2.base
    av = M.new_obj(st, 'arg', 32, 'argv', ident=('argv',))
    for k, p in enumerate([a0.base, a1.base, a2.base, t.const(0, 64)]):
        for j in range(8):
            av.cells[8 * k + j] = (p, j)
    argc = t.sym('argc', 32)
    st.facts.set_range(argc, 3, (1 << 31) - 1)
    return st, [argc, av.base], xs


def outs(r):
    return r.state.ghost.get('out', ())


def prove_name(T, name):
    hid, nb = NAMES[name]
    U, M = T.U, T.M
    st, args, _ = setup(T, None, name)
    ok = 0
    want = None
    for r in U.run(name, '@main', lambda: (st, args)):
        f = r.state.facts
        got = outs(r)
        lab = '%s: ' % name
        rv = r.val
        zero = f.decide(t.eq0(rv)) if rv.op != 'c' else rv.d == 0
        empty = f.rng(T.sz)[1] == 0 or f.decide_fast(t.eq0(T.sz)) is True
        if r.state.ghost.get('unreadable'):
            U.ob(lab + 'unreadable file: error and no digest', len(got) == 0 and zero is False, '%d characters, status %s' % (len(got), t.show(rv)))
            continue
        base = T.file(r.state).base
        pieces = () if empty else ((base, T.sz),)
        D = [t.sym(T.digest_name(hid, pieces, i), 8) for i in range(nb)]
        exp = text_of(D, 'base16', 8) + [t.const(10, 8)]
        k = len(U.obls)
        what = lab + ('digest of the empty file' if empty else 'digest of the file')
        if len(got) != len(exp):
            U.ob(what, False, '%d characters, required %d' % (len(got), len(exp)))
        else:
            bad = False
            for i, (g, e) in enumerate(zip(got, exp)):
                if g is not e:
                    U.same('%s, character %d' % (what, i), r.state, g, e)
                    if U.obls[-1].ok is not True:
                        bad = True
                        break
                    U.obls.pop()
            if not bad:
                U.ob(what + ': all %d characters and the end of line' % (len(exp) - 1), True)
        U.ob(what + ': status 0', bool(zero), t.show(rv))
        ok += 1
    U.ob(name + ': a path for the empty and for the other files', ok >= 2, '%d paths' % ok)


def prove_unknown(T, length):
    U = T.U
    st, args, xs = setup(T, None, None, length)
    if xs is not None:
        for n in NAMES:
            if len(n) != len(xs):
                continue
            same = t.true()
            for x, c in reversed(list(zip(xs, n.encode()))):
                same = t.and_(same, t.eq(x, t.const(c, 8)))
            st.facts.assume(same, 0)
    what = 'names of %s characters that are not accepted' % (length if xs is not None else '%d and more' % length[0])
    for r in U.run(what, '@main', lambda: (st, args)):
        got = outs(r)
        z = r.state.facts.decide(t.eq0(r.val)) if r.val.op != 'c' else r.val.d == 0
        U.ob('%s: error and no digest' % what, len(got) == 0 and z is False, '%d characters, status %s' % (len(got), t.show(r.val)), U.model(r.state) if got else None)


def sret_funcs(text):
    return set(re.findall(r'^define [^\n@]*?(@[^\s(]+|@"[^"]+")\(ptr [^,\n]*sret\(', text, re.M))


def module(part, text, src):
    U = Unit('tool', text)
    U.text = text
    U.sret = sret_funcs(text)
    T = Tool(U, hashes())
    externs(T)
    fs = {}
    for p in part:
        if isinstance(p, str):
            U.guarded('checksum ' + p, prove_name, T, p)
        else:
            U.guarded('checksum, other names', prove_unknown, T, p)
    fs['main(int, char **) of checksum.cpp'] = 'prints the digest named by its first argument of the whole file, or reports an error and prints no digest'
    for hid, fn in sorted(T.called):
        fs.setdefault('%s (%s)' % (fn, hid), 'contract used (proved by the checks of C01 to C05)')
    return U.obls, U.paths, fs


def tasks(text):
    work = sorted(NAMES, key=lambda n: -NAMES[n][1]) + list(range(0, 17)) + [(17,)]
    return [('checksum %d' % i, module, (work[i::16], text, None)) for i in range(16)]


def tie(hid, text):
    """the functions used under contract are the code whose contracts are
    proved by the check of the hash"""
    from .harness import PRE
    h = hashes()[hid]
    idx = canon.index(text)
    call = ''
    for n in SIZES if h.shake else ('',):
        for k in 'ab':
            call += hs.sub('extern "C" void vt_final_@id@_@n@@k@(@T@ * h, void * o) { using V = decltype(h->final@N@()); new (o) V(h->final@N@()); }\n', n=n, N='<%d>' % n if n else '', k=k, id=h.id, T=h.type)
    if h.kind == 'xx':
        call += hs.sub('#include <utility>\nusing P_@id@ = decltype(std::declval<const @T@ &>().final()) (@T@::*)() const; P_@id@ vt_addr_@id@() { return &@T@::final; }\n', id=h.id, T=h.type)
    ref = canon.index(build.compile_ir('toolref-' + hid, PRE + h.tu() + call))
    eq = canon.Equiv({'tool': idx, 'ref': ref})
    used = reach(idx, '@main')
    mine = {m.group(1) for f in reach(idx, '@vt_update_' + hid) for m in [UPDATE.match(f)] if m}
    from .hashunit import Obl
    obls = []
    for f in sorted(used):
        m = UPDATE.match(f) or FINAL.match(f)
        if not m or m.group(1) not in mine:
            continue
        ok = eq.same(('tool', f), ('ref', f))
        obls.append(Obl('%s is the code proved for %s' % (f, hid), True if ok else None, '' if ok else 'differs from the separately extracted function'))
    if not obls:
        obls.append(Obl('functions of %s used by the tool' % hid, None, 'none found'))
    return obls, 0, {}


# ------------------------------------------------------------------ battery
LENGTHS = [0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 55, 56, 57, 63, 64, 65, 71, 72, 73, 103, 104, 105, 111, 112, 113, 119, 127, 128, 129, 135, 136, 137,
           143, 144, 145, 167, 168, 169, 191, 255, 256, 257, 300, 335, 336, 337, 1000, 4095, 4096, 4097, 8191, 65537]


def digest(name, data):
    import hashlib
    from . import specs
    hid, nb = NAMES[name]
    if hid.startswith('xx'):
        w = int(hid[2:])
        return specs.xx_concrete(w, data).to_bytes(nb, 'big')
    if hid.startswith('shake'):
        return getattr(hashlib, hid[:5] + '_' + hid[5:])(data).digest(nb)
    if hid in ('sha512_224', 'sha512_256'):
        try:
            return hashlib.new(hid, data).digest()
        except ValueError:
            return specs.sha2_concrete(64, specs.sha512t_iv(nb * 8), data, nb)
    return getattr(hashlib, hid)(data).digest()


def contents(n, seed):
    import random
    if n == 0:
        return b''
    r = random.Random(seed * 1000003 + n)
    if n % 3 == 0:
        return bytes([0xff]) * n
    return r.randbytes(n)


def battery(seed, big=(), names=(), sparse=False):
    """-> (Found or None, number of runs)"""
    import tempfile
    from concurrent.futures import ThreadPoolExecutor
    from . import replay
    exe = build.compile_exe('checksum', read_source())
    d = os.path.join(build.workdir(), 'files')
    os.makedirs(d, exist_ok=True)
    files = {}
    for n in LENGTHS + list(big):
        p = os.path.join(d, 'f%d' % n)
        with open(p, 'wb') as f:
            f.write(contents(n, seed))
        files[n] = p
    jobs = []
    for name in sorted(NAMES):
        for n in LENGTHS + [b for b in big if not name.startswith('xx') or b <= 1 << 17]:
            jobs.append((name, n, files[n]))
    wrong = {'', 'sha', 'sha-', 'sha-1', 'sha-512/223', 'sha-512/384', 'shake-128', 'shake-256/', 'shake-128/0', 'shake-128/16', 'sha3-128', 'md5', 'xxhash', 'xxhash3', 'xxhash128', 'unknown'}
    for n in NAMES:
        wrong |= {n + '0', n + ' ', n[:-1], n[1:], n.upper(), n + 'x', ' ' + n, n.replace('-', ''), n.replace('/', '-'), n[:-1] + chr(ord(n[-1]) ^ 1), n + '\xff', n[:3]}
    wrong |= {os.fsdecode(x) for x in names}
    wrong -= set(NAMES)
    for w in sorted(wrong):
        jobs.append((w, 64, files[64]))
        jobs.append((w, 0, files[0]))
    missing = os.path.join(d, 'missing')
    for name in sorted(NAMES):
        jobs.append((name, None, missing))
        jobs.append((name, None, d))

    def one(j):
        name, n, path = j
        try:
            p = subprocess.run([exe, name, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return replay.Found('FAIL checksum %r of %s does not end' % (name, path), 'checksum %s FILE' % name)
        what = 'a file of %d bytes' % n if n is not None else 'a missing file' if path == missing else 'a directory'
        cmd = "checksum '%s' FILE    (FILE: %s%s)" % (name, what, '' if n is None else ', contents irv.toolunit.contents(%d, %d)' % (n, seed))
        if name in NAMES and n is not None:
            exp = digest(name, contents(n, seed)).hex().encode() + b'\n'
            if p.stdout != exp or p.returncode:
                return replay.Found('FAIL %s of %s: printed %r, status %d, required %r, status 0' % (name, what, p.stdout[:200], p.returncode, exp[:200]), cmd)
        elif p.stdout or p.returncode <= 0:
            return replay.Found('FAIL %r of %s: printed %r, status %d, required an error and no digest' % (name, what, p.stdout[:200], p.returncode), cmd)
        return None
    done = 0
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, jobs):
            if r is not None:
                return r, done
            done += 1
    if sparse:
        # 4 GiB and 5 bytes, all zero but the last
        n = (1 << 32) + 5
        p = os.path.join(d, 'sparse')
        with open(p, 'wb') as f:
            f.seek(n - 1)
            f.write(b'\1')
        import hashlib
        h = hashlib.sha256()
        z = bytes(1 << 24)
        for _ in range(256):
            h.update(z)
        h.update(b'\0\0\0\0\1')
        q = subprocess.run([exe, 'sha-256', p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        os.remove(p)
        if q.stdout.decode() != h.hexdigest() + '\n':
            return replay.Found('FAIL sha-256 of a file of %d bytes: printed %r, required %r' % (n, q.stdout, h.hexdigest()), 'checksum sha-256 FILE   (FILE: %d zero bytes and one byte 1)' % (n - 1)), done
        done += 1
    return None, done
