"""Parser for the textual LLVM IR that clang 18 emits (the subset that occurs)."""
import re

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
 | (?P<word>[a-zA-Z_$][-a-zA-Z$._0-9]*)
 | (?P<md>![a-zA-Z0-9_.]*)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<p>[(){}\[\]<>,=*:|])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t\n':
            pos += 1
            continue
        if c == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise ParseError('token at %r' % s[pos:pos + 40])
        out.append(m.group(0))
        pos = m.end()
    return out


# --- types: ('i',n) | 'ptr' | ('arr',n,t) | ('st',(t..),packed) | ('nm',name) | 'void' | ('vec',n,t)

class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self._sz = {}

    def rt(self, t):
        while isinstance(t, tuple) and t[0] == 'nm':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.rt(t)
        if t == 'ptr':
            return 8
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return min(a, 16)
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'st':
            return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])
        if k == 'f':
            return t[1] // 8
        raise ParseError('align %r' % (t,))

    def size(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._sz[t] = self._size(t)
        return r

    def _size(self, t):
        t = self.rt(t)
        if t == 'ptr':
            return 8
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = self.align(t)
            return (n + a - 1) // a * a
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return (t[1] * self.size(t[2]))
        if k == 'f':
            return t[1] // 8
        if k == 'st':
            return self.layout(t)[1]
        raise ParseError('size %r' % (t,))

    def layout(self, t):
        t = self.rt(t)
        off = 0
        offs = []
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        a = self.align(t)
        return offs, (off + a - 1) // a * a


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'entry', 'attrs', 'nounwind', 'text', 'headers', 'sret', 'order', '_live')

    def __init__(self):
        self.blocks = {}
        self.order = []
        self.headers = None
        self.sret = None
        self._live = None


class I:
    """instruction"""
    __slots__ = ('op', 'res', 'a', 'line')

    def __init__(self, op, res, a, line=None):
        self.op = op
        self.res = res
        self.a = a
        self.line = line

    def __repr__(self):
        return '%s = %s %r' % (self.res, self.op, self.a)


PATTR = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'noalias', 'zeroext', 'signext', 'returned', 'immarg', 'readnone',
         'writable', 'dead_on_unwind', 'nofree', 'nest', 'inreg', 'swiftself', 'allocptr', 'allocalign', 'dead_on_return', 'initializes'}
PATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'range', 'elementtype', 'preallocated', 'inalloca', 'nofpclass', 'captures'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'nneg', 'disjoint', 'tail', 'notail', 'musttail', 'volatile', 'fastcc', 'ccc', 'coldcc',
         'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'samesign', 'nusw', 'inrange'}


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ParseError('expected %r got %r in %r' % (x, y, self.t))

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = 'ptr'
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif x == 'void':
            t = 'void'
        elif x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x == 'float':
            t = ('f', 32)
        elif x == 'double':
            t = ('f', 64)
        elif x == 'x86_fp80':
            t = ('f', 128)
        elif x == 'half':
            t = ('f', 16)
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                es = []
                while not self.accept('}'):
                    es.append(self.type()); self.accept(',')
                self.expect('>')
                t = ('st', tuple(es), True)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vec', n, e)
        elif x == '{':
            es = []
            while not self.accept('}'):
                es.append(self.type()); self.accept(',')
            t = ('st', tuple(es), False)
        elif x[0] == '%':
            t = ('nm', x)
        elif x in ('metadata', 'label', 'token', 'opaque'):
            t = x
        else:
            raise ParseError('type %r in %r' % (x, self.t))
        while self.peek() == '(' and False:
            pass
        return t

    def skip_attrs(self):
        info = {}
        while True:
            x = self.peek()
            if x in PATTR or x in FLAGS:
                info[x] = True
                self.next()
            elif x in PATTR_ARG:
                self.next()
                if x == 'align' and self.peek() != '(':
                    self.next()
                elif self.peek() == '(':
                    self.next()
                    if x in ('sret', 'byval'):
                        info[x] = self.type()
                    d = 1
                    while d:
                        y = self.next()
                        d += (y == '(') - (y == ')')
            else:
                return info

    def value(self, ty):
        """constant or register of known type"""
        x = self.next()
        if x[0] == '%':
            return ('r', x)
        if x[0] == '@':
            return ('g', x)
        if x == 'null':
            return ('c', 0)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x in ('undef', 'poison'):
            return ('u',)
        if x == 'zeroinitializer':
            return ('z',)
        if x == 'none':
            return ('z',)
        if x[0] in '-0123456789':
            if isinstance(ty, tuple) and ty[0] == 'f':
                return ('fc', x)
            return ('c', int(x))
        if x[0] == 'c' and x[1:2] == '"':
            return ('s', unescape(x[2:-1]))
        if x == '{' or x == '[' or x == '<':
            if x == '<' and self.peek() == '{':
                self.next()
                close = '}'
            else:
                close = {'{': '}', '[': ']', '<': '>'}[x]
            es = []
            while not self.accept(close):
                t = self.type()
                es.append((t, self.value(t)))
                self.accept(',')
            if x == '<' and close == '}':
                self.expect('>')
            return ('agg', es)
        if x == 'getelementptr':
            while self.peek() in FLAGS or self.peek() == 'inrange':
                self.next()
                if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                    while self.next() != ')':
                        pass
            self.expect('(')
            t = self.type()
            self.expect(',')
            bt = self.type()
            b = self.value(bt)
            idx = []
            while self.accept(','):
                while self.peek() in FLAGS:
                    self.next()
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('gep', t, b, idx)
        if x in ('ptrtoint', 'inttoptr', 'trunc', 'bitcast', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', x, t, v, t2)
        if x in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            while self.peek() in FLAGS:
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t = self.type()
            b = self.value(t)
            self.expect(')')
            return ('cbin', x, t, a, b)
        if x == 'icmp':
            pred = self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('ccmp', pred, t, a, b)
        if x == 'blockaddress' or x == 'dso_local_equivalent' or x == 'no_cfi':
            raise ParseError(x)
        raise ParseError('value %r in %r' % (x, ' '.join(self.t)[:200]))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


MD = re.compile(r'(,\s*![a-zA-Z_.]+ !\d+|,\s*!srcloc !\d+|,\s*!dbg !\d+)')
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'}


def parse(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ';!$' or ln.startswith(('source_filename', 'target ', 'attributes ', 'module asm')):
            continue
        if ln[0] == '%':
            toks = tokenize(ln)
            p = P(toks, m)
            name = p.next()
            p.expect('=')
            p.expect('type')
            if p.peek() == 'opaque':
                m.types[name] = ('st', (), False)
            else:
                m.types[name] = p.type()
        elif ln[0] == '@':
            parse_global(m, ln)
        elif ln.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
            m.decls['@' + mm.group(1)] = ln
        elif ln.startswith('define'):
            body = []
            j = i
            while lines[j] != '}':
                body.append(lines[j])
                j += 1
            f = parse_func(m, ln, body)
            f.text = '\n'.join([ln] + body)
            m.funcs[f.name] = f
            i = j + 1
    return m


class Global:
    __slots__ = ('name', 'const', 'ty', 'init', 'ext', 'align')


def parse_global(m, ln):
    mm = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
    name, rest = mm.groups()
    rest = re.sub(r', (align|comdat|section|no_sanitize).*$', '', rest) if not rest.startswith('"') else rest
    g = Global()
    g.name = name
    mm = re.search(r'\b(alias|ifunc)\b', rest)
    toks = tokenize(rest) if True else None
    p = P(toks, m)
    g.ext = False
    while True:
        x = p.peek()
        if x in ('global', 'constant'):
            g.const = x == 'constant'
            p.next()
            break
        if x in ('alias', 'ifunc'):
            p.next()
            p.type()
            p.expect(',')
            p.type()
            m.aliases[name] = p.value('ptr')
            return
        if x in ('external', 'extern_weak'):
            g.ext = True
        p.next()
        if p.peek() == '(':
            while p.next() != ')':
                pass
    g.ty = p.type()
    g.init = None if g.ext else p.value(g.ty)
    m.globals[name] = g


def parse_func(m, head, body):
    f = Func()
    mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', head)
    f.name = '@' + mm.group(1)
    # return type: just before @name
    pre = tokenize(head[6:mm.start()])
    p = P(pre, m)
    while p.i < len(pre):
        x = p.peek()
        if x in ('linkonce_odr', 'weak_odr', 'internal', 'private', 'hidden', 'protected', 'default', 'available_externally', 'external', 'weak', 'linkonce', 'common', 'appending') or x in FLAGS or x in PATTR:
            p.next()
        elif x in PATTR_ARG:
            p.skip_attrs()
        elif x == 'personality':
            break
        else:
            f.ret = p.type()
            break
    # parameters
    toks = tokenize(head[mm.end():])
    p = P(toks, m)
    f.params = []
    k = 0
    while not p.accept(')'):
        if p.accept('...'):
            continue
        t = p.type()
        info = p.skip_attrs()
        if p.peek() and p.peek()[0] == '%':
            nm = p.next()
        else:
            nm = '%' + str(k)
        if 'sret' in info:
            f.sret = (nm, info['sret'])
        f.params.append((t, nm, info))
        k += 1
        p.accept(',')
    # body
    joined = []
    j = 0
    while j < len(body):
        ln = body[j]
        j += 1
        s = ln.strip()
        if not s or s[0] == ';':
            continue
        if s.startswith('switch') and ']' not in s:
            while True:
                nx = body[j].strip()
                j += 1
                s += ' ' + nx
                if nx.startswith(']'):
                    break
        elif ' invoke ' in ' ' + s:
            if ' unwind label' not in s:
                s += ' ' + body[j].strip()
                j += 1
        elif ' landingpad ' in s:
            while j < len(body) and re.match(r'\s+(cleanup|catch|filter)\b', body[j]):
                s += ' ' + body[j].strip()
                j += 1
        joined.append((s, ln[0] != ' '))
    cur = None
    for s, is_label in joined:
        if is_label:
            mm = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            cur = '%' + mm.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            # entry label: number after parameters, unless named
            nums = [int(nm[1:]) for _, nm, _ in f.params if nm[1:].isdigit()]
            cur = '%' + str(len(f.params) if nums or not f.params else 0)
            f.blocks[cur] = []
            f.order.append(cur)
        s = MD.sub('', s)
        ins = parse_inst(m, s)
        if ins is not None:
            f.blocks[cur].append(ins)
    f.entry = f.order[0]
    return f


def parse_inst(m, s):
    toks = tokenize(s)
    p = P(toks, m)
    res = None
    if len(toks) > 1 and toks[1] == '=':
        res = p.next()
        p.next()
    while p.peek() in ('tail', 'notail', 'musttail'):
        p.next()
    op = p.next()
    if op in BIN:
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return I('bin', res, (op, t, a, b, fl), s)
    if op in CAST:
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect('to')
        return I('cast', res, (op, t, a, p.type(), fl), s)
    if op == 'icmp':
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return I('icmp', res, (pred, t, a, b), s)
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        inc = {}
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc[b] = v
            if not p.accept(','):
                break
        return I('phi', res, (t, inc), s)
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        ct, c = p.tv()
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        t, b = p.tv()
        return I('select', res, (c, t, a, b, ct), s)
    if op == 'load':
        vol = p.accept('volatile')
        at = p.accept('atomic')
        t = p.type()
        p.expect(',')
        pt, a = p.tv()
        return I('load', res, (t, a), s)
    if op == 'store':
        p.accept('volatile')
        p.accept('atomic')
        t, v = p.tv()
        p.expect(',')
        pt, a = p.tv()
        return I('store', None, (t, v, a), s)
    if op == 'getelementptr':
        while p.peek() in FLAGS or p.peek() == 'inrange':
            p.next()
        t = p.type()
        p.expect(',')
        bt, b = p.tv()
        idx = []
        while p.accept(','):
            idx.append(p.tv())
        return I('gep', res, (t, b, idx, bt), s)
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                cnt = p.tv()
        return I('alloca', res, (t, cnt), s)
    if op in ('call', 'invoke'):
        while p.peek() in FLAGS:
            p.next()
        p.skip_attrs()
        rt = p.type()
        if p.peek() == '(':
            # full function type
            d = 0
            while True:
                x = p.next()
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
        if p.peek() == 'asm':
            raise ParseError('inline asm: ' + s)
        fn = p.value('ptr')
        p.expect('(')
        args = []
        while not p.accept(')'):
            t = p.type()
            if t == 'metadata':
                # metadata argument
                d = 0
                while p.peek() not in (',', ')') or d:
                    x = p.next()
                    d += (x in '({') - (x in ')}')
                args.append((t, ('c', 0)))
            else:
                p.skip_attrs()
                args.append((t, p.value(t)))
            p.accept(',')
        if op == 'call':
            return I('call', res, (rt, fn, args), s)
        while p.peek() != 'to':
            p.next()
        p.expect('to')
        p.expect('label')
        nb = p.next()
        p.expect('unwind')
        p.expect('label')
        ub = p.next()
        return I('invoke', res, (rt, fn, args, nb, ub), s)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return I('br', None, (p.next(),), s)
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        return I('cbr', None, (c, a, p.next()), s)
    if op == 'switch':
        t, v = p.tv()
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            t2 = p.type()
            c = p.value(t2)
            p.expect(',')
            p.expect('label')
            cases.append((c[1], p.next()))
        return I('switch', None, (t, v, d, cases), s)
    if op == 'ret':
        if p.peek() == 'void':
            return I('ret', None, None, s)
        t, v = p.tv()
        return I('ret', None, (t, v), s)
    if op == 'unreachable':
        return I('unreachable', None, None, s)
    if op == 'extractvalue':
        t, v = p.tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        return I('extractvalue', res, (t, v, idx), s)
    if op == 'insertvalue':
        t, v = p.tv()
        p.expect(',')
        t2, v2 = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return I('insertvalue', res, (t, v, t2, v2, idx), s)
    if op == 'landingpad':
        t = p.type()
        return I('landingpad', res, (t, toks[p.i:]), s)
    if op == 'resume':
        t, v = p.tv()
        return I('resume', None, (t, v), s)
    if op == 'freeze':
        t, v = p.tv()
        return I('freeze', res, (t, v), s)
    if op in ('extractelement', 'insertelement', 'shufflevector', 'fence', 'fadd', 'fmul', 'fdiv', 'fcmp', 'fsub', 'uitofp', 'sitofp', 'fptoui', 'fptosi',
              'atomicrmw', 'cmpxchg', 'fneg', 'fpext', 'fptrunc', 'va_arg'):
        return I('unsupported', res, (op,), s)
    raise ParseError('inst %r' % s)


def succs(ins):
    if ins.op == 'br':
        return [ins.a[0]]
    if ins.op == 'cbr':
        return [ins.a[1], ins.a[2]]
    if ins.op == 'switch':
        return [ins.a[2]] + [b for _, b in ins.a[3]]
    if ins.op == 'invoke':
        return [ins.a[3], ins.a[4]]
    return []


def loop_headers(f):
    """targets of back edges (DFS); fine for reducible CFGs"""
    if f.headers is not None:
        return f.headers
    hdr = set()
    color = {}
    st = [(f.entry, iter(succs(f.blocks[f.entry][-1])))]
    color[f.entry] = 1
    while st:
        b, it = st[-1]
        for s in it:
            if color.get(s) == 1:
                hdr.add(s)
            elif s not in color:
                color[s] = 1
                st.append((s, iter(succs(f.blocks[s][-1]))))
                break
        else:
            color[b] = 2
            st.pop()
    f.headers = hdr
    return hdr
