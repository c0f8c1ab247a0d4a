"""Canonical text of the code reachable from one function: two entry points
with the same canonical text are the same program up to names."""
import re

NAME = re.compile(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)|%(?:"[^"]*"|[-a-zA-Z$._][-a-zA-Z$._0-9]*)')


def index(text):
    """raw definitions by name"""
    out = {}
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        ln = lines[i]
        i += 1
        if not ln:
            continue
        if ln[0] in '@%':
            m = NAME.match(ln)
            if m:
                out[m.group(0)] = ln[m.end():]
        elif ln.startswith(('define', 'declare')):
            m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
            body = [ln]
            if ln.startswith('define'):
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
            out[m.group(1)] = clean('\n'.join(body))
    return out


def clean(s):
    s = re.sub(r'\s*;[^\n"]*$', '', s, flags=re.M)
    s = re.sub(r',? ![a-zA-Z._]+ ![0-9]+', '', s)
    s = re.sub(r' #[0-9]+', ' #', s)
    s = re.sub(r' comdat(\([^)]*\))?', '', s)
    return s


def canon(idx, entry):
    num = {}
    order = []

    def name(m):
        x = m.group(0)
        if x not in idx:
            return x            # intrinsic, external or local name
        if x not in num:
            num[x] = len(num)
            order.append(x)
        return x[0] + '<%d>' % num[x]
    num[entry] = 0
    order.append(entry)
    out = []
    k = 0
    while k < len(order):
        d = idx[order[k]]
        k += 1
        if d.startswith('declare'):
            out.append(order[k - 1] + d)
            continue
        out.append(NAME.sub(name, re.sub(r' comdat(\([^)]*\))?', '', d)))
    return '\n'.join(out)


def _calls(body):
    """(plain, [(callee, [last token of each argument])]); plain: nothing but
    calls, stack slots and one return"""
    plain, out = True, []
    for ln in body.split('\n')[1:]:
        ln = ln.strip()
        if not ln:
            continue
        if ln.startswith('ret ') or re.match(r'%\S+ = alloca ', ln):
            continue
        m = re.match(r'(?:%\S+ = )?(?:tail |musttail |notail )?call .*?(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\((.*)\)[^)]*$', ln)
        if not m:
            plain = False
            continue
        out.append((m.group(1), [a.split()[-1] for a in re.sub(r'\([^()]*\)', '', m.group(2)).split(',') if a.strip()]))
    return plain, out


def first_call(idx, fn, arg):
    """the defined function fn calls first, if its only argument is arg"""
    if fn not in idx:
        return None
    _, cs = _calls(idx[fn])
    for f, ar in cs:
        if f.startswith('@llvm.'):
            continue
        return f if ar == [arg] and idx.get(f, '').startswith('define') else None
    return None


def find_callee(idx, fn, ref):
    """a function reachable from fn whose canonical text is ref"""
    seen, todo = {fn}, [fn]
    while todo:
        f = todo.pop(0)
        for m in NAME.finditer(idx[f]):
            x = m.group(0)
            if x[0] == '@' and x not in seen and idx.get(x, '').startswith('define'):
                seen.add(x)
                if canon(idx, x) == ref:
                    return x
                todo.append(x)
    return None


def same_calls(idx, a, b, pa, pb):
    """a makes the calls b makes, on its own output parameter pa instead of a
    stack slot that b copies to its parameter at the end"""
    A, B = idx.get(a), idx.get(b)
    if A is None or B is None:
        return False
    (p1, ca), (p2, cb) = _calls(A), _calls(B)
    if not p1 or not p2:
        return False
    cps = [x for x in cb if x[0].startswith('@llvm.memcpy')]
    if len(cps) != 1 or cps[0][1][0] != pb:
        return False
    slot = cps[0][1][1]
    k = cb.index(cps[0])
    if any(not x[0].startswith('@llvm.lifetime.end') for x in cb[k + 1:]):
        return False
    # initialising the slot is allowed before the first call
    rest = [x for x in cb[:k] if not x[0].startswith('@llvm.lifetime')]
    while rest and rest[0][0].startswith('@llvm.memset') and rest[0][1][0] == slot:
        rest.pop(0)
    if any(x[0].startswith('@llvm.') for x in rest) or any(x[0].startswith('@llvm.') for x in ca):
        return False
    return bool(ca) and [(f, [pa if y == slot else y for y in ar]) for f, ar in rest] == ca


class Equiv:
    """coarsest bisimulation over the definitions of several modules: two
    functions of the same class are the same program up to names.  Variables
    that can be written, and what is only declared, are equal by name only."""

    def __init__(self, idxs):
        self.cls = {}
        refs, skel = {}, {}
        for tag, idx in idxs.items():
            told = self.only_told(idx)
            for x, d in idx.items():
                if x in told:
                    skel[tag, x], refs[tag, x] = '<name of a function, told to a failed assertion>', []
                    continue
                d = re.sub(r' comdat(\([^)]*\))?| (local_)?unnamed_addr', '', d)
                rs = []

                def name(m, idx=idx, rs=rs, x=x):
                    y = m.group(0)
                    if y not in idx:
                        return y
                    if y == x:
                        return '<self>'
                    rs.append(y)
                    return y[0] + '<>'
                if d.startswith('declare') or (x[0] == '@' and not d.startswith('define') and not re.match(r'.*?\bconstant\b', d)):
                    sk = x + d
                else:
                    sk = NAME.sub(name, d)
                skel[tag, x] = sk
                refs[tag, x] = [(tag, y) for y in rs]
        num = {}
        cls = {k: num.setdefault(s, len(num)) for k, s in skel.items()}
        n = len(num)
        while True:
            num = {}
            cls = {k: num.setdefault((cls[k],) + tuple(cls[r] for r in rs), len(num)) for k, rs in refs.items()}
            if len(num) == n:
                break
            n = len(num)
        self.cls = cls

    @staticmethod
    def only_told(idx):
        """texts that are only passed to the handler of failed assertions"""
        names = {x for x in idx if x.startswith(('@__PRETTY_FUNCTION__.', '@"__PRETTY_FUNCTION__.'))}
        bad = set()
        for d in idx.values():
            if '@__PRETTY_FUNCTION__.' not in d and '@"__PRETTY_FUNCTION__.' not in d:
                continue
            lines = d.split('\n')
            for ln in lines:
                if '__PRETTY_FUNCTION__.' not in ln or 'call void @_ZSt21__glibcxx_assert_fail' in ln:
                    continue
                m = re.match(r'\s*(%[^ ]+) = (?:phi|select) ', ln)
                if m and all('call void @_ZSt21__glibcxx_assert_fail' in x for x in lines if x is not ln and re.search(re.escape(m.group(1)) + r'(?![0-9])', x)):
                    continue
                bad |= set(NAME.findall(ln))
        return names - bad

    def same(self, a, b):
        """a, b: (module, function)"""
        x = self.cls.get(a)
        return x is not None and x == self.cls.get(b)
