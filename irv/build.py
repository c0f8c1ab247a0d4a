"""Extraction of the verified text: clang's LLVM IR of the headers in /repo."""
import os
import re
import shutil
import subprocess
import tempfile
import atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('CTHASH_REPO', '/repo')
CLANG = 'clang++-18'
FLAGS = ('-std=c++23 -O1 -Dalways_inline=noinline -Dflatten=unused -D_GLIBCXX_ASSERTIONS '
         '-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,bounds,unreachable,return,bool,enum,builtin '
         '-mllvm -inlinehint-threshold=40 -mllvm -inline-threshold=40 -fsanitize-trap=all -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -w').split()
_dir = None


class BuildError(Exception):
    pass


def workdir():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='cthash-irv-')
        pid = os.getpid()
        atexit.register(lambda d=_dir: shutil.rmtree(d, ignore_errors=True) if os.getpid() == pid else None)
    return _dir


def clean():
    if _dir is not None:
        shutil.rmtree(_dir, ignore_errors=True)


def compile_ir(name, text, include=None, flags=()):
    """LLVM IR text of one harness translation unit"""
    src = os.path.join(workdir(), name + '.cpp')
    out = os.path.join(workdir(), name + '.ll')
    with open(src, 'w') as f:
        f.write(text)
    cmd = [CLANG] + FLAGS + list(flags) + ['-I', include or os.path.join(REPO, 'include'), '-S', '-emit-llvm', src, '-o', out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    with open(out) as f:
        return f.read()


def compile_many(jobs):
    """jobs: {name: (text, include, flags)} -> {name: ir or BuildError}"""
    def one(it):
        n, (tx, inc, fl) = it
        try:
            return n, compile_ir(n, tx, inc, fl)
        except BuildError as e:
            return n, e
    with ThreadPoolExecutor(8) as ex:
        return dict(ex.map(one, jobs.items()))


def compile_exe(name, text, include=None, flags=(), cxx='g++-14'):
    src = os.path.join(workdir(), name + '.cpp')
    out = os.path.join(workdir(), name)
    with open(src, 'w') as f:
        f.write(text)
    cmd = [cxx, '-std=c++23', '-O2', '-w'] + list(flags) + ['-I', include or os.path.join(REPO, 'include'), src, '-o', out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return out


# ---------------------------------------------------------------- compile time
CT_RULES = [
    (r'\bif\s*(?:not\b|!)\s*consteval\b', 'if constexpr (false)'),
    (r'\bif\s+consteval\b', 'if constexpr (true)'),
    (r'\bstd\s*::\s*is_constant_evaluated\s*\(\s*\)', 'true'),
    (r'\b__builtin_is_constant_evaluated\s*\(\s*\)', 'true'),
]
_ct = {}


def constant_include():
    """a copy of the headers in which every test "is this a constant
    evaluation?" has the answer yes, and nothing else is changed;
    (directory, [(file, number of tests)])"""
    if 'd' in _ct:
        return _ct['d'], _ct['n']
    src = os.path.join(REPO, 'include')
    dst = os.path.join(workdir(), 'ct-include')
    n = []
    for root, _, fs in os.walk(src):
        to = os.path.join(dst, os.path.relpath(root, src))
        os.makedirs(to, exist_ok=True)
        for f in sorted(fs):
            if not f.endswith(('.hpp', '.h', '.inl', '.ipp')):
                continue
            with open(os.path.join(root, f), encoding='utf-8') as fh:
                s = fh.read()
            k = 0
            for a, b in CT_RULES:
                s, m = re.subn(a, b, s)
                k += m
            if k:
                n.append((os.path.relpath(os.path.join(root, f), src), k))
            with open(os.path.join(to, f), 'w', encoding='utf-8') as fh:
                fh.write(s)
    _ct['d'], _ct['n'] = dst, n
    return dst, n
