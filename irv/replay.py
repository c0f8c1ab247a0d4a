"""Replays failed obligations against the real code (the compiler and flags the
project itself is built with) and runs the bounded stand-in battery."""
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor
from . import build

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'replay')
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g1', '-O1', '-D_GLIBCXX_SANITIZE_VECTOR', '-DCRASHES']


class Found:
    def __init__(self, text, cmd):
        self.text, self.cmd = text, cmd


def driver(src, name, flags=(), san=False):
    with open(os.path.join(HERE, src)) as f:
        text = f.read()
    fl = ['-I', HERE] + list(flags)
    if san:
        return build.compile_exe(name + '-san', text, flags=fl + SAN, cxx='clang++-18')
    return build.compile_exe(name, text, flags=fl)


def run_one(exe, args, timeout):
    """-> Found | None (passed) | 'timeout' """
    cmd = [exe] + [str(a) for a in args]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0'))
    except subprocess.TimeoutExpired:
        return 'timeout'
    out = p.stdout.decode(errors='replace')
    show = ' '.join([os.path.basename(exe)] + cmd[1:])
    for l in out.splitlines():
        if l.startswith('FAIL'):
            return Found(l, show)
    if p.returncode:
        return Found('FAIL the program ended with status %d\n%s' % (p.returncode, out[-3000:]), show)
    return None


def search(exe, jobs, timeout, workers=8):
    """runs jobs (lists of arguments) in parallel; the first failing one, and
    the number that completed"""
    done = 0
    with ThreadPoolExecutor(workers) as ex:
        for r in ex.map(lambda a: run_one(exe, a, timeout), jobs):
            if isinstance(r, Found):
                return r, done
            if r is None:
                done += 1
    return None, done


def histories(h, obls):
    """concrete histories from counterexample models of failed obligations"""
    out = []
    B = h.block
    for o in obls:
        m = o.model
        if not m:
            continue
        q, d, f = (int(m.get(k) or 0) for k in 'qdf')
        bu = None
        for w in o.name.replace(',', ' ').split():
            if w.isdigit():
                bu = int(w)
                break
        if bu is None:
            bu = 0
        T = B * q + bu
        n = B * (q + d) + f - T
        if T > 1 << 33 or n > 1 << 33 or n < 0:
            continue
        p = [x for x in (T, n) if x or True]
        if p not in out:
            out.append(p)
        if [T + n] not in out:
            out.append([T + n])
    return out[:40]


def hash_search(ids, what, seed=1, obls=None, hashes=None, mode='all', san=False, tdefs=None, long=False, timeout=120, single=False):
    """looks for a failing input of the given hashes on the real code.
    -> (Found|None, cases completed, what was run)"""
    flags = []
    name = 'hash_driver'
    if tdefs:
        flags = ['-DTT=%d' % tdefs]
        name += '-t%d' % tdefs
    if single:
        flags = flags + ['-DSINGLE']
        name += '-single'
    try:
        exe = driver('hash_driver.cpp', name, flags, san)
    except build.BuildError as e:
        return None, 0, 'the battery does not compile: ' + str(e)[-500:]
    jobs = []
    for i in ids:
        rid = 'sha512t' if tdefs else i
        for hh in histories(hashes[i], (obls or {}).get(i, [])) if hashes else []:
            jobs.append([rid, what, 'history', seed] + hh)
    for i in ids:
        ns = sorted({int(o.model['N']) for o in (obls or {}).get(i, []) if o.model and o.model.get('N')})
        ns = [n for n in ns if n < 1 << 26]
        if ns:
            jobs.append([i, what, 'stream', seed] + ns[:30])
        jobs.append(['sha512t' if tdefs else i, what, mode, seed])
    r, done = search(exe, jobs, timeout)
    if r is None and long:
        jobs2 = [['sha512t' if tdefs else i, what, 'long', seed] for i in ids]
        r, d2 = search(exe, jobs2, 150)
        done += d2
        jobs += jobs2
    return r, done, '%d runs of %s' % (len(jobs), name)


CT_FLAGS = ['-O1', '-fconstexpr-ops-limit=30000000000', '-fconstexpr-loop-limit=100000000', '-fconstexpr-cache-depth=16']


def constant_search(hashes, single=False, timeout=120):
    """digests in constant expressions against digests at run time;
    (Found|None, programs completed, problem)"""
    def one(job):
        h, part = job
        fl = ['-DH=' + h.type.replace('cthash::', ''), '-DBLOCK=%d' % h.block, '-DPART=%d' % part, '-DSTR="%s"' % h.id] + CT_FLAGS
        fl += (['-DXOF'] if h.shake else []) + (['-DSINGLE'] if single else [])
        name = 'ct-%s-%d%s' % (h.id, part, '-single' if single else '')
        try:
            exe = driver('ct_driver.cpp', name, fl)
        except build.BuildError as e:
            if 'ops-limit' in str(e) or 'out of memory' in str(e):
                return str(e)[-400:]
            try:
                driver('ct_driver.cpp', name + '-rt', fl + ['-DNOCT'])
            except build.BuildError as e2:
                return str(e2)[-400:]
            return Found('FAIL the hash functions compile for run time, but not in a constant expression: ' + str(e)[-3000:], name)
        return run_one(exe, [], timeout)
    fd, n, bad = None, 0, None
    jobs = [(h, p) for p in (2, 0, 1) for h in hashes]
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda j: None if fd else one(j), jobs):
            if isinstance(r, Found):
                fd = fd or r
            elif r is None:
                n += 1
            else:
                bad = bad or r
    return fd, n, bad


def text_exes(part, subs=(None,), san=False, flags=()):
    """the text driver, one program per sub-part; ([programs], error)"""
    def one(sub):
        fl = ['-DPART=%d' % part, '-O1'] + list(flags)
        nm = 'text%d' % part
        if sub is not None:
            fl.append('-DSUB=%s' % sub)
            nm += '-%s' % sub
        try:
            return driver('text_driver.cpp', nm, fl, san)
        except build.BuildError as e:
            return e
    with ThreadPoolExecutor(8) as ex:
        out = list(ex.map(one, subs))
    err = [str(e)[-600:] for e in out if isinstance(e, Exception)]
    return [e for e in out if not isinstance(e, Exception)], err[0] if err else None


def search_exes(jobs, timeout, workers=8):
    done = 0
    with ThreadPoolExecutor(workers) as ex:
        for r in ex.map(lambda a: run_one(a[0], a[1], timeout), jobs):
            if isinstance(r, Found):
                return r, done
            if r is None:
                done += 1
    return None, done
