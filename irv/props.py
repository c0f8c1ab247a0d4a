"""The checks, one function per property."""
from . import harness as hs
from . import runner
from . import replay
from . import par
from . import encunit
from . import valunit
from . import renderunit
from . import specunit
from . import carrier
from . import build
from .report import Report


def hash_prop(prop, ids, what, tasks_of, soft=None, enough=12):
    """properties that are contracts of incremental hashers"""
    rep = Report(prop)
    H = hs.HASHES
    res = runner.run([H[i] for i in ids], tasks_of, limit=200 if rep.thorough else 120, budget=1800 if rep.thorough else 560, enough=None if rep.thorough else enough)
    for i in ids:
        rep.add(i, res[i])
    settle_hash(rep, ids, what, res, soft)
    return rep.finish()


def settle_hash(rep, ids, what, res, soft=None):
    H = hs.HASHES
    bad = [i for i in ids if res[i].failed or res[i].undecided]
    if not bad and not rep.thorough:
        return
    todo = bad or ids
    obls = {i: res[i].failed for i in todo}
    fd, n, txt = replay.hash_search(todo, what, rep.seed, obls, H, long=bool(bad))
    rep.bounded.append({'what': '%s of %s on the real code: every message length up to three blocks, every fill level with every piece length up to two blocks, random histories%s' % (
        what, ', '.join(todo), ', messages of 2^29 and 2^32 bytes' if bad else ''), 'runs': txt, 'completed': n,
        'for': 'replay of failed obligations' if any(obls.values()) else 'stand-in for undecided obligations' if bad else 'companion run, decides nothing', 'found': bool(fd)})
    fo = [(i, o) for i in bad for o in res[i].failed]
    if fd:
        rep.violation(fd, fo)
        return
    fo = [x for x in fo if soft is None or not soft(x[1])]
    if fo:
        rep.violation(None, fo)


def C01():
    return hash_prop('C01', ['sha224', 'sha256', 'sha384', 'sha512'], 'digests', lambda h: runner.tasks_hash(h, extra=False))


def C02():
    rep = Report('C02')
    H = [hs.sha512t(t) for t in hs.T_ALL]
    res, notes = runner.run_family(H, 'sha512_512', budget=1700 if rep.thorough else 600)
    rep.notes += notes
    for h in H:
        rep.add(h.id, res[h.id])
    bad = [h for h in H if res[h.id].failed or res[h.id].undecided]
    todo = bad or ([h for h in H if h.digest * 8 in (8, 88, 224, 504)] if rep.thorough else [])
    obls = {h.id: res[h.id].failed for h in H}
    fd = None
    n = 0
    # the first few that failed, spread over the widths
    pick = todo if len(todo) <= 8 else todo[:4] + todo[-4:]
    for h in pick:
        fd, k, txt = replay.hash_search([h.id], 'digests', rep.seed, obls, {h.id: h}, tdefs=h.digest * 8, mode='small' if len(pick) > 1 else 'all')
        n += k
        if fd:
            break
    if todo:
        rep.bounded.append({'what': 'digests of sha512t<%s> on the real code' % ','.join(str(h.digest * 8) for h in pick), 'completed': n, 'found': bool(fd),
                            'for': 'replay of failed obligations' if any(obls.values()) else 'stand-in for undecided obligations' if bad else 'companion run, decides nothing'})
    fo = [(h.id, o) for h in bad for o in res[h.id].failed]
    if fd or fo:
        rep.violation(fd, fo)
    return rep.finish()


def C03():
    return hash_prop('C03', ['sha3_224', 'sha3_256', 'sha3_384', 'sha3_512'], 'digests', lambda h: runner.tasks_hash(h, extra=False))


def C04():
    def tasks(h):
        return [('squeeze', None)] + runner.tasks_hash(h, extra=False) + [('absorb', b) for b in range(h.block)]
    return hash_prop('C04', ['shake128', 'shake256'], 'digests', tasks)


def C05():
    def tasks(h):
        return runner.tasks_hash(h, extra=False) + [('direct', False), ('direct', True)]
    return hash_prop('C05', ['xx32', 'xx64'], 'digests', tasks)


def C06():
    # a wrong digest that does not depend on the split is not this property's
    def soft(o):
        return not o.name.startswith('update')
    return hash_prop('C06', list(hs.HASHES), 'splits', lambda h: runner.tasks_hash(h, extra=False), soft)


def C15():
    # only obligations about the object itself: copies, size(), unchanged by
    # final(), and the frame (no access outside the object and the arguments)
    def soft(o):
        return not (o.name.startswith(('copy', 'move', 'size')) or 'unchanged' in o.name or 'frame' in o.name)
    return hash_prop('C15', list(hs.HASHES), 'objects', lambda h: runner.tasks_hash(h), soft, None)



# ------------------------------------------------------------ text properties
def settle_text(rep, part, res, subs=(None,), what='', san=False, soft=None):
    """replays failed obligations with the text driver"""
    bad = [u for u in res if res[u].failed or res[u].undecided]
    if not bad and not rep.thorough:
        return
    fd, n = None, 0
    exes, err = replay.text_exes(part, subs, san)
    if exes:
        seeds = [rep.seed, rep.seed + 1] if rep.thorough or bad else [rep.seed]
        fd, n = replay.search_exes([(e, [s]) for e in exes for s in seeds], 200)
    fo = [(u, o) for u in bad for o in res[u].failed]
    rep.bounded.append({'what': what + ' on the real code, compared with an independent reference', 'completed': n, 'found': bool(fd),
                        'for': 'replay of failed obligations' if fo else 'stand-in for undecided obligations' if bad else 'companion run, decides nothing',
                        'problem': err})
    if fd:
        rep.violation(fd, fo)
        return
    if soft:
        fo = [x for x in fo if not soft(x[1])]
    if fo:
        rep.violation(None, fo)


def text_prop(rep, part, tasks, what, subs=(None,), budget=420):
    res = par.run(tasks, budget if not rep.thorough else 3 * budget)
    for u in res:
        rep.add(u, res[u])
    settle_text(rep, part, res, subs, what)
    return rep.finish()


def parts(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def C10():
    rep = Report('C10')
    rep.assume += ['input ranges are contiguous (spans); fewer than 2^50 elements']
    tasks = [('base-N module %d' % i, encunit.module, (p, 60)) for i, p in enumerate(parts(encunit.bases(), 9))]
    return text_prop(rep, 10, tasks, 'every encoding of all lengths up to 33 bytes, every two byte input, long inputs')


def C16():
    rep = Report('C16')
    rep.assume += ['input ranges are contiguous (spans); fewer than 2^50 elements', 'chunk widths whose least common multiple with the element width exceeds 64 bits do not compile']
    tasks = [('chunk module %d' % i, encunit.module, (p, 60)) for i, p in enumerate(parts(encunit.chunks(), 12))]
    return text_prop(rep, 16, tasks, 'every chunk width with and without padding of 8, 16, 32 and 64 bit elements, up to 26 elements', subs=(0, 1, 2, 3))


def C11():
    rep = Report('C11')
    return text_prop(rep, 11, valunit.tasks_parse(), 'parsing of patterned values in every character type, and literals')


def C12():
    rep = Report('C12')
    return text_prop(rep, 12, valunit.tasks_cmp(), 'comparison of patterned pairs and slices of every length')

def C13():
    rep = Report('C13')
    rep.trusted += ['std::ostream << char, std::ostream::put and write append the characters they are given (default formatting state)',
                    'std::format calls formatter::parse with the replacement field and formatter::format with its output iterator']
    return text_prop(rep, 13, renderunit.tasks(), 'every rendering of patterned values in every encoding', subs=(0, 1, 2, 3), budget=500)


def C14():
    rep = Report('C14')
    rep.assume += ['specification texts are contiguous and shorter than 2^50 characters']
    return text_prop(rep, 14, specunit.tasks(), 'every known name and its neighbours, every two character text, random texts')


# ------------------------------------------------------------ carriers
COST = ['sha512', 'sha384', 'shake128', 'sha3_224', 'sha3_256', 'shake256', 'sha3_384', 'sha3_512', 'sha256', 'sha224', 'xx64', 'xx32']


def carrier_flags(h):
    f = ['-DH=' + h.type.replace('cthash::', ''), '-DBLOCK=%d' % h.block, '-DW=%d' % (h.w if h.kind == 'xx' else 0), '-DSTR="%s"' % h.id]
    return f + (['-DXOF'] if h.shake else [])


def settle_carrier(rep, res, single=False):
    H = hs.HASHES
    bad = [u for u in res if res[u].failed or res[u].undecided]
    if not bad and not rep.thorough:
        return
    from concurrent.futures import ThreadPoolExecutor
    from . import build

    def one(i):
        try:
            exe = replay.driver('carrier_driver.cpp', 'carrier-' + i, carrier_flags(H[i]))
        except build.BuildError as e:
            return None, 0, str(e)[-400:]
        jobs = []
        hist = [x for h in replay.histories(H[i], res[i].failed) if len(h) == 2 for x in h]
        if hist:
            jobs.append(['history', rep.seed] + hist[:40])
        jobs.append(['all', rep.seed])
        done = 0
        for j in jobs:
            r = replay.run_one(exe, j, 150)
            if isinstance(r, replay.Found):
                return r, done, None
            done += r is None
        return None, done, exe
    fd, n, exes = None, 0, []
    with ThreadPoolExecutor(8) as ex:
        for r, k, e in ex.map(one, bad or list(H)):
            n += k
            fd = fd or r
            if r is None and isinstance(e, str):
                exes.append(e)
    fo = [(u, o) for u in bad for o in res[u].failed]
    if fd is None and fo:
        fd, k = replay.search_exes([(e, ['long', rep.seed]) for e in exes], 200)
        n += k
    rep.bounded.append({'what': 'every carrier and element type at every fill level against a span of std::byte, on the real code', 'completed': n, 'found': bool(fd),
                        'for': 'replay of failed obligations' if fo else 'stand-in for undecided obligations' if bad else 'companion run, decides nothing'})
    if fd or fo:
        rep.violation(fd, fo)


def C09():
    rep = Report('C09')
    rep.assume += ['arrays, fixed spans and literals: lengths 1, 2, 7, 64, 65 and 136 are instantiated; every other carrier has any length']
    res = par.run([(i, carrier.task, (i,)) for i in COST], 480 if not rep.thorough else 1500)
    for u in res:
        rep.add(u, res[u])
    settle_carrier(rep, res)
    return rep.finish()


# ------------------------------------------------------------ single header
def all_tasks(h):
    ts = runner.tasks_hash(h, extra=False)
    if h.shake:
        ts = [('squeeze', None)] + ts + [('absorb', b) for b in range(h.block)]
    if h.kind == 'xx':
        ts += [('direct', False), ('direct', True)]
    return ts


FAMILY = [hs.sha512t(t) for t in hs.T_ALL]


def modes(rep, single=False):
    """the hasher contracts of every hash function, as run and as evaluated in a
    constant expression; {unit: (id, mode, Result)}"""
    H = [hs.HASHES[i] for i in hs.HASHES]
    pre = hs.SINGLE if single else hs.PRE
    inc, rules = build.constant_include()
    rep.trusted.append('constant evaluation: the headers with every "if consteval" and std::is_constant_evaluated() of the library answered yes (%s), and nothing else changed' % ', '.join('%s: %d' % x for x in rules))
    out = {}
    k = 3 if rep.thorough else 1
    ms = (('run time', None), ('constant evaluation', inc))
    jobs, joins = [], []
    for mode, i in ms:
        j, join = runner.run_jobs(H, all_tasks, runner.modules(H, pre, i), 120 * k, 500 * k)
        jobs.append(lambda i=i: runner.run_family(FAMILY, 'sha512_512', pre=pre, include=i, budget=250 * k))
        jobs += j
        jobs.append(lambda i=i: par.run([(h, carrier.task, (h, i, 120 * k, True, single)) for h in COST], 200 * k))
        joins.append((len(j), join))
    got = runner.concurrent(jobs)
    for (mode, i), (n, join) in zip(ms, joins):
        fam, car = got[0], got[n + 1]
        res = join(got[1:n + 1])
        got = got[n + 2:]
        if isinstance(fam, Exception):
            fam = ({h.id: runner.broken(h.id, fam) for h in FAMILY}, [])
        if isinstance(car, Exception):
            car = {h: runner.broken(h, car) for h in COST}
        rep.notes += ['%s: %s' % (mode, n) for n in fam[1]]
        res.update(fam[0])
        for u, r in car.items():
            res['element types of ' + u] = r
        for u, r in res.items():
            rep.add('%s, %s' % (u, mode), r)
            out[u, mode] = r
    return out


def by_id():
    d = dict(hs.HASHES)
    d.update((h.id, h) for h in FAMILY)
    return d


def C07():
    rep = Report('C07')
    out = modes(rep)
    units = sorted({u for u, _ in out})
    rt, ct = [{u: out[u, m] for u in units if (u, m) in out} for m in ('run time', 'constant evaluation')]
    bad = [u for u in units if any(r.failed or r.undecided for r in (rt.get(u), ct.get(u)) if r)]
    if not bad and not rep.thorough:
        return rep.finish()
    H = by_id()
    todo = list(dict.fromkeys(u.replace('element types of ', '') for u in bad)) or list(hs.HASHES)
    fam = [h.id for h in FAMILY]
    ft = [u for u in todo if u in fam]
    todo = [u for u in todo if u not in fam] + (ft[:2] + ft[-2:] if len(ft) > 4 else ft)
    fd, n, err = replay.constant_search([H[u] for u in todo])
    # equal on both sides, and different from the specification: not this property
    fo = [(u, o) for u in bad if bool(rt[u].failed) != bool(ct[u].failed) for o in rt[u].failed + ct[u].failed]
    rep.bounded.append({'what': 'digests in constant expressions against digests at run time of %s on the real code: every length up to two blocks, every fill level, five element types' % ', '.join(todo),
                        'completed': n, 'found': bool(fd), 'problem': err,
                        'for': 'replay of failed obligations' if fo else 'stand-in for undecided obligations' if bad else 'companion run, decides nothing'})
    if fd or fo:
        rep.violation(fd, fo)
    return rep.finish()


UNSAFE = ('trap:', 'oob:', 'frame:', 'throw:', 'bad:')


def C08():
    rep = Report('C08')
    rep.assume += ['encoder input ranges are contiguous (spans) of fewer than 2^50 elements',
                   'uninitialised memory: reported where it reaches a branch, an address, a digest or an output; not where it is only copied']
    k = 3 if rep.thorough else 1
    H = [hs.HASHES[i] for i in hs.HASHES]

    def tasks(h):
        return all_tasks(h) + [(kd, a) for kd, a in runner.tasks_hash(h, update=False, final=False) if kd in ('copy', 'size')]
    jobs, join = runner.run_jobs(H, tasks, limit=120 * k, budget=500 * k)
    kind = {h.id: 'hash' for h in H}
    t = []
    for part, mk in ((10, encunit.bases), (16, encunit.chunks)):
        for i, p in enumerate(parts(mk(), 9)):
            kind['encoder module %d-%d' % (part, i)] = part
            t.append(('encoder module %d-%d' % (part, i), encunit.module, (p, 60)))
    ct = [('carriers of ' + h, carrier.task, (h, None, 150 * k)) for h in COST]
    got = runner.concurrent([lambda: par.run(ct, 300 * k), lambda: par.run(t, 300 * k)] + jobs)
    car, enc = [{u: runner.broken(u, x) for u, _, _ in ts} if isinstance(x, Exception) else x for x, ts in zip(got, (ct, t))]
    res = join(got[2:])
    res.update(enc)
    kind.update((u, 'carrier') for u in car)
    res.update(car)
    for u in res:
        rep.add(u, res[u])
    fo = [(u, o) for u in res for o in res[u].failed if o.detail.startswith(UNSAFE)]
    open_ = [u for u in res if res[u].undecided] + [u for u, o in fo]
    if not open_ and not rep.thorough:
        return rep.finish()
    from concurrent.futures import ThreadPoolExecutor
    todo = list(dict.fromkeys(open_)) or list(res)
    fd, n, err = None, 0, []
    ids = [u for u in todo if kind[u] == 'hash']
    cs = [u[12:] for u in todo if kind[u] == 'carrier']

    def hashes():
        if not ids:
            return None, 0, None
        r = replay.hash_search(ids, 'objects', rep.seed, {i: [o for u, o in fo if u == i] for i in ids}, hs.HASHES, san=True)
        if r[0] is None:
            q = replay.hash_search(ids, 'digests', rep.seed, {}, hs.HASHES, san=True, mode='small')
            r = (q[0], r[1] + q[1], r[2] or q[2])
        return r

    def text(part):
        if part not in [kind[u] for u in todo]:
            return None, 0, None
        exes, e = replay.text_exes(part, (None,) if part == 10 else (0, 1, 2, 3), True)
        r = replay.search_exes([(x, [rep.seed]) for x in exes], 200)
        return r[0], r[1], e

    def carriers(i):
        try:
            exe = replay.driver('carrier_driver.cpp', 'carrier-' + i, carrier_flags(hs.HASHES[i]), san=True)
        except build.BuildError as e:
            return None, 0, str(e)[-300:]
        r = replay.run_one(exe, ['all', rep.seed], 150)
        return (r, 0, None) if isinstance(r, replay.Found) else (None, r is None, None)
    with ThreadPoolExecutor(8) as ex:
        jobs = [ex.submit(hashes)] + [ex.submit(text, p) for p in (10, 16)] + [ex.submit(carriers, i) for i in cs]
        for j in jobs:
            r, c, e = j.result()
            fd = fd or r
            n += c
            if e and 'runs of' not in e:
                err.append(e)
    rep.bounded.append({'what': 'hashers, carriers and encoders on the real code with AddressSanitizer and UndefinedBehaviorSanitizer (clang), inputs in exactly sized allocations: %s' % ', '.join(todo)[:300],
                        'completed': n, 'found': bool(fd), 'problem': err[:1],
                        'for': 'replay of failed obligations' if fo else 'stand-in for undecided obligations' if open_ else 'companion run, decides nothing'})
    if fd or fo:
        rep.violation(fd, fo)
    return rep.finish()


def C17():
    rep = Report('C17')
    out = modes(rep, True)
    H = by_id()
    bad = [x for x in out if out[x].failed or out[x].undecided]
    if not bad and not rep.thorough:
        return rep.finish()
    fo = [('%s, %s' % x, o) for x in bad for o in out[x].failed]
    fam = [h.id for h in FAMILY]
    fd, n = None, 0
    ids = list(dict.fromkeys(u.replace('element types of ', '') for u, m in bad)) or list(hs.HASHES)
    std = [u for u in ids if u not in fam]
    ft = [u for u in ids if u in fam]
    ft = ft[:2] + ft[-2:] if len(ft) > 4 else ft
    if std:
        fd, n, _ = replay.hash_search(std, 'digests', rep.seed, {u: out[u, 'run time'].failed for u in std}, H, long=bool(bad), single=True)
    for u in ft:
        if not fd:
            fd, k, _ = replay.hash_search([u], 'digests', rep.seed, {u: out[u, 'run time'].failed}, H, tdefs=H[u].digest * 8, mode='small', single=True)
            n += k
    if not fd:
        fd, k, _ = replay.constant_search([H[u] for u in std + ft], True)
        n += k
    rep.bounded.append({'what': 'digests of %s from the single header, at run time against a reference and in constant expressions against run time' % ', '.join(std + ft), 'completed': n, 'found': bool(fd),
                        'for': 'replay of failed obligations' if fo else 'stand-in for undecided obligations' if bad else 'companion run, decides nothing'})
    if fd or fo:
        rep.violation(fd, fo)
    return rep.finish()


def C18():
    from . import toolunit
    rep = Report('C18')
    rep.assume += ['the second argument names a regular file that does not change meanwhile, or a file that can not be opened or mapped',
                   'contracts of the hash functions (proved by the checks of C01 to C05 on the same tree; that the tool uses the very code proved there is an obligation here)']
    rep.trusted += ['open fails or gives a descriptor; lseek(fd, 0, SEEK_END) and fstat give the size of the file; mmap fails (always for length 0) or maps its content; close, munmap without effect',
                    'std::ostream << char, const char *, number, put and write append to the stream they are given; std::chrono clocks give any value']
    try:
        text = build.compile_ir('checksum', toolunit.tu(toolunit.read_source()))
        tasks = toolunit.tasks(text) + [('contract of ' + h, toolunit.tie, (h, text)) for h in toolunit.hashes()]
        res = par.run(tasks, 400 if not rep.thorough else 800)
    except build.BuildError as e:
        from .hashunit import Obl
        from .runner import Result
        res = {'extraction': Result('extraction')}
        res['extraction'].obls.append(Obl('extraction', None, str(e)[-1000:]))
    for u in res:
        rep.add(u, res[u])
    fo = [(u, o) for u in res for o in res[u].failed]
    und = [o for u in res for o in res[u].undecided]
    names = []
    for _, o in fo:
        if o.model and any(k.startswith('name[') for k in o.model):
            bs = [o.model.get('name[%d]' % k, 0x78) for k in range(1 + max(int(k[5:-1]) for k in o.model if k.startswith('name[')))]
            names.append(bytes(bs))
    try:
        fd, n = toolunit.battery(rep.seed, (1 << 20, (1 << 24) + 5) if rep.thorough or fo or und else (), names, bool(fo))
        err = None
    except build.BuildError as e:
        fd, n, err = None, 0, str(e)[-500:]
    rep.bounded.append({'what': 'the tool as built, every accepted name with %d file sizes from 0 to 65537 bytes, names that are not accepted, files that are missing or directories, against hashlib and the reference xxHash' % len(toolunit.LENGTHS),
                        'completed': n, 'found': bool(fd), 'problem': err,
                        'for': 'replay of failed obligations' if fo else 'stand-in for undecided obligations' if und else 'companion run: the contracts assumed of the hash functions, met through the tool'})
    if fd or fo:
        rep.violation(fd, fo)
    return rep.finish()


ALL = {k: v for k, v in globals().items() if k[0] == 'C' and k[1:].isdigit()}
