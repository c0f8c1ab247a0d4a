"""Runs the obligations of hash units on all cores."""
import multiprocessing as mp
import multiprocessing.connection
import os
import time
from . import harness as hs
from . import build
from . import canon
from . import contracts as C
from . import facts
from . import hashunit as HU
from . import smt
from .execu import Machine, Limit
from .hashunit import Obl

CORES = int(os.environ.get('VERIF_CORES', '0')) or min(8, os.cpu_count() or 1)
_U = {}


class Result:
    def __init__(self, id):
        self.id = id
        self.obls = []
        self.functions = {}
        self.smt_queries = 0
        self.smt_time = 0.0
        self.paths = 0
        self.wall = 0.0

    @property
    def failed(self):
        return [o for o in self.obls if o.ok is False]

    @property
    def undecided(self):
        return [o for o in self.obls if o.ok is None]

    @property
    def discharged(self):
        return [o for o in self.obls if o.ok is True]


def make_unit(h, ir, seed=None):
    tx = ir
    M = Machine(tx)
    st = M.new_state()
    size = None
    for o in M.run(st, '@v_sizeof_' + h.id, []):
        size = o.val.d
    fns = {k: '@v_%s_%s' % (k, h.id) for k in ('ctor', 'update', 'final', 'value', 'copy', 'move', 'size', 'direct', 'absorb', 'squeeze')}
    for n in h.shake or []:
        fns['final%d' % n] = '@v_final_%s_%d' % (h.id, n)
    U = HU.HashUnit(tx, h.spec(seed), size, fns, machine=M)
    U.h = h
    return U


def _stat():
    return (facts.STATS['smt'], facts.STATS['smt_time'])


KINDS = ['ctor', 'update', 'final', 'copy', 'size', 'direct', 'squeeze', 'finalize', 'absorb']
_bad = mp.get_context('fork').Array('i', len(KINDS))     # tasks of each kind that failed, per hash
_enough = [12]


def _task(a):
    key, kind, arg, limit = a
    U = _U[key]
    if _enough[0] and _bad[KINDS.index(kind)] >= _enough[0]:
        return key, [('%s %s' % (kind, arg), None, 'not examined: this contract failed at %d other fill levels' % _enough[0], None)], 0, 0.0, 0, []
    U.obls = []
    U.n_paths = 0
    n0, t0 = _stat()
    np = len(C.LOG['proved'])
    U.M.deadline = time.time() + limit
    U.spec.activate()
    label = '%s %s' % (kind, arg if arg is not None else '')
    try:
        _dispatch(U, kind, arg, label)
    except MemoryError:
        U.obls.append(Obl(label, None, 'out of memory'))
    n1, t1 = _stat()
    leaf = C.LOG['proved'][np:]
    if any(o.ok is False for o in U.obls):
        with _bad.get_lock():
            _bad[KINDS.index(kind)] += 1
    return key, [(o.name, o.ok, o.detail, o.model) for o in U.obls], n1 - n0, t1 - t0, U.n_paths, leaf


def _dispatch(U, kind, arg, label):
    g = U.guarded
    if kind == 'ctor':
        g(label, U.prove_ctor)
    elif kind == 'update':
        if arg == 'null':
            for b in range(U.spec.B):
                g('update with no bytes', U.prove_update, b, null=True)
        else:
            g('update from fill %d' % arg, U.prove_update, arg)
    elif kind == 'final':
        which, b, n = arg
        g('%s at fill %d' % (which, b), U.prove_final, b, which=which, nbytes=n)
    elif kind == 'copy':
        g('%s at fill %d' % arg, U.prove_copy, arg[0], U.fn[arg[0]], arg[1])
    elif kind == 'size':
        g('size() at fill %d' % arg, U.prove_size, arg, U.fn['size'])
    elif kind == 'direct':
        g('update_and_final', U.prove_direct, U.fn['direct'], arg)
    elif kind == 'squeeze':
        g('squeeze', U.prove_squeeze, U.fn['squeeze'], arg)
    elif kind == 'finalize':
        g('finalize at fill %d' % arg[0], U.prove_finalize, *arg)
    elif kind == 'absorb':
        g('final_absorb at fill %d' % arg, U.prove_absorb, arg, U.fn['absorb'])


def infer(key):
    U = _U[key]
    n0, t0 = _stat()
    U.obls = []
    U.templates = {b: None for b in range(U.spec.B)}
    U.M.deadline = time.time() + 200
    U.spec.activate()
    U.guarded('class invariant', U.infer)
    r = list(U.obls)
    U.obls = []
    n1, t1 = _stat()
    return r, n1 - n0, t1 - t0


def modules(hashes, pre=None, include=None):
    """one extracted module per hash"""
    return build.compile_many({h.id: ((pre or hs.PRE) + h.tu(), include, ()) for h in hashes})


def broken(id, e):
    r = Result(id)
    r.obls.append(Obl('all obligations', None, 'engine error: %s' % e))
    return r


def concurrent(jobs, width=3):
    """[fn] -> [fn()], up to width of them at a time in processes of their own,
    which have worker processes in turn; an exception is the result of its job"""
    global CORES, _bad
    if len(jobs) < 2:
        return [f() for f in jobs]
    ctx = mp.get_context('fork')
    build.workdir()
    out = [RuntimeError('no result')] * len(jobs)
    wait = list(enumerate(jobs))
    live = {}
    while wait or live:
        while wait and len(live) < width:
            i, f = wait.pop(0)
            rd, wr = ctx.Pipe(False)

            def child(f=f, wr=wr):
                global CORES, _bad
                CORES = max(2, CORES * 3 // (2 * width))
                _bad = mp.get_context('fork').Array('i', len(KINDS))
                _U.clear()
                C.LOG['proved'] = []
                try:
                    r = f()
                except Exception as e:
                    r = RuntimeError(repr(e)[:500])
                wr.send(r)
                wr.close()
            pr = ctx.Process(target=child)
            pr.start()
            wr.close()
            live[rd] = (i, pr)
        for rd in mp.connection.wait(list(live)):
            i, pr = live.pop(rd)
            try:
                out[i] = rd.recv()
            except EOFError:
                pass
            rd.close()
            pr.join()
    return out


def run(hashes, tasks_of, irs=None, limit=120, budget=600, enough=12):
    """hashes: [Hash]; tasks_of(h) -> [(kind, arg)]; returns {id: Result}"""
    jobs, join = run_jobs(hashes, tasks_of, irs, limit, budget, enough)
    return join(concurrent(jobs))


# rough cost of the units, the longest first
LONG = ['shake128', 'sha3_224', 'sha512', 'sha3_256', 'sha384', 'sha3_384']


def run_jobs(hashes, tasks_of, irs=None, limit=120, budget=600, enough=12):
    """jobs for concurrent(), and what puts their results together"""
    t0 = time.time()
    irs = irs or modules(hashes)
    groups = {}
    for h in hashes:
        groups.setdefault((h.kind, h.w, h.block), []).append(h)
    gs = sorted(groups.values(), key=lambda g: min(LONG.index(h.id) if h.id in LONG else 99 for h in g))

    def job(g):
        return lambda: run_group(g, tasks_of, irs, limit, max(21, budget - (time.time() - t0)), enough)

    def join(rs):
        res = {}
        for g, r in zip(gs, rs):
            if isinstance(r, Exception):
                r = {h.id: broken(h.id, r) for h in g}
            res.update(r)
        return {h.id: res[h.id] for h in hashes}
    return [job(g) for g in gs], join


def run_group(hashes, tasks_of, irs, limit, budget, enough):
    t0 = time.time()
    res = {}
    # one process per hash infers the invariants and then serves its tasks
    todo = []
    done = {}               # canonical text of update() -> (hash, its invariants)
    for h in hashes:
        r = res[h.id] = Result(h.id)
        ir = irs[h.id]
        if isinstance(ir, Exception):
            r.obls.append(Obl('extraction', None, str(ir)[-1500:]))
            continue
        todo.append(h)
    for h in todo:
        r = res[h.id]
        t1 = time.time()
        left = budget - (t1 - t0)
        if left < 20:
            r.obls.append(Obl('all obligations', None, 'time budget used up'))
            continue
        try:
            _U.clear()
            _U[h.id] = make_unit(h, irs[h.id])
        except (Limit, KeyError, ValueError) as e:
            r.obls.append(Obl('extraction', None, 'unsupported module: %s' % e))
            continue
        tl = tasks_of(h)
        idx = canon.index(irs[h.id])
        U = _U[h.id]
        ukey = (h.kind, h.w, h.block, h.lenbytes, U.size, canon.canon(idx, '@v_update_' + h.id))
        if ukey in done and any(k == 'update' for k, _ in tl):
            # the same program: it preserves the same invariants
            like, U.templates = done[ukey]
            r.obls.append(Obl('update: same code as %s, whose contract is proved' % like, True))
            tl = [x for x in tl if x[0] != 'update']
        else:
            ob, n, tm = infer(h.id)
            r.obls += ob
            r.smt_queries += n
            r.smt_time += tm
        if any(k == 'final' and a[0] == 'final' for k, a in tl) and canon.same_calls(idx, '@v_final_' + h.id, '@v_value_' + h.id, '%1', '%1'):
            r.obls.append(Obl('final(span): makes the calls final() makes, whose contract is proved', True))
            tl = [x for x in tl if not (x[0] == 'final' and x[1][0] == 'final')]
        for a in C.LOG['proved']:
            r.functions.setdefault(a[0], (a[1], a[2]))
        C.LOG['proved'] = []
        tasks = [(h.id, k, a, min(limit, left)) for k, a in tl]
        _enough[0] = enough
        for i in range(len(KINDS)):
            _bad[i] = 0
        with mp.get_context('fork').Pool(CORES) as pool:
            it = pool.imap_unordered(_task, tasks, chunksize=1)
            for _ in range(len(tasks)):
                try:
                    key, obls, n, tm, np, leaf = it.next(timeout=max(5, budget - (time.time() - t0)))
                except mp.TimeoutError:
                    r.obls.append(Obl('remaining obligations', None, 'time budget used up'))
                    pool.terminate()
                    break
                r.obls += [Obl(*o) for o in obls]
                r.smt_queries += n
                r.smt_time += tm
                r.paths += np
                for a in leaf:
                    r.functions.setdefault(a[0], (a[1], a[2]))
        if all(o.ok for o in r.obls) and any(k == 'update' for k, _ in tl):
            done[ukey] = (h.id, U.templates)
        r.wall = time.time() - t1
    _U.clear()
    return res


def tasks_hash(h, update=True, final=True, extra=True):
    """the contract obligations of one hasher type"""
    out = [('ctor', None)]
    if update:
        out += [('update', b) for b in range(h.block)] + [('update', 'null')]
    if final:
        if h.shake:
            out += [('final', ('final%d' % n, b, n)) for n in h.shake for b in range(h.block)]
        else:
            out += [('final', (w, b, h.digest)) for w in ('final', 'value') for b in range(h.block)]
    if extra:
        out += [('copy', (w, b)) for w in ('copy', 'move') for b in range(h.block)]
        if h.kind == 'sha2':
            out += [('size', b) for b in range(h.block)]
        if h.kind == 'xx':
            out += [('direct', False), ('direct', True)]
    return out


# ------------------------------------------------------------ sha512t family
def _group(a):
    """several contracts of one unit whose class invariant is the reference's"""
    key, kind, limit = a
    U = _U[key]
    U.obls = []
    U.n_paths = 0
    n0, t0 = _stat()
    np = len(C.LOG['proved'])
    U.M.deadline = time.time() + limit
    U.spec.activate()
    if kind == 'ctor':
        U.guarded('constructor', U.prove_ctor)
    elif kind == 'update':
        for b in range(U.spec.B):
            U.guarded('update from fill %d' % b, U.prove_update, b)
            U.guarded('update with no bytes', U.prove_update, b, null=True)
    else:
        done = False
        if U.fin:
            U.guarded(kind, U.prove_tail, kind, U.fin, U.h.digest)
            done = bool(U.obls) and all(o.ok for o in U.obls)
            if not done:
                if os.environ.get('IRV_DEBUG'):
                    print(key, kind, [str(o)[:300] for o in U.obls if not o.ok])
                U.obls = []
        for b in range(0 if done else U.spec.B):
            U.guarded('%s at fill %d' % (kind, b), U.prove_final, b, which=kind, nbytes=U.h.digest)
            if time.time() > U.M.deadline:
                U.obls.append(Obl('%s at fill %d and above' % (kind, b + 1), None, 'time limit'))
                break
    n1, t1 = _stat()
    return key, [(o.name, o.ok, o.detail, o.model) for o in U.obls], n1 - n0, t1 - t0, U.n_paths, C.LOG['proved'][np:]


def run_family(hashes, rep_id, limit=250, budget=700, per_tu=8, pre=None, include=None):
    """hashes that differ in initial value and output only: the reference is
    proved in full; every other one has the same canonical update() code (or is
    proved in full as well), its own constructor and its own final()"""
    t0 = time.time()
    jobs, where = {}, {}
    for i in range(0, len(hashes), per_tu):
        part = hashes[i:i + per_tu]
        nm = 'family%d' % (i // per_tu)
        jobs[nm] = ((pre or hs.PRE) + ''.join(h.tu() for h in part), include, ())
        for h in part:
            where[h.id] = nm
    irs = build.compile_many(jobs)
    res = {h.id: Result(h.id) for h in hashes}
    notes = []
    rep = next(h for h in hashes if h.id == rep_id)
    if any(isinstance(x, Exception) for x in irs.values()):
        for h in hashes:
            x = irs[where[h.id]]
            if isinstance(x, Exception):
                res[h.id].obls.append(Obl('extraction', None, str(x)[-1500:]))
    if isinstance(irs[where[rep_id]], Exception):
        return res, notes
    idx = {k: canon.index(v) for k, v in irs.items() if not isinstance(v, Exception)}
    fin = canon.first_call(idx[where[rep_id]], '@v_value_' + rep_id, '%0')
    r0 = run([rep], lambda h: tasks_hash(h, extra=False) + ([('finalize', (b, fin)) for b in range(h.block)] if fin else []), irs={rep_id: irs[where[rep_id]]}, budget=budget / 2)
    res[rep_id] = r0[rep_id]
    fo = [o for o in r0[rep_id].obls if o.name.startswith('finalize ')]
    if not fo or not all(o.ok for o in fo):
        # not a contract of its own here: final() is proved as a whole instead
        fin = None
        r0[rep_id].obls = [o for o in r0[rep_id].obls if not o.name.startswith('finalize ')]
    fref = fin and canon.canon(idx[where[rep_id]], fin)
    ref = canon.canon(idx[where[rep_id]], '@v_update_' + rep_id)
    U0 = make_unit(rep, irs[where[rep_id]])
    _U.clear()
    _U[rep_id] = U0
    infer(rep_id)
    tasks = []
    same = 0
    for h in hashes:
        if h.id == rep_id or where[h.id] not in idx:
            continue
        try:
            U = make_unit(h, irs[where[h.id]])
        except (Limit, KeyError, ValueError) as e:
            res[h.id].obls.append(Obl('extraction', None, 'unsupported module: %s' % e))
            continue
        U.templates = U0.templates
        _U[h.id] = U
        U.fin = canon.find_callee(idx[where[h.id]], '@v_value_' + h.id, fref) if fin else None
        if canon.canon(idx[where[h.id]], '@v_update_' + h.id) == ref:
            same += 1
            res[h.id].obls.append(Obl('update: same code as %s, whose contract is proved' % rep_id, True))
        else:
            tasks.append((h.id, 'update', limit))
        kinds = ['ctor', 'value', 'final']
        if canon.same_calls(idx[where[h.id]], '@v_final_' + h.id, '@v_value_' + h.id, '%1', '%1'):
            kinds.remove('final')
            res[h.id].obls.append(Obl('final(span): makes the calls final() makes, whose contract is proved', True))
        tasks += [(h.id, k, limit) for k in kinds]
    tasks.sort(key=lambda a: a[1] == 'ctor')
    notes.append('update() of %d of %d variants is the same code as that of %s' % (same, len(hashes) - 1, rep_id))
    C.LOG['proved'] = []
    with mp.get_context('fork').Pool(CORES) as pool:
        it = pool.imap_unordered(_group, tasks, chunksize=1)
        for _ in range(len(tasks)):
            try:
                key, obls, n, tm, np, leaf = it.next(timeout=max(5, budget - (time.time() - t0)))
            except mp.TimeoutError:
                for h in hashes:
                    if h.id != rep_id:
                        res[h.id].obls.append(Obl('remaining obligations', None, 'time budget used up'))
                pool.terminate()
                break
            r = res[key]
            r.obls += [Obl(*o) for o in obls]
            r.smt_queries += n
            r.smt_time += tm
            r.paths += np
            for a in leaf:
                r.functions.setdefault(a[0], (a[1], a[2]))
    _U.clear()
    return res, notes
