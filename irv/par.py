"""Extraction modules proved in parallel (one process per module)."""
import multiprocessing as mp
import time
from . import build
from . import contracts as C
from . import facts
from .hashunit import Obl
from . import runner
from .runner import Result


def _work(a):
    unit, fn, args = a
    t0 = time.time()
    n0, s0 = facts.STATS['smt'], facts.STATS['smt_time']
    obls, paths, funcs = [], 0, {}
    try:
        r = fn(*args)
        obls = [(o.name, o.ok, o.detail, o.model) for o in r[0]]
        paths = r[1]
        funcs = r[2]
    except build.BuildError as e:
        obls = [('extraction', None, str(e)[-1500:], None)]
    except MemoryError:
        obls = [(unit, None, 'out of memory', None)]
    except Exception:
        import traceback
        obls = [(unit, None, 'engine error: ' + traceback.format_exc()[-800:], None)]
    return unit, obls, paths, funcs, facts.STATS['smt'] - n0, facts.STATS['smt_time'] - s0, time.time() - t0


def run(tasks, budget=600):
    """tasks: [(unit, fn, args)], fn(*args) -> (obligations, paths, {function: contract}); {unit: Result}"""
    t0 = time.time()
    res = {}
    for u, _, _ in tasks:
        res[u] = Result(u)
    left = set(range(len(tasks)))
    build.workdir()
    with mp.get_context('fork').Pool(runner.CORES, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_work, tasks, chunksize=1)
        done = {u: 0 for u in res}
        for _ in range(len(tasks)):
            try:
                u, obls, np, fs, n, tm, wall = it.next(timeout=max(5, budget - (time.time() - t0)))
            except mp.TimeoutError:
                for u in res:
                    if not done[u]:
                        res[u].obls.append(Obl('remaining obligations', None, 'time budget used up'))
                pool.terminate()
                break
            r = res[u]
            done[u] += 1
            r.obls += [Obl(*o) for o in obls]
            r.paths += np
            r.smt_queries += n
            r.smt_time += tm
            r.wall += wall
            for f, role in fs.items():
                r.functions.setdefault(f, (role, 1))
    return res
