#!/usr/bin/env python3-vt
"""check.py <property>: decides one property of /repo's current tree."""
import os
import signal
import subprocess
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
from irv import build, hashunit, props, report, runner  # noqa: E402


class OutOfTime(Exception):
    pass


def stop(sig, frame):
    # the workers and drivers of this check
    ps = subprocess.run(['ps', '-e', '-o', 'pid=,ppid='], stdout=subprocess.PIPE, text=True).stdout.split()
    kids = {}
    for p, q in zip(ps[::2], ps[1::2]):
        kids.setdefault(int(q), []).append(int(p))
    todo = [os.getpid()]
    for p in todo:
        todo += kids.get(p, [])
    for p in todo[1:]:
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass
    raise OutOfTime('the check used up its time')


if __name__ == '__main__':
    if len(sys.argv) != 2 or sys.argv[1] not in props.ALL:
        print('usage: check.py ' + '|'.join(sorted(props.ALL)))
        sys.exit(2)
    signal.signal(signal.SIGALRM, stop)
    if os.environ.get('VERIF_TIER', 'quick') != 'thorough':
        signal.alarm(850)
    try:
        rc = props.ALL[sys.argv[1]]()
        signal.alarm(0)
    except Exception as e:
        # nothing was decided: no alarm, and the evidence says so
        signal.alarm(0)
        traceback.print_exc()
        rep = report.CURRENT or report.Report(sys.argv[1])
        r = runner.Result('check')
        r.obls.append(hashunit.Obl('the rest of the check', None, repr(e)[:300]))
        rep.add('check', r)
        rc = rep.finish()
        build.clean()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
    sys.stdout.flush()
    sys.exit(rc)
