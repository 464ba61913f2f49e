#!/usr/bin/env python3
"""check.py Cnn: decides one property of /repo's current source by static analysis."""
import importlib
import os
import resource
import signal
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa import report  # noqa


class Late(Exception):
    """An obligation took too long; it stays undecided."""


def late(*a):
    signal.alarm(3)
    raise Late('out of time')


def main():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    signal.signal(signal.SIGALRM, late)
    signal.alarm(600)
    if sys.argv[1:] == ['--selftest']:
        for n in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa', 'checks'))):
            if n.startswith('c') and n.endswith('.py'):
                importlib.import_module('sa.checks.' + n[:-3])
        print('checks import')
        return
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    root = os.environ.get('SA_REPO', '/repo')
    R = report.Report(pid, tier, root)
    try:
        mod = importlib.import_module('sa.checks.' + pid.lower())
        mod.run(R)
        signal.alarm(0)
    except Late:
        R.undecided('time', 'the whole analysis', 'stopped after 600 s')
    except report.Broken as e:
        R.broken(str(e))
    except Exception:
        import traceback
        traceback.print_exc()
        R.broken('internal error of the analysis')
    signal.alarm(0)
    sys.exit(R.finish())


if __name__ == '__main__':
    main()
