"""Shared by the checks that run Engine A."""
import ast
import time
from .. import drive
from ..absint import Unsupported
from ..report import Broken


def analyse(R, names, start=None, sweep=False, **config):
    """Run Engine A; returns (I, {driver: {function: summary key}})."""
    config.setdefault('kg', 1)
    config.setdefault('km', 2)
    t = time.time()
    try:
        I = drive.build(names, root=R.root, **config)
    except SyntaxError as e:
        raise Broken('source does not parse: %s' % e)
    keys = {}
    for n in names:
        keys[n] = drive.start(I, n, (start or {}).get(n))
    I.run()
    if sweep:
        R.count('functions analysed on unknown arguments', len(drive.sweep(I)))
    I.finish()
    R.count('functions analysed', len({k[0] for k in I.sums}))
    R.count('calling contexts analysed', len(I.sums))
    R.count('abstract objects', len(I.heap))
    R.count('statements reached', len(I.reached))
    R.lost = R.lost or lost(I)
    R.count('analysis seconds', round(time.time() - t, 1))
    return I, keys


def lost(I):
    """A place where the analysis finds no value in any context, although nothing is known to fail there: what follows
    has not been analysed.  Failures that are understood (raise, a call that never returns, a noted misuse) do not count."""
    known = {(k[1], v['line']) for k, v in I.log.items() if k[0] in ('use', 'raise') and isinstance(v, dict) and 'line' in v}
    dead = [k for k in I.dead if not I.live.get(k) and not is_driver(k[0]) and (k[0], k[1]) not in known]
    quiet = set()
    for m in I.p.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Assert, ast.Raise)):
                quiet.add((m.rel, x.lineno, x.end_lineno))
    for k in sorted(dead):
        if any(o != k and o[0] == k[0] and (o[1], o[2]) >= (k[1], k[2]) and (o[3], o[4]) <= (k[3], k[4]) for o in dead):
            continue
        if any(q[0] == k[0] and q[1] <= k[1] and k[3] <= q[2] for q in quiet) or stops(I, k):
            continue
        return '%s:%d' % (k[0], k[1])
    return None


def stops(I, k):
    """Is the expression a call of code of the repository (which is looked at itself)?"""
    for m in I.p.modules.values():
        if m.rel != k[0]:
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and (x.lineno, x.col_offset, x.end_lineno, x.end_col_offset) == k[1:]:
                f = x.func
                n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
                return any(fid.split(':')[-1].split('.')[-1] == n for fid in I.p.func_by_fid)
    return False


def notes(I, kind):
    """(key, info) of all notes of this kind located in the repository."""
    return [(k, v) for k, v in sorted(I.log.items(), key=lambda x: str(x[0]))
            if k[0] == kind and not is_driver(k[1])]


def is_driver(rel):
    return 'drv_' in rel or '/drivers/' in rel or not rel.startswith('plycutter')


def where(v):
    return '%s:%s' % (v['file'], v['line'])


def place(v):
    """Identifies a construct across unrelated edits: file and function."""
    return '%s:%s' % (v['file'], v['func'])
