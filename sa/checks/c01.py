"""C01: geometry on exact inputs stays exact."""
import ast
from .common import analyse, notes, where, place
from ..absint import FLOATK

FUNCS = ('one_dimensional', 'two_dimensional', 'buffered', 'boxes', 'trees', 'angles', 'primitives', 'conversions')


def deep(I, v, seen, out):
    """Number kinds and rounding marks of everything reachable from a value."""
    out[1].update(x for x in v[1] if x[0] in ('FR', 'SQRT'))
    for a in v[0]:
        if a[0] == 'n':
            out[0].add(a[1])
            if a[1] in FLOATK and not (a[2] and a[2][0] == 'c' and float(a[2][1]).is_integer()):
                out[0].add('rounded')
        elif a[0] in ('x', 'xa'):
            out[2].add(a[1])
        elif a[0] == 'o' and a[1] not in seen:
            seen.add(a[1])
            o = I.heap[a[1]]
            if o.kind in ('frame', 'module', 'classobj'):
                continue
            for x in o.f.values():
                deep(I, x, seen, out)


def formatting(I, p, rel, line):
    """Is this line inside a function that only makes text for messages?"""
    fi = enclosing(p, rel, line)
    while fi is not None:
        n = fi.name
        if 'str' in n.lower() or 'repr' in n.lower() or 'log' in n.lower():
            return True
        fi = fi.parent if not isinstance(fi.parent, str) else None
    return False


def enclosing(p, rel, line):
    best = None
    for fi in p.func_by_fid.values():
        if fi.module.rel == rel and fi.node.lineno <= line <= fi.node.end_lineno:
            if best is None or fi.node.lineno >= best.node.lineno:
                best = fi
    return best


def run(R):
    R.explain = ('Abstract interpretation of every public geometry operation on unknown exact rationals: each '
                 'number carries its kind (rational, integer, float, infinity) and a mark saying where a rounding '
                 'happened; the marks follow the data through the whole geometry code. A returned number that '
                 'is a float or carries the mark, or a branch on such a number, is a violation.')
    R.rule('C01.value', 'what the operation returns is exact: no rounded value, the square root only in buffers')
    R.rule('C01.decision', 'no branch, assertion or comparison in the geometry code looks at a rounded value')
    R.rule('C01.tolerance', 'no geometric comparison is against a non-integral floating-point constant')
    R.rule('C01.radius', 'the square root of the disc polygon re-enters the computation as an exact rational')
    seen_sinks = 0
    branches = set()
    for fn in FUNCS:
        I, keys = analyse(R, ['exact'], {'exact': [fn]}, tracked=('FR', 'SQRT'), kg=2, km=2)
        k = next(iter(keys['exact'].values()))
        if not I.sums[k].returns:
            R.undecided('C01.value', fn, 'the operation cannot be analysed to its end')
        for (kind, rel, line, col, key), v in sorted(I.log.items(), key=str):
            if kind == 'sink':
                seen_sinks += 1
                out = (set(), set(), set())
                for i in v['all']:
                    deep(I, i['value'], set(), out)
                bad = sorted({t[1] for t in out[1] if t[0] == 'FR'})
                if bad:
                    R.viol('C01.value', '%s %s' % (fn, key), 'the result of %s (%s) is computed through a rounded value' % (fn, key),
                           bad[0], func_at(I, bad[0]))
                    continue
                sq = sorted({t[1] for t in out[1] if t[0] == 'SQRT'})
                if sq and fn != 'buffered':
                    R.viol('C01.value', '%s %s' % (fn, key), 'the result of %s (%s) depends on a square root' % (fn, key), sq[0], func_at(I, sq[0]))
                    continue
                if 'rounded' in out[0] and key not in ('aabb tests',):
                    R.viol('C01.value', '%s %s' % (fn, key), 'the result of %s (%s) may be a floating-point number' % (fn, key))
                    continue
                R.decide('C01.value', '%s %s %d' % (fn, key, line), None if out[2] else True,
                         'kinds %s%s' % (', '.join(sorted(out[0])) or 'none', '; part not analysed' if out[2] else ''))
            elif kind in ('branch', 'assert', 'cmp_tol') and rel.startswith('plycutter/'):
                if kind == 'cmp_tol':
                    if rel.startswith('plycutter/geometry/') and key:
                        R.viol('C01.tolerance', place(v), 'compared with the floating-point constant %s' % (key,), where(v), v['func'])
                    continue
                ts = set()
                for i in v['all']:
                    ts |= {x for x in i.get('taints', i.get('cond_t', ())) if x[0] == 'FR'}
                fi = enclosing(I.p, rel, line)
                if fi is None or formatting(I, I.p, rel, line):
                    continue
                branches.add((rel, line, col))
                if ts:
                    R.viol('C01.decision', '%s:%s' % (rel, v['func']), 'decides on a value rounded at %s' % sorted(ts)[0][1], where(v), v['func'])
        roots = {t[1] for kk, v in I.log.items() if kk[0] == 'sink' for i in v['all'] for t in root_marks(I, i['value'])}
        if fn == 'buffered':
            R.decide('C01.radius', 'buffer radius', None if not roots else True,
                     'square root taken at %s, exact afterwards' % ', '.join(sorted(roots)))
    R.count('returned values examined', seen_sinks)
    R.count('branches and assertions examined', len(branches))
    R.ok('C01.decision', 'branches', '%d branches and assertions examined' % len(branches))
    R.require(seen_sinks >= 20, 'only %d returned values found' % seen_sinks)
    R.require(len(branches) >= 60, 'only %d branches found' % len(branches))


def root_marks(I, v):
    out = (set(), set(), set())
    deep(I, v, set(), out)
    return {t for t in out[1] if t[0] == 'SQRT'}


def func_at(I, at):
    rel, _, line = at.rpartition(':')
    fi = enclosing(I.p, rel, int(line)) if line.isdigit() else None
    return fi.name if fi is not None else ''
