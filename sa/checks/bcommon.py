"""Shared by the checks built on the gated value graph (engine B)."""
import sys
from .. import frontend
from ..b import terms as t
from ..b.terms import T, F, Ite, Rat, Giveup

sys.setrecursionlimit(20000)


def program(R):
    p = frontend.Program(R.root)
    R.p = p
    R.count('modules read', len(p.modules))
    return p


def fn(R, fid):
    """A function of the public interface; its absence makes the analysis meaningless."""
    R.require(fid in R.p.func_by_fid, 'function %s not found' % fid)
    return R.p.func_by_fid[fid]


def loc(R, fid):
    fi = R.p.func_by_fid.get(fid)
    return '%s:%d' % (fi.module.rel, fi.line) if fi else None


def attempt(R, rule, key, f, fid=None):
    """Run one obligation; whatever the analysis cannot represent stays undecided."""
    try:
        return f()
    except Giveup as e:
        R.undecided(rule, key, 'not representable: %s' % e, loc(R, fid), fid)
    except RecursionError:
        R.undecided(rule, key, 'too deep', loc(R, fid), fid)
    except Exception as e:
        if getattr(R, 'debug', False):
            raise
        R.undecided(rule, key, 'analysis does not apply (%s: %s)' % (type(e).__name__, str(e)[:80]), loc(R, fid), fid)
    return None


def words(v, acc=None, seen=None):
    """Names of uninterpreted functions in a value."""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(v, Ite):
        if id(v) not in seen:
            seen.add(id(v))
            words(v.atom, acc, seen)
            words(v.a, acc, seen)
            words(v.b, acc, seen)
    elif isinstance(v, Rat):
        for a in v.atoms():
            words(t.atom_of(a), acc, seen)
    elif isinstance(v, t.Poly):
        for a in v.atoms():
            words(t.atom_of(a), acc, seen)
    elif isinstance(v, tuple):
        if len(v) >= 2 and v[0] == 'app' and isinstance(v[1], str):
            acc.add(v[1])
        for x in v:
            if isinstance(x, (tuple, Ite, Rat, t.Poly)):
                words(x, acc, seen)
    return acc


def diff(a, b, n=300):
    """A short description of where two gated values differ."""
    cond = []
    while isinstance(a, Ite) or isinstance(b, Ite):
        at = None
        for x in (a, b):
            if isinstance(x, Ite):
                i = t.aid(('g', x.atom))
                if at is None or i < at[0]:
                    at = (i, x.atom)
        at = at[1]
        a1, b1 = t.cof(a, at, True), t.cof(b, at, True)
        a0, b0 = t.cof(a, at, False), t.cof(b, at, False)
        if a1 != b1:
            a, b = a1, b1
            cond.append(t.show(at, 70))
        else:
            a, b = a0, b0
            cond.append('not ' + t.show(at, 70))
    s = 'when %s: ' % ' and '.join(cond) if cond else ''
    return (s + 'got %s, expected %s' % (t.show(a, 90), t.show(b, 90)))[:n]


def same(R, rule, key, got, want, fid=None, what='', allowed=()):
    """Equality of two canonical values; unknown parts or vocabulary leave it open."""
    if got is None or t.has_top(got):
        why = next((x for x in tops(got)), '') if got is not None else ''
        R.undecided(rule, key, 'value not determined: %s' % (why,), loc(R, fid), fid)
        return None
    if got == want:
        R.ok(rule, key, None, loc(R, fid))
        return True
    new = words(got) - words(want) - set(allowed)
    if new:
        R.undecided(rule, key, 'uses %s, which is not interpreted' % ', '.join(sorted(map(str, new))[:3]), loc(R, fid), fid)
        return None
    R.viol(rule, key, (what + ': ' if what else '') + diff(got, want), loc(R, fid), fid)
    return False


def tops(v, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, Ite):
        if id(v) not in seen:
            seen.add(id(v))
            yield from tops(v.atom, seen)
            yield from tops(v.a, seen)
            yield from tops(v.b, seen)
    elif isinstance(v, Rat):
        for a in v.atoms():
            yield from tops(t.atom_of(a), seen)
    elif isinstance(v, tuple):
        if v[:1] == ('top',):
            yield v[1]
        else:
            for x in v:
                if isinstance(x, (tuple, Ite, Rat)):
                    yield from tops(x, seen)


def verdict(R, rule, key, cond, want, fid=None, detail=''):
    """A gated condition that must be constantly true / false."""
    if cond == want:
        R.ok(rule, key, None, loc(R, fid))
        return True
    other = F if want == T else T
    if cond == other:
        R.viol(rule, key, detail, loc(R, fid), fid)
        return False
    R.undecided(rule, key, 'condition not determined: ' + t.show(cond, 120), loc(R, fid), fid)
    return None


def finish_engine(R, e):
    R.count('functions evaluated', len({x for x in e.entered}))
    R.count('statements evaluated', len(e.visited))
