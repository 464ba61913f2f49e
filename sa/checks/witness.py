"""Refuting a derived formula: a sign-respecting valuation of its input symbols under which it differs from the expected one."""
import random
import time
from fractions import Fraction as Q
from ..b import terms as t
from ..b.terms import T, F, Ite, Rat, Poly

POOL = [Q(k) for k in (-3, -2, -1, 0, 1, 2, 3, 5)] + [Q(1, 2), Q(-1, 2), Q(1, 3), Q(2, 3), Q(-5, 3), Q(7, 2), Q(1, 5)]


class Foreign(Exception):
    """The formula uses something other than the input symbols."""


def symbols(v, acc=None, seen=None):
    """Input symbols of a formula."""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(v, Ite):
        if id(v) in seen:
            return acc
        seen.add(id(v))
        symbols(v.atom, acc, seen)
        symbols(v.a, acc, seen)
        symbols(v.b, acc, seen)
    elif isinstance(v, Rat):
        symbols(v.n, acc)
        symbols(v.d, acc)
    elif isinstance(v, Poly):
        acc |= {t.atom_of(a) for a in v.atoms()}
    elif isinstance(v, tuple):
        if v and v[0] in ('lt0', 'eq0'):
            symbols(v[1], acc, seen)
        else:
            for q in v:
                if isinstance(q, (tuple, Ite, Rat, Poly)):
                    symbols(q, acc, seen)
    return acc


def value(v, val):
    """Value of a formula under a valuation of its symbols."""
    if isinstance(v, Ite):
        return value(v.a if value(v.atom, val) else v.b, val)
    if v == T:
        return True
    if v == F:
        return False
    if isinstance(v, Poly):
        r = Q(0)
        for m, c in v.t:
            for a, e in m:
                a = t.atom_of(a)
                if a not in val:
                    raise Foreign(a)
                c = c * val[a] ** e
            r += c
        return r
    if isinstance(v, Rat):
        d = value(v.d, val)
        if d == 0:
            raise Foreign('division by zero')
        return value(v.n, val) / d
    if isinstance(v, tuple):
        if v and v[0] == 'lt0':
            return value(v[1], val) < 0
        if v and v[0] == 'eq0':
            return value(v[1], val) == 0
        if v and v[0] in ('tup', 'const', 'none', 'str'):
            return tuple(value(q, val) if isinstance(q, (tuple, Ite, Rat, Poly)) else q for q in v)
    raise Foreign(v)


def valuations(syms, signs, count=24, tries=4000):
    """Valuations of the symbols under which all listed polynomials have the listed signs."""
    rnd = random.Random(1)
    # facts about different symbols are met independently of each other
    groups = []
    for p, s in signs:
        m = symbols(p)
        g = (set(m), [(p, s)])
        rest = []
        for h in groups:
            if h[0] & g[0]:
                g = (g[0] | h[0], h[1] + g[1])
            else:
                rest.append(h)
        groups = rest + [g]
    free = set(syms).difference(*[g[0] for g in groups]) if groups else set(syms)
    groups += [({s}, []) for s in free]
    pools = []
    for ms, fs in sorted(groups, key=lambda g: sorted(map(repr, g[0]))):
        ms = sorted(ms, key=repr)
        fs = sorted(fs, key=lambda f: len(symbols(f[0])))
        got = []
        for _ in range(tries):
            val = {s: rnd.choice(POOL) for s in ms}
            if all(agrees(value(p, val), s) for p, s in fs):
                got.append(val)
                if len(got) >= count:
                    break
            if over():
                return
        if not got:
            return
        pools.append(got)
    for _ in range(count):
        val = {}
        for g in pools:
            val.update(rnd.choice(g))
        if over():
            return
        yield val


_spent = [0.0, None]


def over():
    """Time for refutations in this run is used up (what is then not refuted stays undecided)."""
    return _spent[1] is not None and _spent[0] + time.time() - _spent[1] > 25


def agrees(x, s):
    return x != 0 if s == 'nz' else (x > 0) - (x < 0) == s


def refute(v, signs, wrong, count=24, tries=4000):
    """A valuation for which wrong(value) holds, as text; None if none was found."""
    _spent[1] = time.time()
    try:
        syms = symbols(v)
        for p, _ in signs:
            symbols(p, syms)
        if any(not isinstance(s, tuple) or len(s) != 1 for s in syms):
            return None
        for val in valuations(syms, signs, count, tries):
            try:
                if wrong(v, val):
                    return ', '.join('%s = %s' % (s[0], x) for s, x in sorted(val.items()))
            except Foreign:
                continue
    except Foreign:
        pass
    finally:
        _spent[0] += time.time() - _spent[1]
        _spent[1] = None
    return None
