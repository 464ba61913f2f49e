"""Engine B: conjunctions of linear inequalities (a polyhedral domain, Fourier-Motzkin elimination)."""
from fractions import Fraction as Q
from . import terms as t


class TooMany(Exception):
    pass


def linear(p):
    """Coefficients (by atom) and constant of a linear polynomial, or None."""
    co, k = {}, Q(0)
    for m, c in p.t:
        if m == ():
            k += c
        elif len(m) == 1 and m[0][1] == 1:
            co[m[0][0]] = co.get(m[0][0], 0) + c
        else:
            return None
    return co, k


def of(r):
    """Linear form of a value, or None."""
    if not isinstance(r, t.Rat) or r.d.const() is None:
        return None
    l = linear(r.n)
    if l is None:
        return None
    d = r.d.const()
    return {a: c / d for a, c in l[0].items()}, l[1] / d


def ge(l):
    return (tuple(sorted(l[0].items())), l[1], False)


def gt(l):
    return (tuple(sorted(l[0].items())), l[1], True)


def neg(l):
    return {a: -c for a, c in l[0].items()}, -l[1]


def tidy(cs):
    """Drop trivial and repeated constraints; None if one is impossible."""
    best = {}
    for co, k, s in cs:
        co = tuple((a, c) for a, c in co if c)
        if not co:
            if k < 0 or s and k == 0:
                return None
            continue
        f = abs(co[0][1])
        key = tuple((a, c / f) for a, c in co)
        k = k / f
        if key not in best or (k, not s) < (best[key][0], not best[key][1]):
            best[key] = (k, s)
    if len(best) > 3000:
        raise TooMany()
    return [(co, k, s) for co, (k, s) in best.items()]


def point(cs):
    """A point (atom -> value) satisfying all constraints, or None if there is none."""
    cs = tidy(cs)
    if cs is None:
        return None
    names = {a for co, _, _ in cs for a, _ in co}
    if not names:
        return {}

    def cost(a):
        lo = sum(1 for co, _, _ in cs for b, c in co if b == a and c > 0)
        hi = sum(1 for co, _, _ in cs for b, c in co if b == a and c < 0)
        return lo * hi - lo - hi
    v = min(sorted(names), key=cost)
    lo, hi, rest = [], [], []
    for co, k, s in cs:
        d = dict(co)
        c = d.pop(v, 0)
        if not c:
            rest.append((co, k, s))
        else:
            # v >= -(d + k)/c  or  v <= ...
            (lo if c > 0 else hi).append(({a: -x / c for a, x in d.items()}, -k / c, s))
    for l, lk, ls in lo:
        for h, hk, hs in hi:
            d = dict(h)
            for a, x in l.items():
                d[a] = d.get(a, 0) - x
            rest.append((tuple(sorted(d.items())), hk - lk, ls or hs))
    p = point(rest)
    if p is None:
        return None
    # variables that vanished are free
    at = lambda l, k: k + sum(x * p.setdefault(a, Q(0)) for a, x in l.items())
    lows = sorted(((at(l, k), s) for l, k, s in lo), key=lambda z: (z[0], z[1]))
    his = sorted(((at(h, k), s) for h, k, s in hi), key=lambda z: (z[0], not z[1]))
    if lows and his:
        a, b = lows[-1], his[0]
        p[v] = a[0] if a[0] == b[0] else (a[0] + b[0]) / 2
    elif lows:
        p[v] = lows[-1][0] + 1
    elif his:
        p[v] = his[0][0] - 1
    else:
        p[v] = Q(0)
    return p


def cells(v, cs, limit=4000):
    """Leaves of a gated value with the constraints under which they apply; gates that are no
    linear comparisons give None constraints."""
    out = []

    def go(v, cs):
        if len(out) > limit:
            raise TooMany()
        if not isinstance(v, t.Ite):
            out.append((v, cs))
            return
        a = v.atom
        l = linear(a[1]) if isinstance(a, tuple) and a[0] in ('lt0', 'eq0') else None
        if l is None or cs is None:
            go(v.a, None)
            go(v.b, None)
            return
        n = neg(l)
        yes = [[gt(n)]] if a[0] == 'lt0' else [[ge(l), ge(n)]]
        no = [[ge(l)]] if a[0] == 'lt0' else [[gt(l)], [gt(n)]]
        for sub, ways in ((v.a, yes), (v.b, no)):
            for w in ways:
                c2 = cs + w
                if point(c2) is not None:
                    go(sub, c2)
    go(v, list(cs))
    return out
