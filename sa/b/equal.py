"""Engine B: two gated conditions agree, by case splitting and linear reasoning over monomials."""
from . import poly
from . import terms as t
from .terms import T, F, Ite


def lin(p):
    """Coefficients by monomial (each monomial counts as an unknown of its own)."""
    co, k = {}, 0
    for m, c in p.t:
        if m == ():
            k += c
        else:
            co[m] = co.get(m, 0) + c
    return co, k


def mono_signs(ps, known):
    """Constraints on the monomials whose factors all have a known sign, or even powers."""
    out = {}
    for m in {m for p in ps for m, _ in p.t if m}:
        s, strict = 1, True
        for a, k in m:
            if k % 2:
                s = s * known[a] if a in known else None
            elif known.get(a) == 0:
                s = 0
            elif a not in known:
                strict = False
            if s is None:
                break
        if s is not None:
            out[m] = s, strict
    res = []
    for m, (s, strict) in sorted(out.items()):
        if s == 0:
            res += sides(({m: 1}, 0), 0)
        else:
            res.append((poly.gt if strict else poly.ge)(({m: s}, 0)))
    return res


def polys(v, acc=None, seen=None):
    acc, seen = ([], set()) if acc is None else (acc, seen)
    if isinstance(v, Ite) and id(v) not in seen:
        seen.add(id(v))
        if v.atom[0] in ('lt0', 'eq0'):
            acc.append(v.atom[1])
        polys(v.a, acc, seen)
        polys(v.b, acc, seen)
    return acc


def sides(l, s):
    """Constraint: the linear form has sign s."""
    return [poly.gt(l)] if s > 0 else [poly.gt(poly.neg(l))] if s < 0 else [poly.ge(l), poly.ge(poly.neg(l))]


def differ(v, w, facts, limit=4000):
    """A gate path on which the two conditions differ and which linear reasoning does not exclude, or None."""
    x = t.gor(t.gand(v, t.gnot(w)), t.gand(t.gnot(v), w))
    n = [0]

    def go(x, cs, pre):
        n[0] += 1
        if n[0] > limit:
            raise poly.TooMany()
        if x == F:
            return None
        if poly.point(cs) is None:
            return None
        if x == T:
            return pre
        a = x.atom
        if a[0] not in ('lt0', 'eq0'):
            return pre
        l = lin(a[1])
        if a[0] == 'lt0':
            return go(x.a, cs + sides(l, -1), pre + ((a, True),)) or go(x.b, cs + [poly.ge(l)], pre + ((a, False),))
        return (go(x.a, cs + sides(l, 0), pre + ((a, True),)) or go(x.b, cs + sides(l, 1), pre + ((a, False),))
                or go(x.b, cs + sides(l, -1), pre + ((a, False),)))
    return go(x, list(facts), ())


def minus(p):
    return p.add(p, -2)


def times(p, q):
    """c with p == c * q, or None."""
    if not p.t or not q.t or len(p.t) != len(q.t):
        return None
    d = dict(q.t)
    c = None
    for m, k in p.t:
        if m not in d or c is not None and k / d[m] != c:
            return None
        c = k / d[m]
    return c


def same(v, w, signs, squares):
    """Equality of two conditions.
    signs: {atom id: sign}; squares: [(r, d)] polynomials with r >= 0."""
    cases = [[]]
    for r, d in squares:
        # |d| against r decides every comparison of the squares
        cases = [c + [(r, d, s, k)] for c in cases for s in (-1, 0, 1) for k in (-1, 0, 1)]
    for c in cases:
        fs, kn = [], []
        for r, d, s, k in c:
            m = d if s >= 0 else minus(d)
            fs += [poly.ge(lin(r))] + sides(lin(d), s) + sides(lin(r.add(m, -1)), k)
            kn.append((r.mul(r).add(d.mul(d), -1), k))

        def know(a):
            if a[0] not in ('lt0', 'eq0'):
                return None
            for p, k in kn:
                f = times(a[1], p)
                if f is not None:
                    z = k if f > 0 else -k
                    return z < 0 if a[0] == 'lt0' else z == 0
            return None
        vv, ww = t.restrict(v, know), t.restrict(w, know)
        if vv == ww:
            continue
        fs = fs + mono_signs([p for p in polys(vv) + polys(ww)] + [r for r, d, s, k in c] + [d for r, d, s, k in c], signs)
        if differ(vv, ww, fs) is not None:
            return False
    return True
