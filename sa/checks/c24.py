"""C24: fractional angles order directions and invert exactly (rational identities per octant)."""
from fractions import Fraction as Q
from math import comb
from .bcommon import program, fn, attempt, finish_engine, loc
from ..b import terms as t
from ..b.terms import T, F, NONE, Ite, Rat, ra, rc, top
from ..b.lib2 import Engine

M = 'plycutter.geometry.impl2d.frangle2d:'
VF, FV = M + 'vector_frangle', M + 'frangle_unit_square_vector'
P, S, TURN = ('p',), ('s',), ('turns',)


def lin(p):
    """Coefficients of 1, p, s, turns in a linear polynomial; None if it is something else."""
    r = {(): 0, P: 0, S: 0, TURN: 0}
    for m, c in p.t:
        if m == ():
            r[()] += c
        elif len(m) == 1 and m[0][1] == 1 and t.atom_of(m[0][0]) in r:
            r[t.atom_of(m[0][0])] += c
        else:
            return None
    return r


class AngleEngine(Engine):
    """Vectors are (p, s) with 0 < s < p up to signs and order; angles are integer + s with 0 < s < 1 + 8 turns."""

    def __init__(self, p):
        self.scale = None
        Engine.__init__(self, p, facts=self.known)

    def known(self, atom):
        if atom[0] not in ('lt0', 'eq0'):
            return None
        s = self.sign(atom[1])
        return None if s is None else s < 0 if atom[0] == 'lt0' else s == 0

    def sign(self, p):
        p = factor_out(p)
        co = {}
        deg = set()
        for m, c in p.t:
            k, d = 0, 0
            for i, e in m:
                if t.atom_of(i) not in (P, S):
                    return None
                d += e
                k += e if t.atom_of(i) == S else 0
                if t.atom_of(i) == P and self.scale != 'vector':
                    return None
            deg.add(d)
            co[k] = co.get(k, 0) + c
        if self.scale == 'vector' and len(deg) > 1:
            return None
        return interval_sign(co)

    def bin(self, op, x, y):
        if op == 'Mod' and isinstance(x, Rat) and isinstance(y, Rat) and y.const() is not None and y.const() > 0 and x.const() is None:
            r = lin(x.n) if x.d.const() == 1 else None
            d = y.const()
            if r is None or r[P] or r[TURN] % d:
                return top('modulo')
            lo, hi = sorted((r[()], r[()] + r[S]))
            j = lo // d
            if hi > (j + 1) * d:
                return top('modulo')
            return t.rsub(x, t.radd(rc(j * d), t.rmul(rc(r[TURN]), ra(TURN))))
        return Engine.bin(self, op, x, y)


def interval_sign(co):
    """Sign of a polynomial {power: coefficient} on the open unit interval, from its Bernstein coefficients."""
    n = max(co, default=0)
    bs = [sum(co.get(i, 0) * Q(comb(k, i), comb(n, i)) for i in range(k + 1)) for k in range(n + 1)]
    sg = {(x > 0) - (x < 0) for x in bs} - {0}
    if not sg:
        return 0
    return sg.pop() if len(sg) == 1 else None


def factor_out(p):
    """Divide by powers of p and s (both positive)."""
    for a in (P, S):
        i = t.aid(a)
        while p.t and all(any(x == i for x, e in m) for m, c in p.t):
            p = t.Poly({tuple((x, e - 1) if x == i else (x, e) for x, e in m if not (x == i and e == 1)): c for m, c in p.t})
    return p


def rot(v, k):
    """Clockwise by k quarter turns (y up)."""
    x, y = v
    for _ in range(k % 4):
        x, y = y, t.rneg(x)
    return x, y


def moebius(r):
    """(a, b, c, d) of (a s + b) / (c s + d) after p = 1, or None."""
    def co(p):
        c0 = c1 = 0
        for m, c in p.t:
            e = [x for x in m if t.atom_of(x[0]) == S]
            if any(t.atom_of(x[0]) not in (S, P) for x in m) or e and e[0][1] != 1:
                return None
            if e:
                c1 += c
            else:
                c0 += c
        return c1, c0
    n, d = co(r.n), co(r.d)
    return None if n is None or d is None else n + d


def run(R):
    R.explain = ('Gated value numbering of both conversions with the vector in each of the eight open octants and on each of '
                 'the eight rays between them (components are symbols of known sign and order), and the angle in each open '
                 'unit interval and at each integer, plus an arbitrary number of full turns. The resulting rational '
                 'functions are compared as identities; monotonicity follows from the sign of the determinant of the '
                 'linear fraction and from equal values at the shared rays.')
    R.rule('C24.direction', 'the angle depends on the direction only')
    R.rule('C24.order', 'the angle lies in [0, 8) and grows strictly with clockwise rotation')
    R.rule('C24.quarter', 'a quarter turn adds exactly 2, a half turn 4, modulo 8')
    R.rule('C24.inverse', 'angle to vector to angle is the identity modulo 8')
    p = program(R)
    fn(R, VF)
    fn(R, FV)
    e = AngleEngine(p)
    attempt(R, 'C24.order', 'vector to angle', lambda: forward(R, e), VF)
    attempt(R, 'C24.inverse', 'angle to vector', lambda: inverse(R, e), FV)
    finish_engine(R, e)


def angle(e, v, scale):
    e.scale = scale
    r, st = e.run(VF, [('tup', v)])
    return r, st.pend


def octant(k):
    p, s = ra(P), ra(S)
    return rot((p, t.rneg(s)) if k % 2 == 0 else (s, t.rneg(p)), k // 2)


def ray(k):
    p = ra(P)
    return rot((p, rc(0)) if k % 2 == 0 else (p, t.rneg(p)), k // 2)


def name(k):
    return 'octant %d' % k


def forward(R, e):
    f, g = {}, {}
    for kind, make, out in (('octant', octant, f), ('ray', ray, g)):
        for k in range(8):
            r, pend = angle(e, make(k), 'vector')
            R.count('directions evaluated')
            if pend == T:
                R.viol('C24.order', '%s %d' % (kind, k), 'a non-zero vector is refused', loc(R, VF), VF)
            elif pend != F or not isinstance(r, Rat):
                R.undecided('C24.order', '%s %d' % (kind, k), 'not determined: %s' % t.show(r, 80), loc(R, VF), VF)
            else:
                out[k] = r
    # direction only
    for kind, out in (('octant', f), ('ray', g)):
        for k, r in out.items():
            z = scaled(r)
            R.decide('C24.direction', '%s %d' % (kind, k), None if z is None else z == r, 'a scaled vector gives another angle: %s' % t.show(r, 80), loc(R, VF), VF)
    for k in range(8):
        if k in g:
            c = g[k].const()
            R.decide('C24.order', 'ray %d in range' % k, None if c is None else 0 <= c < 8, 'angle %s' % c, loc(R, VF), VF)
    for k in range(8):
        if k not in f:
            continue
        m = moebius(f[k])
        key = name(k)
        if m is None:
            R.undecided('C24.order', key, 'not a linear fraction: ' + t.show(f[k], 80), loc(R, VF), VF)
            continue
        a, b, c, d = m
        if d == 0 or c + d == 0 or (d > 0) != (c + d > 0):
            R.undecided('C24.order', key, 'pole within the octant', loc(R, VF), VF)
            continue
        # even octants run from s = 0 to s = p, odd ones back
        v0, v1 = Q(b) / d, Q(a + b) / (c + d)
        up = a * d - b * c > 0
        start, end = (v0, v1) if k % 2 == 0 else (v1, v0)
        R.decide('C24.order', key + ' increases', (up if k % 2 == 0 else a * d - b * c < 0), 'the angle does not grow clockwise: %s' % t.show(f[k], 80), loc(R, VF), VF)
        for at, kk, v in (('start', k, start), ('end', (k + 1) % 8, end)):
            w = g.get(kk)
            w = w.const() if w is not None else None
            if w is None:
                R.undecided('C24.order', '%s: %s' % (key, at), 'value on the ray not determined', loc(R, VF), VF)
                continue
            w = 8 if at == 'end' and k == 7 and w == 0 else w
            R.decide('C24.order', '%s: %s' % (key, at), v == w, 'tends to %s where the ray itself has %s' % (v, w), loc(R, VF), VF)
    for kind, out in (('octant', f), ('ray', g)):
        for k in range(8):
            for turn in (2, 4):
                j = (k + turn) % 8
                if k in out and j in out:
                    want = t.radd(out[k], rc(turn if k + turn < 8 else turn - 8))
                    R.decide('C24.quarter', '%s %d to %d' % (kind, k, j), out[j] == want, 'angle %s instead of %s' % (t.show(out[j], 60), t.show(want, 60)), loc(R, VF), VF)
    # the diagonal and the axis rays are distinct
    zero, pend = angle(e, (rc(0), rc(0)), 'vector')
    R.decide('C24.direction', 'the zero vector is refused', True if pend == T else None if pend != F else False, 'the zero vector gets an angle', loc(R, VF), VF)


def scaled(r):
    """The value with p and s both doubled ... by a symbol."""
    k = ra(('k',))

    def poly(p):
        s = rc(0)
        for m, c in p.t:
            x = rc(c)
            for i, e in m:
                for _ in range(e):
                    a = ra(t.atom_of(i))
                    x = t.rmul(x, t.rmul(a, k) if t.atom_of(i) in (P, S) else a)
            s = t.radd(s, x)
        return s
    return t.rdiv(poly(r.n), poly(r.d))


def inverse(R, e):
    for k in range(8):
        for kind, base in (('after %d' % k, t.radd(rc(k), ra(S))), ('at %d' % k, rc(k))):
            for turns in (0, 1, -1, 'any'):
                x = t.radd(base, rc(8 * turns) if turns != 'any' else t.rmul(rc(8), ra(TURN)))
                key = 'angle %s%s' % (kind, '' if turns == 0 else ', %s full turn%s' % (turns, 's' if turns == 'any' else ''))
                e.scale = 'angle'
                R.count('angles evaluated')
                v, st = e.run(FV, [x])
                v = e.content(v, st) if isinstance(v, tuple) and v[0] == 'ref' else v
                if st.pend == T:
                    R.viol('C24.inverse', key, 'the angle is refused', loc(R, FV), FV)
                    continue
                if st.pend != F or not isinstance(v, tuple) or v[0] not in ('tup', 'arr') or len(v[1]) != 2:
                    R.undecided('C24.inverse', key, 'vector not determined: %s' % t.show(v, 60), loc(R, FV), FV)
                    continue
                r, st2 = e.run(VF, [v])
                if st2.pend == T:
                    R.viol('C24.inverse', key, 'the vector %s has no angle' % t.show(v, 60), loc(R, FV), FV)
                elif st2.pend != F or not isinstance(r, Rat):
                    R.undecided('C24.inverse', key, 'angle of the vector not determined: %s' % t.show(r, 60), loc(R, FV), FV)
                else:
                    R.decide('C24.inverse', key, r == base, 'the angle comes back as %s' % t.show(r, 60), loc(R, FV), FV)
