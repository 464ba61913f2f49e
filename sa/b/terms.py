"""Engine B: canonical values (rational functions, gated values) for value numbering."""
from fractions import Fraction as Q

_ids = {}
_rev = []
LIMIT = 4000


class Giveup(Exception):
    """The value cannot be represented; callers turn this into an unknown value."""


def aid(atom):
    """Order in which an atom was first met: a stable total order on atoms."""
    i = _ids.get(atom)
    if i is None:
        i = _ids[atom] = len(_rev)
        _rev.append(atom)
    return i


def atom_of(i):
    return _rev[i]


class Poly:
    """Polynomial with rational coefficients over atoms, in canonical form."""
    __slots__ = ('t', 'h')

    def __init__(self, d):
        self.t = tuple(sorted((m, c) for m, c in d.items() if c))
        self.h = hash(self.t)
        if len(self.t) > 400:
            raise Giveup('polynomial too large')

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __repr__(self):
        return ' + '.join('%s%s' % ('' if c == 1 and m else '%s*' % c if m else c, '*'.join(
            '%s%s' % (show(atom_of(a)), '' if e == 1 else '^%d' % e) for a, e in m)) for m, c in self.t) or '0'

    def const(self):
        if not self.t:
            return Q(0)
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def add(self, o, k=1):
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + k * c
        return Poly(d)

    def mul(self, o):
        d = {}
        for m, c in self.t:
            for n, e in o.t:
                x = dict(m)
                for a, p in n:
                    x[a] = x.get(a, 0) + p
                k = tuple(sorted(x.items()))
                d[k] = d.get(k, 0) + c * e
        return Poly(d)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.t})

    def atoms(self):
        return {a for m, c in self.t for a, e in m}

    def divides_into(self, n):
        """n / self if exact, else None (multivariate division by the leading term)."""
        if not self.t:
            return None
        lm, lc = self.lead()
        q, r, steps = Poly({}), n, 0
        while r.t:
            steps += 1
            if steps > 60:
                return None
            rm, rc = r.lead()
            x = dict(rm)
            for a, e in lm:
                x[a] = x.get(a, 0) - e
                if x[a] < 0:
                    return None
            t = Poly({tuple(sorted((a, e) for a, e in x.items() if e)): rc / lc})
            q = q.add(t)
            r = r.add(t.mul(self), -1)
        return q

    def lead(self):
        # a monomial order: lexicographic on exponent vectors by atom number
        def key(mc):
            return sorted(((-a, e) for a, e in mc[0]), reverse=True)
        return max(self.t, key=lambda mc: LexKey(mc[0]))


class LexKey:
    __slots__ = ('d',)

    def __init__(self, m):
        self.d = dict(m)

    def __lt__(self, o):
        for a in sorted(set(self.d) | set(o.d)):
            x, y = self.d.get(a, 0), o.d.get(a, 0)
            if x != y:
                return x < y
        return False


def pconst(c):
    return Poly({(): Q(c)})


def patom(atom):
    return Poly({((aid(atom), 1),): Q(1)})


ONE = pconst(1)
ZERO = pconst(0)


class Rat:
    """num / den; equality by cross multiplication, light reduction."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=ONE):
        if not d.t:
            raise Giveup('division by zero')
        if d != ONE:
            if not n.t:
                d = ONE
            else:
                q = d.divides_into(n)
                if q is not None:
                    n, d = q, ONE
                else:
                    q = n.divides_into(d) if n.const() is None else None
                    if q is not None:
                        n, d = ONE, q
                    else:
                        n, d = mono_gcd(n, d)
                k = d.t[0][1]
                if k != 1:
                    n, d = n.scale(1 / k), d.scale(1 / k)
        self.n, self.d = n, d

    def __eq__(self, o):
        return isinstance(o, Rat) and (self.n == o.n and self.d == o.d or self.n.mul(o.d) == o.n.mul(self.d))

    def __hash__(self):
        return hash(('rat', self.n.h, self.d.h))

    def __repr__(self):
        return repr(self.n) if self.d == ONE else '(%r)/(%r)' % (self.n, self.d)

    def const(self):
        if self.d == ONE:
            return self.n.const()
        return None

    def atoms(self):
        return self.n.atoms() | self.d.atoms()


def mono_gcd(n, d):
    """Cancel the common monomial factor."""
    g = None
    for p in (n, d):
        for m, c in p.t:
            x = dict(m)
            g = x if g is None else {a: min(e, x[a]) for a, e in g.items() if a in x}
    if not g:
        return n, d

    def cut(p):
        return Poly({tuple((a, e - g.get(a, 0)) for a, e in m if e - g.get(a, 0)): c for m, c in p.t})
    return cut(n), cut(d)


def rc(c):
    return Rat(pconst(c))


def ra(atom):
    return Rat(patom(atom))


def radd(a, b):
    if a.d == b.d:
        return Rat(a.n.add(b.n), a.d)
    return Rat(a.n.mul(b.d).add(b.n.mul(a.d)), a.d.mul(b.d))


def rneg(a):
    return Rat(a.n.scale(-1), a.d)


def rsub(a, b):
    return radd(a, rneg(b))


def rmul(a, b):
    return Rat(a.n.mul(b.n), a.d.mul(b.d))


def rdiv(a, b):
    return Rat(a.n.mul(b.d), a.d.mul(b.n))


# ------------------------------------------------------------------ leaf values
# Rat | ('c', python constant) | ('tup', items) | ('arr', items) | ('ref', oid)
# | ('rec', cid, ((field, value),...)) | ('sym', name, cid) | ('app', f, args...)
# | ('fn', ...) | ('cls', cid) | ('ext', dotted) | ('mod', name) | ('inf', sign) | ('nan',)
# | ('top', why) | ('raise',)
# gated: Ite(atom, a, b)

class Ite:
    """A gate; equal gates are the same object."""
    __slots__ = ('atom', 'a', 'b', 'h', 'top')
    _all = {}
    left = None      # gates that may still be made in this evaluation

    def __new__(cls, atom, a, b):
        if cls.left is not None:
            cls.left -= 1
            if cls.left < 0:
                raise Giveup('gated value too large')
        k = (atom, a, b)
        r = cls._all.get(k)
        if r is None:
            if len(cls._all) > 3000000:
                raise Giveup('gated value too large')
            r = object.__new__(cls)
            r.atom, r.a, r.b = k
            r.h = hash(k)
            r.top = None
            cls._all[k] = r
        return r

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return 'if[%s](%s; %s)' % (show(self.atom), show(self.a), show(self.b))


T, F, NONE = ('c', True), ('c', False), ('c', None)


def top(why='unknown'):
    return ('top', why)


def is_top(v):
    return isinstance(v, tuple) and v[:1] == ('top',)


def has_top(v):
    if isinstance(v, Ite):
        if v.top is None:
            v.top = has_top(v.a) or has_top(v.b)
        return v.top
    if isinstance(v, Rat):
        return any(has_top(atom_of(x)) for x in v.atoms())
    if isinstance(v, tuple):
        if v[:1] == ('top',):
            return True
        return any(has_top(x) for x in v if isinstance(x, (tuple, Ite, Rat)))
    return False


def show(v, n=160):
    if n < 12:
        return '...'
    try:
        return _show(v, n)
    except Exception:
        return '<%s>' % type(v).__name__


def _show(v, n):
    if isinstance(v, Ite):
        m = n // 3
        s = 'if[%s](%s; %s)' % (show(v.atom, m + 20), show(v.a, m), show(v.b, m))
    elif isinstance(v, tuple) and v:
        if v[0] == 'c':
            s = repr(v[1])
        elif v[0] == 'sym':
            s = str(v[1])
        elif v[0] in ('tup', 'arr'):
            s = '(%s)' % ', '.join(show(x, 60) for x in v[1])
        elif v[0] == 'app':
            s = '%s(%s)' % (v[1], ', '.join(show(x, 60) for x in v[2:]))
        elif v[0] == 'rec':
            s = '%s{%s}' % (v[1].split('.')[-1], ', '.join('%s=%s' % (k, show(x, 60)) for k, x in v[2]))
        else:
            s = '%s(%s)' % (v[0], ', '.join(show(x, 60) for x in v[1:])) if isinstance(v[0], str) else '(%s)' % ', '.join(show(x, 60) for x in v)
    else:
        s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + '...'


def ite(atom, a, b):
    if a == b:
        return a
    return mk(atom, a, b)


def mk(atom, a, b):
    """Ordered gate: the atom with the smallest number on top."""
    i = aid(('g', atom))
    ta = aid(('g', a.atom)) if isinstance(a, Ite) else None
    tb = aid(('g', b.atom)) if isinstance(b, Ite) else None
    m = min(x for x in (i, ta, tb) if x is not None)
    if m == i:
        a = a.a if ta == i else a
        b = b.b if tb == i else b
        return a if a == b else Ite(atom, a, b)
    top_atom = atom_of(m)[1]
    a1, a0 = (a.a, a.b) if ta == m else (a, a)
    b1, b0 = (b.a, b.b) if tb == m else (b, b)
    return ite(top_atom, mk(atom, a1, b1), mk(atom, a0, b0))


_count = [0]


def apply(f, *vs):
    """Apply a function of leaf values to gated values."""
    memo = {}

    def go(*xs):
        k = xs
        if k in memo:
            return memo[k]
        best, which = None, None
        for x in xs:
            if isinstance(x, Ite):
                i = aid(('g', x.atom))
                if best is None or i < best:
                    best, which = i, x.atom
        if which is None:
            r = f(*xs)
        else:
            if len(memo) > LIMIT:
                raise Giveup('gated value too large')
            r = ite(which, go(*[x.a if isinstance(x, Ite) and x.atom == which else x for x in xs]),
                    go(*[x.b if isinstance(x, Ite) and x.atom == which else x for x in xs]))
        memo[k] = r
        return r
    return go(*vs)


def restrict(v, know):
    """Simplify under known atoms: know(atom) -> True / False / None."""
    memo = {}

    def go(v):
        if not isinstance(v, Ite):
            return v
        r = memo.get(v)
        if r is None:
            k = know(v.atom)
            if k is True:
                r = go(v.a)
            elif k is False:
                r = go(v.b)
            else:
                r = ite(v.atom, go(v.a), go(v.b))
            memo[v] = r
        return r
    return go(v)


def leaves(v):
    """The leaf values (a shared gate is visited once)."""
    if not isinstance(v, Ite):
        yield v
        return
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Ite):
            if x not in seen:
                seen.add(x)
                todo.append(x.b)
                todo.append(x.a)
        else:
            yield x


def paths(v, pre=()):
    """(assignment, leaf) pairs."""
    if isinstance(v, Ite):
        yield from paths(v.a, pre + ((v.atom, True),))
        yield from paths(v.b, pre + ((v.atom, False),))
    else:
        yield pre, v


def gif(c, a, b):
    """if gated condition c then a else b"""
    memo = {}

    def go(c):
        if c == T:
            return a
        if c == F:
            return b
        if isinstance(c, Ite):
            r = memo.get(c)
            if r is None:
                r = memo[c] = ite2(c.atom, go(c.a), go(c.b))
            return r
        raise Giveup('condition %s' % show(c))
    return go(c)


def cof(v, atom, val):
    """Cofactor."""
    if not isinstance(v, Ite):
        return v
    memo = {}
    n = aid(('g', atom))

    def go(v):
        if not isinstance(v, Ite) or aid(('g', v.atom)) > n:
            return v
        if v.atom == atom:
            return go(v.a if val else v.b)
        r = memo.get(v)
        if r is None:
            r = memo[v] = ite(v.atom, go(v.a), go(v.b))
        return r
    return go(v)


def ite2(atom, a, b):
    return ite(atom, cof(a, atom, True), cof(b, atom, False))


def gnot(c):
    return apply(lambda x: F if x == T else T if x == F else top('not'), c)


def gand(a, b):
    def f(x, y):
        if x == F or y == F:
            return F
        return T if x == T and y == T else top('and')
    return apply(f, a, b)


def gor(a, b):
    return gnot(gand(gnot(a), gnot(b)))


def subst(v, m):
    """Replace sub-terms (dict term -> term) wherever they are free, rebuilding canonical forms."""
    if not m:
        return v
    memo = {}

    def go(x):
        if isinstance(x, (str, int, bool, float, Q)) or x is None:
            return x
        try:
            if x in m:
                return m[x]
        except TypeError:
            return x
        if x in memo:
            return memo[x]
        if isinstance(x, Ite):
            r = gate_atom(go_atom(x.atom), go(x.a), go(x.b))
        elif isinstance(x, Rat):
            r = go_rat(x)
        elif isinstance(x, tuple):
            r = x if bound(x) else tuple(go(y) for y in x)
        else:
            r = x
        memo[x] = r
        return r

    def bound(x):
        # a piece or quantifier that binds one of the names itself
        return len(x) > 2 and any(
            isinstance(y, tuple) and y and all(isinstance(z, tuple) and len(z) == 2 for z in y)
            and any(isinstance(z[1], tuple) and z[1] in m for z in y) for y in x[1:])

    def go_poly(p):
        acc = rc(0)
        for mono, c in p.t:
            term = rc(c)
            for a, e in mono:
                at = atom_of(a)
                n = go(at)
                n = n if isinstance(n, Rat) else ra(n)
                for _ in range(e):
                    term = rmul(term, n)
            acc = radd(acc, term)
        return acc

    def go_rat(r):
        return rdiv(go_poly(r.n), go_poly(r.d))

    def go_atom(a):
        if a[0] in ('lt0', 'eq0'):
            return (sign_lt if a[0] == 'lt0' else sign_eq)(go_poly(a[1]))
        return ('x', go(a))

    def gate_atom(c, a, b):
        if isinstance(c, tuple) and c[0] == 'x':
            r = c[1]
            if r in (T, F):
                return a if r == T else b
            return ite2(r, a, b)
        return gif(c, a, b)
    return go(v)


def _norm(p):
    """Positive multiple of p or -p with leading coefficient one, and the sign used."""
    k = p.t[0][1]
    return p.scale(1 / k), k > 0


def _signs(q):
    a, b = ('lt0', q), ('eq0', q)
    aid(('g', a))
    aid(('g', b))
    return a, b


def sign_lt(r):
    """Gated boolean of r < 0."""
    p = r.n if r.d == ONE else r.n.mul(r.d)
    c = p.const()
    if c is not None:
        return T if c < 0 else F
    q, pos = _norm(p)
    a, b = _signs(q)
    return ite(a, T, F) if pos else ite(a, F, ite(b, F, T))


def sign_eq(r):
    c = r.n.const()
    if c is not None:
        return T if c == 0 else F
    q, pos = _norm(r.n)
    a, b = _signs(q)
    return ite(a, F, ite(b, T, F))
