"""C23: intersection points and area formulas satisfy their defining equations (rational identities)."""
from itertools import product
from .bcommon import program, fn, attempt, finish_engine, loc
from .orders import weak_orders
from .witness import refute, value
from ..b import terms as t
from ..b.terms import T, F, NONE, Ite, Rat, ra, rc, top
from ..b.gvg import seq
from ..b.lib2 import Engine

PR = 'plycutter.geometry.impl2d.primitive2d:'
SC = 'plycutter.geometry.impl2d.scan2d:'
GEN, FRAC, AREA, EDGES = PR + 'segment_segment_general_intersection', PR + 'line_segment_point_fraction', PR + 'simple_polygon_area', PR + 'edges_iter'
PAIR, SHEAR, ATY = SC + '_nonparallel_intersection_point', SC + '_find_general_y_shear', SC + '_at_y_no_horizontal'
ALL, INNER = SC + 'all_segment_intersections', SC + '_all_segment_intersections_no_horizontal'


class Signs(Engine):
    """Facts: signs of listed polynomials; a polynomial which is a product of listed ones times another is reduced."""

    def __init__(self, p):
        self.signs = []          # (Poly, sign) with sign in -1, 0, 1 or 'nz'
        Engine.__init__(self, p, facts=self.known)

    def recursion(self, fi):
        return 4

    def known(self, atom):
        if atom[0] not in ('lt0', 'eq0'):
            return None
        s = self.sign(atom[1])
        if s is None:
            return None
        if s == 'nz':
            return False if atom[0] == 'eq0' else None
        return s < 0 if atom[0] == 'lt0' else s == 0

    def sign(self, p):
        """Sign of a polynomial as a product of known ones."""
        res = 1
        for _ in range(8):
            c = p.const()
            if c is not None:
                return 0 if c == 0 else mul(res, 1 if c > 0 else -1)
            for q, s in self.signs:
                r = divide(p, q)
                if r is not None:
                    p = r
                    res = mul(res, s)
                    break
            else:
                r = 0 if res == 0 else self.rest(p)
                return None if r is None else mul(res, r)
            if res == 0:
                return 0
        return None

    def rest(self, p):
        """Sign of a polynomial without known factors."""
        return None


def mul(a, b):
    if a == 0 or b == 0:
        return 0
    return 'nz' if 'nz' in (a, b) else a * b


def divide(p, q):
    """p / q if it is exact and q is not constant."""
    try:
        r = t.rdiv(Rat(p), Rat(q))
    except Exception:
        return None
    return r.n.scale(1 / r.d.const()) if isinstance(r, Rat) and r.d.const() not in (None, 0) else None


def x(name):
    return ra((name,))


def add(*a):
    r = rc(0)
    for v in a:
        r = t.radd(r, v)
    return r


def pt(a, b):
    return ('tup', (a, b))


def coords(e, v, st):
    """The two coordinates of a point value."""
    if isinstance(v, Ite):
        return None
    ps = e.pieces(v, st) if isinstance(v, tuple) and v[0] in ('tup', 'arr', 'ref', 'seq') else None
    if isinstance(v, tuple) and v[0] in ('tup', 'arr'):
        return list(v[1]) if len(v[1]) == 2 else None
    if ps is None or len(ps) != 2 or any(q[1] != T or q[2] for q in ps):
        return None
    return [q[3] for q in ps]


class Case:
    """Decides one obligation from the (determined) outcome of one symbolic case."""

    def __init__(self, R, e):
        self.R, self.e = R, e

    def __call__(self, rule, key, fid, args, want, signs=(), what=''):
        """want: 'fails', None (the value None), a Rat, or a list of two Rats"""
        R, e = self.R, self.e
        e.signs = [(p.n if isinstance(p, Rat) else p, s) for p, s in signs]
        R.count('symbolic cases')
        v, st = e.run(fid, args)
        where = loc(R, fid)
        if want == 'fails':
            why = None if st.pend in (T, F) or t.has_top(v) else refute(st.pend, e.signs, lambda c, val: not value(c, val))
            R.decide(rule, key, True if st.pend == T else False if st.pend == F and not t.has_top(v) or why else None, 'not refused' + (' for ' + why if why else ''), where, fid)
            return None
        if st.pend == T:
            R.viol(rule, key, 'fails', where, fid)
            return None
        if st.pend != F or isinstance(v, Ite) or t.has_top(v):
            why = not t.has_top(st.pend) and st.pend != F and refute(st.pend, e.signs, value)
            if why:
                R.viol(rule, key, 'fails for ' + why, where, fid)
                return None
            why = not callable(want) and not t.has_top(v) and refute(v, e.signs, lambda f, val: not expected(leaf(f, val), want, val))
            if why:
                R.viol(rule, key, 'gives %s for %s' % (t.show(v, 60), why), where, fid)
                return None
            R.undecided(rule, key, 'not determined: %s / %s' % (t.show(v, 60), t.show(st.pend, 60)), where, fid)
            return None
        if callable(want):
            return want(v, st)
        if want is None:
            R.decide(rule, key, v == NONE, 'gives %s instead of none' % t.show(v, 80), where, fid)
            return v
        if v == NONE:
            R.viol(rule, key, 'gives none', where, fid)
        elif isinstance(want, Rat):
            R.decide(rule, key, None if not isinstance(v, Rat) else v == want, 'gives %s instead of %s' % (t.show(v, 80), t.show(want, 80)), where, fid)
        else:
            c = coords(e, v, st)
            ok = None if c is None or not all(isinstance(z, Rat) for z in c) else all(a == b for a, b in zip(c, want))
            R.decide(rule, key, ok, 'gives %s' % t.show(v, 120), where, fid)
        return v


def run(R):
    R.explain = ('The primitives are evaluated symbolically on parametrised inputs: a segment as start and direction, a point '
                 'as start plus a multiple of the direction plus an offset, a second segment placed so that the lines meet at '
                 'given parameters. Results are compared as rational functions; the cases (signs, ends, vertical, horizontal, '
                 'degenerate, parallel) cover all inputs. The shear is evaluated for every kind and order of slopes of up to '
                 'three segments; areas for polygons of up to five vertices.')
    R.rule('C23.general', 'the point returned for two segments lies on both lines at the returned parameters; parallel ones are refused')
    R.rule('C23.fraction', 'the fraction of a point reproduces the point, and is none exactly off the line')
    R.rule('C23.pair', 'a point is returned exactly when two non-parallel closed segments meet, and lies on both')
    R.rule('C23.shear', 'the shear leaves no segment horizontal, and is undone in the reported points')
    R.rule('C23.area', 'the signed area is the shoelace formula, positive for clockwise')
    p = program(R)
    for f in (GEN, FRAC, AREA, EDGES, ALL):
        fn(R, f)
    e = Signs(p)
    case = Case(R, e)
    for f, rule, fid in ((general, 'C23.general', GEN), (fraction, 'C23.fraction', FRAC), (pair, 'C23.pair', PAIR), (aty, 'C23.shear', ATY),
                         (shear, 'C23.shear', SHEAR), (unshear, 'C23.shear', ALL), (area, 'C23.area', AREA), (edges, 'C23.area', EDGES)):
        if fid not in p.func_by_fid:
            R.undecided(rule, f.__name__, 'no function %s' % fid)
            continue
        attempt(R, rule, f.__name__, lambda: f(R, e, case), fid)
    finish_engine(R, e)


def general(R, e, case):
    ax, ay, dx, dy, bx, by, ex, ey = (x(n) for n in ('ax', 'ay', 'dx', 'dy', 'bx', 'by', 'ex', 'ey'))
    seg = ('tup', (pt(ax, ay), pt(add(ax, dx), add(ay, dy))))
    oth = ('tup', (pt(bx, by), pt(add(bx, ex), add(by, ey))))
    D = t.rsub(t.rmul(dx, ey), t.rmul(dy, ex))
    for s in (1, -1):
        def ok(v, st):
            key = 'crossing lines (determinant %s)' % ('positive' if s > 0 else 'negative')
            if not isinstance(v, tuple) or v[0] != 'tup' or len(v[1]) != 3:
                R.undecided('C23.general', key, 'result of another shape: ' + t.show(v, 60), loc(R, GEN), GEN)
                return
            c = coords(e, v[1][0], st)
            t0, t1 = v[1][1], v[1][2]
            if c is None or not all(isinstance(z, Rat) for z in c + [t0, t1]):
                R.undecided('C23.general', key, 'not determined', loc(R, GEN), GEN)
                return
            for name, p0, d, par in (('first', (ax, ay), (dx, dy), t0), ('second', (bx, by), (ex, ey), t1)):
                good = all(c[i] == add(p0[i], t.rmul(par, d[i])) for i in range(2))
                R.decide('C23.general', '%s: %s line' % (key, name), good, 'the point %s is not at parameter %s' % (t.show(v[1][0], 80), t.show(par, 60)), loc(R, GEN), GEN)
        case('C23.general', 'crossing lines (determinant %+d)' % s, GEN, [seg, oth], ok, [(D, s)])
    par = ('tup', (pt(bx, by), pt(add(bx, t.rmul(x('k'), dx)), add(by, t.rmul(x('k'), dy)))))
    case('C23.general', 'parallel lines', GEN, [seg, par], 'fails')


def fraction(R, e, case):
    ax, ay, dx, dy, k, off = (x(n) for n in ('ax', 'ay', 'dx', 'dy', 'k', 'off'))
    z = rc(0)
    kinds = [('slanted', dx, dy, [(dx, 'nz'), (dy, 'nz')]), ('horizontal', dx, z, [(dx, 'nz')]), ('vertical', z, dy, [(dy, 'nz')])]
    for name, ex, ey, signs in kinds:
        seg = ('tup', (pt(ax, ay), pt(add(ax, ex), add(ay, ey))))
        on = (add(ax, t.rmul(k, ex)), add(ay, t.rmul(k, ey)))
        case('C23.fraction', 'point on a %s line' % name, FRAC, [seg, pt(*on)], k, signs)
        for end, kk in (('start', 0), ('end', 1)):
            case('C23.fraction', '%s of a %s segment' % (end, name), FRAC, [seg, pt(add(ax, t.rmul(rc(kk), ex)), add(ay, t.rmul(rc(kk), ey)))], rc(kk), signs)
        o = (add(on[0], off), on[1]) if name == 'vertical' else (on[0], add(on[1], off))
        for s in (1, -1):
            case('C23.fraction', 'point off a %s line (%+d)' % (name, s), FRAC, [seg, pt(*o)], None, signs + [(off, s)])
        # off the line, level with an end
        o = (add(ax, off), ay) if name == 'vertical' else (ax, add(ay, off))
        case('C23.fraction', 'point off a %s line, level with its start' % name, FRAC, [seg, pt(*o)], None, signs + [(off, 'nz')])
    seg = ('tup', (pt(ax, ay), pt(ax, ay)))
    case('C23.fraction', 'degenerate segment, same point', FRAC, [seg, pt(ax, ay)], rc(0))
    case('C23.fraction', 'degenerate segment, other point', FRAC, [seg, pt(add(ax, off), add(ay, k))], None, [(off, 'nz')])
    case('C23.fraction', 'degenerate segment, point above', FRAC, [seg, pt(ax, add(ay, off))], None, [(off, 'nz')])


def leaf(v, val):
    while isinstance(v, Ite):
        v = v.a if value(v.atom, val) else v.b
    return v


def expected(v, want, val):
    """Whether a leaf has the expected value under a valuation."""
    if want is None or v == NONE:
        return want is None and v == NONE
    if isinstance(want, Rat):
        return not isinstance(v, Rat) or value(v, val) == value(want, val)
    if not (isinstance(v, tuple) and v[0] in ('tup', 'arr') and len(v[1]) == 2):
        return True
    return all(not isinstance(leaf(a, val), Rat) or value(a, val) == value(b, val) for a, b in zip(v[1], want))


WHERE = [('before', -1), ('at its start', 0), ('inside', 1), ('at its end', 2), ('beyond', 3)]


def param(name, w):
    """(parameter, facts) for a position relative to a segment."""
    k = x(name)
    if w == 0:
        return rc(0), []
    if w == 2:
        return rc(1), []
    k1 = t.rsub(k, rc(1))
    return k, [(k, -1 if w == -1 else 1), (k1, 1 if w == 3 else -1)]


def pair(R, e, case):
    ax, ay, dx, dy, ex, ey = (x(n) for n in ('ax', 'ay', 'dx', 'dy', 'ex', 'ey'))
    D = t.rsub(t.rmul(dx, ey), t.rmul(dy, ex))
    a = ('tup', (pt(ax, ay), pt(add(ax, dx), add(ay, dy))))
    for s in (1, -1):
        for (na, wa), (nb, wb) in product(WHERE, WHERE):
            ka, fa = param('ka', wa)
            kb, fb = param('kb', wb)
            at = (add(ax, t.rmul(ka, dx)), add(ay, t.rmul(ka, dy)))
            b0 = (t.rsub(at[0], t.rmul(kb, ex)), t.rsub(at[1], t.rmul(kb, ey)))
            b = ('tup', (pt(*b0), pt(add(b0[0], ex), add(b0[1], ey))))
            meet = 0 <= wa <= 2 and 0 <= wb <= 2
            case('C23.pair', 'lines meet %s the first and %s the second segment (%+d)' % (na, nb, s), PAIR, [a, b], list(at) if meet else None, fa + fb + [(D, s)])
    k = x('k')
    for name, b0 in (('on one line', (ax, ay)), ('side by side', (x('bx'), x('by')))):
        b = ('tup', (pt(*b0), pt(add(b0[0], t.rmul(k, dx)), add(b0[1], t.rmul(k, dy)))))
        case('C23.pair', 'parallel segments ' + name, PAIR, [a, b], None, [(k, 'nz')])


def aty(R, e, case):
    ax, ay, dx, dy, k = (x(n) for n in ('ax', 'ay', 'dx', 'dy', 'k'))
    seg = ('tup', (pt(ax, ay), pt(add(ax, dx), add(ay, dy))))
    for name, kk in (('an inner height', k), ('the start height', rc(0)), ('the end height', rc(1))):
        facts = [(dy, 'nz')] + ([(k, 'nz'), (t.rsub(k, rc(1)), 'nz')] if kk is k else [])
        case('C23.shear', 'segment at ' + name, ATY, [seg, add(ay, t.rmul(kk, dy))], add(ax, t.rmul(kk, dx)), facts)


class Slopes(Signs):
    """Facts about lengths w > 0 and ranked slopes 0 < r0 < r1 < ..."""

    def sign(self, p):
        s = Signs.sign(self, p)
        if s is not None:
            return s
        # strip the positive lengths, then compare slopes
        for i in range(4):
            q = divide(p, ra(('w%d' % i,)).n)
            if q is not None:
                p = q
        return slope_sign(p, self.rank)


def slope_sign(p, rank):
    """Sign of a linear combination of ranked positive numbers, when all parts agree."""
    co = {}
    const = 0
    for m, c in p.t:
        if m == ():
            const += c
        elif len(m) == 1 and m[0][1] == 1 and t.atom_of(m[0][0]) in rank:
            r = rank[t.atom_of(m[0][0])]
            co[r] = co.get(r, 0) + c
        else:
            return None
    if const:
        return None
    # r_k = sum of positive gaps up to k
    parts, tail = set(), 0
    for r in sorted(set(rank.values()), reverse=True):
        tail += co.get(r, 0)
        if tail:
            parts.add(1 if tail > 0 else -1)
    return 0 if not parts else parts.pop() if len(parts) == 1 else None


def shear(R, e0, case):
    e = Slopes(R.p)
    n = 0
    bad = und = None
    for k in range(4):
        for kinds in product('HV+-', repeat=k):
            sl = [i for i, c in enumerate(kinds) if c in '+-']
            for rk in weak_orders(len(sl)):
                for flip in ((1,) * k,) + (((-1,) * k,) if k else ()):
                    # equal slopes are the same symbol
                    rank = {('r%d' % r,): r for r in rk}
                    e.rank = rank
                    e.signs = []
                    segs, dirs = [], []
                    for i, c in enumerate(kinds):
                        w = x('w%d' % i)
                        if c == 'V':
                            d = (rc(0), w)
                        else:
                            r = rc(0) if c == 'H' else ra(('r%d' % rk[sl.index(i)],))
                            d = (w, t.rmul(w, r if c != '-' else t.rneg(r)))
                        if flip[i] < 0:
                            d = (t.rneg(d[0]), t.rneg(d[1]))
                        e.signs.append((w.n, 1))
                        dirs.append(d)
                        p0 = (x('x%d' % i), x('y%d' % i))
                        segs.append(('tup', (pt(*p0), pt(add(p0[0], d[0]), add(p0[1], d[1])))))
                    n += 1
                    v, st = e.run(SHEAR, [('tup', tuple(segs))])
                    what = 'segments %s' % (', '.join({'H': 'horizontal', 'V': 'vertical', '+': 'rising', '-': 'falling'}[c] for c in kinds) or 'none')
                    if st.pend == T:
                        bad = bad or what + ': fails'
                        continue
                    facts = e.signs + [(t.rsub(ra(('r%d' % r,)), ra(('r%d' % (r - 1),)) if r else rc(0)).n, 1) for r in sorted(set(rk))]
                    if st.pend != F or not isinstance(v, Rat):
                        why = None if t.has_top(v) or t.has_top(st.pend) else refute(st.pend, facts, value) or refute(
                            v, facts, lambda f, val: any(value(d[1], val) + value(f, val) * value(d[0], val) == 0 for d in dirs))
                        if why:
                            bad = bad or '%s: fails or leaves a horizontal segment for %s' % (what, why)
                        und = und or what + ': shear not determined: ' + t.show(v, 60)
                        continue
                    for i, d in enumerate(dirs):
                        q = add(d[1], t.rmul(v, d[0]))
                        c = t.sign_eq(q)
                        c = t.restrict(c, e.known) if isinstance(c, Ite) else c
                        if c == T:
                            bad = bad or '%s: segment %d becomes horizontal under %s' % (what, i, t.show(v, 40))
                        elif c != F:
                            why = None if t.has_top(q) else refute(q, facts, lambda f, val: value(f, val) == 0)
                            if why:
                                bad = bad or '%s: segment %d becomes horizontal under %s for %s' % (what, i, t.show(v, 40), why)
                            und = und or '%s: segment %d under %s' % (what, i, t.show(v, 40))
    R.count('shear cases', n)
    R.decide('C23.shear', 'no segment is horizontal afterwards', False if bad else None if und else True, bad or und or '%d cases' % n, loc(R, SHEAR), SHEAR)


def unshear(R, e0, case):
    e = Signs(R.p)
    seen = []

    def alpha(eng, args, kw, st):
        return ra(('alpha',))

    def inner(eng, args, kw, st):
        a = args[0] if args else next(iter(kw.values()), NONE)
        seen.append((a, eng.pieces(a, st)))
        src = ('found',)
        el = eng.el(src, 'any')[0]
        segs = ('sym', ('segs', el), ('seq', 'any'))
        return seq([('p', T, ((src, el),), ('tup', (pt(ra(('px', el)), ra(('py', el))), segs)))])
    if SHEAR not in R.p.func_by_fid or INNER not in R.p.func_by_fid:
        R.undecided('C23.shear', 'sheared and undone', 'other helper functions', loc(R, ALL), ALL)
        return
    e.prims[SHEAR] = alpha
    e.prims[INNER] = inner
    segs = e.sym(('seq', ('tup', 'pt2', 'pt2')), ('segments',))
    v, st = e.run(ALL, [segs])
    al = ra(('alpha',))
    if not seen or seen[0][1] is None or len(seen[0][1]) != 1:
        R.undecided('C23.shear', 'sheared segments', 'argument of the sweep not determined', loc(R, ALL), ALL)
    else:
        _, g, bs, sv = seen[0][1][0]
        ends = [coords(e, q, st) for q in (sv[1] if isinstance(sv, tuple) and sv[0] == 'tup' else [])]
        src = e.pieces(segs, st)[0]
        want = [coords(e, q, st) for q in src[3][1]] if isinstance(src[3], tuple) and src[3][0] == 'tup' else None
        ok = None
        if len(ends) == 2 and want and None not in ends and None not in want and g == T:
            ok = all(a[0] == w[0] and a[1] == add(w[1], t.rmul(al, w[0])) for a, w in zip(ends, want)) or \
                all(a[0] == w[0] and a[1] == add(w[1], t.rmul(al, w[0])) for a, w in zip(ends[::-1], want))
        R.decide('C23.shear', 'sheared segments', ok, 'a segment is passed to the sweep as %s' % t.show(sv, 120), loc(R, ALL), ALL)
    ps = e.pieces(v, st)
    if ps is None or len(ps) != 1:
        R.undecided('C23.shear', 'reported points', 'not determined: ' + t.show(v, 60), loc(R, ALL), ALL)
        return
    _, g, bs, it = ps[0]
    c = coords(e, it[1][0], st) if isinstance(it, tuple) and it[0] == 'tup' else None
    ok = None
    if c is not None and all(isinstance(z, Rat) for z in c) and len(bs) == 1:
        el = bs[0][1]
        px, py = ra(('px', el)), ra(('py', el))
        ok = c[0] == px and c[1] == t.rsub(py, t.rmul(al, px))
    if t.has_top(g):
        ok = None
    elif ok and g != T:
        ok = None if not g == F else False
    R.decide('C23.shear', 'reported points', ok, 'a point is reported as %s' % t.show(it, 120), loc(R, ALL), ALL)


def area(R, e, case):
    for n in range(1, 6):
        vs = [(x('x%d' % i), x('y%d' % i)) for i in range(n)]
        want = rc(0)
        for i in range(n):
            (x0, y0), (x1, y1) = vs[i - 1], vs[i]
            want = add(want, t.rsub(t.rmul(x1, y0), t.rmul(x0, y1)))
        case('C23.area', 'polygon of %d vertices' % n, AREA, [('tup', tuple(pt(*v) for v in vs))], t.rdiv(want, rc(2)))


def edges(R, e, case):
    for n in range(1, 5):
        vs = [pt(x('x%d' % i), x('y%d' % i)) for i in range(n)]

        def ok(v, st):
            ps = e.pieces(v, st)
            key = 'edges of %d vertices' % n
            if ps is None or any(q[1] != T or q[2] for q in ps):
                R.undecided('C23.area', key, 'not determined', loc(R, EDGES), EDGES)
                return
            got = [q[3] for q in ps]
            want = [('tup', (vs[i], vs[(i + 1) % n])) for i in range(n)]
            R.decide('C23.area', key, set(got) == set(want) and len(got) == n, 'not the %d edges of the closed outline' % n, loc(R, EDGES), EDGES)
        case('C23.area', 'edges of %d vertices' % n, EDGES, [('tup', tuple(vs))], ok)
