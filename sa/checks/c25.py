"""C25: no degenerate or wrongly oriented polygon can be represented; reading shapes keeps every outline and hole."""
from itertools import product
from .bcommon import program, fn, attempt, finish_engine, loc
from .c19 import new_state
from .c23 import Signs, x, pt
from .witness import refute, value
from ..b import terms as t
from ..b.terms import T, F, NONE, Ite, Rat, rc
from ..b.gvg import Inst

G = 'plycutter.geometry.impl2d.geom2d_simple_holes:'
SP, GEO = G + 'Simple_Polygon_With_Holes', G + 'Geom2D_Py_Simple_Holes'
INIT, POLY, SHAPE, MAP = SP + '.__init__', GEO + '.polygon', GEO + '.from_shapely', GEO + '.transformed_with'
PARTS, OUTER, HOLES = GEO + '.polygons', GEO + '.exterior', GEO + '.holes'
ORIENT = ('shapely.geometry.polygon.orient', 'shapely.geometry.polygon.orient_polygons')


def ring(name, n):
    return [(x('%sx%d' % (name, i)), x('%sy%d' % (name, i))) for i in range(n)]


def area(vs):
    """Twice the area, positive for clockwise."""
    r = rc(0)
    for (ax, ay), (bx, by) in zip(vs[-1:] + vs[:-1], vs):
        r = t.radd(r, t.rsub(t.rmul(bx, ay), t.rmul(ax, by)))
    return r


def apart(vs):
    """Facts: no two vertices in the same column or row (unless they share the symbol)."""
    return [(d.n, 'nz') for i, a in enumerate(vs) for b in vs[:i] for d in (t.rsub(a[0], b[0]), t.rsub(a[1], b[1])) if d != rc(0)]


def points(vs):
    return ('tup', tuple(pt(*v) for v in vs))


class Rings(Signs):
    """Facts about rings: orientation and distinct vertices."""

    def orient(self, vs, s):
        self.signs.append((area(vs).n, s))

    def start(self):
        self.signs = []
        self.parts = []
        return new_state()

    def sign(self, p):
        s = Signs.sign(self, p)
        return s if s is not None or not self.parts else self.total(p)

    def total(self, p):
        """Sign of a combination of ring areas: an outline is larger than its holes together."""
        pos = neg = False
        for o, hs in self.parts:
            cs = []
            for vs in [o] + hs:
                a = area(vs).n
                m, k = a.t[0]
                c = dict(p.t).get(m, 0) / k
                p = p.add(a, -c)
                cs.append(c)
            if any(cs):
                if cs[0] >= 0 and all(c >= -cs[0] for c in cs[1:]):
                    pos = True
                elif cs[0] <= 0 and all(c <= -cs[0] for c in cs[1:]):
                    neg = True
                else:
                    return None
        return None if p.t or pos == neg else 1 if pos else -1


def run(R):
    R.explain = ('The failure condition of the constructor and of the ways to read polygons is derived for outlines and holes '
                 'of symbolic vertices whose orientation (clockwise, counterclockwise, zero area) and repeated vertices vary by '
                 'ring and position; what is accepted is read back and compared with the given rings.')
    R.rule('C25.refuse', 'a ring of wrong orientation, of zero area or with a repeated vertex is refused wherever it occurs')
    R.rule('C25.accept', 'valid rings are accepted and represented unchanged')
    R.rule('C25.polygon', 'a polygon given by points is re-oriented when asked to and otherwise refused')
    R.rule('C25.read', 'reading a shape keeps every outline and hole without the closing vertex, clockwise')
    R.rule('C25.kinds', 'other kinds of shapes are refused')
    R.rule('C25.mapped', 'a mapped geometry is again clockwise, with every ring mapped')
    p = program(R)
    for f in (INIT, POLY, SHAPE, MAP, PARTS, OUTER, HOLES):
        fn(R, f)
    e = Rings(p)
    for f, rule, fid in ((constructor, 'C25.refuse', INIT), (polygon, 'C25.polygon', POLY), (read, 'C25.read', SHAPE),
                         (kinds, 'C25.kinds', SHAPE), (mapped, 'C25.mapped', MAP)):
        attempt(R, rule, f.__name__, lambda: f(R, e), fid)
    finish_engine(R, e)


def fails(R, e, rule, key, st, v, fid):
    """The outcome must be a failure."""
    R.count('symbolic cases')
    ok = True if st.pend == T else None if t.has_top(st.pend) else False if st.pend == F else None
    why = ''
    if ok is None and not t.has_top(st.pend):
        why = refute(st.pend, e.signs, lambda c, val: not value(c, val), 8, 4000)
        ok = False if why else None
    R.decide(rule, key, ok, 'accepted' + (' for ' + why if why else ''), loc(R, fid), fid)


def contents(e, v, st):
    """[(outline, [holes])] of a geometry, None if unknown, 'fails' if reading fails."""
    ps, st = e.run(PARTS, [v], {}, st)
    ps = e.pieces(ps, st)
    if ps is None or st.pend != F or any(q[1] != T or q[2] for q in ps):
        return None
    r = []
    for _, _, _, g in ps:
        o, st = e.run(OUTER, [g], {}, st)
        h, st = e.run(HOLES, [g], {}, st)
        hs = e.pieces(h, st)
        o = vertices(e, o, st)
        if st.pend != F or o is None or hs is None or any(q[1] != T or q[2] for q in hs):
            return None
        hs = [vertices(e, q[3], st) for q in hs]
        if None in hs:
            return None
        r.append((o, hs))
    return r


def vertices(e, v, st):
    ps = e.pieces(v, st)
    if ps is None or any(q[1] != T or q[2] for q in ps):
        return None
    r = []
    for q in ps:
        c = e.pieces(q[3], st) if isinstance(q[3], tuple) and q[3][0] != 'arr' else [('p', T, (), z) for z in q[3][1]] if isinstance(q[3], tuple) else None
        if c is None or len(c) != 2 or not all(isinstance(z[3], Rat) for z in c):
            return None
        r.append((c[0][3], c[1][3]))
    return r


def turned(a, b):
    """Equal rings up to the starting vertex."""
    return len(a) == len(b) and any(a[i:] + a[:i] == b for i in range(len(a)))


def holds(R, e, rule, key, st, v, want, fid):
    """The outcome must be a geometry of the given rings."""
    R.count('symbolic cases')
    if st.pend == T:
        R.viol(rule, key, 'refused', loc(R, fid), fid)
        return
    if st.pend != F:
        why = None if t.has_top(st.pend) else refute(st.pend, e.signs, value, 8, 4000)
        R.decide(rule, key, False if why else None, 'refused for %s' % why if why else 'not determined: ' + t.show(st.pend, 80), loc(R, fid), fid)
        return
    got = contents(e, v, st)
    if got is None:
        R.undecided(rule, key, 'rings not determined: ' + t.show(v, 60), loc(R, fid), fid)
        return
    ok = len(got) == len(want)
    rest = list(got)
    for o, hs in want:
        i = next((i for i, (p, qs) in enumerate(rest) if turned(p, o) and len(qs) == len(hs) and all(any(turned(q, h) for q in qs) for h in hs)), None)
        if i is None:
            ok = False
        else:
            del rest[i]
    R.decide(rule, key, ok, 'represented as %s' % '; '.join('outline %s holes %s' % (t.show(points(o), 60), [t.show(points(h), 60) for h in hs]) for o, hs in got)[:200], loc(R, fid), fid)


def constructor(R, e):
    names = ['outline', 'first hole', 'second hole']
    for n in (3, 4):
        for holes in (0, 1, 2):
            rings = [ring(c, n) for c in 'pqr'[:holes + 1]]

            def build(rs, key, want):
                st = e.st
                me = e.construct(SP, [points(rs[0])] + ([('tup', tuple(points(h) for h in rs[1:]))] if holes else []), {}, st)
                if want is None:
                    fails(R, e, 'C25.refuse', key, st, me, INIT)
                else:
                    g = e.construct(GEO, [('tup', (me,))], {}, st)
                    holds(R, e, 'C25.accept', key, st, g, [want], INIT)
            what = '%d vertices, %d holes' % (n, holes)
            e.st = e.start()
            for vs in rings:
                e.orient(vs, 1)
                e.signs += apart(vs)
            build(rings, 'valid rings of ' + what, (rings[0], rings[1:]))
            for i, s in product(range(holes + 1), (-1, 0)):
                e.st = e.start()
                for j, vs in enumerate(rings):
                    e.orient(vs, s if i == j else 1)
                    e.signs += apart(vs)
                build(rings, '%s: %s of %s' % (what, names[i], 'zero area' if s == 0 else 'wrong orientation'), None)
            if n == 4:
                for i, k, c in product(range(holes + 1), range(4), range(2)):
                    e.st = e.start()
                    rs = [list(r) for r in rings]
                    a, b = rs[i][k], rs[i][k - 1]
                    rs[i][k] = (b[0], a[1]) if c == 0 else (a[0], b[1])
                    for vs in rs:
                        e.orient(vs, 1)
                        e.signs += apart(vs)
                    build(rs, '%s: %s edge %d of the %s' % (what, 'vertical' if c == 0 else 'horizontal', k, names[i]), (rs[0], rs[1:]))
                for i, k in product(range(holes + 1), range(4)):
                    e.st = e.start()
                    rs = [list(r) for r in rings]
                    rs[i][k] = rs[i][k - 1]
                    for vs in rs:
                        e.orient(vs, 1)
                        e.signs += apart([v for m, v in enumerate(vs) if v not in vs[:m]])
                    build(rs, '%s: vertex %d of the %s repeated' % (what, k, names[i]), None)


def polygon(R, e):
    for n in (3, 4):
        vs = ring('p', n)
        for ro in (None, F, T):
            kw = {} if ro is None else {'reorient': ro}
            for s in (1, -1, 0):
                st = e.start()
                e.orient(vs, s)
                e.signs += apart(vs)
                v, st = e.run(POLY, [('cls', GEO), points(vs)], kw, st)
                key = '%d points, %s, %s' % (n, {1: 'clockwise', -1: 'counterclockwise', 0: 'zero area'}[s], 'reorient' if ro == T else 'as given')
                if s == 1 or s == -1 and ro == T:
                    holds(R, e, 'C25.polygon', key, st, v, [(vs if s == 1 else vs[::-1], [])], POLY)
                else:
                    fails(R, e, 'C25.polygon', key, st, v, POLY)
    vs = ring('p', 4)
    for k in range(4):
        ws = list(vs)
        ws[k] = ws[k - 1]
        for s in (1, -1):
            st = e.start()
            e.orient(ws, s)
            e.signs += apart([v for m, v in enumerate(ws) if v not in ws[:m]])
            v, st = e.run(POLY, [('cls', GEO), points(ws)], {'reorient': T}, st)
            fails(R, e, 'C25.polygon', 'point %d repeated, %s' % (k, 'clockwise' if s == 1 else 'counterclockwise'), st, v, POLY)


class Shapes:
    """Shapes of the external library, built in the abstract heap."""

    def __init__(self, e, st):
        self.e, self.st = e, st

    def obj(self, **kw):
        i = self.e.fresh()
        self.st.heap[i] = Inst(kw, None)
        return ('ref', i)

    def ring(self, vs):
        return self.obj(coords=points(vs + vs[:1]))

    def poly(self, outer, holes):
        r = self.obj(geom_type=('c', 'Polygon'), exterior=self.ring(outer), interiors=('tup', tuple(self.ring(h) for h in holes)), is_empty=F)
        self.st.heap[r[1]]['rings'] = (outer, holes)
        return r

    def orient(self, eng, args, kw, st):
        """The library's contract: outline of the given sign (counterclockwise positive), holes of the other."""
        h = st.heap[args[0][1]] if args and isinstance(args[0], tuple) and args[0][0] == 'ref' else None
        s = kw.get('sign', args[1] if len(args) > 1 else rc(1))
        if not isinstance(h, Inst) or 'rings' not in h or not isinstance(s, Rat) or s.const() is None:
            return t.top('orient')
        cw = s.const() < 0
        self.st = st

        def turn(vs, want_cw):
            c = self.e.sign(area(vs).n)
            return vs if (c > 0) == want_cw else vs[:1] + vs[:0:-1]
        return self.poly(turn(h['rings'][0], cw), [turn(r, not cw) for r in h['rings'][1]])


def shapes(e):
    st = e.start()
    s = Shapes(e, st)
    for n in ORIENT:
        e.prims[n] = s.orient
    return s, st


def read(R, e):
    for kind, parts in (('Polygon', 1), ('MultiPolygon', 1), ('MultiPolygon', 2), ('MultiPolygon', 3), ('GeometryCollection', 2)):
        for holes in (0, 1, 2):
            for so, sh in product((1, -1), (1, -1)) if parts == 1 else [(1, -1), (-1, 1)]:
                s, st = shapes(e)
                ps, want = [], []
                for k in range(parts):
                    rings = [ring('%s%d' % (c, k), 3) for c in 'pqr'[:holes + 1]]
                    for j, vs in enumerate(rings):
                        e.orient(vs, sh if j else so)
                        e.signs += apart(vs)
                    ps.append(s.poly(rings[0], rings[1:]))
                    cw = [vs if (sh if j else so) > 0 else vs[::-1] for j, vs in enumerate(rings)]
                    want.append((cw[0], cw[1:]))
                sh_ = ps[0] if kind == 'Polygon' else s.obj(geom_type=('c', kind), geoms=('tup', tuple(ps)), is_empty=F)
                e.parts = want      # holes lie inside their outline
                v, st = e.run(SHAPE, [('cls', GEO), sh_], {}, st)
                key = '%s of %d parts with %d holes, outline %s, holes %s' % (kind, parts, holes, *('clockwise' if z > 0 else 'counterclockwise' for z in (so, sh)))
                holds(R, e, 'C25.read', key, st, v, want, SHAPE)


def kinds(R, e):
    for k in ('LineString', 'Point', 'LinearRing', 'MultiLineString', 'MultiPoint'):
        s, st = shapes(e)
        v, st = e.run(SHAPE, [('cls', GEO), s.obj(geom_type=('c', k), coords=points(ring('p', 3)), geoms=('tup', ()), is_empty=F)], {}, st)
        fails(R, e, 'C25.kinds', k, st, v, SHAPE)


def mapped(R, e):
    def mirror(eng, args, kw, st):
        vs = vertices(eng, args[0], st)
        return t.top('points') if vs is None else points([(t.rneg(a), b) for a, b in vs])

    def shift(eng, args, kw, st):
        vs = vertices(eng, args[0], st)
        return t.top('points') if vs is None else points([(t.radd(a, x('u')), b) for a, b in vs])
    e.prims['map.mirror'] = mirror
    e.prims['map.shift'] = shift
    for name, holes in product(('mirror', 'shift'), (0, 1, 2)):
        st = e.start()
        gs, want = [], []
        for k in range(2):
            rings = [ring('%s%d' % (c, k), 3) for c in 'pqr'[:holes + 1]]
            for vs in rings:
                e.orient(vs, 1)
                e.signs += apart(vs)
            gs.append(e.construct(SP, [points(rings[0]), ('tup', tuple(points(h) for h in rings[1:]))], {}, st))
            out = [[(t.rneg(a), b) for a, b in vs][::-1] if name == 'mirror' else [(t.radd(a, x('u')), b) for a, b in vs] for vs in rings]
            want.append((out[0], out[1:]))
        g = e.construct(GEO, [('tup', tuple(gs))], {}, st)
        v, st = e.run(MAP, [g, ('ext', 'map.' + name)], {}, st)
        holds(R, e, 'C25.mapped', '%s, %d holes' % (name, holes), st, v, want, MAP)
