"""C22: point location, decided for every arrangement (sign pattern) of a point and the vertices of an outline."""
from itertools import product, permutations
import random
from .bcommon import program, fn, attempt, finish_engine, loc
from .c19 import Verdict, new_state
from .c23 import Signs, x, pt
from ..b import terms as t
from ..b.terms import T, F, NONE, Ite, Rat, rc
from ..b.lib2 import Engine

PR = 'plycutter.geometry.impl2d.primitive2d:'
G = 'plycutter.geometry.impl2d.geom2d_simple_holes:'
RING, HOLED, GEO = PR + 'locate_point_polygon_winding_number', G + 'Simple_Polygon_With_Holes.locate', G + 'Geom2D_Py_Simple_Holes.locate'
SP, GE = G + 'Simple_Polygon_With_Holes', G + 'Geom2D_Py_Simple_Holes'
INIT = SP + '.__init__'


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def sgn(v):
    return (v > 0) - (v < 0)


def on_segment(a, b):
    """Whether the origin is on the closed segment."""
    return cross(a, b) == 0 and a[0] * b[0] <= 0 and a[1] * b[1] <= 0


def oracle(vs):
    """Location of the origin: 0 on the outline, 1 inside, -1 outside."""
    if any(on_segment(vs[i - 1], vs[i]) for i in range(len(vs))):
        return 0
    inside = False
    for i in range(len(vs)):
        a, b = vs[i - 1], vs[i]
        if (a[1] > 0) != (b[1] > 0) and (cross(a, b) > 0) == (b[1] > a[1]):
            inside = not inside
    return 1 if inside else -1


def pattern(vs):
    """Signs of everything an outline test can look at: offsets, order of coordinates, turns about the point."""
    n = len(vs)
    return (tuple(sgn(c) for v in vs for c in v),
            tuple(sgn(vs[i][k] - vs[j][k]) for i in range(n) for j in range(i) for k in range(2)),
            tuple(sgn(cross(vs[i], vs[j])) for i in range(n) for j in range(i)))


def facts(vs):
    """The same signs, as facts about the symbolic vertices and point."""
    n = len(vs)
    sx = [(x('x%d' % i), x('y%d' % i)) for i in range(n)]
    p = (x('px'), x('py'))
    rel = [(t.rsub(a, p[0]), t.rsub(b, p[1])) for a, b in sx]
    r = []
    for i in range(n):
        for k in range(2):
            r.append((rel[i][k].n, sgn(vs[i][k])))
        for j in range(i):
            for k in range(2):
                r.append((t.rsub(sx[i][k], sx[j][k]).n, sgn(vs[i][k] - vs[j][k])))
            c = t.rsub(t.rmul(rel[i][0], rel[j][1]), t.rmul(rel[i][1], rel[j][0]))
            r.append((c.n, sgn(cross(vs[i], vs[j]))))
    return sx, p, r


class Facts(Engine):
    """Facts looked up by the canonical polynomial; products are factored."""

    def __init__(self, p):
        self.table = {}
        Engine.__init__(self, p, facts=self.known)

    def set(self, signs):
        self.table = {}
        for q, s in signs:
            k, c = norm(q)
            self.table[k] = s * sgn(c)
        self.polys = sorted(self.table.items(), key=lambda z: -len(z[0].t))

    def known(self, atom):
        if atom[0] not in ('lt0', 'eq0'):
            return None
        s = self.sign(atom[1])
        return None if s is None else s < 0 if atom[0] == 'lt0' else s == 0

    def sign(self, p, depth=0):
        c = p.const()
        if c is not None:
            return sgn(c)
        k, c = norm(p)
        s = self.table.get(k)
        if s is not None:
            return s * sgn(c)
        if depth > 3:
            return None
        for q, s in self.polys:
            r = q.divides_into(p)
            if r is not None and r.const() is None:
                if s == 0:
                    return 0
                z = self.sign(r, depth + 1)
                return None if z is None else z * s
        return None


def norm(p):
    c = p.t[0][1]
    return p.scale(1 / abs(c) if c > 0 else -1 / abs(c)), c


def simple(vs):
    """Whether consecutive edges only share their vertex and others nothing."""
    n = len(vs)
    es = [(vs[i - 1], vs[i]) for i in range(n)]
    for i in range(n):
        for j in range(i):
            (a, b), (c, d) = es[i], es[j]
            o = [sgn(turn(a, b, c)), sgn(turn(a, b, d)), sgn(turn(c, d, a)), sgn(turn(c, d, b))]
            if i - j in (1, n - 1):
                s = set((a, b)) & set((c, d))
                if len(s) != 1:
                    return False
                q = s.pop()
                u = a if b == q else b
                w = c if d == q else d
                if turn(q, u, w) == 0 and (u[0] - q[0]) * (w[0] - q[0]) + (u[1] - q[1]) * (w[1] - q[1]) > 0:
                    return False
            elif o[0] * o[1] <= 0 and o[2] * o[3] <= 0:
                if any(o) or max(a, b) >= min(c, d) and max(c, d) >= min(a, b):
                    return False
    return True


def turn(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def outlines():
    """One representative per sign pattern: all triangles, and a spread of simple four and five sided outlines."""
    seen = {}
    grid = [(a, b) for a in range(-2, 3) for b in range(-2, 3)]
    for vs in product(grid, repeat=3):
        if turn(*vs) != 0:
            seen.setdefault(pattern(vs), vs)
    rnd = random.Random(5)
    tri = list(seen.values())
    out = {}
    for n, want in ((4, 500), (5, 250)):
        got = 0
        for _ in range(20000):
            vs = tuple(rnd.choice(grid) for _ in range(n))
            if len(set(vs)) == n and sum(cross(vs[i - 1], vs[i]) for i in range(n)) != 0 and simple(vs):
                k = pattern(vs)
                if k not in out:
                    out[k] = vs
                    got += 1
                    if got >= want:
                        break
    return tri, list(out.values())


def run(R):
    R.explain = ('The outline test is evaluated on symbolic vertices and point, once for every sign pattern (order of '
                 'coordinates, turns about the point) that triangles can have, and for a spread of patterns of simple four '
                 'and five sided outlines of both orientations, every starting vertex among them; the expected answer of a pattern '
                 'comes from an independent crossing count. The answers for holes and for several polygons are combined '
                 'for every combination of single answers.')
    R.rule('C22.outline', 'a point is located as inside, on the edge or outside an outline')
    R.rule('C22.holes', 'answers for the outline and the holes are combined into that for the polygon')
    R.rule('C22.several', 'the best answer of the polygons counts; an empty geometry is outside')
    p = program(R)
    for f in (RING, HOLED, GEO):
        fn(R, f)
    attempt(R, 'C22.outline', 'outlines', lambda: rings(R, p), RING)
    attempt(R, 'C22.holes', 'holes', lambda: holes(R, p), HOLED)
    attempt(R, 'C22.several', 'several polygons', lambda: several(R, p), GEO)


def answer(e, v, st):
    v = t.restrict(v, e.known) if isinstance(v, Ite) and hasattr(e, 'known') else v
    return v.const() if isinstance(v, Rat) and st.pend == F else None


def rings(R, p):
    e = Facts(p)
    tri, more = outlines()
    for name, shapes in (('triangles', tri), ('four and five sided outlines', more)):
        vds = {w: Verdict() for w in (1, 0, -1)}
        for m, vs in enumerate(shapes):
            sx, q, fs = facts(vs)
            e.set(fs)
            st = new_state()
            poly = ('tup', tuple(pt(*v) for v in sx))
            v, st = e.run(RING, [poly, pt(*q) if m % 5 else ('arr', tuple(q))], {}, st)
            want = oracle(vs)
            got = answer(e, v, st)
            what = 'vertices placed like %s around the point: answers %s' % (list(vs), got if got is not None else t.show(v, 40))
            vds[want](False if st.pend == T else None if got is None else got == want, what)
        for w, vd in vds.items():
            vd.decide(R, 'C22.outline', '%s, point %s' % (name, {1: 'inside', 0: 'on the edge', -1: 'outside'}[w]), RING)
    finish_engine(R, e)


def holes(R, p):
    for k in range(3):
        vd = Verdict()
        for o, hs in product((-1, 0, 1), product((-1, 0, 1), repeat=k)):
            if sum(h == 1 for h in hs) + (0 in hs and 1 in hs) > 1 or o != 1 and any(h == 1 for h in hs):
                continue        # holes do not overlap and lie in the outline
            names = [('c', 'ring%d' % i) for i in range(k + 1)]
            ans = dict(zip(names, (o,) + hs))
            e = Engine(p)
            e.prims[INIT] = lambda eng, args, kw, st: set_rings(eng, args, kw, st)
            e.prims[RING] = lambda eng, args, kw, st: rc(ans[args[0]]) if args and args[0] in ans else t.top('ring')
            st = new_state()
            me = e.construct(SP, [names[0], ('tup', tuple(names[1:]))], {}, st)
            v, st = e.run(HOLED, [me, pt(x('px'), x('py'))], {}, st)
            want = o if o < 1 else 0 if 0 in hs else -1 if 1 in hs else 1
            got = answer(e, v, st)
            vd(False if st.pend == T else None if got is None else got == want, 'outline answers %d, holes %s: polygon answers %s' % (o, list(hs), got))
        vd.decide(R, 'C22.holes', '%d holes' % k, HOLED)


def set_rings(eng, args, kw, st):
    eng.setattr(args[0], 'outer', args[1], st)
    eng.setattr(args[0], 'holes', args[2], st)
    return NONE


def several(R, p):
    for k in range(4):
        vd = Verdict()
        for ans in product((-1, 0, 1), repeat=k):
            names = [('c', 'polygon%d' % i) for i in range(k)]
            e = Engine(p)
            st = new_state()
            e.prims[INIT] = lambda eng, args, kw, st: set_rings(eng, args, kw, st)
            mes = [e.construct(SP, [n, ('tup', ())], {}, st) for n in names]
            who = dict(zip(mes, ans))
            e.prims[HOLED] = lambda eng, args, kw, st: rc(who[args[0]]) if args and args[0] in who else t.top('polygon')
            me = e.construct(GE, [('tup', tuple(mes))], {}, st)
            v, st = e.run(GEO, [me, pt(x('px'), x('py'))], {}, st)
            want = max(ans, default=-1)
            got = answer(e, v, st)
            vd(False if st.pend == T else None if got is None else got == want, 'polygons answer %s: geometry answers %s' % (list(ans), got))
        vd.decide(R, 'C22.several', '%d polygons' % k, GEO)
