"""C29: what is recorded for a sheet describes one slab of the model (value numbering over symbolic meshes)."""
from fractions import Fraction as Q
from .bcommon import program, fn, attempt, finish_engine, loc
from .c19 import new_state
from ..b import terms as t
from ..b.terms import T, F, NONE, Ite, Rat, rc, ra, gand, gor
from ..b.lib2 import Engine

C = 'plycutter.create_sheetplex:'
FID = C + 'create_sheetplex'
SP = 'plycutter.sheetplex:'
MESH = ('sym', ('mesh',), 'any')
THICK = ra(('option', 'thickness'))


class Facet:
    """normal: axis and sign; height: offset along the normal; rim: points of its boundary; tris: its triangles."""

    def __init__(self, normal, height, area, tris=1, rim=()):
        self.normal, self.height, self.area, self.tris, self.rim = normal, Q(height), area, tris, rim


X, Y, Z = (1, 0, 0), (0, 1, 0), (0, 0, 1)


def neg(v):
    return tuple(-z for z in v)


def sname(*name):
    return ra(name)


class Slabs(Engine):
    """Every number of the mesh is a symbol. Conditions are decided by one assignment that realises the arrangement of
    the facets; values stay symbolic, so that they show which facet or triangle they come from."""

    def __init__(self, p, facets, thickness):
        Engine.__init__(self, p, facts=self.known)
        self.facets_, self.val = facets, {('option', 'thickness'): float(thickness)}
        self.sortmax = 12
        self.sections, self.first = [], []
        n = 0
        for i, f in enumerate(facets):
            for k in range(3):
                self.val[('normal', i, k)] = f.normal[k]
                self.val[('origin', i, k)] = f.normal[k] * float(f.height)
            self.val[('area', i)] = f.area
            self.first.append(n)
            n += f.tris
        self.ntri = n
        self.rim = [pt for f in facets for pt in (f.rim or (tuple(z * f.height for z in f.normal),))]
        for i, pt in enumerate(self.rim):
            for k in range(3):
                self.val[('vertex', i, k)] = float(pt[k])
        for f in ('argparse.Namespace', 'types.SimpleNamespace'):
            self.prims[f] = lambda e, a, k, st: ('rec', 'namespace', tuple(sorted(k.items())))
        self.prims['numpy.linalg.norm'] = Slabs.p_norm
        self.prims['.section_multiplane'] = Slabs.p_sections
        self.prims['.section'] = Slabs.p_section
        for f in ('shapely.ops.unary_union', 'shapely.unary_union', '.unary_union', 'shapely.ops.cascaded_union'):
            self.prims[f] = lambda e, a, k, st: a[-1]
        for cid in p.class_by_cid:
            if cid.split(':')[1].split('.')[-1].startswith('Geom2D'):
                self.prims[cid + '.empty'] = lambda e, a, k, st: ('geo', 2, F)
                self.prims[cid + '.from_shapely'] = Slabs.p_shape
                self.prims[cid + '.polygon'] = Slabs.p_polygon
        if C + 'create_intersections' in p.func_by_fid:
            self.prims[C + 'create_intersections'] = lambda e, a, k, st: a[0]
        self.prims['builtins.float'] = lambda e, a, k, st: a[0] if isinstance(a[0], Rat) else t.top('float')
        self.prims['warnings.catch_warnings'] = lambda e, a, k, st: ('c', 'context')
        self.prims['warnings.filterwarnings'] = lambda e, a, k, st: NONE
        self.prims['warnings.simplefilter'] = lambda e, a, k, st: NONE

    # conditions
    def known(self, atom):
        if atom[0] in ('lt0', 'eq0') and isinstance(atom[1], t.Poly):
            v = self.number(atom[1])
            if v is None:
                return None
            return v < 0 if atom[0] == 'lt0' else abs(v) < 1e-9
        if atom[0] == 'is' and any(isinstance(z, tuple) and z[:1] == ('sym',) and z[1][0] == 'cut' for z in atom[1:]):
            return False
        return None

    def number(self, q):
        r = 0.0
        for m, c in q.t:
            z = float(c)
            for a, k in m:
                v = self.leaf(t.atom_of(a))
                if v is None:
                    return None
                z *= v ** k
            r += z
        return r

    def rat(self, v):
        if not isinstance(v, Rat):
            return None
        a, b = self.number(v.n), self.number(v.d)
        return None if a is None or not b else a / b

    def leaf(self, a):
        if a in self.val:
            return self.val[a]
        if a[0] == 'norm':
            xs = [self.rat(z) for z in a[1]]
            return None if None in xs else sum(z * z for z in xs) ** 0.5
        return None

    def p_norm(self, args, kw, st):
        a = self.asarr(args[0], st)
        xs = a[1] if isinstance(a, tuple) and a[0] == 'arr' else (a,)
        if not all(isinstance(z, Rat) for z in xs):
            return t.top('norm')
        return ra(('norm', tuple(xs)))

    # the mesh
    def getattr1(self, x, name, st):
        if x == MESH:
            fs = self.facets_
            arr = lambda n, f: ('arr', tuple(f(i) for i in range(n)))
            lib = [i for i, f in enumerate(fs) if f.tris > 1]
            rest = [i for i, f in enumerate(fs) if f.tris == 1]
            own = {self.first[i]: i for i in rest}
            v3 = lambda what, i: ('arr', tuple(ra((what, i, k)) for k in range(3)))
            at = lambda tri: own.get(tri, next(i for i in range(len(fs)) if self.first[i] <= tri < self.first[i] + fs[i].tris))
            start = [sum(len(g.rim or (0,)) for g in fs[:i]) for i in range(len(fs))]
            size = [len(g.rim or (0,)) for g in fs]
            loop = lambda i: ('arr', tuple(('arr', (rc(start[i] + k), rc(start[i] + (k + 1) % size[i]))) for k in range(size[i])))
            r = {'faces': lambda: arr(self.ntri, lambda j: ('arr', tuple(rc(start[at(j)] + k % size[at(j)]) for k in range(3)))),
                 'triangles': lambda: arr(self.ntri, lambda j: ('arr', tuple(
                     ('arr', tuple(ra(('origin', own[j], k)) if j in own and c == 0 else ra(('corner', j, c, k)) for k in range(3))) for c in range(3)))),
                 'vertices': lambda: arr(len(self.rim), lambda i: v3('vertex', i)),
                 'face_normals': lambda: arr(self.ntri, lambda j: v3('normal', at(j))),
                 'area_faces': lambda: arr(self.ntri, lambda j: ra(('area', at(j)))),
                 'facets': lambda: ('tup', tuple(('arr', tuple(rc(self.first[i] + k) for k in range(fs[i].tris))) for i in lib)),
                 'facets_normal': lambda: ('arr', tuple(v3('normal', i) for i in lib)),
                 'facets_origin': lambda: ('arr', tuple(v3('origin', i) for i in lib)) if lib else NONE,
                 'facets_area': lambda: ('arr', tuple(ra(('area', i)) for i in lib)),
                 'facets_boundary': lambda: ('tup', tuple(loop(i) for i in lib))}.get(name)
            if r:
                return r()
        if isinstance(x, tuple) and x[0] == 'sym' and x[1][0] == 'cut':
            if name in ('polygons_full', 'polygons_closed'):
                return x
            if name == 'metadata':
                m = tuple(('arr', tuple(ra(('m', x[1][1], i, j)) for j in range(4))) for i in range(4))
                return self.pyr_m([], {'to_3D': ('arr', m)}, st)
        return Engine.getattr1(self, x, name, st)

    def p_sections(self, args, kw, st):
        a = dict(zip(('mesh', 'plane_origin', 'plane_normal', 'heights'), args))
        a.update(kw)
        n, hs, o = self.asarr(a['plane_normal'], st), self.pieces(a['heights'], st), self.asarr(a['plane_origin'], st)
        if hs is None or any(z[1] != T or z[2] or not isinstance(z[3], Rat) for z in hs):
            return t.top('sections')
        return ('tup', tuple(self.cut(n, self.along(o, n, z[3])) for z in hs))

    def p_section(self, args, kw, st):
        return t.top('section')

    def along(self, o, n, h):
        d = self.dot(o, n)
        return t.radd(d, h) if isinstance(d, Rat) else t.top('height')

    def cut(self, n, h):
        if t.has_top(h) or t.has_top(n):
            return t.top('section')
        v = self.rat(h)
        d = [self.rat(z) for z in n[1]]
        # empty above and below the slab
        inside = None
        if v is not None and None not in d:
            inside = any(self.within(d, v, f) for f in self.facets_)
        return ('sym', ('cut', n, h), 'any') if inside else NONE

    def within(self, d, v, f):
        dot = sum(a * b for a, b in zip(d, f.normal))
        along = [sum(a * float(b) for a, b in zip(d, pt)) for pt in f.rim]
        if along and min(along) < v < max(along):
            return True
        th = self.val[('option', 'thickness')]
        return abs(dot - 1) < 1e-6 and float(f.height) - th - 1e-9 <= v <= float(f.height) + 1e-9

    def truth1(self, x, st):
        if isinstance(x, tuple) and x[0] == 'sym' and x[1][0] == 'cut':
            return T
        return Engine.truth1(self, x, st)

    def p_shape(self, args, kw, st):
        v = args[-1]
        if isinstance(v, tuple) and v[0] == 'sym' and v[1][0] == 'cut':
            return ('geo', 2, Ite(('in', v[1]), T, F))
        return t.top('shape')

    def p_polygon(self, args, kw, st):
        args = [z for z in args if not (isinstance(z, tuple) and z[0] == 'cls')]
        a = dict(zip(('points', 'reorient'), args))
        a.update(kw)
        pts = self.asarr(a['points'], st)
        if a.get('reorient') != T or not (isinstance(pts, tuple) and pts[0] == 'arr') or t.has_top(pts):
            return t.top('polygon')
        return ('geo', 2, Ite(('in', ('polygon', frozenset(pts[1]))), T, F))


# (name, facets, expected sheets as (first facet, facets of its plane, facets of the opposite plane))
TOP, BOT = Facet(Z, 3, 100, 2), Facet(neg(Z), 3, 90, 2)
EDGE = ((50, 0, 3), (50, 0, -3), (50, 9, 0))


def side(area, rim=EDGE, tris=1):
    return Facet(X, 50, area, tris, rim)


FULL = ((50, -40, 40), (50, -40, -40), (50, 40, 0))
LOW = ((44, -40, 40), (44, -40, -40), (44, 40, 0))
RIMS = [Facet(X, 3, 80, 2, ((3, 9, 3), (3, 9, -3), (3, -9, 3))), Facet(neg(X), 3, 70, 1, ((-3, 9, 3), (-3, 9, -3), (-3, -9, 3)))]
OVER = [Facet(X, 3, 80, 2, ((3, 9, 5), (3, 9, -3), (3, -9, 3))), Facet(neg(X), 3, 70, 1, ((-3, 9, 3), (-3, 9, -5), (-3, -9, 3)))]
UNIVERSES = [
    ('a plank', [TOP, BOT, side(10), side(9)], [(0, [0], [1])]),
    ('a plank, other order', [side(10), Facet(neg(Z), 3, 100, 2), Facet(Z, 3, 90, 2)], [(1, [1], [2])]),
    ('a plank of single triangles', [Facet(Z, 3, 8), Facet(neg(Z), 3, 7)], [(0, [0], [1])]),
    ('top in two parts', [TOP, Facet(Z, 3, 20), BOT], [(0, [0, 1], [2])]),
    ('bottom in three parts', [Facet(neg(Z), 3, 20, 3), TOP, Facet(neg(Z), 3, 30, 2), Facet(neg(Z), 3, 5)], [(1, [1], [0, 2, 3])]),
    ('parts slightly out of plane', [TOP, Facet(Z, Q(305, 100), 20), BOT, Facet(neg(Z), Q(295, 100), 9, 2)], [(0, [0, 1], [2, 3])]),
    ('parts out of plane', [TOP, Facet(Z, Q(7, 2), 20), BOT, Facet(neg(Z), Q(5, 2), 9, 2)], [(0, [0], [2]), (1, [1], [3])]),
    ('nothing opposite', [TOP, side(5)], []),
    ('nothing opposite to two parts', [TOP, Facet(Z, 3, 50, 2), side(5)], []),
    ('opposite at another distance', [TOP, Facet(neg(Z), 4, 90, 2), side(5)], []),
    ('two planks', [TOP, Facet(Z, 23, 60, 2), BOT, Facet(neg(Z), -17, 70, 2)], [(0, [0], [2]), (3, [3], [1])]),
    ('two planks close together', [TOP, BOT, Facet(Z, Q(905, 100), 50, 2), Facet(neg(Z), Q(-305, 100), 40, 2)], [(0, [0], [1]), (2, [2], [3])]),
    ('two planks at a right angle', [TOP, BOT, Facet(X, 50, 80, 2, FULL), Facet(neg(X), -44, 70, 2, LOW), Facet(Y, 9, 3, 1, ((0, 9, 2), (1, 9, -2), (2, 9, 0)))],
     [(0, [0], [1]), (2, [2], [3])]),
    ('a narrow plank', [TOP, BOT] + RIMS, [(0, [0], [1])]),
    ('a narrow plank, edges reaching out', [TOP, BOT] + OVER, [(0, [0], [1]), (2, [2], [3])]),
    ('an edge reaching out of the slab', [TOP, BOT, Facet(X, 50, 10, 2, ((50, 0, 3), (50, 0, 40), (50, 9, 0))), Facet(neg(X), -44, 9, 2, LOW)],
     [(0, [0], [1]), (2, [2], [3])]),
]


def run(R):
    R.explain = ('Sheets are created from symbolic meshes: facets and triangles in a number of arrangements (one or two planks, planes in several '
                 'parts, in and out of tolerance, edges, other orders and sizes). Every number of the mesh is a symbol; only conditions are decided '
                 'by the arrangement. The record of each sheet is compared with its definition, so that each entry is traced to the facets, '
                 'triangles and sections it must come from.')
    R.rule('C29.sheets', 'one sheet for each plane with an opposite plane one thickness below, in order of size, every facet used at most once and the edges of a sheet for no other')
    R.rule('C29.sides', 'the two sides are the planes of the facets, pointing outwards')
    R.rule('C29.frame', 'the rotation is that of the sections of this sheet without translation, its inverse the transpose')
    R.rule('C29.faces', 'the faces of a side are the projections of all triangles of the facets of that side')
    R.rule('C29.slices', 'cross-sections: all inner sections united and intersected; outer ones above and below')
    R.rule('C29.only', 'restricting to given sheets keeps their ids and records')
    p = program(R)
    fn(R, FID)
    last = None
    for name, facets, want in UNIVERSES:
        full = {}
        for only in [None] + [['s%d' % i] for i in range(len(want))] * (len(want) > 1) + ([['s7']] if want else []):
            e = last = Slabs(p, facets, 6)
            attempt(R, 'C29.sheets', label(name, only), lambda: one(R, e, name, want, only, full), FID)
    if last is not None:
        finish_engine(R, last)


def label(name, only):
    return name + (', only %s' % only[0] if only else '')


def one(R, e, name, want, only, full):
    R.count('meshes')
    st = new_state()
    w = loc(R, FID)
    key = label(name, only)
    params = {k: ra(('option', k)) for k in ('support_radius', 'thickness', 'min_finger_width', 'max_finger_width', 'final_dilation', 'random_seed')}
    params['only_sheets'] = NONE if only is None else e.new(st, ('lst', tuple(('p', T, (), ('c', z)) for z in only)))
    v, st = e.run(FID, [MESH, e.pyr_m([], params, st)], {}, st)
    if st.pend == T:
        R.viol('C29.sheets', key, 'creating the sheets fails', w, FID)
        return
    f = dict(v[2]) if isinstance(v, tuple) and v[0] == 'rec' else {}
    ids = e.pieces(e.x_map_keys(f['sheets'], [], {}, st), st) if 'sheets' in f else None
    if st.pend != F or ids is None or any(z[1] != T or z[2] or z[3][0] != 'c' for z in ids):
        R.undecided('C29.sheets', key, 'not determined: %s' % t.show(st.pend if st.pend != F else v, 80), w, FID)
        return
    ids = [z[3][1] for z in ids]
    if only is not None:
        good = [z for z in only if z in full]
        R.decide('C29.only', key, sorted(ids) == sorted(good), 'sheets %s' % ', '.join(ids), w, FID)
        for z in good:
            if z in ids:
                r = show(e, e.index(f['sheets'], ('c', z), st), st)
                R.decide('C29.only', '%s: record of %s' % (key, z), r == full[z] if r is not None else None, 'another record than without the restriction', w, FID)
        return
    names = ['s%d' % i for i in range(len(want))]
    R.decide('C29.sheets', key, sorted(ids) == sorted(names), 'sheets %s, expected %s' % (', '.join(sorted(ids)) or 'none', ', '.join(names) or 'none'), w, FID)
    if sorted(ids) != sorted(names):
        return
    for z, exp in zip(names, want):
        rec = e.index(f['sheets'], ('c', z), st)
        full[z] = show(e, rec, st)
        sheet(R, e, '%s: %s' % (key, z), dict(rec[2]), exp, st, w, z)


def show(e, rec, st):
    """The record with its lists opened."""
    def go(x):
        if isinstance(x, tuple) and x and x[0] == 'ref':
            ps = e.pieces(x, st)
            return None if ps is None else ('list',) + tuple(go(z[3]) for z in ps)
        return x
    return tuple((k, go(x)) for k, x in rec[2]) if isinstance(rec, tuple) and rec[0] == 'rec' else None


def items(e, v, st):
    ps = e.pieces(v, st)
    return None if ps is None or any(z[1] != T or z[2] for z in ps) else [z[3] for z in ps]


def geo(v):
    return v[2] if isinstance(v, tuple) and v[0] == 'geo' else None


def sheet(R, e, key, f, exp, st, w, name):
    first, same, opposed = exp
    n = [ra(('normal', first, k)) for k in range(3)]
    off = e.dot(('arr', tuple(ra(('origin', first, k)) for k in range(3))), ('arr', tuple(n)))

    def cmp(rule, what, got, want):
        bad = got is None or t.has_top(got)
        R.decide(rule, '%s: %s' % (key, what), None if bad else got == want,
                 'not determined' if bad else 'got %s, expected %s' % (t.show(got, 110), t.show(want, 110)), w, FID)
    cmp('C29.sheets', 'id', f.get('id'), ('c', name))
    row = lambda v, o: ('arr', tuple(v) + (o,))
    cmp('C29.sides', 'sides', e.asarr(f['sides'], st), ('arr', (row(n, off), row([t.rneg(z) for z in n], t.rneg(t.rsub(off, THICK))))))
    m = [[ra(('m', ('arr', tuple(n)), i, j)) if j < 3 or i == 3 else rc(0) for j in range(4)] for i in range(4)]
    arr2 = lambda rows: ('arr', tuple(('arr', tuple(r)) for r in rows))
    cmp('C29.frame', 'rotation', e.asarr(f['slice_rotation'], st), arr2(m))
    cmp('C29.frame', 'inverse', e.asarr(f['inverse_slice_rotation'], st), arr2(zip(*m)))
    faces = items(e, f['faces'], st)
    want = []
    for fs in (same, opposed):
        g = F
        for i in fs:
            for k in range(e.facets_[i].tris):
                tri = e.getattr1(MESH, 'triangles', st)[1][e.first[i] + k]
                pts = []
                for vtx in tri[1]:
                    pts.append(('arr', tuple(e.dot(('arr', tuple(m[j][c] for j in range(3))), vtx) for c in range(2))))
                g = gor(g, Ite(('in', ('polygon', frozenset(pts))), T, F))
        want.append(g)
    if faces is None or len(faces) != 2:
        R.undecided('C29.faces', key, 'faces not determined', w, FID)
    else:
        for k in range(2):
            cmp('C29.faces', 'faces %d' % k, geo(faces[k]), want[k])
        cmp('C29.faces', 'both faces', geo(f['both_faces']), gand(want[0], want[1]))
    # sections
    top = e.rat(off)
    low = top - e.val[('option', 'thickness')]
    mx, mn = geo(f['slices_max']), geo(f['slices_min'])
    if mx is None or mn is None or t.has_top(mx) or t.has_top(mn):
        R.undecided('C29.slices', key, 'sections not determined', w, FID)
        return
    cuts = atoms(mx) | atoms(mn)
    bad = [c for c in cuts if not (c[0] == 'cut' and c[1] == ('arr', tuple(n)) and e.rat(c[2]) is not None and low < e.rat(c[2]) < top)]
    R.decide('C29.slices', key + ': inside', not bad and len(cuts) > 0, 'made of %s' % t.show(('tup', tuple(bad)), 100), w, FID)
    u, i = F, T
    for c in cuts:
        at = Ite(('in', c), T, F)
        u, i = gor(u, at), gand(i, at)
    cmp('C29.slices', 'union', mx, u)
    cmp('C29.slices', 'intersection', mn, i)
    out = items(e, f['outside_slices'], st)
    if out is None or len(out) != 2 or any(geo(z) is None for z in out):
        R.undecided('C29.slices', key + ': outer', 'not determined', w, FID)
        return
    for k, g in enumerate(map(geo, out)):
        ats = atoms(g)
        ok = all(c[0] == 'cut' and c[1] == ('arr', tuple(n)) and (e.rat(c[2]) > top if k == 0 else e.rat(c[2]) < low) for c in ats) and len(ats) <= 1
        d = 0.1
        there = any(e.within([e.rat(z) for z in n], top + d if k == 0 else low - d, z) for z in e.facets_)
        R.decide('C29.slices', '%s: outer %d' % (key, k), ok and bool(ats) == there, 'made of %s' % t.show(g, 100), w, FID)


def atoms(g):
    return {g.atom[1]} | atoms(g.a) | atoms(g.b) if isinstance(g, Ite) else set()
