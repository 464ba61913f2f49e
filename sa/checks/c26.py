"""C26: the facet catalogue, evaluated over symbolic meshes (every grouping of few triangles)."""
from .bcommon import program, fn, attempt, finish_engine, loc
from .c19 import new_state
from ..b import terms as t
from ..b.terms import T, F, NONE, Ite, Rat, rc, ra, top
from ..b.lib2 import Engine

M = 'plycutter.create_sheetplex:'
LISTS = ('facets', 'normals', 'origins', 'areas', 'boundaries')
FIND = M + 'find_all_facets'
MOST = 5


def run(R):
    R.explain = ('find_all_facets is evaluated on symbolic meshes: every way in which up to %d triangles are split over library facets and '
                 'left-over triangles, with the library facets in either order. All values of the mesh (normals, origins, areas, boundaries, '
                 'vertices) are symbols, so that each entry of the catalogue shows which facet or triangle it describes.' % MOST)
    R.rule('C26.once', 'every triangle belongs to exactly one catalogued facet')
    R.rule('C26.parallel', 'normals, origins, areas and boundaries at one position describe the facet at that position')
    p = program(R)
    fn(R, FIND)
    attempt(R, 'C26.once', 'meshes', lambda: meshes(R, p), FIND)


def groupings(n):
    """Every set of disjoint library facets (two or more triangles each) over n triangles."""
    def parts(xs):
        if not xs:
            yield []
            return
        a, rest = xs[0], xs[1:]
        for p in parts(rest):
            yield [[a]] + p
            for i in range(len(p)):
                yield p[:i] + [[a] + p[i]] + p[i + 1:]
    seen = set()
    for p in parts(list(range(n))):
        k = tuple(sorted(tuple(x) for x in p if len(x) > 1))
        if k not in seen:
            seen.add(k)
            yield [list(x) for x in k]


def vec(*name):
    return ('arr', tuple(ra(name + (i,)) for i in 'xyz'))


class Mesh(Engine):
    def __init__(self, p, n, facets):
        Engine.__init__(self, p, facts=self.known)
        self.count, self.groups = n, facets
        for f in ('argparse.Namespace', 'types.SimpleNamespace'):
            self.prims[f] = lambda e, a, k, st: ('rec', 'namespace', tuple(sorted(k.items()))) if not a else top('namespace')

    def known(self, atom):
        # areas fall with the number of the triangle
        if atom[0] in ('lt0', 'eq0') and len(atom[1].t) == 2:
            rs = []
            for m, c in atom[1].t:
                a = t.atom_of(m[0][0]) if len(m) == 1 and m[0][1] == 1 else ('?',)
                if a[0] not in ('area', 'farea') or abs(c) != 1:
                    return None
                rs.append((c, -a[1] if a[0] == 'area' else -self.groups[a[1]][0] - 0.5 * (len(self.groups[a[1]]) > 1)))
            if rs[0][0] + rs[1][0] != 0:
                return None
            d = sum(c * r for c, r in rs)
            return d < 0 if atom[0] == 'lt0' else d == 0
        return None

    def meth(self, name, x, args, kw, st):
        if x == NONE:
            st.pend = T
        return Engine.meth(self, name, x, args, kw, st)

    def getattr1(self, x, name, st):
        if isinstance(x, tuple) and x == ('sym', ('mesh',), 'any'):
            n, fs = self.count, self.groups
            each = lambda f: ('arr', tuple(f(i) for i in range(n)))
            lib = lambda f: ('arr', tuple(f(k) for k in range(len(fs))))
            r = {'faces': lambda: each(lambda i: ('arr', tuple(ra(('corner', i, k)) for k in range(3)))),
                 'triangles': lambda: each(lambda i: ('arr', tuple(vec('vertex', i, k) for k in range(3)))),
                 'face_normals': lambda: each(lambda i: vec('normal', i)),
                 'area_faces': lambda: each(lambda i: ra(('area', i))),
                 'facets': lambda: ('tup', tuple(('arr', tuple(rc(i) for i in f)) for f in fs)),
                 'facets_normal': lambda: lib(lambda k: vec('fnormal', k)),
                 'facets_origin': lambda: lib(lambda k: vec('forigin', k)) if fs else NONE,
                 'facets_area': lambda: lib(lambda k: ra(('farea', k))),
                 'facets_boundary': lambda: ('tup', tuple(('arr', (('arr', (ra(('fb', k, 0)), ra(('fb', k, 1)))),)) for k in range(len(fs)))),
                 }.get(name)
            return r() if r else top('mesh attribute ' + name)
        return Engine.getattr1(self, x, name, st)


def meshes(R, p):
    w = loc(R, FIND)
    for n in range(1, MOST + 1):
        for g in groupings(n):
            for fs in ([g, g[::-1]] if len(g) > 1 else [g]):
                one(R, p, n, fs, w)


def entries(e, v, st):
    ps = e.pieces(v, st)
    if ps is None or any(z[1] != T or z[2] or t.has_top(z[3]) for z in ps):
        return None
    return [z[3] for z in ps]


def one(R, p, n, fs, w):
    e = Mesh(p, n, fs)
    st = new_state()
    R.count('meshes')
    key = '%d triangles, facets %s' % (n, ' '.join('-'.join(map(str, f)) for f in fs) or 'none')
    v, st = e.run(FIND, [('sym', ('mesh',), 'any')], {}, st)
    finish_engine(R, e)
    if st.pend == T:
        R.decide('C26.once', key, False, 'building the catalogue fails', w, FIND)
        return
    if v is None or t.has_top(v) or st.pend != F:
        R.decide('C26.once', key, None, 'not determined: %s' % t.show(v, 60), w, FIND)
        return
    cols = {}
    for f in LISTS:
        cols[f] = entries(e, e.getattr(v, f, st), st)
        if cols[f] is None:
            R.decide('C26.parallel' if f != 'facets' else 'C26.once', key, None, 'the list of %s is not determined' % f, w, FIND)
    if cols['facets'] is None:
        return
    groups = []
    for z in cols['facets']:
        ids = entries(e, z, st)
        ids = [i.const() if isinstance(i, Rat) else None for i in ids] if ids is not None else [None]
        if None in ids:
            R.decide('C26.once', key, None, 'a facet is not determined', w, FIND)
            return
        groups.append([int(i) for i in ids])
    flat = sorted(i for g in groups for i in g)
    R.decide('C26.once', key, flat == list(range(n)), 'catalogued triangles: %s' % flat, w, FIND)
    for f in LISTS[1:]:
        col = cols[f]
        if col is None:
            continue
        if len(col) != len(groups):
            R.decide('C26.parallel', '%s, %s' % (key, f), False, '%d entries for %d facets' % (len(col), len(groups)), w, FIND)
            continue
        bad = unk = None
        for i, (g, z) in enumerate(zip(groups, col)):
            r = describes(e, f, g, fs, z, st)
            if r is False:
                bad = bad or 'entry %d for facet %s is %s' % (i, g, t.show(z, 60))
            elif r is None:
                unk = unk or 'entry %d is not determined: %s' % (i, t.show(z, 60))
        R.decide('C26.parallel', '%s, %s' % (key, f), False if bad else None if unk else True, bad or unk, w, FIND)


def names(v, out):
    if isinstance(v, Rat):
        for a in v.atoms():
            out.add(t.atom_of(a))
    elif isinstance(v, tuple):
        for x in v:
            if isinstance(x, (tuple, Rat, Ite)):
                names(x, out)
    elif isinstance(v, Ite):
        out.add('?')
    return out


def describes(e, f, g, fs, z, st):
    """Does the entry describe facet g?  None if that cannot be told."""
    ns = names(e.freeze(z, st) if e.freeze(z, st) is not None else z, set())
    z = e.freeze(z, st) or z
    known = {'normal', 'fnormal', 'area', 'farea', 'forigin', 'vertex', 'corner', 'fb'}
    if t.has_top(z) or any(a == '?' or a[0] not in known for a in ns):
        return None
    k = next((i for i, x in enumerate(fs) if sorted(x) == sorted(g)), None)
    flat = lambda x: tuple(flat(y) for y in x[1]) if isinstance(x, tuple) and x[0] in ('arr', 'tup', 'lst') and isinstance(x[1], tuple) else x
    i = g[0]
    if f == 'normals':
        return flat(z) in ([flat(vec('fnormal', k))] if k is not None else []) + [flat(vec('normal', j)) for j in g]
    if f == 'origins':
        return flat(z) in ([flat(vec('forigin', k))] if k is not None else []) + [flat(vec('vertex', j, c)) for j in g for c in range(3)] or (
            None if {a[:2] for a in ns} <= {('vertex', j) for j in g} and ns else False)
    if f == 'areas':
        s = rc(0)
        for j in g:
            s = t.radd(s, ra(('area', j)))
        return z == s or k is not None and z == ra(('farea', k))
    ps = e.pieces(z, st)
    if ps is None:
        return None
    es = [flat(q[3]) for q in ps]
    if k is not None:
        return {a for a in ns} == {('fb', k, 0), ('fb', k, 1)}
    if len(g) != 1:
        return None
    want = {frozenset((ra(('corner', i, c)), ra(('corner', i, (c + 1) % 3)))) for c in range(3)}
    if any(not isinstance(x, tuple) or len(x) != 2 for x in es):
        return None
    return len(es) == 3 and {frozenset(x) for x in es} == want
