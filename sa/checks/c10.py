"""C10: fingers and joint coordinates are inverse, and the joint coordinate is shared by both sheets (rational identities)."""
from itertools import product
from .bcommon import program, fn, attempt, finish_engine, loc
from .c19 import Boxes, new_state, coord
from .c23 import x, add
from .c25 import vertices, turned, contents, SP, GEO
from .witness import refute, value
from ..b import terms as t
from ..b.terms import T, F, NONE, Ite, Rat, rc, ra

S = 'plycutter.sheetplex:'
SIDE, SHEET, INTER, PLEX = S + 'InterSide', S + 'Sheet', S + 'Intersection', S + 'SheetPlex'
FINGERS, PROJECT = SIDE + '.make_fingers', SIDE + '.project_to_1d'
C = 'plycutter.create_sheetplex:'
JOINT = C + 'create_intersection'
G1 = 'plycutter.geometry.geom1d:Geom1D'
GET = G1 + '.get_intervals'
UNION = GEO + '.union'
LSTSQ, CROSS, NORM = 'numpy.linalg.lstsq', 'numpy.cross', 'numpy.linalg.norm'


def run(R):
    R.explain = ('A joint side with a symbolic unit direction (rational parametrisation of the circle), offsets and strip is given '
                 'to the finger and projection functions for every order of up to two ranges; the four corners and the range '
                 'projected back are compared as rational functions. The creation of a joint is evaluated on two symbolic sheets '
                 '(planes and rotations unknown); both sides must measure along the same 3D direction from the same 3D origin, '
                 'and the strip must reach over the four intersection lines of the faces.')
    R.rule('C10.corners', 'a range becomes the rectangle from its start to its end along the joint and from the lowest to the highest offset across')
    R.rule('C10.inverse', 'projecting the fingers of a range gives the range')
    R.rule('C10.part', 'with fractions given, the rectangle reaches over that part of the strip')
    R.rule('C10.side', 'the side of a joint is measured along the 3D direction from the 3D origin of the joint')
    R.rule('C10.strip', 'the strip of a joint reaches over all four intersection lines of the two sheets')
    p = program(R)
    for f in (FINGERS, PROJECT, JOINT, GET):
        fn(R, f)
    attempt(R, 'C10.corners', 'fingers', lambda: fingers(R, p), FINGERS)
    attempt(R, 'C10.side', 'sides', lambda: sides(R, p), JOINT)


def engine(p):
    e = Boxes(p)

    def union(eng, args, kw, st):
        """The parts side by side (they do not overlap)."""
        gs = eng.pieces(args[-1], st)
        if gs is None or any(q[1] != T or q[2] for q in gs):
            return t.top('union')
        parts = []
        for q in gs:
            ps = eng.pieces(eng.getattr(q[3], 'spwhs', st), st)
            if ps is None or any(z[1] != T or z[2] for z in ps):
                return t.top('union')
            parts += [z[3] for z in ps]
        return eng.construct(GEO, [('tup', tuple(parts))], {}, st)
    e.prims[UNION] = union
    return e


QUADRANTS = [(i, j) for i in (1, 0, -1) for j in (1, 0, -1) if i or j]


def unit(q):
    """Any unit vector with coordinates of the given signs."""
    if 0 in q:
        return rc(q[0]), rc(q[1])
    u = x('u')
    d = add(rc(1), t.rmul(u, u))
    return t.rmul(rc(q[0]), t.rdiv(t.rsub(rc(1), t.rmul(u, u)), d)), t.rmul(rc(q[1]), t.rdiv(t.rmul(rc(2), u), d))


def the_side(e, q):
    dx, dy = unit(q)
    f = {'direction': ('arr', (dx, dy)), 'normal': ('arr', (dy, t.rneg(dx))), 'origin_offset': x('off'), 'min_normal_offset': x('lo'),
         'max_normal_offset': add(x('lo'), x('w')), 'id': ('c', 'side'), 'sheet': ('c', 's'), 'intersection': ('c', 'i'), 'idx': rc(0)}
    u2 = t.rmul(x('u'), x('u'))
    e.signs = [(x('w').n, 1), (x('u').n, 1), (add(rc(1), u2).n, 1), (t.rsub(rc(1), u2).n, 1), (t.rsub(rc(1), x('u')).n, 1), (add(rc(1), x('u')).n, 1)]
    return ('rec', SIDE, tuple(sorted(f.items())))


def corners(q, a, b, f0, f1):
    dx, dy = unit(q)
    n = (dy, t.rneg(dx))
    r = []
    for along, fr in ((a, f0), (a, f1), (b, f1), (b, f0)):
        al = add(along, x('off'))
        nc = add(x('lo'), t.rmul(x('w'), fr))
        r.append((add(t.rmul(al, dx), t.rmul(nc, n[0])), add(t.rmul(al, dy), t.rmul(nc, n[1]))))
    return r


def fingers(R, p):
    for q, k, frs in product(QUADRANTS, (0, 1, 2, 3), (None, ('f0', 'f1'), ('f0',), (1, 0))):
        if frs is not None and k != 1:
            continue
        e = engine(p)
        e.rank = {}
        st = new_state()
        sd = the_side(e, q)
        ends = [coord(e, 0, i) for i in range(2 * k)]
        rs = [(ends[2 * i], ends[2 * i + 1]) for i in range(k)]
        where = e.construct(G1, [e.new(st, ('lst', tuple(('p', T, (), ('tup', r)) for r in rs)))], {}, st)
        kw = {}
        f0, f1 = rc(0), rc(1)
        if frs == ('f0', 'f1'):
            f0, f1 = x('f0'), add(x('f0'), x('g'))
            e.signs.append((x('g').n, 1))
            kw = {'fract0': f0, 'fract1': f1}
        elif frs == ('f0',):
            f0 = t.rsub(rc(1), x('g'))
            e.signs.append((x('g').n, 1))
            kw = {'fract0': f0}
        elif frs:
            f0, f1 = rc(1), rc(0)
            kw = {'fract0': f0, 'fract1': f1}
        v, st = e.run(FINGERS, [sd, where], kw, st)
        R.count('symbolic cases')
        rule = 'C10.part' if frs else 'C10.corners'
        key = '%d ranges, direction %s' % (k, q) + (', fractions %s' % (frs,) if frs else '')
        w = loc(R, FINGERS)
        if st.pend == T:
            R.viol(rule, key, 'fails', w, FINGERS)
            continue
        if st.pend != F:
            why = None if t.has_top(st.pend) else refute(st.pend, e.signs + [(t.rsub(b, a).n, 1) for a, b in zip(ends, ends[1:])], value)
            R.decide(rule, key, False if why else None, 'fails for %s' % why if why else 'not determined: ' + t.show(st.pend, 80), w, FINGERS)
            continue
        got = contents(e, v, st)
        if got is None:
            R.undecided(rule, key, 'fingers not determined: ' + t.show(v, 60), w, FINGERS)
            continue
        want = [corners(q, a, b, f0, f1) for a, b in rs]
        rest = list(got)
        for c in want:
            i = next((i for i, (o, hs) in enumerate(rest) if not hs and (turned(o, c) or turned(o, c[::-1]))), None)
            if i is not None:
                del rest[i]
        ok = len(got) == len(want) and not rest
        R.decide(rule, key, ok, 'the fingers are %s' % '; '.join(t.show(('tup', tuple(('tup', q) for q in o)), 100) for o, hs in got)[:300], w, FINGERS)
        if frs:
            continue
        if not ok:
            continue
        g, st = e.run(PROJECT, [sd, v], {}, st)
        R.count('symbolic cases')
        iv, st = e.run(GET, [g], {}, st)
        ps = e.pieces(iv, st)
        key = '%d ranges, direction %s, projected back' % (k, q)
        if st.pend == T:
            R.viol('C10.inverse', key, 'fails', loc(R, PROJECT), PROJECT)
        elif st.pend != F or ps is None or any(q[1] != T or q[2] for q in ps) or any(t.has_top(q[3]) for q in ps):
            R.undecided('C10.inverse', key, 'not determined: ' + t.show(iv, 80), loc(R, PROJECT), PROJECT)
        else:
            out = [[z[3] for z in e.pieces(q[3], st)] for q in ps]
            R.decide('C10.inverse', key, out == [list(r) for r in rs], 'gives %s' % t.show(('tup', tuple(('tup', tuple(o)) for o in out)), 200), loc(R, PROJECT), PROJECT)
    finish_engine(R, e)


def matrix(name):
    """Rotation matrix (inverse) of a sheet without translation."""
    return [[x('%s%d%d' % (name, i, j)) for j in range(3)] + [rc(0)] for i in range(3)] + [[rc(0), rc(0), rc(0), rc(1)]]


def sheet(name):
    m = matrix(name + 'm')
    arr = ('arr', tuple(('arr', tuple(r)) for r in m))
    sd = [[x('%s%s%d' % (name, k, j)) for j in range(4)] for k in 'ab']
    f = {'id': ('c', name), 'sides': ('arr', tuple(('arr', tuple(r)) for r in sd)), 'inverse_slice_rotation': arr,
         'slice_rotation': ('arr', tuple(('arr', z) for z in zip(*m)))}
    return ('rec', SHEET, tuple(sorted(f.items()))), m, sd


def dot(a, b):
    r = rc(0)
    for p, q in zip(a, b):
        r = add(r, t.rmul(p, q))
    return r


def rows(v):
    return [list(r[1]) for r in v[1]] if isinstance(v, tuple) and v[0] == 'arr' and all(isinstance(r, tuple) and r[0] == 'arr' for r in v[1]) else None


def sides(R, p):
    e = engine(p)
    e.rank, e.signs = {}, []
    (sa, ma, pa), (sb, mb, pb) = sheet('sa'), sheet('sb')
    D = tuple(x('d%d' % i) for i in range(3))
    calls = []

    def cross(eng, args, kw, st):
        return ('arr', D)

    def lstsq(eng, args, kw, st):
        a, b = rows(eng.asarr(args[0], st)), eng.asarr(args[1], st)
        n = len(calls)
        calls.append((a, list(b[1]) if isinstance(b, tuple) and b[0] == 'arr' else None))
        o = ('arr', tuple(x('o%d%s' % (n, c)) for c in 'xyz'))
        return ('tup', (o, ('arr', ()), rc(2), ('arr', ())))
    e.prims[CROSS] = cross
    e.prims[NORM] = lambda eng, args, kw, st: rc(1)
    e.prims[LSTSQ] = lstsq
    e.prims[LSTSQ.replace('linalg', 'linalg.linalg')] = lstsq
    st = new_state()
    sp = ('rec', PLEX, (('intersections', ('map', ('empty',), ())), ('sheets', e.pyr_m([], {'sa': sa, 'sb': sb}, st))))
    v, st = e.run(JOINT, [sp, ('tup', (sa, sb))], {}, st)
    w = loc(R, JOINT)
    js = e.pieces(e.x_map_values(e.getattr(v, 'intersections', st), [], {}, st), st) if isinstance(v, tuple) and v[0] == 'rec' else None
    if st.pend != F or js is None or len(js) != 1 or js[0][1] != T:
        R.undecided('C10.side', 'joint of two sheets', 'not determined: ' + t.show(v, 80), w, JOINT)
        return
    # the four lines
    fa = [r[:3] for r in pa], [r[3] for r in pa]
    fb = [r[:3] for r in pb], [r[3] for r in pb]
    seen = set()
    known = all(a is not None and b is not None and not t.has_top(b) and not any(t.has_top(z) for r in a for z in r) for a, b in calls)
    for a, b in calls:
        for i, j in product((0, 1), (0, 1)):
            if known and (a, b) in (([fa[0][i], fb[0][j]], [fa[1][i], fb[1][j]]), ([fb[0][j], fa[0][i]], [fb[1][j], fa[1][i]])):
                seen.add((i, j))
    ok = seen == {(0, 0), (0, 1), (1, 0), (1, 1)} and len(calls) == 4
    R.decide('C10.strip', 'intersection lines of the faces', ok if known and len(calls) >= 4 else None,
             'the %d origins are those of the face pairs %s only' % (len(calls), sorted(seen)), w, JOINT)
    n = len(calls)
    sds = e.pieces(e.getattr(js[0][3], 'sides', st), st)
    if sds is None or len(sds) != 2:
        R.undecided('C10.side', 'sides', 'not determined', w, JOINT)
        return
    origins = [[x('o%d%s' % (k, c)) for c in 'xyz'] for k in range(n)]
    used = []
    for q, m, nm in zip(sds, (ma, mb), ('first', 'second')):
        g = {k: e.getattr(q[3], k, st) for k in ('direction', 'normal', 'origin_offset', 'min_normal_offset', 'max_normal_offset')}
        P = lambda vec: [dot(m[i][:3], vec) for i in range(2)]
        d = P(D)
        R.count('symbolic cases')
        if any(t.has_top(z) for z in g.values()):
            R.undecided('C10.side', nm + ' side', 'not determined: %s' % {k: t.show(z, 40) for k, z in g.items() if t.has_top(z)}, w, JOINT)
            continue
        vec = {k: list(g[k][1]) if isinstance(g[k], tuple) and g[k][0] == 'arr' else None for k in ('direction', 'normal')}
        R.decide('C10.side', nm + ' side: direction', None if vec['direction'] is None else vec['direction'] == d, 'the direction is %s' % t.show(g['direction'], 160), w, JOINT)
        if vec['normal'] is not None:
            perp = dot(vec['normal'], d) == rc(0)
            size = t.rsub(dot(vec['normal'], vec['normal']), dot(d, d)) == rc(0)
            R.decide('C10.side', nm + ' side: normal', perp and size, 'the normal %s is not the turned direction' % t.show(g['normal'], 120), w, JOINT)
        k = [i for i, o in enumerate(origins) if g['origin_offset'] == dot(d, P(o))]
        used.append(k[0] if k else None)
        ok = bool(k)
        if not k and not isinstance(g['origin_offset'], Rat):
            ok = None
        R.decide('C10.side', nm + ' side: origin', ok, 'the offset %s is that of none of the joint origins' % t.show(g['origin_offset'], 160), w, JOINT)
        if vec['normal'] is not None:
            ns = [dot(vec['normal'], P(o)) for o in origins]
            for key, mx in (('min_normal_offset', False), ('max_normal_offset', True)):
                want = e.b_min([('tup', tuple(ns))], {}, st, mx) if n else None
                same = g[key] == want
                why = None
                if not same:
                    pick = max if mx else min
                    why = refute(('tup', (g[key],) + tuple(ns)), [], lambda f, val: value(f[1][0], val) != pick(value(z, val) for z in f[1][1:]), 40, 400)
                R.decide('C10.strip', '%s side: %s' % (nm, key), True if same else False if why else None, 'is %s, wrong for %s' % (t.show(g[key], 60), str(why)[:200]), w, JOINT)
    if len(used) == 2 and None not in used:
        R.decide('C10.side', 'same origin on both sides', used[0] == used[1], 'the sides measure from the origins %s' % used, w, JOINT)
    finish_engine(R, e)

