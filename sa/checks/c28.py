"""C28: the starting state allows exactly what is supported and chooses only what no joint claims (value numbering)."""
from fractions import Fraction as Q
from .bcommon import program, fn, attempt, finish_engine, loc
from .c19 import Boxes, new_state
from .c11 import Off, S, SIDE, SHEET, INTER, PLEX, World
from ..b import terms as t
from ..b.terms import T, F, Ite, Rat, rc, ra, gand, gor, gnot, gif

START = 'plycutter.sheetbuild:create_sheetbuild'
FIELDS = ('sheet_chosen', 'sheet_ok', 'interside_chosen', 'interside_ok')
RADIUS = ra(('option', 'support_radius'))


def region(*name):
    return Ite(('in', name), T, F)


def pull(g, i):
    """The set of points of the sheet whose joint coordinate lies in g."""
    if not isinstance(g, Ite):
        return g
    if not (isinstance(g.atom, tuple) and g.atom[0] == 'in'):
        raise Off('a range that depends on ' + t.show(g.atom, 60))
    return gif(region('back', i, g.atom[1]), pull(g.a, i), pull(g.b, i))


def fingers(i, g, lo=rc(0), hi=rc(1)):
    return gand(region('strip', i, lo, hi), pull(g, i)) if g != F else F


def toaxis(i, g):
    return F if g == F else region('toaxis', i, g)


class Regions(Boxes):
    """Geometries are sets known by name; fingers commute with set operations, projections and buffers are uninterpreted."""

    def __init__(self, p):
        Boxes.__init__(self, p)
        self.rank, self.signs, self.sortmax = {}, [], 12
        for cid in p.class_by_cid:
            d = {'Geom1D': 1, 'Geom2D': 2}.get(cid.split(':')[1].split('.')[-1][:6])
            if d:
                self.prims[cid + '.empty'] = lambda e, a, k, st, d=d: ('geo', d, F)
                if d == 1:
                    self.prims[cid] = Regions.p_ranges
        for m, f in (('make_fingers', Regions.p_fingers), ('project_to_1d', Regions.p_project)):
            self.prims[SIDE + '.' + m] = f
        self.prims['builtins.locals'] = lambda e, a, k, st: e.pyr_m([], {}, st)

    def p_ranges(self, args, kw, st):
        ps = self.pieces(args[0], st) if args else []
        if ps is None:
            return t.top('ranges')
        r = F
        for _, g, bb, v in ps:
            ends = self.pieces(v, st)
            if bb or ends is None or len(ends) != 2:
                return t.top('ranges')
            a, b = (self.bound(z[3]) for z in ends)
            if a is None or b is None:
                return t.top('ranges')
            if a <= -1000 and b >= 1000:
                a, b = -1000, 1000           # as far as a joint is looked at
            r = gor(r, gand(g, region('range', str(a), str(b))))
        return ('geo', 1, r)

    def bound(self, v):
        if isinstance(v, Rat) and v.const() is not None:
            return Q(v.const())
        if isinstance(v, tuple) and v[0] == 'inf':
            return Q(v[1]) * 10 ** 9
        return None

    def sid(self, v):
        i = dict(v[2]).get('id') if isinstance(v, tuple) and v[0] == 'rec' and v[1] == SIDE else None
        return i

    def p_fingers(self, args, kw, st):
        a = {'fract0': rc(0), 'fract1': rc(1)}
        a.update(zip(('self', 'where', 'fract0', 'fract1'), args))
        a.update(kw)
        i = self.sid(a['self'])
        w = a.get('where')
        if i is None or not isinstance(w, tuple) or w[0] != 'geo':
            return t.top('fingers')
        return ('geo', 2, fingers(i, w[2], a['fract0'], a['fract1']))

    def p_project(self, args, kw, st):
        i = self.sid(args[0])
        w = args[1] if len(args) > 1 else next(iter(kw.values()), None)
        if i is None or not isinstance(w, tuple) or w[0] != 'geo':
            return t.top('projection')
        return ('geo', 1, toaxis(i, w[2]))


def buf(g, amount):
    return F if g == F else Ite(('in', ('buf', 2, g, amount)), T, F)


class Model(World):
    """A model with the given sheets and joints, all areas being unknown sets."""

    def __init__(self, p, sheets, joints, engine=Regions):
        self.e = e = engine(p)
        self.st = new_state()
        self.names, self.joints = sheets, joints
        g2 = lambda *n: ('geo', 2, region(*n))
        self.face = {s: (region('face', s, 0), region('face', s, 1)) for s in sheets}
        self.cross = {s: region('cross', s) for s in sheets}
        self.sheet, self.inter, self.sides = {}, {}, {}
        for s in sheets:
            a, b = self.face[s]
            f = {'id': ('c', s), 'faces': ('tup', (('geo', 2, a), ('geo', 2, b))), 'both_faces': ('geo', 2, gand(a, b)),
                 'slices_max': ('geo', 2, self.cross[s]), 'slices_min': ('geo', 2, gand(self.cross[s], region('inner', s))),
                 'outside_slices': ('tup', (g2('out', s, 0), g2('out', s, 1)))}
            self.sheet[s] = ('rec', SHEET, tuple(sorted(f.items())))
        for a, b in joints:
            j = '%s,%s' % (a, b)
            rs = []
            for k, s in enumerate((a, b)):
                i = ('tup', (('c', j), ('c', s)))
                f = {'id': i, 'intersection': ('c', j), 'sheet': ('c', s), 'idx': rc(k)}
                rs.append(('rec', SIDE, tuple(sorted(f.items()))))
                self.sides[i] = (s, ('tup', (('c', j), ('c', b if k == 0 else a))))
            self.inter[j] = ('rec', INTER, (('id', ('c', j)), ('sides', ('tup', tuple(rs)))))

    def plex(self):
        e, st = self.e, self.st
        return ('rec', PLEX, (('intersections', e.pyr_m([], dict(self.inter), st)), ('sheets', e.pyr_m([], dict(self.sheet), st))))

    def params(self, extra=()):
        d = {k: ra(('option', k)) for k in ('support_radius', 'thickness', 'min_finger_width', 'max_finger_width', 'final_dilation', 'random_seed')}
        return self.e.pyr_m([], d, self.st)

    def table(self, rec, field, keys):
        """{key: set} of one of the maps of a state."""
        f = dict(rec[2]) if isinstance(rec, tuple) and rec[0] == 'rec' else {}
        m = f.get(field)
        r = {}
        for k in keys:
            v = self.e.map_get(m, k, self.st) if hasattr(self.e, 'map_get') else self.e.index(m, k, self.st)
            if not isinstance(v, tuple) or v[0] != 'geo':
                raise Off('%s of %s not determined: %s' % (field, t.show(k, 40), t.show(v, 60)))
            r[k] = v[2]
        return r


UNIVERSES = [([], []), (['s0'], []), (['s0', 's1'], [('s0', 's1')]), (['s0', 's1', 's2'], [('s0', 's1'), ('s1', 's2')]),
             (['s0', 's1', 's2'], [('s0', 's1'), ('s0', 's2'), ('s1', 's2')]),
             (['s10', 's2', 's3', 's4'], [('s10', 's2'), ('s10', 's3'), ('s10', 's4'), ('s3', 's4')])]


def run(R):
    R.explain = ('The starting state is evaluated on models of up to four sheets whose faces, cross-sections and joint strips are unknown '
                 'sets. Set operations are interpreted, fingers as the pull-back of a range into the strip of the joint, buffers and '
                 'projections are uninterpreted. Every entry of the state is compared, as a Boolean function of these sets, with its definition.')
    R.rule('C28.allowed', 'the allowed area of a sheet is its cross-section within the support radius of both faces')
    R.rule('C28.ranges', 'both sides of a joint allow exactly the ranges where both sheets are allowed')
    R.rule('C28.chosen', 'the chosen area is the common part of the faces in the cross-section, without the fingers of allowed ranges')
    R.rule('C28.nothing', 'nothing is chosen for a joint')
    R.rule('C28.entries', 'there is an entry for each sheet and each side of a joint, and no other')
    p = program(R)
    fn(R, START)
    last = None
    for sheets, joints in UNIVERSES:
        m = Model(p, sheets, joints)
        last = m.e
        attempt(R, 'C28.allowed', label(m), lambda: one(R, m), START)
    finish_engine(R, last)


def label(m):
    return '%d sheets, joints %s' % (len(m.names), ' '.join('-'.join(j) for j in m.joints) or 'none')


def one(R, m):
    R.count('models')
    w = loc(R, START)
    try:
        v = m.run(START, [m.plex(), m.params()])
        if v is None:
            R.viol('C28.entries', label(m), 'the starting state cannot be made', w, START)
            return
        f = dict(v[2]) if isinstance(v, tuple) and v[0] == 'rec' else {}
        for k in FIELDS:
            want = {('c', s) for s in m.names} if k.startswith('sheet') else set(m.sides)
            got = m.list(m.e.x_map_keys(f[k], [], {}, m.st))
            R.decide('C28.entries', '%s: %s' % (label(m), k), len(got) == len(want) and set(got) == want, 'entries for %s' % ', '.join(t.show(x, 30) for x in got), w, START)
            if set(got) != want:
                return
        ok = m.table(v, 'sheet_ok', [('c', s) for s in m.names])
        chosen = m.table(v, 'sheet_chosen', [('c', s) for s in m.names])
        rc1 = m.table(v, 'interside_chosen', list(m.sides))
        rok = m.table(v, 'interside_ok', list(m.sides))
    except Off as e:
        R.undecided('C28.allowed', label(m), str(e), w, START)
        return
    allowed = {}
    for s in m.names:
        a, b = m.face[s]
        allowed[s] = gand(gand(buf(a, RADIUS), buf(b, RADIUS)), m.cross[s])
        decide(R, 'C28.allowed', '%s: %s' % (label(m), s), ok[('c', s)], allowed[s], w)
    wide = region('range', '-1000', '1000')
    want = {}
    for i, (s, o) in m.sides.items():
        so = m.sides[o][0]
        want[i] = gand(toaxis(i, gand(allowed[s], fingers(i, wide))), toaxis(o, gand(allowed[so], fingers(o, wide))))
    for i in m.sides:
        decide(R, 'C28.ranges', '%s: %s' % (label(m), t.show(i, 40)), rok[i], want[i], w)
        R.decide('C28.nothing', '%s: %s' % (label(m), t.show(i, 40)), rc1[i] == F, 'chosen: ' + t.show(rc1[i], 80), w, START)
    for s in m.names:
        a, b = m.face[s]
        core = gand(buf(gand(a, b), rc(1)), m.cross[s])
        for i, (z, o) in m.sides.items():
            if z == s:
                core = gand(core, gnot(fingers(i, rok[i])))
        decide(R, 'C28.chosen', '%s: %s' % (label(m), s), chosen[('c', s)], core, w)


def split(g):
    """Is there a projection of a union (or complement) among the sets a formula is made of?"""
    if not isinstance(g, Ite):
        return False
    a = g.atom
    if a[0] == 'in' and a[1][0] == 'back':
        a = ('in', a[1][2])
    if a[0] == 'in' and a[1][0] == 'toaxis':
        h = a[1][2]
        while isinstance(h, Ite):
            if h.b != F:
                return True
            h = h.a
    return split(g.a) or split(g.b)


def decide(R, rule, key, got, want, w):
    if t.has_top(got):
        R.undecided(rule, key, 'not determined: ' + t.show(got, 100), w, START)
    elif got == want:
        R.ok(rule, key, None, w)
    elif split(got):
        R.undecided(rule, key, 'written with projections of unions: ' + t.show(got, 100), w, START)
    else:
        R.viol(rule, key, 'got %s, expected %s' % (t.show(got, 130), t.show(want, 130)), w, START)
