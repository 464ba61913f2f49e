"""C11: every pair of sheets is examined once and the joint records agree (abstract evaluation over small sets of sheets)."""
from itertools import combinations
from .bcommon import program, fn, attempt, finish_engine, loc
from .c19 import Boxes, new_state
from .c23 import x, add
from ..b import terms as t
from ..b.terms import T, F, NONE, Rat, rc

S = 'plycutter.sheetplex:'
SIDE, SHEET, INTER, PLEX = S + 'InterSide', S + 'Sheet', S + 'Intersection', S + 'SheetPlex'
C = 'plycutter.create_sheetplex:'
ALL, ONE = C + 'create_intersections', C + 'create_intersection'
LOOK, LIST, OPP, BYSHEET, SHEETS, LIMIT = PLEX + '.interside', PLEX + '.intersides', SIDE + '.opposite', INTER + '.side_by_sheet', INTER + '.sheets', PLEX + '.limit'
NAMES = ['s0', 's1', 's10', 's2', 's3']


class Off(Exception):
    pass


def run(R):
    R.explain = ('Joint creation is evaluated on models of zero to four sheets with unknown planes and rotations, for every '
                 'choice (up to three sheets) or a spread of choices (four) of parallel pairs; the length of a normal product is given '
                 'as zero for parallel pairs and 1/100 for the others. The records obtained are compared with the pairs, and '
                 'all lookups are evaluated on them.')
    R.rule('C11.pairs', 'exactly one joint for each pair of sheets that is not parallel, in whatever order the sheets come')
    R.rule('C11.once', 'no pair of sheets is examined more often than a single examination takes')
    R.rule('C11.record', 'a joint has one side per sheet; ids, indices and references agree')
    R.rule('C11.lookup', 'lookups find the sides of the joint and sheet asked for')
    R.rule('C11.opposite', 'the opposite of a side is the other side of the joint')
    R.rule('C11.limit', 'a restricted model keeps the given sheets and the joints between them')
    p = program(R)
    for f in (ALL, LOOK, LIST, OPP, BYSHEET, LIMIT):
        fn(R, f)
    attempt(R, 'C11.pairs', 'models', lambda: models(R, p), ALL)


def cross(a, b):
    m = lambda i, j: t.rsub(t.rmul(a[i], b[j]), t.rmul(a[j], b[i]))
    return (m(1, 2), m(2, 0), m(0, 1))


class World:
    def __init__(self, p, names, parallel):
        self.e = e = Boxes(p)
        e.rank, e.signs = {}, []
        self.st = new_state()
        self.n, e.sortmax = 0, 12
        self.normal = {}
        self.sheets = {}
        lengths = self.lengths = {}
        self.asked = {}
        for nm in names:
            m = [[x('%sm%d%d' % (nm, i, j)) for j in range(3)] + [rc(0)] for i in range(3)] + [[rc(0), rc(0), rc(0), rc(1)]]
            sd = [[x('%sn%d' % (nm, j)) for j in range(3)] + [x('%sh%d' % (nm, k))] for k in (0, 1)]
            sd[1] = [t.rneg(z) for z in sd[0][:3]] + [sd[1][3]]
            f = {'id': ('c', nm), 'sides': ('arr', tuple(('arr', tuple(r)) for r in sd)),
                 'inverse_slice_rotation': ('arr', tuple(('arr', tuple(r)) for r in m)),
                 'slice_rotation': ('arr', tuple(('arr', z) for z in zip(*m)))}
            self.sheets[nm] = ('rec', SHEET, tuple(sorted(f.items())))
            self.normal[nm] = sd[0][:3]
        for a, b in combinations(names, 2):
            ln = rc(0) if (a, b) in parallel else t.rdiv(rc(1), rc(100))
            v = cross(self.normal[a], self.normal[b])
            lengths[v] = lengths[tuple(t.rneg(z) for z in v)] = ln

        def norm(eng, args, kw, st):
            a = eng.asarr(args[0], st)
            k = a[1] if isinstance(a, tuple) and a[0] == 'arr' else None
            if k in lengths:
                self.asked[k] = self.asked.get(k, 0) + 1
                return lengths[k]
            if k is not None and all(z == rc(0) for z in k):
                return rc(0)
            return t.top('norm')

        def lstsq(eng, args, kw, st):
            self.n += 1
            return ('tup', (('arr', tuple(rc(7 * self.n + i) for i in range(3))), ('arr', ()), rc(2), ('arr', ())))
        e.prims['numpy.linalg.norm'] = norm
        e.prims['numpy.linalg.lstsq'] = lstsq

    def times(self, a, b):
        v = cross(self.normal[a], self.normal[b])
        return self.asked.get(v, 0) + self.asked.get(tuple(t.rneg(z) for z in v), 0)

    def plex(self, order):
        e, st = self.e, self.st
        return ('rec', PLEX, (('intersections', ('map', ('empty',), ())), ('sheets', e.pyr_m([], {k: self.sheets[k] for k in order}, st))))

    def run(self, f, args, kw=None):
        """The result; Off where it is not determined or fails."""
        v, self.st = self.e.run(f, args, kw or {}, self.st)
        pend, self.st.pend = self.st.pend, F
        if pend == T:
            return None
        if pend != F or v is None:
            raise Off('%s fails if %s' % (f.split('.')[-1], t.show(pend, 60)))
        return v

    def list(self, v):
        ps = self.e.pieces(v, self.st)
        if ps is None or any(q[1] != T or q[2] for q in ps):
            raise Off('not determined: ' + t.show(v, 80))
        return [q[3] for q in ps]

    def get(self, r, k):
        return self.e.getattr(r, k, self.st)

    def items(self, v):
        return {a: b for a, b in (self.list(z) for z in self.list(self.e.x_map_items(v, [], {}, self.st)))}


def spread(names):
    pairs = list(combinations(names, 2))
    if len(pairs) <= 3:
        return [set(c) for n in range(len(pairs) + 1) for c in combinations(pairs, n)]
    return [set(), set(pairs)] + [{q} for q in pairs] + [{pairs[0], pairs[-1]}, {pairs[1], pairs[2], pairs[3]}]


def models(R, p):
    last = None
    usual = None
    if ONE in p.func_by_fid:
        w = World(p, NAMES[:2], set())
        try:
            if w.run(ONE, [w.plex(NAMES[:2]), ('tup', tuple(w.sheets[a] for a in NAMES[:2]))]) is not None:
                usual = w.times(*NAMES[:2])
        except Off:
            pass
    for k in range(5):
        names = NAMES[:k]
        for par in spread(names):
            for order in ((names, names[::-1]) if k > 1 else (names,)):
                w = World(p, names, par)
                last = w.e
                key = '%d sheets%s%s' % (k, ', parallel: %s' % ' '.join('%s-%s' % q for q in sorted(par)) if par else '', ', given backwards' if order != names else '')
                R.count('models')
                check(R, w, key, ALL, lambda: w.run(ALL, [w.plex(order)]), names, par)
                often = [q for q in combinations(names, 2) if usual and w.times(*q) > usual]
                R.decide('C11.once', key, not often if usual else None, 'the pair %s is examined more than once' % '-'.join(often[0] if often else ()), loc(R, ALL), ALL)
    # one joint, sheets in both orders
    for a, b in (('s0', 's1'), ('s1', 's0'), ('s2', 's10'), ('s10', 's2')):
        if p.func_by_fid.get(ONE) is None:
            break
        w = World(p, sorted((a, b)), set())
        last = w.e
        check(R, w, 'joint of %s and %s' % (a, b), ONE, lambda: w.run(ONE, [w.plex([a, b]), ('tup', (w.sheets[a], w.sheets[b]))]), [a, b], set())
    if last is not None:
        finish_engine(R, last)


def check(R, w, key, f, make, names, par):
    at = lambda g: loc(R, g)
    try:
        sp = make()
        if sp is None:
            R.viol('C11.pairs', key, 'fails', at(f), f)
            return
        js = w.items(w.get(sp, 'intersections'))
        recs, found = {}, []
        for k, j in js.items():
            sides = w.list(w.get(j, 'sides'))
            owners = [w.get(s, 'sheet') for s in sides]
            if t.has_top(w.get(j, 'id')) or any(t.has_top(o) for o in owners):
                raise Off('ids not determined')
            recs[k] = (j, sides, [o[1] for o in owners])
            found.append(tuple(sorted(o[1] for o in owners)))
    except Off as err:
        R.undecided('C11.pairs', key, str(err), at(f), f)
        return
    want = sorted(tuple(sorted(q)) for q in combinations(names, 2) if tuple(sorted(q)) not in par and q not in par)
    ok = sorted(found) == want
    R.decide('C11.pairs', key, ok, 'the joints are between %s' % (', '.join('-'.join(q) for q in sorted(found)) or 'none'), at(f), f)
    kept = w.items(w.get(sp, 'sheets'))
    R.decide('C11.pairs', key + ': sheets', kept == {('c', k): w.sheets[k] for k in names}, 'the sheets of the model change', at(f), f)
    if not ok:
        return
    for k, (j, sides, owners) in recs.items():
        nm = '%s: joint %s' % (key, '-'.join(sorted(owners)))
        bad = None
        if w.get(j, 'id') != k:
            bad = 'stored under %s but named %s' % (t.show(k), t.show(w.get(j, 'id')))
        for i, s in enumerate(sides):
            if w.get(s, 'intersection') != k:
                bad = 'side %d refers to joint %s' % (i, t.show(w.get(s, 'intersection')))
            if w.get(s, 'idx') != rc(i):
                bad = 'side %d has the index %s' % (i, t.show(w.get(s, 'idx')))
        ids = [w.get(s, 'id') for s in sides]
        if len(set(ids)) != len(ids):
            bad = 'both sides have the same id'
        R.decide('C11.record', nm, bad is None, bad or '', at(f), f)
        if bad:
            return
    lookups(R, w, key, sp, recs, names, at)


def lookups(R, w, key, sp, recs, names, at):
    def ask(rule, nm, f, args, want, show=None):
        try:
            v = w.run(f, args)
            if v is not None and isinstance(want, list):
                v = w.list(v)
        except Off as err:
            R.undecided(rule, nm, str(err), at(f), f)
            return
        if v is None:
            R.viol(rule, nm, 'fails', at(f), f)
            return
        if t.has_top(v if not isinstance(v, list) else ('tup', tuple(v))):
            R.undecided(rule, nm, 'not determined', at(f), f)
            return
        if isinstance(want, list):
            same = sorted(map(repr, map(ident, v))) == sorted(map(repr, map(ident, want)))
            R.decide(rule, nm, same, 'gives %s' % [ident(z) for z in v], at(f), f)
        else:
            R.decide(rule, nm, v == want, 'gives %s' % (ident(v),), at(f), f)

    def ident(v):
        if isinstance(v, tuple) and v[0] == 'rec':
            return t.show(w.get(v, 'id'), 60)
        return t.show(v, 60) if isinstance(v, tuple) else v
    every = [s for j, sides, o in recs.values() for s in sides]
    ask('C11.lookup', key + ': all sides', LIST, [sp], every)
    for n in list(names) + ['s99']:
        ask('C11.lookup', '%s: sides of %s' % (key, n), LIST, [sp, ('c', n)], [s for s in every if w.get(s, 'sheet') == ('c', n)])
    for j, sides, owners in recs.values():
        nm = '%s: joint %s' % (key, '-'.join(sorted(owners)))
        for i, s in enumerate(sides):
            ask('C11.lookup', '%s, side %d by id' % (nm, i), LOOK, [sp, w.get(s, 'id')], s)
            ask('C11.opposite', '%s, side %d' % (nm, i), OPP, [s, sp], sides[1 - i])
        for n in list(names) + ['s99']:
            ask('C11.lookup', '%s, side of %s' % (nm, n), BYSHEET, [j, ('c', n)], sides[owners.index(n)] if n in owners else NONE)
        if SHEETS in w.e.p.func_by_fid:
            ask('C11.lookup', nm + ', sheets', SHEETS, [j], [('c', o) for o in owners])
    if any(q in key for q in ('parallel', 'backwards')) and len(names) > 3:
        return
    for n in range(len(names) + 1):
        for sub in combinations(names, n):
            nm = '%s: kept %s' % (key, ' '.join(sub) or 'none')
            try:
                v = w.run(LIMIT, [sp, w.e.new(w.st, ('lst', tuple(('p', T, (), ('c', z)) for z in sub)))])
                got = None if v is None else (w.items(w.get(v, 'sheets')), w.items(w.get(v, 'intersections')))
            except Off as err:
                R.undecided('C11.limit', nm, str(err), at(LIMIT), LIMIT)
                continue
            want = ({('c', z): w.sheets[z] for z in sub}, {k: j for k, (j, s, o) in recs.items() if set(o) <= set(sub)})
            R.decide('C11.limit', nm, got == want, 'gives %s' % ([[t.show(k) for k in m] for m in got] if got else 'a failure'), at(LIMIT), LIMIT)
