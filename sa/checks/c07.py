"""C07: 2D set operations apply the right Boolean to every region (gated value graph)."""
from itertools import product
from .bcommon import program, fn, attempt, finish_engine, loc, words, tops
from ..b import terms as t
from ..b.terms import T, F, NONE, Ite, Rat, ra, rc, gnot, gand, gor, top
from ..b.gvg import Inst, seq
from ..b.lib2 import Engine

S = 'plycutter.geometry.impl2d.geom2d_simple_holes:'
G = S + 'Geom2D_Py_Simple_Holes'
ARR = 'plycutter.geometry.impl2d.arrangement2d:SegmentArrangement'


class SetEngine(Engine):
    """The subdivision is uninterpreted: it has cells with a point each, and makes polygons of chosen cells."""

    def __init__(self, p):
        Engine.__init__(self, p, facts=SetEngine.fact)
        self.types[G] = {'spwhs': ('seq', ('obj', S + 'Simple_Polygon_With_Holes'))}
        self.types[S + 'Simple_Polygon_With_Holes'] = {'outer': ('seq', 'any'), 'holes': ('seq', ('seq', 'any'))}
        self.unroll = 300
        self.eventmaps = True
        self.arrs, self.polys = [], []
        self.depth_union = None
        for k in (ARR + '.cell_points', ARR + '.poly_cells', G + '.all_segments', G + '.locate', ARR):
            self.prims[k] = getattr(SetEngine, 'p_' + k.split('.')[-1].split(':')[-1])

    @staticmethod
    def fact(atom):
        # no length is negative
        if atom[0] == 'lt0':
            p = atom[1]
            if all(c > 0 for m, c in p.t) and all(len(m) == 1 and t.atom_of(m[0][0])[0] == 'len' for m, c in p.t if m):
                return False
        return None

    def p_SegmentArrangement(self, args, kw, st):
        segs = args[0] if args else kw.get('sid_segments')
        self.arrs.append(self.content(segs, st) if isinstance(segs, tuple) and segs[0] == 'ref' else segs)
        return ('sym', ('arr', len(self.arrs) - 1), ('obj', ARR))

    def p_cell_points(self, args, kw, st):
        if args[0][0] != 'sym':
            return top('cells')
        return self.sym(('map', 'any', 'any'), ('cellpts', args[0][1]))

    def p_poly_cells(self, args, kw, st):
        cells = args[1] if len(args) > 1 else kw.get('cells')
        if isinstance(cells, tuple) and cells[0] == 'ref':
            cells = self.content(cells, st)
        self.polys.append((args[0], cells))
        return self.sym(('seq', 'any'), ('polys', len(self.polys) - 1))

    def opterm(self, x):
        return x[1] if isinstance(x, tuple) and x[0] == 'sym' and x[2] == ('obj', G) else None

    def p_all_segments(self, args, kw, st):
        g = self.opterm(args[0])
        if g is None:
            return NotImplemented
        src = ('segments', g)
        n = self.el(src, 'any')[0]
        return seq([('p', T, ((src, n),), ('sym', n, 'any'))])

    def p_locate(self, args, kw, st):
        def one(x):
            if self.opterm(x) is not None:
                pt = args[1] if len(args) > 1 else kw.get('pt')
                return Ite(('holds', x[1], pt), rc(1), rc(-1))
            k = self.polyof(x, st)
            if k is not None:
                return ra(('located', k, args[1] if len(args) > 1 else kw.get('pt')))
            return top('location')
        return t.apply(one, args[0])

    def polyof(self, x, st):
        """Index of the poly_cells call whose result the geometry x is."""
        if isinstance(x, tuple) and x[0] == 'ref' and isinstance(st.heap.get(x[1]), Inst) and st.heap[x[1]].cid == G:
            v = st.heap[x[1]].get('spwhs')
            s = str(v)
            for k in range(len(self.polys)):
                if self.mentions(v, ('polys', k)):
                    return k
        return None

    def isempty(self, x, st):
        if isinstance(x, tuple) and x[0] == 'ref' and isinstance(st.heap.get(x[1]), Inst) and st.heap[x[1]].cid == G:
            v = st.heap[x[1]].get('spwhs')
            v = self.content(v, st) if isinstance(v, tuple) and v[0] == 'ref' else v
            return isinstance(v, tuple) and v[0] in ('lst', 'tup') and len(v[1]) == 0
        return False

    def region(self, v, st):
        """Gated truth: does the resulting geometry contain the (arbitrary) region?"""
        def one(x):
            g = self.opterm(x)
            if g is not None:
                return Ite(('holds', g), T, F)
            if self.isempty(x, st):
                return F
            k = self.polyof(x, st)
            if k is None:
                return top('result of another kind')
            arr, cells = self.polys[k]
            if not isinstance(cells, tuple) or cells[0] not in ('set', 'lst'):
                return top('cells chosen: %s' % t.show(cells, 60))
            res = F
            for _, g, bs, cell in cells[1]:
                if len(bs) != 1 or not isinstance(bs[0][0], tuple) or not self.mentions(bs[0][0], ('cellpts', arr[1])):
                    return top('cells chosen')
                if cell[0] != 'sym' or cell[1] != bs[0][1]:
                    return top('cells chosen')
                res = gor(res, self.at(g, bs[0][1]))
            return res
        return t.apply(one, v)

    def at(self, c, cell):
        """Forget the point: every operand is located at the point of the same cell."""
        def go(x):
            if not isinstance(x, Ite):
                return x
            a = x.atom
            if a[0] == 'holds' and len(a) == 3:
                a = ('holds', a[1]) if self.mentions(a[2], cell) else ('holds', a[1], 'elsewhere')
            return t.gif(Ite(a, T, F), go(x.a), go(x.b))
        return go(c)


def emptiness(atom, terms):
    """The operand whose emptiness a gate atom tells, if it does."""
    if atom[0] != 'eq0':
        return None
    p = atom[1]
    if len(p.t) != 1 or len(p.t[0][0]) != 1:
        return None
    a = t.atom_of(p.t[0][0][0][0])
    if a[0] != 'len':
        return None
    s = [g for g in terms if mention(a, ('attr', g, 'spwhs'))]
    return s[0] if len(s) == 1 and str(a).count("'spwhs'") >= 1 else None


def mention(v, sub):
    if v == sub:
        return True
    if isinstance(v, (tuple, list)):
        return any(mention(x, sub) for x in v)
    if isinstance(v, Ite):
        return mention(v.atom, sub) or mention(v.a, sub) or mention(v.b, sub)
    if isinstance(v, (Rat, t.Poly)):
        return any(mention(t.atom_of(a), sub) for a in v.atoms())
    return False


def situations(terms):
    n = len(terms)
    for m in range(1 << n) if n <= 3 else ():
        yield {g: bool(m >> i & 1) for i, g in enumerate(terms)}


def know(empty):
    def f(atom):
        g = emptiness(atom, empty)
        if g is not None:
            return empty[g]
        if atom[0] == 'holds' and empty.get(atom[1]):
            return False
        return None
    return f


def holds(g):
    return Ite(('holds', g), T, F)


def anyof(gs):
    r = F
    for g in gs:
        r = gor(r, holds(g))
    return r


OPS = [('union', G + '.__or__', lambda a, b: gor(holds(a), holds(b))),
       ('intersection', G + '.__and__', lambda a, b: gand(holds(a), holds(b))),
       ('difference', G + '.__sub__', lambda a, b: gand(holds(a), gnot(holds(b))))]
SIZES_UNION = (0, 1, 2, 3, 5, 64)
SIZES_TREE = (0, 1, 2, 3, 63, 64, 65, 66, 128, 129, 130)


def run(R):
    R.explain = ('Gated value numbering of the set operations over symbolic operands, the subdivision being uninterpreted '
                 '(cells, one point per cell, polygons of a set of cells): for a generic cell, the condition for choosing '
                 'it is compared, as a Boolean function of "operand i contains the cell", with the named operation, for '
                 'every combination of empty and non-empty operands; the failure condition must separate results which '
                 'contain exactly the chosen cells from all others; every edge of every operand must enter the subdivision '
                 'under a key of its own. n-ary unions are evaluated for 0 to 130 operands (sizes around one, two and more levels).')
    R.rule('C07.boolean', 'a region is part of the result exactly when the operation on the operands says so')
    R.rule('C07.verified', 'a computed result is located at the point of every region and rejected when it disagrees')
    R.rule('C07.edges', 'every edge of every operand takes part in the subdivision, none replaced by another')
    p = program(R)
    for name, fid, want in OPS:
        fn(R, fid)
        attempt(R, 'C07.boolean', name, lambda: binary(R, p, name, fid, want), fid)
    fn(R, G + '.union')
    for n in SIZES_UNION:
        attempt(R, 'C07.boolean', 'union of %d' % n, lambda: nary(R, p, G + '.union', n), G + '.union')
    tree = S + 'union_tree'
    if tree in p.func_by_fid:
        for n in SIZES_TREE:
            attempt(R, 'C07.boolean', 'union_tree of %d' % n, lambda: nary(R, p, tree, n), tree)
    for n in (65, 130):
        attempt(R, 'C07.boolean', 'union of %d' % n, lambda: nary(R, p, G + '.union', n), G + '.union')


def binary(R, p, name, fid, want):
    e = SetEngine(p)
    a, b = e.sym(('obj', G), ('a',)), e.sym(('obj', G), ('b',))
    v, st = e.run(fid, [a, b])
    compare(R, e, name, fid, v, st, [('a',), ('b',)], want(('a',), ('b',)))
    verified(R, e, name, fid, st, [('a',), ('b',)], want(('a',), ('b',)))
    edges(R, e, name, fid, [('a',), ('b',)])
    finish_engine(R, e)


def compare(R, e, name, fid, v, st, terms, want):
    mv = e.region(v, st)
    for emp in situations(terms) if len(terms) <= 3 else [{g: False for g in terms}]:
        label = name if not any(emp.values()) else '%s with %s empty' % (name, ', '.join(str(g[0]) for g in terms if emp[g]))
        got = t.restrict(mv, know(emp)) if isinstance(mv, Ite) else mv
        exp = t.restrict(want, know(emp)) if isinstance(want, Ite) else want
        if t.has_top(got):
            R.undecided('C07.boolean', label, 'not determined: %s' % next(iter(tops(got)), ''), loc(R, fid), fid)
        elif got == exp:
            R.ok('C07.boolean', label, None, loc(R, fid))
        elif any(x[0] != 'holds' or len(x) > 2 and x[2] != 'elsewhere' for x in atoms(got)):
            why = sampled(got, exp, terms, emp)
            if why:
                R.viol('C07.boolean', label, why, loc(R, fid), fid)
            else:
                R.undecided('C07.boolean', label, 'depends on more than the operands: ' + t.show(got, 100), loc(R, fid), fid)
        else:
            R.viol('C07.boolean', label, 'a region is chosen when %s, expected %s' % (t.show(got, 110), t.show(exp, 110)), loc(R, fid), fid)


def sampled(got, exp, terms, emp):
    """A wrong answer on a condition which only counts polygons and locates vertices.

    Neither the number of polygons of an operand nor the location of finitely many of its points settles which
    regions it has in common with another one, so each such condition goes together with every membership."""
    sizes = sorted({a for a in atoms(got) if size_of(a)}, key=str)
    where = {a for a in atoms(got) if a[0] == 'exists'}
    rest = {a for a in atoms(got) if not (a in where and located_only(a)) and a not in sizes and not (a[0] == 'holds' and len(a) == 2)}
    if rest or not (sizes or where) or len(terms) > 2:
        return None
    lens = sorted({x for a in sizes for x in size_of(a)}, key=str)
    if any(sum(mention(x, g) for g in terms) != 1 for x in lens) or len(lens) > 3:
        return None
    for vals in product(range(4), repeat=len(lens)):
        d = dict(zip(lens, vals))
        if any((n == 0) != emp[g] for x, n in d.items() for g in terms if mention(x, g)):
            continue
        cut = t.restrict(got, lambda a: size_value(a, d) if a in sizes else None)
        for path, leaf in t.paths(cut):
            fix = dict(path)
            if leaf != t.restrict(exp, lambda a: fix.get(a)):
                return ('a region is %s although the operation says otherwise, decided by the number of polygons or the location '
                        'of vertices alone: %s' % ('chosen' if leaf == T else 'left out', t.show(cut, 100)))
    return None


def size_of(a):
    """The collection sizes a comparison is about, if it is about nothing else."""
    if a[0] not in ('eq0', 'lt0'):
        return None
    xs = {t.atom_of(i) for m, c in a[1].t for i, k in m}
    return xs if xs and all(x[0] == 'len' and mention(x, 'spwhs') for x in xs) else None


def size_value(a, d):
    v = 0
    for m, c in a[1].t:
        for i, k in m:
            c = c * d[t.atom_of(i)] ** k
        v += c
    return v == 0 if a[0] == 'eq0' else v < 0


def located_only(a):
    return all(x[0] == 'holds' and len(x) == 3 and (mention(x[2], 'outer') or mention(x[2], 'holes')) for x in atoms(a[2])) \
        and isinstance(a[2], Ite) and bool(atoms(a[2]))


def atoms(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, Ite):
        acc.add(v.atom)
        atoms(v.a, acc)
        atoms(v.b, acc)
    return acc


def verified(R, e, name, fid, st, terms, want):
    """With non-empty operands, the failure condition tells right results from wrong ones."""
    emp = {g: False for g in terms}
    pend = t.restrict(st.pend, know(emp)) if isinstance(st.pend, Ite) else st.pend
    if not e.polys:
        return
    cases = [('a wrongly missing region', True, -1, T), ('a missing region reported as an edge', True, 0, T),
             ('a wrongly included region', False, 1, T), ('an excluded region reported as an edge', False, 0, T),
             ('a correct result', None, None, F)]
    for what, opv, locv, expect in cases:
        res = None
        for m in assignments(terms):
            w = t.restrict(want, lambda a: m.get(a[1]) if a[0] == 'holds' else None)
            w = w == T
            if opv is not None and w != opv:
                continue
            lv = locv if locv is not None else (1 if w else -1)
            r = evalcond(pend, m, lv)
            key = '%s: %s' % (name, what)
            if r is None:
                res = None
                R.undecided('C07.verified', key, 'failure condition not determined: ' + t.show(pend, 90), loc(R, fid), fid)
                break
            if r != (expect == T):
                R.viol('C07.verified', key, 'not rejected' if expect == T else 'a correct result is rejected', loc(R, fid), fid)
                break
        else:
            R.ok('C07.verified', '%s: %s' % (name, what), None, loc(R, fid))


def assignments(terms):
    for m in range(1 << len(terms)):
        yield {g: bool(m >> i & 1) for i, g in enumerate(terms)}


def evalcond(c, m, locv):
    """Truth of a condition for a cell with the given membership and location of the result."""
    def k(atom):
        if atom[0] == 'holds':
            return m.get(atom[1])
        if atom[0] in ('lt0', 'eq0'):
            val = 0
            for mono, co in atom[1].t:
                if mono == ():
                    val += co
                elif len(mono) == 1 and t.atom_of(mono[0][0])[0] == 'located':
                    val += co * locv ** mono[0][1]
                else:
                    return None
            return val < 0 if atom[0] == 'lt0' else val == 0
        if atom[0] == 'exists':
            return evalcond(atom[2], m, locv)
        if atom[0] == 'is' or atom[0] == 'in':
            return None
        return None
    r = t.restrict(c, k) if isinstance(c, Ite) else c
    return True if r == T else False if r == F else None


def edges(R, e, name, fid, terms):
    """Every operand's segments are stored under keys that cannot coincide."""
    if not e.arrs:
        return
    if len(e.arrs) > 1 and len({str(a) for a in e.arrs}) > 1:
        R.undecided('C07.edges', name, 'several subdivisions', loc(R, fid), fid)
        return
    m = e.arrs[0]
    if not isinstance(m, tuple) or m[0] != 'map' or m[1] not in (None, NONE, 'empty', ()) and not isinstance(m[1], tuple):
        R.undecided('C07.edges', name, 'segments not determined: ' + t.show(m, 60), loc(R, fid), fid)
        return
    for g in terms:
        src = ('segments', g)
        mine = [x for x in m[2] if mention(x, src)]
        key = '%s: edges of %s' % (name, g[0])
        if not mine:
            if t.has_top(m):
                R.undecided('C07.edges', key, 'segments not determined', loc(R, fid), fid)
            else:
                R.viol('C07.edges', key, 'the edges do not take part', loc(R, fid), fid)
            continue
        ent = mine[0]
        if ent[0] != 'bulk' or ent[2] != T:
            R.undecided('C07.edges', key, 'stored conditionally: ' + t.show(ent[2], 80), loc(R, fid), fid)
            continue
        el = ent[1][0][1]
        if not (isinstance(ent[4], tuple) and ent[4][0] == 'sym' and ent[4][1] == el):
            R.undecided('C07.edges', key, 'stores %s' % t.show(ent[4], 80), loc(R, fid), fid)
            continue
        R.ok('C07.edges', key, None, loc(R, fid))
    keys(R, e, name, fid, m)


def keys(R, e, name, fid, m):
    """Keys built from a running counter which never stands still nor goes back are distinct."""
    label = name + ': keys'
    prev = None
    for ent in m[2]:
        k = ent[3]
        at = ('pos', ent[1], ent[2])
        if mention(k, at):
            # numbered by position: the number of edges before this operand's, plus the position among its own
            r = [x for x in rats(k) if mention(x, at)]
            v0 = t.rsub(r[0], ra(at)) if len(r) == 1 else None
            if v0 is None or mention(v0, at) or prev is not None and v0 != t.radd(prev[0], ra(('sum', prev[1], prev[2], prev[3]))):
                if prev is not None and v0 == prev[0]:
                    R.viol('C07.edges', label, 'keys of one operand are used again for the next', loc(R, fid), fid)
                else:
                    R.undecided('C07.edges', label, 'numbering not determined', loc(R, fid), fid)
                return
            prev = (v0, ent[1], ent[2], rc(1))
            continue
        steps = [s for s in e.steps if s[4] == ent[1] and isinstance(s[1], Rat) and mention(k, t.atom_of(next(iter(s[1].atoms()))))]
        if not steps:
            if mention(k, ent[1][0][1]) or mention(k, ('ix',)):
                R.undecided('C07.edges', label, 'keys are not counted', loc(R, fid), fid)
            else:
                R.viol('C07.edges', label, 'all edges of an operand share the key %s' % t.show(k, 60), loc(R, fid), fid)
            return
        _, acc, v0, new, bs, g = steps[-1]
        d = t.rsub(new, acc) if isinstance(new, Rat) else None
        if d is None or d.const() is None:
            R.undecided('C07.edges', label, 'counter step not determined', loc(R, fid), fid)
            return
        if d.const() == 0:
            R.viol('C07.edges', label, 'the counter in the key does not advance', loc(R, fid), fid)
            return
        if prev is not None:
            want = t.radd(prev[0], ra(('sum', prev[1], prev[2], prev[3])))
            if v0 != want:
                if isinstance(v0, Rat) and v0 == prev[0]:
                    R.viol('C07.edges', label, 'keys of one operand are used again for the next', loc(R, fid), fid)
                else:
                    R.undecided('C07.edges', label, 'counter start not determined', loc(R, fid), fid)
                return
        prev = (v0, bs, g, d)
    R.ok('C07.edges', label, None, loc(R, fid))


def rats(x):
    if isinstance(x, Rat):
        return [x]
    return [r for y in x for r in rats(y)] if isinstance(x, tuple) else []


def nary(R, p, fid, n):
    e = SetEngine(p)
    terms = [('g%d' % i,) for i in range(n)]
    gs = [e.sym(('obj', G), g) for g in terms]
    if fid != G + '.union' or n > 64:
        def union(eng, args, kw, st):
            # checked on its own for up to 64 operands
            it = args[-1] if args else kw.get('geoms')
            ps = eng.pieces(it, st)
            if ps is None or any(q[1] != T or q[2] for q in ps) or len(ps) > 64:
                return top('operands of union')
            c = F
            for q in ps:
                c = gor(c, e.region(q[3], st))
            e.known.append(c)
            return ('sym', ('union', len(e.known) - 1), ('obj', G))
        e.known = []
        e.prims[G + '.union'] = union
        e.region0 = e.region

        def region(v, st):
            def one(x):
                if isinstance(x, tuple) and x[0] == 'sym' and x[1][0] == 'union':
                    return e.known[x[1][1]]
                return e.region0(x, st)
            return t.apply(one, v)
        e.region = region
    name = '%s of %d' % (fid.split('.')[-1].split(':')[-1], n)
    args = [('tup', tuple(gs))]
    if fid == G + '.union':
        args = [('cls', G)] + args
    v, st = e.run(fid, args)
    compare(R, e, name, fid, v, st, terms, anyof(terms))
    if n and fid == G + '.union' and n <= 64:
        if n <= 5:
            verified(R, e, name, fid, st, terms, anyof(terms))
        edges(R, e, name, fid, terms)
    finish_engine(R, e)
