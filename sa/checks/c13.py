"""C13: every outline once, closed, undistorted, side by side (gated value graph of the writer)."""
from .bcommon import program, fn, attempt, finish_engine, loc, words, tops
from ..b import terms as t
from ..b.terms import T, F, NONE, Ite, Rat, ra, rc, gnot, gand
from ..b.gvg import St, Env, Inst, seq, piece
from ..b.lib2 import Engine

W = 'plycutter.writer:write_dxf'
AABB = 'plycutter.geometry.aabb:AABB'
SHEETS = ('base', ('sheets',), ('map', 'any', ('obj', 'G2')))


class WriterEngine(Engine):
    """Geometries give polygons, polygons give outlines and holes; bounding boxes collect points."""

    def __init__(self, p):
        Engine.__init__(self, p)
        self.types['G2'] = {}
        self.types['SPWH'] = {'outer': ('seq', 'pt2'), 'holes': ('seq', ('seq', 'pt2'))}
        self.prims[AABB] = WriterEngine.p_aabb
        self.prims[AABB + '.include_point'] = WriterEngine.p_include
        self.prims['.add_lwpolyline'] = WriterEngine.p_line
        for m in ('polygons', 'is_empty', 'exterior', 'holes'):
            self.prims['.' + m] = getattr(WriterEngine, 'p_' + m)
        self.prims['ezdxf.new'] = lambda e, a, k, st: ('sym', ('dwg',), 'any')

    def sym(self, ty, term):
        if ty == ('seq', 'pt2') or isinstance(ty, tuple) and ty[0] == 'seq':
            return ('sym', term, ty)
        return Engine.sym(self, ty, term)

    def getattr1(self, x, name, st):
        if isinstance(x, tuple) and x[0] == 'sym' and x[2] == ('obj', 'G2') and name == 'spwhs':
            # a polygon of polygons() has exactly one, a general geometry any number
            if x[1][0] == 'el':
                return ('tup', (('sym', ('spwh', x[1]), ('obj', 'SPWH')),))
            src = ('polys', x[1])
            n = self.el(src, 'any')[0]
            return seq([('p', T, ((src, n),), ('sym', ('spwh', n), ('obj', 'SPWH')))])
        if isinstance(x, tuple) and x[0] == 'ref' and isinstance(st.heap.get(x[1]), Inst) and st.heap[x[1]].cid == AABB and name in ('lower', 'upper'):
            pts = self.content(st.heap[x[1]]['$pts'], st)
            if not isinstance(pts, tuple) or pts[0] != 'lst':
                return t.top('bounding box')
            key = tuple(sorted(((p[1], p[2], p[3]) for p in pts[1]), key=lambda z: t.aid(('pt', z))))
            return ('arr', tuple(ra((('lo' if name == 'lower' else 'hi'), key, i)) for i in range(2)))
        return Engine.getattr1(self, x, name, st)

    def p_aabb(self, args, kw, st):
        if args or kw:
            return t.top('bounding box')
        oid = self.fresh()
        st.heap[oid] = Inst({'$pts': self.new(st, ('lst', ()))}, AABB)
        return ('ref', oid)

    def p_include(self, args, kw, st):
        if not (isinstance(args[0], tuple) and args[0][0] == 'ref'):
            return t.top('bounding box')
        v = self.asarr(args[1], st)
        return self.x_lst_append(st.heap[args[0][1]]['$pts'], [v], {}, st)

    def p_polygons(self, args, kw, st):
        x = args[0]
        if isinstance(x, tuple) and x[0] == 'sym' and x[2] == ('obj', 'G2'):
            if x[1][0] == 'el':
                return seq([piece(x)])
            src = ('polys', x[1])
            n = self.el(src, 'any')[0]
            return seq([('p', T, ((src, n),), ('sym', n, ('obj', 'G2')))])
        return NotImplemented

    def p_is_empty(self, args, kw, st):
        x = args[0]
        if isinstance(x, tuple) and x[0] == 'sym' and x[2] == ('obj', 'G2'):
            return Ite(('b', ('empty', x[1])), T, F)
        return NotImplemented

    def p_exterior(self, args, kw, st):
        x = args[0]
        if isinstance(x, tuple) and x[0] == 'sym' and x[2] == ('obj', 'G2') and x[1][0] == 'el':
            return ('sym', ('attr', ('spwh', x[1]), 'outer'), ('seq', 'pt2'))
        return NotImplemented

    def p_holes(self, args, kw, st):
        x = args[0]
        if isinstance(x, tuple) and x[0] == 'sym' and x[2] == ('obj', 'G2') and x[1][0] == 'el':
            return ('sym', ('attr', ('spwh', x[1]), 'holes'), ('seq', ('seq', 'pt2')))
        return NotImplemented

    def p_line(self, args, kw, st):
        pts = self.content(args[1], st) if len(args) > 1 else kw.get('points', t.top('points'))
        ps = self.flat(pts) if isinstance(pts, (tuple, Ite)) else None
        val = t.top('points') if ps is None else ('seq', tuple(('p', p[1], p[2], self.asarr(p[3], st)) for p in ps))
        close = kw.get('close', F)
        rest = tuple(sorted((k, v) for k, v in kw.items() if k not in ('close', 'points'))) + tuple(args[2:])
        self.x_lst_append(self.out, [('line', val, close, rest)], {}, st)
        return NONE


def run(R):
    R.explain = ('Gated value numbering of write_dxf over an arbitrary map of geometries: loops become generic elements, the '
                 'polylines added become one term per kind of outline with its guard, the translation and the running '
                 'horizontal position are canonical rational functions of the bounding box and the position at the head of the iteration.')
    R.rule('C13.once', 'for every non-empty sheet, exactly one polyline per outer outline and one per hole is added')
    R.rule('C13.closed', 'each polyline is all points of the outline in order followed by its first point (or flagged closed)')
    R.rule('C13.translation', 'each written point is the original point plus a vector that is the same for all outlines of the sheet')
    R.rule('C13.layout', 'each sheet starts to the right of the end of the previous one by a positive constant; skipped sheets do not move back')
    p = program(R)
    fn(R, W)
    attempt(R, 'C13.once', 'writer', lambda: body(R, p), W)


def body(R, p):
    e = WriterEngine(p)
    st = St({('root',): Env()}, ('root',), {})
    e.out = e.new(st, ('lst', ()))
    e.eventrefs.add(e.out[1])
    r, st = e.run(W, [('sym', ('file',), 'any'), ('map', SHEETS, ())], st=st)
    ev = st.heap[e.out[1]]
    finish_engine(R, e)
    ps = e.flat(ev) if isinstance(ev, (tuple, Ite)) else None
    if ps is None:
        R.undecided('C13.once', 'polylines', 'the polylines added are not determined: %s' % t.show(ev, 80), loc(R, W), W)
        return
    R.count('kinds of polylines added', len(ps))
    kinds = {'outline': [], 'hole': []}
    shifts = {}
    for _, g, bb, v in ps:
        srcs = [b[0] for b in bb]
        line = v[1]
        kind, sheet, outline = classify(bb, line)
        if kind is None:
            if t.has_top(line) or t.has_top(g) or words(line):
                R.undecided('C13.once', 'polyline', 'its points are not determined: %s' % (list(tops(v))[:2],), loc(R, W), W)
                return
            R.viol('C13.once', 'polyline that is no outline', 'a polyline is added that is not an outline of the sheet: %s' % t.show(line, 200), loc(R, W), W)
            return
        kinds[kind].append((g, bb, sheet))
        # closing
        pts = line[1]
        first = [q for q in pts if q[2]]
        rest = [q for q in pts if not q[2]]
        closed = len(rest) == 1 and pts[0] is first[0] or v[2] == T and not rest
        el = first[0][2][0][1]
        off = diffvec(first[0][3], el)
        okguard = all(q[1] == T for q in pts)
        good = len(first) == 1 and okguard and off is not None
        R.decide('C13.closed', kind, closed and good and (not rest or diffvec(rest[0][3], ('ix', outline, 0)) == off) if off is not None else None,
                 'the polyline of an %s is not its points in order plus the first point' % kind, loc(R, W), W)
        if v[3]:
            R.undecided('C13.closed', kind + ' attributes', 'further arguments of the polyline', loc(R, W), W)
        if off is None:
            new = words(first[0][3])
            R.decide('C13.translation', kind, None if new or t.has_top(first[0][3]) else False,
                     'written points are not the original ones plus a vector: %s' % t.show(first[0][3], 160), loc(R, W), W)
            continue
        shifts[kind] = off
        R.decide('C13.translation', kind, not any(free(e, x, b[1]) for x in off for b in bb if b[0][0] != 'keys') and not free(e, off, el),
                 'the translation depends on the outline', loc(R, W), W)
    for kind in kinds:
        ks = kinds[kind]
        if len(ks) != 1:
            R.viol('C13.once', kind, 'an %s is written %d times' % (kind, len(ks)), loc(R, W), W)
            continue
        g, bb, sheet = ks[0]
        want = gnot(Ite(('b', ('empty', sheet)), T, F))
        R.decide('C13.once', kind, True if g in (want, T) else None if words(g) or t.has_top(g) else False,
                 'an %s is written only when %s' % (kind, t.show(g, 200)), loc(R, W), W)
    if len(shifts) == 2:
        R.decide('C13.translation', 'outlines and holes', shifts['outline'] == shifts['hole'],
                 'outlines are moved by %s, holes by %s' % (t.show(shifts['outline'], 90), t.show(shifts['hole'], 90)), loc(R, W), W)
    if 'outline' in shifts and len(kinds['outline']) == 1:
        layout(R, e, shifts['outline'], kinds['outline'][0])


def free(e, v, name):
    """Does v depend on the element name, other than as the variable of a bounding box?"""
    if v == name:
        return True
    if isinstance(v, Rat):
        return any(free(e, t.atom_of(a), name) for a in v.atoms())
    if isinstance(v, tuple) and v[:1] in (('lo',), ('hi',)):
        return any(e.mentions(c, name) for c in v[1] if name not in [b[1] for b in c[1]])
    if isinstance(v, tuple):
        return any(free(e, x, name) for x in v if isinstance(x, (tuple, Rat)))
    return e.mentions(v, name)


def classify(bb, line):
    """Which outline a polyline is: the collections iterated over."""
    if t.is_top(line):
        return None, None, None
    inner = [q for q in line[1] if q[2]]
    if len(inner) != 1 or len(inner[0][2]) != 1:
        return None, None, None
    outline = raw = inner[0][2][0][0]
    while outline[0] == 'rev':
        outline = outline[1]
    if len(bb) < 2 or bb[0][0] != ('keys', ('sheets',)):
        return None, None, None
    sheet = ('sel', ('sheets',), ('sym', bb[0][1], 'any'))
    poly = bb[1][1]
    if bb[1][0] != ('polys', sheet):
        return None, None, None
    if len(bb) == 2 and outline == ('attr', ('spwh', poly), 'outer'):
        return 'outline', sheet, raw
    if len(bb) == 3 and bb[2][0] == ('attr', ('spwh', poly), 'holes') and outline == bb[2][1]:
        return 'hole', sheet, raw
    return None, None, None


def diffvec(pt, el):
    """pt minus the point el, if that does not depend on el."""
    if not isinstance(pt, tuple) or pt[0] not in ('arr', 'tup') or len(pt[1]) != 2:
        return None
    r = []
    for i, x in enumerate(pt[1]):
        if not isinstance(x, Rat):
            return None
        d = t.rsub(x, ra(('ix', el, i)))
        if any(t.atom_of(a)[:2] == ('ix', el) for a in d.atoms() if isinstance(t.atom_of(a), tuple)):
            return None
        r.append(d)
    return tuple(r)


def layout(R, e, off, kind):
    g, bb, sheet = kind
    poly = None
    tx = off[0]
    los = [t.atom_of(a) for a in tx.atoms() if t.atom_of(a)[0] == 'lo' and t.atom_of(a)[2] == 0]
    heads = [t.atom_of(a) for a in tx.atoms() if t.atom_of(a)[0] == 'acc']
    rule = 'C13.layout'
    if len(heads) != 1:
        ok = None if words(tx) else False
        R.decide(rule, 'position', ok, 'the horizontal position does not advance from sheet to sheet: %s' % tx, loc(R, W), W)
        return
    if len(los) != 1:
        R.decide(rule, 'left edge', None if words(tx) else False, 'the translation does not start from the left edge of the sheet: %s' % tx, loc(R, W), W)
        return
    X, lo = ra(heads[0]), ra(los[0])
    hi = ra(('hi',) + los[0][1:])
    a = t.rsub(t.radd(tx, lo), X)
    R.decide(rule, 'start of a sheet', a.const() is not None, 'starts at the running position plus %s, not at a fixed distance' % a, loc(R, W), W)
    # the box holds every outer outline
    boxes = los[0][1]
    want = [c for c in boxes if c[0] == T and len(c[1]) == 2 and c[1][0][0] == ('polys', sheet) and
            c[1][1][0] == ('attr', ('spwh', c[1][0][1]), 'outer') and
            c[2] == ('arr', (ra(('ix', c[1][1][1], 0)), ra(('ix', c[1][1][1], 1))))]
    R.decide(rule, 'bounding box', True if want else None if any(t.has_top(c) for c in boxes) else False,
             'the bounding box does not cover every outer outline of the sheet', loc(R, W), W)
    st = [s for s in e.steps if s[1] == X]
    if not st:
        R.undecided(rule, 'advance', 'the running position is not a loop variable', loc(R, W), W)
        return
    new = t.restrict(st[-1][3], lambda at: False if at == ('b', ('empty', sheet)) else None)
    for what, v in (('advance', new), ('skipped sheet', t.restrict(st[-1][3], lambda at: True if at == ('b', ('empty', sheet)) else None))):
        if not isinstance(v, Rat):
            R.undecided(rule, what, 'the next position is not determined', loc(R, W), W)
            continue
        d = t.rsub(v, X)
        if what == 'advance':
            d = t.rsub(d, t.rsub(hi, lo))
            R.decide(rule, what, d.const() is not None and d.const() > 0,
                     'the gap to the next sheet is %s, not a positive constant' % d, loc(R, W), W)
        else:
            R.decide(rule, what, d.const() is not None and d.const() >= 0, 'a skipped sheet moves the position by %s' % d, loc(R, W), W)
