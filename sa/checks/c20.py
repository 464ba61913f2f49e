"""C20: the quadtree search misses no item (evaluation over abstract items that are only known by the cells they meet)."""
from fractions import Fraction as Q
from itertools import product
from .bcommon import program, fn, attempt, finish_engine, loc
from .c19 import Boxes, Verdict, new_state, coord
from .c23 import x, add, pt
from ..b import terms as t
from ..b.terms import T, F, NONE, Ite, Rat, rc

M = 'plycutter.geometry.impl2d.pmr_quadtree:'
TREE, SEGS = M + 'PMRQuadTree', M + 'SegmentPMRQuadTree'
FIND, SIMILAR, ADD, SFIND = TREE + '.find_all', TREE + '.find_all_similar', TREE + '.add', SEGS + '.find'
BOX = 'plycutter.geometry.aabb:AABB'
MEETS = BOX + '.intersects_segment'
CELLS = [(i, j) for i in range(4) for j in range(4)]


def scaled(v, low, ext):
    """c when v = low + c * ext."""
    if not isinstance(v, Rat):
        return None
    q = t.rdiv(t.rsub(v, x(low)), x(ext))
    return q.const() if isinstance(q, Rat) else None


class Cells:
    """Answers box tests by the cells (of a 4 x 4 grid over the whole box) an item meets; unknown boxes give no answer."""

    def __init__(self):
        self.items = {}
        self.foreign = False

    def cells(self, lo, hi):
        c = [scaled(lo[0], 'lx', 'w'), scaled(lo[1], 'ly', 'h'), scaled(hi[0], 'lx', 'w'), scaled(hi[1], 'ly', 'h')]
        if None in c:
            return None
        # a cell belongs to the box if its interior does
        return {(i, j) for i, j in CELLS if max(c[0], Q(i, 4)) < min(c[2], Q(i + 1, 4)) and max(c[1], Q(j, 4)) < min(c[3], Q(j + 1, 4))}

    def meets(self, eng, args, kw, st):
        if len(args) != 2 or kw:
            return NotImplemented
        b, item = args
        if not (isinstance(item, tuple) and item in self.items):
            self.foreign = True
            return t.top('item')
        lo, hi = eng.getattr(b, 'lower', st), eng.getattr(b, 'upper', st)
        if not all(isinstance(v, tuple) and v[0] == 'arr' and len(v[1]) == 2 for v in (lo, hi)):
            return t.top('box')
        cs = self.cells(lo[1], hi[1])
        if cs is None:
            return t.top('box')
        return T if cs & self.items[item] else F


def item(i):
    return ('c', 'item%d' % i)


SHAPES = [{(0, 0)}, {(3, 3)}, {(0, 0), (1, 1), (2, 2), (3, 3)}, {(1, 0), (2, 0)}, {(0, 1), (0, 2)}, {(1, 1)}, set()]
QUERIES = [{(0, 0)}, {(1, 1)}, {(3, 3)}, {(2, 0)}, {(0, 2)}, set(CELLS)]


def run(R):
    R.explain = ('The tree is built and searched symbolically over a box of unknown position and size. Items and queries are '
                 'abstract: all that is known of them is which cells of a 4 x 4 subdivision of the box they meet; each sequence of up '
                 'to four insertions from a set of such shapes, and each threshold up to three, is followed through splits. An item '
                 'sharing a cell with the query must be returned; nothing else than inserted items may be.')
    R.rule('C20.find', 'an inserted item which meets the query inside the box is returned')
    R.rule('C20.only', 'only inserted items are returned')
    R.rule('C20.box', 'without a given box, the box contains every end point of the items')
    p = program(R)
    for f in (SFIND, FIND, SIMILAR, ADD, MEETS):
        fn(R, f)
    attempt(R, 'C20.find', 'search', lambda: search(R, p), SFIND)
    attempt(R, 'C20.box', 'box of the items', lambda: covering(R, p), SEGS + '.__init__')


def whole():
    lo = (x('lx'), x('ly'))
    return lo, (add(lo[0], x('w')), add(lo[1], x('h')))


def sequences():
    n = len(SHAPES)
    for k in (1, 2):
        yield from product(range(n), repeat=k)
    for a in product((0, 2, 4, 5), repeat=2):
        yield (2,) + a
        yield a + (2, 0)
        yield (0, 0, 0) + a


def search(R, p):
    e = Boxes(p)
    e.rank = {}
    e.signs = [(x('w').n, 1), (x('h').n, 1)]
    e.recursion = lambda fi: 12
    c = Cells()
    e.prims[MEETS] = c.meets
    lost, extra = Verdict(), Verdict()
    for th, order in product((1, 2, 3, None), sorted(set(sequences()))):
        if th == 1 and len(order) > 3:
            continue
        c.items = {item(i): SHAPES[s] for i, s in enumerate(order)}
        for how in ('at once', 'one by one'):
            if how == 'one by one' and len(order) > 2:
                continue
            st = new_state()
            kw = {'threshold': rc(th)} if th else {}
            lo, hi = whole()
            bx = e.construct(BOX, [pt(*lo), pt(*hi)], {}, st)
            items = [item(i) for i in range(len(order))]
            if how == 'at once':
                me = e.construct(SEGS, [bx, ('tup', tuple(items))], kw, st)
            else:
                me = e.construct(TREE, [bx, ('ext', 'meets')], kw, st)
                e.prims['meets'] = lambda eng, args, kw, st: c.meets(eng, args[::-1], kw, st)
                for it in items:
                    _, st = e.run(ADD, [me, it], {}, st)
            for n, q in enumerate(QUERIES):
                c.items[('c', 'query')] = q
                s2 = st.copy()
                v, s2 = e.run(SFIND if how == 'at once' else SIMILAR, [me, ('c', 'query')], {}, s2)
                what = 'threshold %s, items of shapes %s inserted %s, query %d' % (th or 'default', order, how, n)
                ps = e.pieces(v, s2) if s2.pend == F else None
                if s2.pend == T:
                    lost(False, what + ': fails')
                    continue
                if ps is None or any(z[2] or z[1] not in (T, F) for z in ps):
                    lost(None, what + ': not determined')
                    continue
                got = {z[3] for z in ps if z[1] == T}
                for it, s in zip(items, order):
                    if SHAPES[s] & q:
                        lost(it in got, '%s: item %s is not returned' % (what, it[1]))
                extra(got <= set(items), what + ': returns something else than the items')
    lost.decide(R, 'C20.find', 'items meeting the query', SFIND)
    extra.decide(R, 'C20.only', 'returned items', SFIND)
    finish_engine(R, e)


def covering(R, p):
    e = Boxes(p)
    seen = []

    def meets(eng, args, kw, st):
        lo, hi = eng.getattr(args[0], 'lower', st), eng.getattr(args[0], 'upper', st)
        seen.append([list(v[1]) if isinstance(v, tuple) and v[0] == 'arr' else None for v in (lo, hi)])
        return F
    e.prims[MEETS] = meets
    vd = Verdict()
    for a in ((0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1)):
        for b in ((0, 1, 2, 3), (3, 1, 0, 2)):
            e.rank, e.signs = {}, []
            del seen[:]
            st = new_state()
            ps = [pt(coord(e, 0, i), coord(e, 1, j)) for i, j in zip(a, b)]
            e.construct(SEGS, [], {'items': ('tup', (('tup', (ps[0], ps[1])), ('tup', (ps[2], ps[3]))))}, st)
            what = 'end points ranked %s in x and %s in y' % (a, b)
            if st.pend != F or not seen or None in seen[0]:
                vd(False if st.pend == T else None, what + ': not determined')
                continue
            lo, hi = seen[0]
            want = [coord(e, 0, 0), coord(e, 1, 0)], [coord(e, 0, 3), coord(e, 1, 3)]
            ok = True
            for i in range(2):
                for got, w, sgn in ((lo[i], want[0][i], 1), (hi[i], want[1][i], -1)):
                    if not isinstance(got, Rat):
                        ok = None if ok and got != ('nan',) else False
                    elif got != w:
                        s = e.sign(t.rsub(got, w).n)
                        if s is None:
                            ok = None if ok else ok
                        elif s * sgn > 0:
                            ok = False
            vd(ok, what + ': the box is %s' % t.show(('tup', tuple(lo + hi)), 100))
    vd.decide(R, 'C20.box', 'box of the items', SEGS + '.__init__')
