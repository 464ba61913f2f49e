"""C19: bounding boxes: growth and containment by order types, segment tests as polynomial formulas."""
from itertools import product
from .bcommon import program, fn, attempt, finish_engine, loc
from .orders import weak_orders
from .c23 import Signs, x, add, pt
from .witness import refute, value
from ..b import terms as t, equal, poly
from ..b.terms import T, F, NONE, Ite, Rat, rc, gand, gor, gnot
from ..b.gvg import St, Env

M = 'plycutter.geometry.aabb:'
BOX = M + 'AABB'
GROW, HAS, MEET, SEG = BOX + '.include_point', BOX + '.contains', BOX + '.intersects_aabb', BOX + '.intersects_segment'


class Boxes(Signs):
    """Ranked coordinates (a0 < a1 < ... per axis) besides the listed signs."""
    rank = {}

    def rest(self, p):
        if len(p.t) == 2 and all(len(m) == 1 and m[0][1] == 1 for m, c in p.t) and p.t[0][1] + p.t[1][1] == 0:
            r = [(self.rank.get(t.atom_of(m[0][0])), c) for m, c in p.t]
            if None not in (r[0][0], r[1][0]) and r[0][0][0] == r[1][0][0]:
                d = (r[0][0][1] - r[1][0][1]) * (1 if r[0][1] > 0 else -1)
                return (d > 0) - (d < 0)
        return None


def new_state():
    st = St({}, ('root',), {})
    st.heap[('root',)] = Env()
    return st


def truth(v):
    """True, False or None for a determined answer."""
    return True if v == T else False if v == F else None


def run(R):
    R.explain = ('Growth, containment and box-box intersection are evaluated for every order type of the coordinates involved '
                 '(they only compare, so order types cover all inputs), including the empty box. The segment test is compared '
                 'with the separating-axis condition as a formula over box and segment symbols, for every sign pattern of the '
                 'direction and box extent, on boxes built by the constructor and by growth; a formula of another shape is '
                 'refuted by a valuation or left undecided.')
    R.rule('C19.grow', 'growing by a point gives the smallest box containing box and point')
    R.rule('C19.contains', 'containment is closed and exact')
    R.rule('C19.boxes', 'two boxes intersect exactly when the closed boxes share a point')
    R.rule('C19.segment', 'a segment intersects a box exactly when no separating line exists')
    p = program(R)
    for f in (GROW, HAS, MEET, SEG):
        fn(R, f)
    e = Boxes(p)
    for f, rule, fid in ((grow, 'C19.grow', GROW), (contains, 'C19.contains', HAS), (boxes, 'C19.boxes', MEET), (segment, 'C19.segment', SEG)):
        attempt(R, rule, f.__name__, lambda: f(R, e), fid)
    finish_engine(R, e)


def coord(e, axis, r):
    """Symbol of rank r on an axis."""
    at = ('%s%d' % ('xy'[axis], r),)
    e.rank[at] = (axis, r)
    return x(at[0])


def box(e, st, lo, hi):
    return e.construct(BOX, [pt(*lo), pt(*hi)] if lo else [], {}, st)


def corner(e, me, name, st):
    v = e.getattr(me, name, st)
    return list(v[1]) if isinstance(v, tuple) and v[0] in ('arr', 'tup') and len(v[1]) == 2 else None


class Verdict:
    """First definite failure and first undecided case of a family."""

    def __init__(self):
        self.bad = self.und = None
        self.n = 0

    def __call__(self, ok, what):
        self.n += 1
        if ok is False:
            self.bad = self.bad or what
        elif ok is None:
            self.und = self.und or what

    def decide(self, R, rule, key, fid):
        R.count('cases', self.n)
        R.decide(rule, key, False if self.bad else None if self.und else True, self.bad or self.und or '%d cases' % self.n, loc(R, fid), fid)


ONE = [r for r in weak_orders(3) if r[0] <= r[1]]                # lower, upper, point
TWO = [r for r in weak_orders(4) if r[0] <= r[1] and r[2] <= r[3]]   # two intervals
PLACE = {-1: 'below', 0: 'at the lower end of', 1: 'within', 2: 'at the upper end of', 3: 'above'}


def place(r):
    lo, hi, q = r
    s = 'below' if q < lo else 'above' if q > hi else 'at an end of' if q in (lo, hi) else 'inside'
    return s + (' a flat range' if lo == hi else ' the range')


def grow(R, e):
    vd = Verdict()
    for a, b in product(ONE, ONE):
        e.rank, e.signs = {}, []
        st = new_state()
        cs = [[coord(e, i, r) for r in o] for i, o in enumerate((a, b))]
        me = box(e, st, (cs[0][0], cs[1][0]), (cs[0][1], cs[1][1]))
        v, st = e.run(GROW, [me, pt(cs[0][2], cs[1][2])], {}, st)
        what = 'point %s in x, %s in y' % (place(a), place(b))
        lo, hi = corner(e, me, 'lower', st), corner(e, me, 'upper', st)
        if st.pend == T:
            vd(False, what + ': fails')
            continue
        if st.pend != F or lo is None or hi is None:
            vd(None, what + ': not determined')
            continue
        for i, o in enumerate((a, b)):
            for got, want, name in ((lo[i], coord(e, i, min(o)), 'lower'), (hi[i], coord(e, i, max(o)), 'upper')):
                vd(got == want if isinstance(got, Rat) else False if isinstance(got, tuple) and got[0] in ('nan', 'inf') else None, '%s: the %s %s becomes %s' % (what, name, 'xy'[i], t.show(got, 40)))
    vd.decide(R, 'C19.grow', 'box grown by a point', GROW)
    vd = Verdict()
    for k in (1, 2):
        e.rank, e.signs = {}, []
        st = new_state()
        me = box(e, st, None, None)
        for i in range(k):
            v, st = e.run(GROW, [me, pt(coord(e, 0, i), coord(e, 1, -i))], {}, st)
        lo, hi = corner(e, me, 'lower', st), corner(e, me, 'upper', st)
        want = [coord(e, 0, 0), coord(e, 1, -k + 1)], [coord(e, 0, k - 1), coord(e, 1, 0)]
        ok = None if st.pend not in (T, F) or lo is None or hi is None else st.pend == F and (lo, hi) == want
        if ok is False and not all(isinstance(c, Rat) or isinstance(c, tuple) and c[0] in ('nan', 'inf') for c in lo + hi):
            ok = None
        vd(ok, 'an empty box grown by %d points gives %s' % (k, t.show(('tup', tuple((lo or []) + (hi or []))), 100)))
    vd.decide(R, 'C19.grow', 'empty box grown', GROW)


def contains(R, e):
    vd = Verdict()
    for a, b in product(ONE, ONE):
        for order in (0, 1):
            e.rank, e.signs = {}, []
            st = new_state()
            cs = [[coord(e, i, r) for r in o] for i, o in enumerate((a, b))]
            me = box(e, st, (cs[0][0], cs[1][0]), (cs[0][1], cs[1][1]))
            q = pt(cs[0][2], cs[1][2])
            v, st = e.run(HAS, [me, q if order == 0 else ('arr', q[1])], {}, st)
            want = all(o[0] <= o[2] <= o[1] for o in (a, b))
            got = truth(v)
            vd(None if got is None or st.pend != F else got == want, 'point %s in x, %s in y: answers %s' % (place(a), place(b), got))
    vd.decide(R, 'C19.contains', 'box', HAS)
    vd = Verdict()
    st = new_state()
    v, st = e.run(HAS, [box(e, st, None, None), pt(x('px'), x('py'))], {}, st)
    vd(None if truth(v) is None or st.pend != F else truth(v) is False, 'the empty box contains a point')
    vd.decide(R, 'C19.contains', 'empty box', HAS)


def boxes(R, e):
    vd = Verdict()
    for a, b in product(TWO, TWO):
        e.rank, e.signs = {}, []
        st = new_state()
        cs = [[coord(e, i, r) for r in o] for i, o in enumerate((a, b))]
        me = box(e, st, (cs[0][0], cs[1][0]), (cs[0][1], cs[1][1]))
        oth = box(e, st, (cs[0][2], cs[1][2]), (cs[0][3], cs[1][3]))
        v, st = e.run(MEET, [me, oth], {}, st)
        want = all(o[0] <= o[3] and o[2] <= o[1] for o in (a, b))
        got = truth(v)
        vd(None if got is None or st.pend != F else got == want, 'ranges %s in x, %s in y: answers %s' % (a, b, got))
    vd.decide(R, 'C19.boxes', 'two boxes', MEET)
    vd = Verdict()
    for k in range(3):
        st = new_state()
        full = ((x('lx'), x('ly')), (x('ux'), x('uy')))
        me = box(e, st, *(full if k == 1 else (None, None)))
        oth = box(e, st, *(full if k == 0 else (None, None)))
        v, st = e.run(MEET, [me, oth], {}, st)
        vd(None if truth(v) is None or st.pend != F else truth(v) is False, 'an empty box intersects ' + ('another one' if k == 2 else 'a box'))
    vd.decide(R, 'C19.boxes', 'empty box', MEET)


def absolute(r, s):
    return t.rneg(r) if s < 0 else r


def separating(lo, hi, p, q, sx, sy):
    """The exact condition for a closed segment and a closed box to share a point."""
    far = F
    for i in range(2):
        far = gor(far, gand(t.sign_lt(t.rsub(p[i], lo[i])), t.sign_lt(t.rsub(q[i], lo[i]))))
        far = gor(far, gand(t.sign_lt(t.rsub(hi[i], p[i])), t.sign_lt(t.rsub(hi[i], q[i]))))
    dx, dy, r, d = parts(lo, hi, p, q, sx, sy)
    return gand(gnot(far), gnot(t.sign_lt(t.rsub(t.rmul(r, r), t.rmul(d, d)))))


def parts(lo, hi, p, q, sx, sy):
    """Direction, reach of the box and distance of its middle along the normal of the segment."""
    dx, dy = t.rsub(q[0], p[0]), t.rsub(q[1], p[1])
    half = t.rdiv(rc(1), rc(2))
    mid = [t.rmul(half, add(a, b)) for a, b in zip(lo, hi)]
    ext = [t.rmul(half, t.rsub(b, a)) for a, b in zip(lo, hi)]
    d = t.rsub(t.rmul(dy, t.rsub(mid[0], p[0])), t.rmul(dx, t.rsub(mid[1], p[1])))
    r = add(t.rmul(absolute(dy, sy), ext[0]), t.rmul(absolute(dx, sx), ext[1]))
    return dx, dy, r, d


def agrees(e, v, want, lo, hi, p, q, sx, sy):
    """The answer is the separating-axis condition, perhaps in another form (distances instead of their squares)."""
    signs = {}
    for n, s in e.signs:
        (m, c), = n.t
        (a, k), = m
        signs[a] = s if c > 0 else -s
    dx, dy, r, d = parts(lo, hi, p, q, sx, sy)
    return equal.same(v, want, signs, [(t.rmul(rc(2), r).n, t.rmul(rc(2), d).n)] if r.d.const() and d.d.const() else [])


def segment(R, e):
    for build in ('constructor', 'growth', 'growth of a box'):
        vd = Verdict()
        for sx, sy, wx, wy in product((1, 0, -1), (1, 0, -1), (1, 0), (1, 0)):
            e.rank = {}
            px, py, lx, ly = (x(n) for n in ('px', 'py', 'lx', 'ly'))
            z = rc(0)
            dx, dy = x('dx') if sx else z, x('dy') if sy else z
            w, h = x('w') if wx else z, x('h') if wy else z
            e.signs = [(v.n, s) for v, s in ((dx, sx), (dy, sy), (w, wx), (h, wy)) if v != z]
            lo, hi = (lx, ly), (add(lx, w), add(ly, h))
            p, q = (px, py), (add(px, dx), add(py, dy))
            st = new_state()
            if build == 'constructor':
                me = box(e, st, lo, hi)
            elif build == 'growth':
                me = box(e, st, None, None)
                for c in ((lo[0], hi[1]), (hi[0], lo[1])):
                    _, st = e.run(GROW, [me, pt(*c)], {}, st)
            else:
                me = box(e, st, lo, (lo[0], hi[1]))
                _, st = e.run(GROW, [me, pt(hi[0], lo[1])], {}, st)
            v, st = e.run(SEG, [me, ('tup', (pt(*p), pt(*q)))], {}, st)
            what = 'direction (%+d,%+d), %s box' % (sx, sy, {(1, 1): 'full', (1, 0): 'flat', (0, 1): 'thin', (0, 0): 'point'}[wx, wy])
            if st.pend == T:
                vd(False, what + ': fails')
                continue
            if st.pend != F or t.has_top(v):
                vd(None, what + ': not determined ' + t.show(v, 80))
                continue
            want = t.restrict(separating(lo, hi, p, q, sx, sy), e.known)
            if v == want:
                vd(True, what)
                continue
            try:
                if agrees(e, v, want, lo, hi, p, q, sx, sy):
                    vd(True, what)
                    continue
            except poly.TooMany:
                pass
            why = refute(('tup', (v, want)), e.signs, lambda f, val: value(f[1][0], val) != value(f[1][1], val), 3000, 20000)
            vd(False if why else None, what + (': wrong answer for ' + why if why else ': a formula of another shape'))
        vd.decide(R, 'C19.segment', 'box made by ' + build, SEG)
