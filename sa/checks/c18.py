"""C18: the segment index returns exactly the segments containing a value (order types)."""
from itertools import combinations_with_replacement, product
from .bcommon import program, fn, attempt, finish_engine, loc
from .c19 import Boxes, new_state
from .c23 import x
from ..b import terms as t
from ..b.terms import T, F, Rat

M = 'plycutter.geometry.impl2d.segment_tree:'
TREE = M + 'SegmentTree1D'
STAB = TREE + '.stab'
MOST = 10


def run(R):
    R.explain = ('The index is built and queried with symbolic end points of which only the order is known, so that every case stands '
                 'for all numbers in that order: all segments over one to %d distinct end points at once, and every sequence of up to '
                 'two segments (with repetitions, both ways) over up to four end points and a part of those with three; queries at every end '
                 'point, between any two neighbours and outside. The result must be exactly the given segments that contain the value.' % MOST)
    R.rule('C18.stab', 'a query yields every segment whose closed range contains the value, as given, and no other')
    R.rule('C18.once', 'no segment is yielded twice')
    R.rule('C18.empty', 'an index of no segments yields nothing')
    p = program(R)
    fn(R, STAB)
    attempt(R, 'C18.stab', 'queries', lambda: queries(R, p), STAB)


def value(e, r):
    at = ('p%d' % r,)
    e.rank[at] = (0, r)
    return x(at[0])


def between(e, r):
    """A value strictly between two neighbouring end points."""
    at = ('q%d' % r,)
    e.rank[at] = (0, r + 0.5)
    return x(at[0])


def engine(p):
    e = Boxes(p)
    e.rank, e.signs = {}, []
    e.sortmax = 2 * MOST + 2
    e.recursion = lambda fi: 12
    e.BUDGET = 3_000_000
    return e


def cases():
    for m in range(1, MOST + 1):
        segs = [(i, j) for i in range(m) for j in range(i, m)]
        yield 'all segments over %d end points' % m, m, segs
        yield 'all segments over %d end points, backwards and the outer one twice' % m, m, segs[::-1] + [(0, m - 1)]
    for m in range(1, 4):
        segs = [(i, j) for i in range(m) for j in range(i, m)]
        for n in (1, 2):
            for c in product(segs, repeat=n):
                if {i for s in c for i in s} == set(range(m)):
                    yield 'segments %s' % ' '.join('%d-%d' % s for s in c), m, list(c)
    segs = [(i, j) for i in range(4) for j in range(i, 4)]
    for c in combinations_with_replacement(segs, 2):
        if {i for s in c for i in s} == set(range(4)):
            yield 'segments %s' % ' '.join('%d-%d' % s for s in c), 4, list(c)
    for c in combinations_with_replacement([(i, j) for i in range(3) for j in range(i, 3)], 3):
        if {i for s in c for i in s} == set(range(3)):
            yield 'segments %s' % ' '.join('%d-%d' % s for s in c), 3, list(c)


def queries(R, p):
    e = engine(p)
    w = loc(R, STAB)
    verdicts = {}

    def put(rule, key, ok, d=''):
        order = {True: 0, None: 1, False: 2}
        if key not in verdicts or order[ok] > order[verdicts[key][1]]:
            verdicts[key] = (rule, ok, d)
    for key, m, segs in cases():
        e.rank = {}
        e.memo = {} if hasattr(e, 'memo') else None
        st = new_state()
        pts = [value(e, i) for i in range(m)]
        items = [('tup', (pts[i], pts[j], ('c', 'id%d' % n))) for n, (i, j) in enumerate(segs)]
        tree = e.construct(TREE, [e.new(st, ('lst', tuple(('p', T, (), z) for z in items)))], {}, st)
        R.count('indices built')
        if st.pend != F or t.has_top(tree):
            put('C18.stab', key, False if st.pend == T else None, 'cannot be built: ' + t.show(st.pend, 60))
            continue
        asks = [(i, pts[i]) for i in range(m)] + [(i + 0.5, between(e, i)) for i in range(m - 1)]
        asks += [(-0.5, between(e, -1)), (m - 0.5, between(e, m - 1))]
        for r, q in asks:
            want = [z for z, (i, j) in zip(items, segs) if i <= r <= j]
            R.count('queries')
            s2 = st.copy()
            v, s2 = e.run(STAB, [tree, q], {}, s2)
            where = 'at end point %d' % r if r == int(r) else 'below all' if r < 0 else 'above all' if r > m - 1 else 'between end points %d and %d' % (int(r), int(r) + 1)
            if s2.pend == T:
                put('C18.stab', key, False, '%s: fails' % where)
                continue
            ps = e.pieces(v, s2) if v is not None else None
            if s2.pend != F or ps is None or any(z[1] != T or z[2] or t.has_top(z[3]) for z in ps):
                put('C18.stab', key, None, '%s: not determined: %s' % (where, t.show(v, 60)))
                continue
            got = [z[3] for z in ps]
            names = lambda l: ' '.join(sorted(str(z[1][2][1]) if isinstance(z, tuple) and z[0] == 'tup' and len(z[1]) == 3 else t.show(z, 30) for z in l)) or 'nothing'
            if set(got) != set(want):
                put('C18.stab', key, False, '%s: yields %s instead of %s' % (where, names(got)[:80], names(want)[:80]))
            elif len(got) != len(want):
                put('C18.once', key, False, '%s: yields %s' % (where, names(got)[:120]))
            else:
                put('C18.stab', key, True)
    for key, (rule, ok, d) in verdicts.items():
        R.decide(rule, key, ok, d, w, STAB)
    # no segments
    st = new_state()
    e.rank = {}
    tree = e.construct(TREE, [e.new(st, ('lst', ()))], {}, st)
    for r in (0, 1):
        v, st = e.run(STAB, [tree, t.rc(r)], {}, st)
        ps = e.pieces(v, st) if v is not None else None
        R.decide('C18.empty', 'at %d' % r, None if st.pend != F or ps is None else not ps, 'yields %s' % t.show(v, 60), w, STAB)
    finish_engine(R, e)
