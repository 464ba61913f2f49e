"""C06: 1D set operations mean pointwise set operations (symbolic evaluation over order types)."""
from .bcommon import program, fn, attempt, finish_engine, loc, tops
from .orders import weak_orders, merges, Ranks
from ..b import terms as t
from ..b.terms import T, F, NONE, Ite, Rat, ra, rc, gnot, gand, top
from ..b.gvg import St, Env, Inst
from ..b.lib2 import Engine

M = 'plycutter.geometry.geom1d:'
G = M + 'Geom1D'
LO, HI = ('inf', -1), ('inf', 1)


class LineEngine(Engine):
    def __init__(self, p):
        self.ranks = Ranks()
        self.truths = {}
        self.sortmax = 12
        self.extra = None
        Engine.__init__(self, p, facts=self.known)
        for f in ('FractionFromExact', 'FractionFromExactOrInf'):
            # exact conversion: the identity on exact numbers (C02)
            if 'plycutter.plytypes:' + f in p.func_by_fid:
                self.prims['plycutter.plytypes:' + f] = lambda e, a, k, st: a[0] if a else top('conversion')

    def known(self, atom):
        r = self.ranks(atom)
        if r is None and self.extra is not None:
            r = self.extra(atom)
        if r is None and atom[0] == 'b' and isinstance(atom[1], tuple) and atom[1][:2] == ('app', 'call'):
            r = self.truths.get(atom[1][3:])
        return r

    def cmp(self, op, a, b, st):
        # short lists compare like tuples
        if op in ('Lt', 'LtE', 'Gt', 'GtE'):
            a, b = self.flatlist(a, st), self.flatlist(b, st)
        return Engine.cmp(self, op, a, b, st)

    def flatlist(self, x, st):
        if isinstance(x, tuple) and x[0] == 'ref':
            c = self.content(x, st)
            if isinstance(c, tuple) and c[0] == 'lst' and all(p[1] == T and not p[2] for p in c[1]):
                return ('tup', tuple(p[3] for p in c[1]))
        return x


def n(name):
    return ra((name,))


class Line:
    """Runs the methods of Geom1D on operands with named end points."""

    def __init__(self, p):
        self.e = LineEngine(p)

    def state(self):
        st = St({}, ('root',), {})
        st.heap[('root',)] = Env()
        return st

    def make(self, ivs, st):
        v = self.e.construct(G, [self.arg(ivs)], {}, st)
        return v

    @staticmethod
    def arg(ivs):
        return ('tup', tuple(('tup', tuple(x)) for x in ivs))

    def call(self, name, args, st):
        r, st2 = self.e.run(G + '.' + name, args, st=st)
        return r, st2

    def intervals(self, v, st):
        """End points of a resulting geometry, or None."""
        if isinstance(v, Ite) or not isinstance(v, tuple) or v[0] != 'ref':
            return None
        r, st = self.e.run(G + '.get_intervals', [v], st=st) if G + '.get_intervals' in self.e.p.func_by_fid else (self.e.getattr(v, 'intervals', st), st)
        ps = self.e.pieces(r, st)
        if ps is None:
            return None
        res = []
        for q in ps:
            if q[1] != T or q[2]:
                return None
            w = self.e.pieces(q[3], st)
            if w is None or len(w) != 2 or any(z[1] != T or z[2] for z in w):
                return None
            res.append((w[0][3], w[1][3]))
        return res

    def pos(self, x):
        """Position of an end point on the ranked line."""
        if x == LO:
            return -1
        if x == HI:
            return 10 ** 6
        if isinstance(x, Rat):
            for a in x.atoms():
                at = t.atom_of(a)
                if at in self.e.ranks.rank and x == ra(at):
                    return self.e.ranks.rank[at]
        return None


def cells(line, ivs, m):
    """Membership of the elementary intervals between m consecutive end points; None if unknown."""
    ps = []
    for a, b in ivs:
        a, b = line.pos(a), line.pos(b)
        if a is None or b is None:
            return None
        ps.append((a, b))
    return [any(a < c + .5 < b for a, b in ps) for c in range(-1, m)], ps


def normal(ps):
    """Sorted, of positive length, not touching."""
    return all(a < b for a, b in ps) and all(p[1] < q[0] for p, q in zip(ps, ps[1:]))


def run(R):
    R.explain = ('Evaluation of the 1D operations on operands with symbolic end points, for every order type (relative '
                 'position, ties included) of the end points, with unbounded ends; the code only compares and copies end '
                 'points, so an order type stands for all numbers in that position. Constructor: any list of up to three '
                 'intervals; operators: operands of up to two intervals each. Every elementary interval between end points '
                 'is compared with the Boolean combination, and the stored form with the normal form. Buffering and length '
                 'are compared as exact linear terms.')
    R.rule('C06.normal', 'the constructor stores the same points as sorted, disjoint, non-touching intervals of positive length')
    R.rule('C06.refuse', 'an interval given backwards is refused')
    R.rule('C06.operator', 'each operator contains exactly the points the Boolean combination contains, in normal form')
    R.rule('C06.locate', 'a point is located inside, at an end, or outside')
    R.rule('C06.buffer', 'buffering moves every end outwards by the amount and drops what vanishes')
    R.rule('C06.query', 'emptiness, length, filtering and pieces agree with the point set')
    p = program(R)
    for f in ('__init__', '__or__', '__and__', '__sub__', '__xor__', '__invert__', 'buffer', 'locate', 'measure1d', 'is_empty', 'filter',
              'disjoint_pieces', 'empty', 'full'):
        fn(R, G + '.' + f)
    L = Line(p)
    for f, what in ((constructor, '__init__'), (binary, '__or__'), (unary, '__invert__'), (locate, 'locate'), (buffers, 'buffer'), (queries, 'measure1d')):
        attempt(R, 'C06.operator', f.__name__, lambda: f(R, p, L), G + '.' + what)
    finish_engine(R, L.e)


class Tally:
    """One obligation decided over many cases: the first failing case is reported."""

    def __init__(self, R, rule, key, fid):
        self.R, self.rule, self.key, self.fid, self.n, self.done = R, rule, key, fid, 0, False

    def case(self, good, what):
        """good: True, False or None (not determined)"""
        self.n += 1
        self.R.count('order types evaluated')
        if good is True or self.done:
            return
        if good is None:
            self.R.undecided(self.rule, self.key, what, loc(self.R, self.fid), self.fid)
        else:
            self.done = True
            self.R.viol(self.rule, self.key, what, loc(self.R, self.fid), self.fid)

    def end(self):
        self.R.ok(self.rule, self.key, '%d cases' % self.n, loc(self.R, self.fid))


def name_of(ivs, rank):
    return ', '.join('(%s, %s)' % tuple('-inf' if z == LO else 'inf' if z == HI else str(rank.get(t.atom_of(next(iter(z.atoms()))))) for z in x)
                     for x in ivs) or 'nothing'


def check_result(L, v, st, m, want, what):
    if st.pend == T:
        return False, what + ': fails'
    if st.pend != F:
        return None, what + ': failure not determined: ' + t.show(st.pend, 60)
    ivs = L.intervals(v, st)
    if ivs is None:
        return None, what + ': result not determined: ' + t.show(v, 60)
    r = cells(L, ivs, m)
    if r is None:
        return None, what + ': end points not determined'
    if r[0] != want:
        return False, '%s: gives %s' % (what, name_of(ivs, L.e.ranks.rank))
    if not normal(r[1]):
        return False, '%s: stored as %s, not in normal form' % (what, name_of(ivs, L.e.ranks.rank))
    return True, what


def setranks(L, names, ranks):
    L.e.ranks.set({(x,): r for x, r in zip(names, ranks)})
    return {(x,): r for x, r in zip(names, ranks)}


def cover(rs, m):
    return [any(a < c + .5 < b for a, b in rs) for c in range(-1, m)]


def constructor(R, p, L):
    fid = G + '.__init__'
    for k in range(4):
        tl = Tally(R, 'C06.normal', 'constructor on %d intervals' % k, fid)
        names = [c + str(i) for i in range(k) for c in 'ab']

        def ok(pre):
            return all(pre[i] <= pre[i + 1] for i in range(0, len(pre) - 1, 2))
        for r in weak_orders(2 * k, ok):
            rank = setranks(L, names, r)
            ivs = [(n('a%d' % i), n('b%d' % i)) for i in range(k)]
            st = L.state()
            v = L.make(ivs, st)
            want = cover([(r[2 * i], r[2 * i + 1]) for i in range(k)], 2 * k)
            tl.case(*check_result(L, v, st, 2 * k, want, 'intervals %s' % name_of(ivs, rank)))
        tl.end()
    # unbounded ends
    tl = Tally(R, 'C06.normal', 'constructor with unbounded ends', fid)
    for k in (1, 2):
        for mask in range(1, 4 ** k):
            lo = [mask >> (2 * i) & 1 for i in range(k)]
            hi = [mask >> (2 * i + 1) & 1 for i in range(k)]
            names = [c + str(i) for i in range(k) for c in 'ab' if not (lo if c == 'a' else hi)[i]]

            def ok(pre):
                d = dict(zip(names, pre))
                return all(d.get('a%d' % i, -1) <= d.get('b%d' % i, 99) for i in range(k))
            for r in weak_orders(len(names), ok):
                rank = setranks(L, names, r)
                ivs = [(LO if lo[i] else n('a%d' % i), HI if hi[i] else n('b%d' % i)) for i in range(k)]
                st = L.state()
                v = L.make(ivs, st)
                want = cover([(L.pos(a), L.pos(b)) for a, b in ivs], 4)
                tl.case(*check_result(L, v, st, 4, want, 'intervals %s' % name_of(ivs, rank)))
    tl.end()
    tl = Tally(R, 'C06.refuse', 'backward interval', fid)
    setranks(L, ['a0', 'b0'], (1, 0))
    st = L.state()
    L.make([(n('a0'), n('b0'))], st)
    tl.case(True if st.pend == T else False if st.pend == F else None, 'an interval with its ends swapped is accepted')
    tl.end()


def operands(kinds):
    """Named normalised operands: (number of intervals, unbounded below, unbounded above)."""
    for k, lo, hi in kinds:
        if k == 0 and (lo or hi):
            continue
        yield k, lo, hi


def named(pre, k, lo, hi):
    xs = [pre + str(i) for i in range(2 * k - lo - hi)]
    ends = ([LO] if lo else []) + [n(x) for x in xs] + ([HI] if hi else [])
    return xs, [(ends[2 * i], ends[2 * i + 1]) for i in range(k)]


OPS = (('__or__', 'union', lambda a, b: a or b), ('__and__', 'intersection', lambda a, b: a and b),
       ('__sub__', 'difference', lambda a, b: a and not b), ('__xor__', 'symmetric difference', lambda a, b: a != b))


def binary(R, p, L):
    kinds = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1), (2, 1, 1)]
    for f, name, op in OPS:
        fid = G + '.' + f
        for ka in kinds:
            for kb in kinds:
                if ka[0] + kb[0] > 3 and (ka[1] or ka[2] or kb[1] or kb[2]):
                    continue
                tl = Tally(R, 'C06.operator', '%s of %s and %s' % (name, desc(ka), desc(kb)), fid)
                na, ia = named('a', *ka)
                nb, ib = named('b', *kb)
                for ra_, rb_ in merges(len(na), len(nb)):
                    rank = setranks(L, na + nb, ra_ + rb_)
                    m = len(na) + len(nb)
                    st = L.state()
                    a, b = L.make(ia, st), L.make(ib, st)
                    ca = cover([(L.pos(x), L.pos(y)) for x, y in ia], m)
                    cb = cover([(L.pos(x), L.pos(y)) for x, y in ib], m)
                    v, st = L.call(f, [a, b], st)
                    want = [op(x, y) for x, y in zip(ca, cb)]
                    tl.case(*check_result(L, v, st, m, want, '%s and %s' % (name_of(ia, rank), name_of(ib, rank))))
                tl.end()


def desc(k):
    return '%d interval%s%s' % (k[0], '' if k[0] == 1 else 's', '' if not (k[1] or k[2]) else ' unbounded ' + ('both ways' if k[1] and k[2] else 'below' if k[1] else 'above'))


KINDS = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1), (2, 1, 0), (2, 0, 1), (2, 1, 1)]


def unary(R, p, L):
    for k in KINDS:
        fid = G + '.__invert__'
        tl = Tally(R, 'C06.operator', 'complement of %s' % desc(k), fid)
        na, ia = named('a', *k)
        rank = setranks(L, na, range(len(na)))
        st = L.state()
        a = L.make(ia, st)
        want = [not x for x in cover([(L.pos(x), L.pos(y)) for x, y in ia], len(na))]
        v, st = L.call('__invert__', [a], st)
        tl.case(*check_result(L, v, st, len(na), want, name_of(ia, rank)))
        tl.end()
    for f, want in (('empty', [False]), ('full', [True])):
        tl = Tally(R, 'C06.operator', f, G + '.' + f)
        setranks(L, [], [])
        st = L.state()
        v, st = L.call(f, [('cls', G)], st)
        tl.case(*check_result(L, v, st, 0, want, f))
        tl.end()


def locate(R, p, L):
    fid = G + '.locate'
    for k in [(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1), (2, 1, 1)]:
        tl = Tally(R, 'C06.locate', 'point against %s' % desc(k), fid)
        na, ia = named('a', *k)
        for ra_, rp in merges(len(na), 1):
            rank = setranks(L, na + ['pt'], ra_ + rp)
            st = L.state()
            a = L.make(ia, st)
            v, st = L.call('locate', [a, n('pt')], st)
            pos = [(L.pos(x), L.pos(y)) for x, y in ia]
            x = rp[0]
            want = 0 if any(x in q for q in pos) else 1 if any(q[0] < x < q[1] for q in pos) else -1
            what = 'point %s against %s' % (x, name_of(ia, rank))
            if st.pend != F or not isinstance(v, Rat) or v.const() is None:
                tl.case(False if st.pend == T else None, what + (': fails' if st.pend == T else ': not determined'))
            else:
                tl.case(v.const() == want, '%s: located %s instead of %s' % (what, v.const(), want))
        tl.end()


SIGN = ['<0', '=0', '>0']


def sign_of(p, names, sa, lens, sg):
    """Sign of a linear term in increasing numbers and the amount, if the signs of its parts settle it."""
    co, amount, const = {}, 0, 0
    for m, c in p.t:
        if m == ():
            const += c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = t.atom_of(m[0][0])
        if a == ('amount',):
            amount = c
        elif len(a) == 1 and a[0] in names:
            co[a[0]] = c
        else:
            return None
    if const:
        return None
    for d, s in zip(lens, sg):
        for k in (1, -1):
            q = d.n if hasattr(d, 'n') else None
            if q is not None and p == q.scale(k):
                return s * k
    parts = [(amount > 0) - (amount < 0)] if amount else []
    parts = [x * sa for x in parts]
    run = 0
    for x in names[:-1]:
        run -= co.get(x, 0)
        if run:
            parts.append(1 if run > 0 else -1)
    if sum(co.values()) != 0:
        return None
    parts = [x for x in parts if x]
    if not parts:
        return 0
    return parts[0] if all(x == parts[0] for x in parts) else None


def linear_fact(atom, names, sa, lens, sg):
    if atom[0] not in ('lt0', 'eq0'):
        return None
    s = sign_of(atom[1], names, sa, lens, sg)
    if s is None:
        return None
    return s < 0 if atom[0] == 'lt0' else s == 0


def buffers(R, p, L):
    """Ends as linear terms; the sign of each buffered length is a case."""
    fid = G + '.buffer'
    amt = n('amount')
    tl = Tally(R, 'C06.buffer', 'buffering by an arbitrary amount', fid)
    for k in (0, 1, 2):
        na, ia = named('a', k, 0, 0)
        cases = [(1, [1] * k), (0, [1] * k)] + [(-1, [(m // 3 ** i) % 3 - 1 for i in range(k)]) for m in range(3 ** k)]
        for sa, sg in cases:
            setranks(L, na, range(len(na)))
            lens = [t.radd(t.rsub(b, a), t.rmul(rc(2), amt)) for a, b in ia]

            def extra(atom):
                return linear_fact(atom, na, sa, lens, sg)
            st = L.state()
            a = L.make(ia, st)
            got = []

            def record(eng, args, kw, z):
                got.append((args, kw))
                ps = eng.pieces(args[0], z) if args else None
                if ps is None:
                    return top('intervals')
                res = []
                for q in ps:
                    w = eng.pieces(q[3], z)
                    if q[1] != T or q[2] or w is None or len(w) != 2:
                        return top('intervals')
                    res.append(('tup', tuple(x[3] for x in w)))
                return ('app', 'geom', ('tup', tuple(res)))
            L.e.extra = extra
            L.e.prims[G] = record
            try:
                v, st = L.call('buffer', [a, amt], st)
            finally:
                L.e.extra = None
                del L.e.prims[G]
            what = 'buffer of %d intervals, amount %s, lengths after %s' % (k, SIGN[sa + 1], ', '.join(SIGN[s + 1] for s in sg))
            if st.pend == T:
                tl.case(False, what + ': fails')
                continue
            if v == a and k == 0:
                tl.case(True, what)
                continue
            if st.pend != F or not (isinstance(v, tuple) and v[:2] == ('app', 'geom')):
                tl.case(None, what + ': not determined: %s' % t.show(v, 60))
                continue
            ivs = [x[1] for x in v[2][1]]
            must = [(t.rsub(x, amt), t.radd(y, amt)) for (x, y), s in zip(ia, sg) if s > 0]
            may = [(t.rsub(x, amt), t.radd(y, amt)) for (x, y), s in zip(ia, sg) if s == 0]
            extra_ = [x for x in ivs if x not in must and x not in may]
            good = all(x in ivs for x in must) and not extra_
            tl.case(good, what + ': gives %s' % ', '.join(t.show(('tup', x), 60) for x in ivs))
    tl.end()


def queries(R, p, L):
    for k in KINDS[:4]:
        na, ia = named('a', *k)
        setranks(L, na, range(len(na)))
        st = L.state()
        a = L.make(ia, st)
        v, st1 = L.call('is_empty', [a], st.copy())
        tl = Tally(R, 'C06.query', 'emptiness of %s' % desc(k), G + '.is_empty')
        tl.case(None if v not in (T, F) else (v == T) == (k[0] == 0), 'says %s' % t.show(v, 40))
        tl.end()
        v, st1 = L.call('measure1d', [a], st.copy())
        want = rc(0)
        for x, y in ia:
            want = t.radd(want, t.rsub(y, x))
        tl = Tally(R, 'C06.query', 'length of %s' % desc(k), G + '.measure1d')
        tl.case(None if not isinstance(v, Rat) else v == want, 'gives %s' % t.show(v, 80))
        tl.end()
        v, st1 = L.call('disjoint_pieces', [a], st.copy())
        tl = Tally(R, 'C06.query', 'pieces of %s' % desc(k), G + '.disjoint_pieces')
        ps = L.e.pieces(v, st1)
        if ps is None or any(q[1] != T or q[2] for q in ps):
            tl.case(None, 'not determined')
        else:
            got = [L.intervals(q[3], st1) for q in ps]
            tl.case(None if None in got else got == [[x] for x in ia], 'gives %s pieces' % len(got))
        tl.end()
        tl = Tally(R, 'C06.query', 'filtering of %s' % desc(k), G + '.filter')
        for mask in range(1 << k[0]):
            L.e.truths = {x: bool(mask >> i & 1) for i, x in enumerate(ia)}
            v, st1 = L.call('filter', [a, ('sym', ('f',), 'any')], st.copy())
            got = L.intervals(v, st1) if st1.pend == F else None
            tl.case(None if got is None else got == [x for i, x in enumerate(ia) if mask >> i & 1], 'keeps %s' % (got,))
        L.e.truths = {}
        tl.end()
