"""C21: finger counts, widths and sides, with symbolic section, limits and draws (polyhedral entailment)."""
from itertools import permutations
from .bcommon import program, fn, attempt, finish_engine, loc
from .c19 import new_state
from ..b import poly, terms as t
from ..b.terms import T, F, NONE, Ite, Rat, rc, ra, gand, gor, gnot, apply, top
from ..b.lib2 import Engine
from ..b.model import Model, BUILD, PLEX, INTER, SB, side, symid, opp, model_facts

H = 'plycutter.heuristics:'
STEP = H + 'single_fingers_random'
S, E, MIN, MAX = (('section', 'start'), ('section', 'end'), ('limit', 'min'), ('limit', 'max'))
MOST, DEEP = 7, 3
IDS = (('joint',), opp(('joint',)))


def run(R):
    R.explain = ('The random finger step is evaluated for one section with symbolic ends and symbolic finger limits. Cases: the number '
                 'of fingers that the maximum and the minimum width call for (and whether they divide the section exactly), which side '
                 'holds each end, the count drawn (up to %d) and the order in which widths are drawn. Draws are symbols between their bounds, so '
                 'that widths and sums are decided by linear entailment (Fourier-Motzkin) over all sections, limits and draws.' % MOST)
    R.rule('C21.count', 'the count is drawn from a nonempty range for which widths within the limits exist')
    R.rule('C21.width', 'every finger width lies within the limits, whatever is drawn')
    R.rule('C21.cover', 'the fingers follow each other from the start of the section to its end')
    R.rule('C21.sides', 'neighbouring fingers go to alternating sides')
    R.rule('C21.whole', 'a section that is not divided goes to one side as a whole')
    R.rule('C21.fails', 'no section that can be divided makes the step fail')
    p = program(R)
    fn(R, STEP)
    attempt(R, 'C21.count', 'cases', lambda: cases(R, p), STEP)


class Stop(Exception):
    pass


class Draws(Model):
    def __init__(self, p, case):
        Model.__init__(self, p, facts=self.known)
        self.case = case
        self.counts, self.uni, self.given, self.why = [], [], [], None
        self.nshuffle = 0
        P = self.prims
        P[SB + 'SheetBuild.check'] = lambda e, a, k, st: NONE
        P[SB + 'SheetBuild.choose_interside'] = Draws.p_choose
        for f in ('numpy.ceil', 'math.ceil'):
            P[f] = lambda e, a, k, st: e.rounded(a[0], True)
        for f in ('numpy.floor', 'math.floor', 'builtins.int'):
            P[f] = lambda e, a, k, st: e.rounded(a[0], False)
        for f in ('numpy.random.RandomState', 'numpy.random.default_rng', 'random.Random'):
            P[f] = lambda e, a, k, st: ('sym', ('rng',), 'any')
        P['.randint'] = lambda e, a, k, st: e.draw(a[1:], k, False)
        P['.integers'] = P['.randrange'] = P['.randint']
        P['.uniform'] = Draws.p_uniform
        P['.shuffle'] = Draws.p_shuffle
        P['.permutation'] = Draws.p_permutation
        for cid in p.class_by_cid:
            if cid.split(':')[1] == 'Geom1D':
                P[cid] = Draws.p_geom

    def s_Assert(self, s, st):
        # for many fingers the assertions are taken for granted
        return ('norm', st) if self.case.get('n', 0) > DEEP else Model.s_Assert(self, s, st)

    # ------------------------------------------------------------ facts
    def known(self, atom):
        if atom[0] in ('lt0', 'eq0'):
            v = 0
            for m, c in atom[1].t:
                if m == ():
                    v += c
                    continue
                a = t.atom_of(m[0][0])
                if a[0] != 'meas' or len(m) > 1 or m[0][1] != 1:
                    return None
                s = self.size(a[2])
                if s is None:
                    return None
                v += c * s
            return v < 0 if atom[0] == 'lt0' else v == 0
        if atom[0] == 'empty':
            s = self.size(atom[2])
            return None if s is None else s == 0
        return model_facts(atom)

    def size(self, g):
        """Overlap of a choice with what lies beside the section."""
        txt = repr(mentions(g, set()))
        ks = [k for k in (0, 1) if ('chosen', k) in mentions(g, set())]
        ivs = [a for a in mentions(g, set()) if isinstance(a, tuple) and a[0] == 'iv']
        if len(ks) != 1 or len(ivs) != 1:
            return None
        if ivs[0][2] == ra(S):
            return 1 if self.case['ends'][0] == ks[0] else 0
        if ivs[0][1] == ra(E):
            return 1 if self.case['ends'][1] == ks[0] else 0
        return None

    # ------------------------------------------------------------ values
    def getattr1(self, x, name, st):
        if isinstance(x, tuple) and x[0] == 'geo' and name == 'intervals':
            if x[2] == Ite(('in', ('open',)), T, F):
                return ('tup', (('tup', (ra(S), ra(E))),))
            return top('intervals')
        return Model.getattr1(self, x, name, st)

    def rounded(self, v, up):
        """Rounding: quotients of the section and a limit are known up to rounding."""
        if not isinstance(v, Rat):
            return NotImplemented
        k = v.const()
        if k is not None:
            return rc(-((-k) // 1) if up else k // 1)
        L = t.rsub(ra(E), ra(S))
        c = self.case
        for lim, n, exact in ((MAX, c['need'], c['xneed']), (MIN, c['room'], c['xroom'])):
            d = t.rsub(v, t.rdiv(L, ra(lim))).const()
            if d is not None and d == d // 1:
                if lim == MAX:
                    return rc(d + (n if up or exact else n - 1))
                return rc(d + (n + 1 if up and not exact else n))
        return top('rounding')

    def draw(self, a, k, closed):
        lo, hi = (a + [None, None])[:2]
        lo, hi = k.get('low', lo), k.get('high', hi)
        if hi is None or hi == NONE:
            lo, hi = rc(0), lo
        lo, hi = (x.const() if isinstance(x, Rat) else None for x in (lo, hi))
        if lo is None or hi is None:
            self.why = 'the range of the count is not determined: ' + ' '.join(t.show(x, 60) for x in a)
            raise Stop()
        self.counts.append((lo, hi))
        n = self.case.get('n')
        if n is None or not lo <= n < hi:
            raise Stop()
        return rc(n)

    def p_uniform(self, args, kw, st):
        a = dict(zip(('rng', 'low', 'high'), args))
        a.update(kw)
        lo, hi = a.get('low'), a.get('high')
        if lo is None or hi is None or t.has_top(lo) or t.has_top(hi) or kw.get('size', NONE) != NONE:
            return top('draw')
        i = len(self.uni)
        self.uni.append((lo, hi))
        return ra(('draw', i))

    def drawn(self, n):
        o = self.case['order']
        return o if len(o) == n else None

    def p_shuffle(self, args, kw, st):
        ps = self.pieces(args[1], st)
        o = self.drawn(len(ps)) if ps is not None else None
        self.nshuffle += 1
        if o is None or self.nshuffle > 1:
            self.why = 'shuffle of something else'
            raise Stop()
        v = args[1]
        new = [ps[i] for i in o]
        if v[0] == 'ref' and st.heap[v[1]][0] == 'lst':
            st.heap[v[1]] = ('lst', tuple(new))
            return NONE
        places = [(k, n) for k, env in st.heap.items() if isinstance(env, dict) for n, z in env.items() if z is v]
        if v[0] != 'arr' or len(places) != 1:
            self.why = 'shuffle of something else'
            raise Stop()
        k, n = places[0]
        env = type(st.heap[k])(st.heap[k])
        env.__dict__.update(getattr(st.heap[k], '__dict__', {}))
        env[n] = ('arr', tuple(z[3] for z in new))
        st.heap[k] = env
        return NONE

    def p_permutation(self, args, kw, st):
        v = args[1]
        k = v.const() if isinstance(v, Rat) else None
        vs = [rc(i) for i in range(int(k))] if k is not None else None
        if vs is None:
            ps = self.pieces(v, st)
            vs = [z[3] for z in ps] if ps is not None else None
        o = self.drawn(len(vs)) if vs is not None else None
        if o is None:
            self.why = 'permutation of something else'
            raise Stop()
        return ('arr', tuple(vs[i] for i in o))

    def p_geom(self, args, kw, st):
        ps = self.pieces(args[0], st) if args else ()
        if ps is None:
            return top('intervals')
        r = F
        for _, g, bb, v in ps:
            if bb or not (isinstance(v, tuple) and v[0] == 'tup' and len(v[1]) == 2 and all(isinstance(z, Rat) for z in v[1])):
                return top('interval')
            name = ('open',) if v[1] == (ra(S), ra(E)) else ('iv',) + v[1]
            r = gor(r, gand(g, Ite(('in', name), T, F)))
        return ('geo', 1, r)

    def p_choose(self, args, kw, st):
        a = dict(zip(('self', 'side', 'geom'), args))
        vals = [a.get('side')] + [a.get('geom')] + list(kw.values())
        vals = [v for v in vals if v is not None]
        sb = a['self']
        if len(vals) != 2 or not (isinstance(sb, tuple) and sb[0] == 'rec'):
            return top('choice')
        f = dict(sb[2])
        f['interside_chosen'] = apply(lambda m, k, v: self.added(m, k, v), f['interside_chosen'], vals[0], vals[1])
        return ('rec', sb[1], tuple(sorted(f.items())))

    def added(self, m, k, v):
        if not (isinstance(v, tuple) and v[0] == 'geo') or k not in (symid(IDS[0]), symid(IDS[1])):
            return top('choice')
        return self.store(m, k, apply(lambda o: ('geo', 1, gor(o[2], v[2])), self.select(m, k)))


def mentions(g, out):
    """Names of the sets in a gate."""
    if isinstance(g, Ite):
        if isinstance(g.atom, tuple) and g.atom[0] == 'in':
            out.add(g.atom[1])
        mentions(g.a, out)
        mentions(g.b, out)
    return out


def chosen(k):
    return ('geo', 1, gand(Ite(('in', ('chosen', k)), T, F), gnot(Ite(('in', ('open',)), T, F))))


def build():
    m = lambda f: ('map', ('empty',), tuple((symid(IDS[k]), f(k), T) for k in (0, 1)))
    inter = ('rec', INTER, tuple(sorted({'id': symid(('joint',)), 'direction': ('sym', ('dir',), 'any'),
                                         'sides': ('tup', (side(IDS[0]), side(IDS[1])))}.items())))
    plex = ('rec', PLEX, (('intersections', ('map', ('empty',), ((symid(('joint',)), inter, T),))), ('sheets', ('map', ('empty',), ()))))
    is_open = Ite(('in', ('open',)), T, F)
    f = {'sheetplex': plex, 'interside_chosen': m(chosen), 'interside_ok': m(lambda k: ('geo', 1, gor(chosen(k)[2], is_open))),
         'sheet_chosen': ('map', ('empty',), ()), 'sheet_ok': ('map', ('empty',), ())}
    return ('rec', BUILD, tuple(sorted(f.items())))


def evaluate(p, case):
    """One case: the engine and the resulting choices per side (None if stopped)."""
    e = Draws(p, case)
    st = new_state()
    par = {'min_finger_width': ra(MIN), 'max_finger_width': ra(MAX), 'random_seed': ('sym', ('seed',), 'any')}
    par = e.new(st, ('map', ('empty',), tuple((('c', k), v, T) for k, v in par.items())))
    try:
        v, st = e.run(STEP, [build(), par], {}, st)
    except Stop:
        return e, None, None
    return e, v, st


def ratio_cases():
    for need in range(1, 10):
        for room in range(max(need - 1, 0), 13):
            for xn in (False, True):
                for xr in (False, True):
                    if room < need and (xn or xr) or room == 0 and xr:
                        continue
                    yield {'need': need, 'xneed': xn, 'room': room, 'xroom': xr, 'order': ()}


def combine(order, n):
    """A number list from (lo, hi) of the draw: smallest, largest and the middle ones that are small enough."""
    lo, hi = order
    return [k for k in range(int(lo), int(hi)) if k <= n]


def cases(R, p):
    w = loc(R, STEP)
    bad, unk, good = {}, {}, {}

    def put(rule, ok, d, c):
        side = 'odd' if c['ends'][0] != c['ends'][1] else 'even'
        tgt = {True: good, None: unk, False: bad}[ok]
        tgt.setdefault((rule, side), []).append(d)
    done = {}
    for c in ratio_cases():
        for ends in ((0, 0), (0, 1), (1, 0), (1, 1)):
            c = dict(c, ends=ends)
            R.count('section cases')
            e, v, st = evaluate(p, c)
            what = 'at least %d%s and at most %d%s fingers' % (c['need'], ' (exactly)' if c['xneed'] else '', c['room'], ' (exactly)' if c['xroom'] else '')
            if e.why:
                put('C21.count', None, '%s: %s' % (what, e.why), c)
                continue
            if not e.counts:
                whole(put, e, v, st, c, what)
                continue
            lo, hi = e.counts[0]
            if lo >= hi:
                put('C21.count', False, '%s: the count is drawn from the empty range %s..%s' % (what, lo, hi - 1), c)
            elif lo < c['need'] or hi - 1 > c['room']:
                put('C21.count', False, '%s: the count is drawn from %s..%s' % (what, lo, hi - 1), c)
            else:
                put('C21.count', True, what, c)
                for n in combine((lo, hi), MOST):
                    l = done.setdefault((n, ends), [])
                    l[1 if l else 0:] = [c]
    # the first and the last case that leads to a count
    for (n, ends), l in sorted(done.items()):
        for c in l if n <= DEEP else l[:1]:
            for o in orders(n):
                R.count('divisions')
                divided(put, p, dict(c, n=n, order=o), n <= DEEP)
    for (rule, side), l in sorted(good.items()):
        if (rule, side) not in bad and (rule, side) not in unk:
            R.ok(rule, '%s ends: %d cases' % ('different' if side == 'odd' else 'equal', len(l)))
    for tgt, ok in ((unk, None), (bad, False)):
        for (rule, side), l in sorted(tgt.items()):
            R.decide(rule, '%s ends' % ('different' if side == 'odd' else 'equal'), ok, '%s (%d cases)' % (l[0], len(l)), w, STEP)


def orders(n):
    base = list(range(n))
    if n <= 4:
        return list(permutations(base))
    return [tuple(base), tuple(base[::-1]), tuple(base[2:] + base[:2])]


def given(e, v):
    """Per side the sets chosen in the section, or None."""
    if not (isinstance(v, tuple) and v[0] == 'rec'):
        return None
    m = dict(v[2]).get('interside_chosen')
    if m is None or t.has_top(m):
        return None
    out = []
    for k in (0, 1):
        g = e.select(m, symid(IDS[k]))
        if t.has_top(g) or isinstance(g, Ite) or g[0] != 'geo':
            return None
        names = {a for a in mentions(g[2], set()) if a != ('chosen', k)}
        for sub in (names, names - {('open',)}):
            r = F
            for a in sub:
                r = gor(r, Ite(('in', a), T, F))
            if g[2] == gor(chosen(k)[2], r):
                out.append(sub)
                break
        else:
            return None
    return out


def whole(put, e, v, st, c, what):
    if st is not None and st.pend == T:
        put('C21.fails', False, '%s: the step fails' % what, c)
        return
    g = given(e, v)
    if g is None or any(a[0] not in ('iv', 'open') for x in g for a in x):
        put('C21.whole', None, '%s: the choice is not determined' % what, c)
    elif sorted(map(list, g)) == [[], [('open',)]]:
        put('C21.whole', True, what, c)
    else:
        put('C21.whole', False, '%s: the section is neither divided nor given to one side: %s' % (
            what, ' and '.join(t.show(tuple(x), 60) if x else 'nothing' for x in g)), c)


def premises(c, full):
    L = poly.of(t.rsub(ra(E), ra(S)))
    mn, mx = poly.of(ra(MIN)), poly.of(ra(MAX))
    cs = [poly.gt(mn), poly.ge(plus([(1, mx), (-1, mn)])), poly.ge(plus([(1, L), (-c['n'], mn)])), poly.ge(plus([(c['n'], mx), (-1, L)]))]
    if full:
        up, lo = plus([(c['need'], mx), (-1, L)]), plus([(1, L), (1 - c['need'], mx)])
        cs += [poly.ge(up), poly.gt(lo)] + ([poly.ge(poly.neg(up))] if c['xneed'] else [])
        lo, up = plus([(1, L), (-c['room'], mn)]), plus([(c['room'] + 1, mn), (-1, L)])
        cs += [poly.ge(lo), poly.gt(up)] + ([poly.ge(poly.neg(lo))] if c['xroom'] else [poly.gt(lo)])
        if not c['xneed']:
            cs.append(poly.gt(plus([(c['need'], mx), (-1, L)])))
    return cs


def plus(ws):
    d, k = {}, 0
    for w, (co, c) in ws:
        k += w * c
        for a, x in co.items():
            d[a] = d.get(a, 0) + w * x
    return d, k


def less(a, b):
    """Linear form b - a."""
    return poly.of(t.rsub(b, a))


def at(r, p):
    l = poly.of(r)
    return l[1] + sum(x * p.get(a, 0) for a, x in l[0].items())


def divided(put, p, c, deep):
    e, v, st = evaluate(p, c)
    what = '%d fingers' % c['n']
    if e.why or v is None:
        put('C21.cover', None, '%s: %s' % (what, e.why or 'stopped'), c)
        return
    if st.pend == T:
        put('C21.fails', False, '%s: the step fails' % what, c)
        return
    g = given(e, v)
    if g is None or any(a[0] != 'iv' and a != ('open',) for x in g for a in x):
        put('C21.cover', None, '%s: the fingers are not determined' % what, c)
        return
    fingers = [((ra(S), ra(E)) if a == ('open',) else a[1:], k) for k in (0, 1) for a in g[k]]
    if any(poly.of(z) is None for f, k in fingers for z in f):
        put('C21.cover', None, '%s: the ends of the fingers are not linear' % what, c)
        return
    # what every draw satisfies
    try:
        ways, reversed_ = bounds(e, [premises(c, False)]) if deep else (None, None)
    except poly.TooMany:
        ways = None
    if deep and ways is None:
        put('C21.width', None, '%s: draws of this kind are not represented' % what, c)
    # the chain of fingers
    cur, chain, left = ra(S), [], list(fingers)
    while left:
        nxt = [f for f in left if t.rsub(f[0][0], cur).const() == 0]
        if not nxt:
            break
        chain.append(nxt[0])
        left.remove(nxt[0])
        cur = nxt[0][0][1]
    if len(chain) > 1 and any(a[1] == b[1] for a, b in zip(chain, chain[1:])):
        put('C21.sides', False, '%s: two neighbouring fingers go to the same side' % what, c)
    elif not left:
        put('C21.sides', True, what, c)
    if not deep or ways is None:
        if left:
            put('C21.cover', None, '%s: %d fingers do not continue the others in an evident way' % (what, len(left)), c)
        return
    full = bounds(e, [premises(c, True)])[0]

    def wrong(forms):
        """Point of the case at which some of the strict inequalities holds; or whether only the weak premises allow it."""
        weak = False
        for f in forms:
            for cs in ways:
                if poly.point(cs + [poly.gt(f)]) is not None:
                    weak = True
            for cs in full:
                q = poly.point(cs + [poly.gt(f)])
                if q is not None:
                    return q
        return None if not weak else {}

    def decide(rule, forms, text):
        q = wrong(forms)
        if q is None:
            put(rule, True, what, c)
        elif not q:
            put(rule, None, '%s: %s unless further conditions hold' % (what, text), c)
        else:
            put(rule, False, '%s: %s, for instance %s' % (what, text, example(q)), c)
    if reversed_ is not None:
        put('C21.fails', False, '%s: a width is drawn between reversed bounds, for instance %s' % (what, example(reversed_)), c)
    if left:
        gaps = [q for q in (poly.point(cs) for cs in full) if q is not None]
        if gaps and all(all(at(f[0][0], q) != at(cur, q) for f in left) for q in gaps):
            put('C21.cover', False, '%s: no finger starts where the previous one ends' % what, c)
        else:
            put('C21.cover', None, '%s: the order of the fingers is not evident' % what, c)
        return
    end = less(cur, ra(E))
    decide('C21.cover', [end, poly.neg(end)], 'the fingers do not end at the end of the section')
    forms = [less(f[0][1], t.radd(f[0][0], ra(MIN))) for f in chain]
    decide('C21.width', forms, 'a finger is narrower than the minimum width')
    forms = [less(t.radd(f[0][0], ra(MAX)), f[0][1]) for f in chain]
    decide('C21.width', forms, 'a finger is wider than the maximum width')
    for cs in full:
        for leaf, c2 in poly.cells(st.pend, cs):
            if leaf == T and c2 is not None:
                q = poly.point(c2)
                if q is not None:
                    put('C21.fails', False, '%s: an assertion fails, for instance %s' % (what, example(q)), c)
                    return
    put('C21.fails', True, what, c)


def bounds(e, ways):
    """All conjunctions of linear conditions that the draws may satisfy, and a point with reversed bounds."""
    rev = None
    for i, (lo, hi) in enumerate(e.uni):
        u = ra(('draw', i))
        out = []
        for cs in ways:
            for a, c1 in poly.cells(lo, cs):
                for b, c2 in poly.cells(hi, c1) if c1 is not None else ():
                    if c2 is None or poly.of(a) is None or poly.of(b) is None:
                        return None, None
                    q = poly.point(c2 + [poly.gt(less(b, a))])
                    if q is not None:
                        rev = rev or q
                    c3 = c2 + [poly.ge(less(a, u)), poly.ge(less(u, b))]
                    if poly.point(c3) is not None:
                        out.append(c3)
                if c1 is None:
                    return None, None
        ways = out
        if len(ways) > 400:
            raise poly.TooMany()
    return ways, rev


def example(q):
    names = {S: 'start', E: 'end', MIN: 'minimum', MAX: 'maximum'}
    l = [(names.get(t.atom_of(a), t.show(t.atom_of(a), 20)), v) for a, v in sorted(q.items())]
    return ', '.join('%s %s' % (n, v) for n, v in l)[:120]
