"""C09: heuristic steps never retract a choice nor re-allow what was ruled out (inductive evaluation of every step)."""
import ast
from .bcommon import program, fn, attempt, finish_engine, loc
from ..b import terms as t
from ..b.terms import T, F, NONE, Ite, Rat, rc, gand, gor, gnot, gif, apply, Giveup
from ..b.gvg import St, Env, seq
from ..b.model import Model, BUILD, PLEX, SB, SP, opp, side, symid, sheet_of, fingers, model_facts, idterm

H = 'plycutter.heuristics:'
C = SB + 'SheetBuild.'
FIELDS = ('sheet_chosen', 'sheet_ok', 'interside_chosen', 'interside_ok')
SMOOTH = H + 'clean_up_thin_ok_parts'
NEED = ('choose_interside', 'unchoose_interside')


def unknown(v):
    """Does a term stem from something that was not represented?"""
    if isinstance(v, Ite):
        return unknown(v.atom) or unknown(v.a) or unknown(v.b)
    if isinstance(v, (Rat, t.Poly)):
        return any(unknown(t.atom_of(a)) for a in v.atoms())
    if isinstance(v, tuple):
        return v[:1] == ('unk',) or any(unknown(x) for x in v if isinstance(x, (tuple, Ite, Rat, t.Poly)))
    return False


def as_side(f):
    def h(e, args, kw, st):
        a = list(args)
        if a and isinstance(a[0], tuple) and a[0][0] in ('sym', 'app'):
            a[0] = side(a[0][1] if a[0][0] == 'sym' else a[0])
        d = 1 if f is Model.p_fingers else 2
        if len(a) > 1 and f is not Model.p_opposite:
            return e.known(apply(lambda g: f(e, [a[0], e.geo_of(g, d)] + a[2:], kw, st), a[1]))
        kw = {k: e.geo_of(v, d) if k in ('where', 'geom2d') else v for k, v in kw.items()}
        return e.known(f(e, a, kw, st))
    return h


def geometry(d, none):
    return lambda e, args, kw, st: ('geo', d, F if none else Ite(('in', e.unk()[1]), T, F))


class Steps(Model):
    """Everything that is not represented is some unknown value; loops carrying a state are
    evaluated for one arbitrary iteration from an arbitrary state."""

    def __init__(self, p):
        Model.__init__(self, p)
        self.nunk = self.nstate = 0
        self.segments = []       # (start or None, value, where)
        self.types['params'] = {}
        self.prims[SB + 'SheetBuild.check'] = lambda e, a, k, st: NONE
        self.prims[SB + 'SheetBuild._check'] = lambda e, a, k, st: a[0]

        for m, f in (('opposite', Model.p_opposite), ('make_fingers', Model.p_fingers), ('project_to_1d', Model.p_project)):
            self.prims['.' + m] = self.prims[SP + 'InterSide.' + m] = as_side(f)
        for cid in p.class_by_cid:
            d = {'Geom1D': 1, 'Geom2D': 2}.get(cid.split(':')[1].split('.')[-1])
            if d:
                self.prims[cid + '.empty'] = geometry(d, True)
                for m in ('', '.polygon', '.rectangle', '.union'):
                    self.prims[cid + m] = geometry(d, False)
        self.data = set()
        for c in p.class_by_cid.values():
            for x in c.node.body:
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.targets[0], ast.Name):
                    self.data.add(x.targets[0].id)

    def getattr1(self, x, name, st):
        if isinstance(x, tuple) and x[0] == 'app':
            x = ('sym', x, 'any')
        if isinstance(x, tuple) and x[0] == 'sym' and x[2] in ('any', ('obj', SP + 'Intersection')):
            if name == 'sides':
                j = ('jside', x[1])
                return ('tup', (side(j), side(opp(j))))
            if name == 'id' and x[2] == 'any':
                return x
            if name == 'sheet':
                return sheet_of(x[1])
            if name == 'intersection':
                return ('sym', ('inter', x[1][1] if x[1][0] == 'opp' else x[1]), 'any')
            if name in self.data:
                return ('sym', ('attr', x[1], name), 'any')
        return Model.getattr1(self, x, name, st)

    # ---------------------------------------------------------- unknown values
    def unk(self):
        self.nunk += 1
        return ('sym', ('unk', self.nunk), 'any')

    def known(self, v):
        def f(x):
            if isinstance(x, tuple) and x[0] == 'top':
                return self.unk()
            if isinstance(x, tuple) and x[0] == 'app':
                return ('sym', x, 'any')
            return x
        return apply(f, v)

    def ev(self, n, st):
        try:
            v = Model.ev(self, n, st)
        except Giveup:
            if self.carries(n, st):
                raise
            return self.unk()
        return self.known(v) if v is not None else v

    def carries(self, n, st):
        """Is a state handed around in this expression?"""
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                v = self.lookup(x.id, st)
                if v is not None and self.isbuild(v):
                    return True
        return False

    def isbuild(self, v):
        return any(isinstance(x, tuple) and x[0] == 'rec' and x[1] == BUILD for x in t.leaves(v))

    def truth1(self, x, st):
        r = Model.truth1(self, x, st)
        if t.has_top(r):
            return Ite(('b', self.unk()), T, F)
        return r

    def cmp(self, op, a, b, st):
        r = Model.cmp(self, op, a, b, st)
        return Ite(('b', self.unk()), T, F) if t.has_top(r) else r

    def geo_of(self, v, d):
        """A set of dimension d from a value."""
        if isinstance(v, tuple) and v[0] == 'geo':
            return v
        if isinstance(v, tuple) and v[0] in ('sym', 'app') and not t.has_top(v):
            return ('geo', d, Ite(('in', v[1] if v[0] == 'sym' else v), T, F))
        return ('geo', d, Ite(('in', self.unk()[1]), T, F))

    def bin(self, op, x, y):
        gx, gy = isinstance(x, tuple) and x[0] == 'geo', isinstance(y, tuple) and y[0] == 'geo'
        if op in ('BitOr', 'BitAnd', 'BitXor', 'Sub') and gx != gy:
            x, y = (x, self.geo_of(y, x[1])) if gx else (self.geo_of(x, y[1]), y)
        return Model.bin(self, op, x, y)

    def binop(self, op, a, b, st):
        r = Model.binop(self, op, a, b, st)
        return self.known(r)

    def p_geo(self, d, make, arg):
        return apply(lambda g: make(self.geo_of(g, d)), arg)

    def settle(self, st):
        st = st.copy()
        st.pend = F
        return ('norm', st)

    def s_Assert(self, s, st):
        return ('norm', st)

    def s_Try(self, s, st):
        try:
            return Model.s_Try(self, s, st)
        except Giveup:
            return self.havoc_loop(s, st)

    # ---------------------------------------------------------- loops
    def state(self):
        self.nstate += 1
        return self.build(('state', self.nstate))

    def segment(self, v, what):
        self.segments.append((v, what, self.where))

    def acc_like(self, name, v0):
        ls = list(t.leaves(v0))
        if ls and all(isinstance(x, tuple) and x[0] == 'rec' and x[1] == BUILD for x in ls):
            return self.state()
        return Model.acc_like(self, name, v0)

    def fold(self, key, acc, v0, new, accs, g, binders, early, st):
        if self.isbuild(acc):
            if new is None or new == acc:
                return v0
            self.segment(v0, 'before a loop')
            self.segment(new, 'in a loop')
            return self.state()
        try:
            r = Model.fold(self, key, acc, v0, new, accs, g, binders, early, st)
        except Giveup:
            r = t.top('loop')
        if r == t.top('loop') or t.is_top(r):
            ls = list(t.leaves(v0))
            d = {x[1] for x in ls if isinstance(x, tuple) and x[0] == 'geo'}
            if len(d) == 1 and len(ls) == len([x for x in ls if x[0] == 'geo']):
                return ('geo', d.pop(), Ite(('in', self.unk()[1]), T, F))
        return r

    def loop(self, s, ps, st):
        if ps is None:
            name = self.unk()[1]
            ps = [('p', T, ((name, ('el', name, 0)),), ('sym', ('el', name, 0), 'any'))]
        return Model.loop(self, s, ps, st)

    def s_While(self, s, st):
        return self.havoc_loop(s, st)

    def havoc_loop(self, s, st):
        """Any number of rounds: the assigned variables are unknown, states arbitrary; one round is examined."""
        st = st.copy()
        states = []
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                v = self.lookup(x.id, st)
                if v is not None and self.isbuild(v) and x.id not in states:
                    states.append(x.id)
                    self.segment(v, 'before a loop')
        def forget(z):
            try:
                self.havoc_names(s, z)
            except Giveup:
                pass
            for n in states:
                self.setvar(z, n, self.state())
        base = st.copy()
        forget(base)
        if getattr(s, 'body', None) and not getattr(s, '$in', False):
            z = base.copy()
            if isinstance(s, ast.For):
                self.assign(s.target, self.unk(), z)
            out = self.block(s.body, z)
            for o in self.outs(out):
                for n in states:
                    v = self.lookup(n, o[1])
                    if v is not None:
                        self.segment(v, 'in a loop')
                if o[0] == 'ret':
                    self.segment(o[2], 'returned')
        after = base.copy()
        forget(after)
        return ('norm', after)

    def outs(self, out):
        if isinstance(out, Ite):
            return self.outs(out.a) + self.outs(out.b)
        return [out]


# -------------------------------------------------------------- what a segment does
def base_of(v):
    """(field of the state, state) a map was derived from; None if from neither."""
    b = v[1]
    if b[0] == 'base' and isinstance(b[1], tuple) and b[1][0] == 'attr':
        return b[1][2], b[1][1]
    return None


def axioms(f):
    """Instances of known inclusions for the sets mentioned: chosen within allowed, shrinking buffers."""
    out, todo, seen = [], [f], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, Ite) or id(x) in seen:
            continue
        seen.add(id(x))
        todo += [x.a, x.b]
        a = x.atom
        if a[0] != 'in':
            continue
        m = a[1]
        me = Ite(a, T, F)
        if isinstance(m, tuple) and m[0] == 'sel' and isinstance(m[1], tuple) and m[1][0] == 'attr' and m[1][2] in ('sheet_chosen', 'interside_chosen'):
            big = Ite(('in', ('sel', ('attr', m[1][1], m[1][2].replace('chosen', 'ok')), m[2])), T, F)
            out.append(gor(gnot(me), big))
        if isinstance(m, tuple) and m[0] == 'buf':
            inner, amounts = m, []
            while True:
                r = inner[3].const() if isinstance(inner[3], Rat) else None
                amounts.insert(0, r)
                g = inner[2]
                if isinstance(g, Ite) and g.a == T and g.b == F and g.atom[0] == 'in' and isinstance(g.atom[1], tuple) and g.atom[1][0] == 'buf':
                    inner = g.atom[1]
                    continue
                break
            if None not in amounts:
                s, up, down = 0, False, False
                for r in amounts:
                    s += r
                    up, down = up or s > 0, down or s < 0
                if not up:
                    out.append(gor(gnot(me), g))      # opening or erosion
                    todo.append(g)
                if not down:
                    out.append(gor(gnot(g), me))      # closing or dilation
                    todo.append(g)
    return out


def empty(f):
    """Is the set f empty?  True, False, or None if that depends on something unknown."""
    seen = set()
    for _ in range(4):
        if f == F:
            return True
        if t.has_top(f):
            return None
        new = [a for a in axioms(f) if a not in seen]
        if not new:
            break
        seen |= set(new)
        for a in new:
            f = gand(f, a)
    if f == F:
        return True
    return None if doubtful(f) else False


def doubtful(f):
    """Could the unknown parts make f empty?"""
    def atoms(x, acc):
        if isinstance(x, Ite) and x not in acc:
            acc.add(x)
            atoms(x.a, acc)
            atoms(x.b, acc)
        return acc
    names = {x.atom for x in atoms(f, set())}
    for a in names:
        if a[0] == 'in' and foreign(a[1]):
            f = gand(t.cof(f, a, True), t.cof(f, a, False))
    return f == F


def foreign(m):
    """Sets about which nothing is known (other than the arguments of a step)."""
    return unknown(m) or isinstance(m, tuple) and m[:1] in (('app',), ('acc',)) or \
        isinstance(m, tuple) and m[:1] == ('buf',) and (not isinstance(m[3], Rat) or m[3].const() is None)


class Bad(Exception):
    pass


def grows(e, m, field, decide):
    """Walk the updates that lead from the map of a state to m."""
    if isinstance(m, Ite):
        grows(e, m.a, field, decide)
        grows(e, m.b, field, decide)
        return
    if not isinstance(m, tuple) or m[0] != 'map':
        decide(None, 'not determined: ' + t.show(m, 60))
        return
    b = base_of(m)
    if b is None and m[1][0] == 'empty' and m[2] and all(s[0] == 'bulk' for s in m[2]):
        pass
    elif b is None:
        decide(None if m[1][0] != 'empty' else False, 'does not stem from the state before')
        return
    elif b[0] != field:
        if b[0].split('_')[0] != field.split('_')[0]:
            decide(False, '%s is taken from %s' % (field, b[0]))
            return
        # chosen for allowed or allowed for chosen, all keys: shrinks what is allowed, extends what is chosen
    for i, s in enumerate(m[2]):
        rest = ('map', m[1], m[2][:i])
        if s[0] == 'bulk':
            _, bb, g, kk, v, am = s
            olds = [e.select(rest, kk)]
            if am is not None:
                olds.append(e.geo_of(('sym', ('sel', am, kk), 'any'), 2))
            if b is None:
                src = bb[0][0] if bb else None
                st = source(src)
                if st is None or st[0] not in (field,) or len(bb) != 1 or g != T:
                    decide(None, 'rebuilt from ' + t.show(src, 60))
                    continue
                olds = [e.select(('map', ('base', ('attr', st[1], st[0]), ('map', 'any', 'geo2' if field[0] == 's' else 'geo1')), ()), kk)]
        else:
            kk, v, g = s
            olds = [e.select(rest, kk)]
        r = [compare(field, v, o, g) for o in olds]
        if True in r:
            decide(True, '')
        elif False in r and None not in r:
            decide(False, 'at %s it becomes %s' % (t.show(kk, 50), t.show(apply(lambda z: z[2] if isinstance(z, tuple) and z[0] == 'geo' else z, v), 160)))
        else:
            decide(None, 'not determined at %s: %s' % (t.show(kk, 50), t.show(v, 100)))


def source(src):
    """The state map whose keys or entries a loop goes over."""
    x = src
    while isinstance(x, tuple):
        if x[:1] == ('attr',) and len(x) == 3 and x[2] in FIELDS:
            return x[2], x[1]
        if x[:1] in (('keys',), ('items',), ('base',), ('rev',)) and len(x) > 1:
            x = x[1]
            continue
        return None
    return None


def sets(v):
    return apply(lambda z: z[2] if isinstance(z, tuple) and z[0] == 'geo' else t.top('not a geometry'), v)


def compare(field, new, old, g):
    a, b = sets(new), sets(old)
    gg = g if isinstance(g, (Ite, tuple)) else T
    if field.endswith('chosen'):
        a, b = b, a
    return empty(gand(gg, gand(a, gnot(b))))


def conflict(e, leaf, decide):
    """What a segment chooses for a side must not remain allowed for the opposite one."""
    f = dict(leaf[2])

    def stores(m):
        if isinstance(m, Ite):
            return stores(m.a) + stores(m.b)
        return list(m[2]) if isinstance(m, tuple) and m[0] == 'map' else []
    for s in stores(f['interside_chosen']):
        if s[0] == 'bulk':
            _, bb, g, kk, v, am = s
        else:
            kk, v, g = s
        i = idterm(kk)
        if i is None:
            decide(None, 'side not determined')
            continue
        m = f['interside_chosen']
        if isinstance(m, Ite):
            decide(None, 'chosen sides depend on ' + t.show(m, 60))
            continue
        b = base_of(m)
        if b is None:
            continue
        old = e.select(('map', m[1], ()), kk)
        ok = e.select(f['interside_ok'], symid(opp(i)))
        x = gand(sets(v), gand(gnot(sets(old)), sets(ok)))
        decide(empty(gand(g, x)), 'what is chosen for %s stays allowed for the opposite side: %s' % (t.show(kk, 50), t.show(sets(ok), 100)))


# -------------------------------------------------------------- driver
def run(R):
    R.explain = ('Every heuristic step and every state transition is evaluated on an arbitrary state; loops that carry a state are '
                 'evaluated for one arbitrary iteration from an arbitrary state (induction), everything not represented being an '
                 'unknown value. Each update of the four maps met on the way must keep or extend what is chosen and keep or '
                 'shrink what is allowed, as Boolean functions of arbitrary sets, using only that what is chosen was allowed and that '
                 'shrinking and regrowing by at most the same amount stays within a set.')
    R.rule('C09.allowed', 'no update of the allowed areas and ranges adds to them')
    R.rule('C09.chosen', 'no update of the chosen areas and ranges takes from them')
    R.rule('C09.opposite', 'what an update chooses for a side of a joint is not allowed for the opposite side afterwards')
    R.rule('C09.smooth', 'smoothing the allowed area keeps what is chosen')
    R.rule('C09.start', 'at the beginning nothing is chosen for any side')
    p = program(R)
    for n in NEED:
        fn(R, C + n)
    last = None
    todo = []
    for fid, fi in sorted(p.func_by_fid.items()):
        if fid.startswith(H) and '.' not in fid[len(H):] and '<' not in fid and not fid[len(H):].startswith('_'):
            names = [a.arg for a in fi.node.args.args]
            if names and names[0] == 'sb':
                todo.append((fid, names, 'step'))
        elif fid.startswith(C) and '.' not in fid[len(C):] and '<' not in fid and not fid[len(C):].startswith('_'):
            names = [a.arg for a in fi.node.args.args]
            if names and names[0] == 'self':
                todo.append((fid, names, 'transition'))
    R.require(any(k == 'step' for _, _, k in todo), 'no heuristic steps found')
    for fid, names, kind in todo:
        def one():
            nonlocal last
            e = Steps(p)
            st = St({('root',): Env()}, ('root',), {})
            args = [e.build()] + [argument(e, n) for n in names[1:]]
            e.segments = []
            v, st = e.run(fid, args, {}, st)
            last = e
            step(R, e, fid, v, st)
        attempt(R, 'C09.allowed', fid.split(':')[1], one, fid)
    attempt(R, 'C09.start', 'first state', lambda: start(R, p), SB + 'create_sheetbuild')
    if last is not None:
        finish_engine(R, last)


def argument(e, n):
    if n in ('v', 'ranges'):
        return ('geo', 1, Ite(('in', ('given', n)), T, F))
    if n == 'area':
        return ('geo', 2, Ite(('in', ('given', n)), T, F))
    return ('sym', ('given', n), 'any')


def step(R, e, fid, v, st):
    w = loc(R, fid)
    name = fid.split(':')[1]
    if st.pend == T or v is None:
        return
    if not e.isbuild(v):
        if not e.segments:
            return          # does not give a state
        R.undecided('C09.allowed', name, 'the resulting state is not determined', w, fid)
    R.count('steps examined')
    n = {}
    for val, what, _ in e.segments + [(v, 'at the end', None)]:
        for leaf in t.leaves(val):
            R.count('updates of the state examined')
            if not (isinstance(leaf, tuple) and leaf[0] == 'rec' and leaf[1] == BUILD):
                note(R, n, 'C09.allowed', name, what, None, 'a state is not determined', w, fid)
                continue
            f = dict(leaf[2])
            for fld in FIELDS:
                rule = 'C09.chosen' if fld.endswith('chosen') else 'C09.allowed'
                note(R, n, rule, name, what + ': ' + fld, True, '', w, fid)
                if fld not in f:
                    note(R, n, rule, name, what + ': ' + fld, False, 'no %s in the new state' % fld, w, fid)
                    continue
                grows(e, f[fld], fld, lambda ok, d: note(R, n, rule, name, what + ': ' + fld, ok, d, w, fid))
            if all(k in f for k in FIELDS):
                note(R, n, 'C09.opposite', name, what, True, '', w, fid)
                conflict(e, leaf, lambda ok, d: note(R, n, 'C09.opposite', name, what, ok, d, w, fid))
                a, b = (base_of(f[k]) if isinstance(f[k], tuple) and f[k][0] == 'map' else None for k in ('interside_chosen', 'interside_ok'))
                if a and b and a[1] != b[1] and age(b[1]) < age(a[1]):
                    note(R, n, 'C09.opposite', name, what, False, 'choices of a later state are combined with what was allowed in an earlier one', w, fid)
            if fid == SMOOTH and 'sheet_ok' in f:
                smooth(R, e, n, name, what, f['sheet_ok'], w, fid)
    worst = {True: 0, None: 1, False: 2}
    for (rule, key), (ok, d) in sorted(n.items()):
        R.decide(rule, key, ok, d, w, fid)


def age(s):
    return s[0][1] if isinstance(s[0], tuple) else 0


def note(R, n, rule, name, what, ok, d, w, fid):
    """The worst verdict of an update."""
    k = (rule, '%s, %s' % (name, what))
    order = {True: 0, None: 1, False: 2}
    if k not in n or order[ok] > order[n[k][0]]:
        n[k] = (ok, d)


def smooth(R, e, n, name, what, m, w, fid):
    if isinstance(m, Ite) or m[0] != 'map':
        note(R, n, 'C09.smooth', name, what, None, 'not determined', w, fid)
        return
    for i, s in enumerate(m[2]):
        kk, v, g = (s[3], s[4], s[2]) if s[0] == 'bulk' else s
        old = e.select(('map', m[1], m[2][:i]), kk)
        b = base_of(m)
        if b is None:
            continue
        ch = Ite(('in', ('sel', ('attr', b[1], 'sheet_chosen'), kk)), T, F)
        note(R, n, 'C09.smooth', name, what, empty(gand(g, gand(ch, gand(sets(old), gnot(sets(v)))))), 'chosen parts are removed: %s' % t.show(sets(v), 120), w, fid)
    note(R, n, 'C09.smooth', name, what, True, '', w, fid)


def start(R, p):
    fid = SB + 'create_sheetbuild'
    if fid not in p.func_by_fid:
        R.undecided('C09.start', 'first state', 'not found')
        return
    e = Steps(p)
    st = St({('root',): Env()}, ('root',), {})
    v, st = e.run(fid, [('sym', ('plex',), ('obj', PLEX)), ('sym', ('params',), 'any')], {}, st)
    w = loc(R, fid)
    for leaf in t.leaves(v):
        m = dict(leaf[2]).get('interside_chosen') if isinstance(leaf, tuple) and leaf[0] == 'rec' else None
        if not isinstance(m, tuple) or m[0] != 'map' or m[1][0] != 'empty':
            R.undecided('C09.start', 'first state', 'not determined: ' + t.show(m or v, 80), w, fid)
            return
        r = True
        for s in m[2]:
            x = sets(s[4] if s[0] == 'bulk' else s[1])
            k = empty(x)
            r = False if k is False or r is False else None if k is None else r
        R.decide('C09.start', 'first state', r, 'something is chosen from the start', w, fid)
