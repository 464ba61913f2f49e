"""Engine B: gated value graph of a function (global value numbering with gates).

Branches become gates on canonical predicate atoms, loops over unknown
collections become comprehension pieces, unions, sums and existentials over a
generic element.  Whatever does not fit becomes ('top', why)."""
import ast
from . import terms as t
from .terms import T, F, NONE, Ite, Rat, Giveup, top, ite, apply, gif, gnot, gand, gor, rc, ra


class St:
    __slots__ = ('heap', 'frame', 'path', 'pend', 'rets')

    def __init__(self, heap, frame, path, pend=F):
        self.heap, self.frame, self.path, self.pend = heap, frame, path, pend

    def copy(self):
        return St(dict(self.heap), self.frame, dict(self.path), self.pend)

    def env(self):
        return self.heap[self.frame]


class Env(dict):
    """Variables of one activation (parent: enclosing activation)."""
    def __init__(self, d=(), parent=None, fi=None):
        dict.__init__(self, d)
        self.parent, self.fi = parent, fi

    def cp(self):
        return Env(self, self.parent, self.fi)


class Inst(dict):
    def __init__(self, d=(), cid=None):
        dict.__init__(self, d)
        self.cid = cid

    def cp(self):
        return Inst(self, self.cid)


def seq(pieces):
    return ('seq', tuple(pieces))


def piece(v, guard=T, binders=()):
    return ('p', guard, binders, v)


class Core:
    MAXDEPTH = 14

    def __init__(self, prog, types=None, prims=None, facts=None, search=None):
        self.p = prog
        self.types = types or {}
        self.prims = prims or {}
        self.facts = facts
        self.search = search
        self.stack = []
        self.n = 0
        self.modcache = {}
        self.binders = []
        self.visited = set()
        self.log = []
        self.where = None
        self.fm = {}
        self.steps = []
        self.eventrefs = set()
        for fi in prog.func_by_fid.values():
            self.fm[id(fi.node)] = fi

    # ------------------------------------------------------------ knowledge
    def know(self, st):
        path, facts = st.path, self.facts

        def k(atom):
            r = path.get(atom)
            if r is None and facts is not None:
                r = facts(atom)
            return r
        return k

    def simp(self, v, st):
        return t.restrict(v, self.know(st)) if isinstance(v, Ite) else v

    def fresh(self, kind='o'):
        self.n += 1
        return (kind, self.n)

    # ------------------------------------------------------------ states
    def merge2(self, atom, a, b):
        """State that is a where the atom holds and b elsewhere."""
        if a is None:
            return b
        if b is None:
            return a
        h = {}
        for k in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y or y is None:
                h[k] = x
            elif x is None:
                h[k] = y
            elif isinstance(x, (Env, Inst)):
                z = x.cp()
                for v in x.keys() | y.keys():
                    p, q = x.get(v), y.get(v)
                    if p is q or p == q:
                        z[v] = p
                    elif p is None or q is None:
                        z[v] = top('unbound') if not isinstance(x, Env) else p or q
                    else:
                        z[v] = t.ite2(atom, p, q)
                h[k] = z
            else:
                h[k] = x if x == y else t.ite2(atom, x, y)
        path = {k: v for k, v in a.path.items() if b.path.get(k) == v}
        return St(h, a.frame, path, t.ite2(atom, a.pend, b.pend) if a.pend != b.pend else a.pend)

    def merge_out(self, out, kinds=('norm',)):
        if isinstance(out, Ite):
            return self.merge2(out.atom, self.merge_out(out.a, kinds), self.merge_out(out.b, kinds))
        return out[1] if out[0] in kinds else None

    def graft(self, out, new, path=()):
        """Replace the norm leaves of out by new."""
        if isinstance(out, Ite):
            a = self.graft(out.a, new, path + ((out.atom, True),))
            b = self.graft(out.b, new, path + ((out.atom, False),))
            return t.ite2(out.atom, a, b)
        if out[0] != 'norm':
            return out
        r = new
        for a, v in path:
            r = t.cof(r, a, v)
        return r

    def then(self, out, f):
        st = self.merge_out(out)
        if st is None:
            return out
        if isinstance(out, tuple):
            return f(st)
        return self.graft(out, f(st))

    def settle(self, st):
        """Turn a pending exception of the statement just executed into an exit."""
        if st.pend == F:
            return ('norm', st)
        pend = self.simp(st.pend, st)
        if t.has_top(pend):
            # may fail: kept until the end of the function
            return ('norm', st)
        st = st.copy()
        st.pend = F
        if pend == T:
            return ('raise', st)
        if pend == F:
            return ('norm', st)
        return self.split(pend, st, lambda s: ('raise', s), lambda s: ('norm', s))

    def split(self, c, st, fa, fb):
        """Gate two continuations on a gated condition."""
        c = self.simp(c, st)
        if c == T:
            return fa(st)
        if c == F:
            return fb(st)
        if not isinstance(c, Ite):
            raise Giveup('condition: ' + t.show(c))
        # run each side once, under the atoms its condition implies
        sa, sb = st.copy(), st.copy()
        for s, want in ((sa, T), (sb, F)):
            for a, v in self.implied(c, want):
                s.path[a] = v
        oa = fa(sa)
        ob = fb(sb)
        return self.gate_out(c, oa, ob)

    def implied(self, c, want):
        ps = [dict(p) for p, l in t.paths(c) if l == want]
        if not ps:
            return []
        common = set(ps[0].items())
        for p in ps[1:]:
            common &= set(p.items())
        return sorted(common, key=str)

    def gate_out(self, c, a, b):
        if c == T:
            return a
        if c == F:
            return b
        if not isinstance(c, Ite):
            c = Ite(('b', c), T, F)
        return t.ite2(c.atom, self.gate_out(c.a, t.cof(a, c.atom, True), t.cof(b, c.atom, True)),
                      self.gate_out(c.b, t.cof(a, c.atom, False), t.cof(b, c.atom, False)))

    # ------------------------------------------------------------ blocks
    def block(self, stmts, st):
        for i, s in enumerate(stmts):
            out = self.stmt(s, st)
            if isinstance(out, tuple) and out[0] == 'norm':
                st = out[1]
                continue
            rest = stmts[i + 1:]
            return self.then(out, lambda z: self.block(rest, z))
        return ('norm', st)

    def stmt(self, s, st):
        self.where = s
        if getattr(self, 'cur_fi', None) is not None:
            self.visited.add((self.cur_fi.module.rel, s.lineno))
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Giveup('statement ' + type(s).__name__)
        return m(s, st)

    def s_Pass(self, s, st):
        return ('norm', st)

    s_Global = s_Nonlocal = s_Import = s_ImportFrom = s_Pass

    def s_Import(self, s, st):
        for a in s.names:
            self.setvar(st, (a.asname or a.name).split('.')[0], ('ext', a.name if a.asname else a.name.split('.')[0]))
        return ('norm', st)

    def s_ImportFrom(self, s, st):
        for a in s.names:
            self.setvar(st, a.asname or a.name, self.imported(self.cur_fi.module, s, a.name))
        return ('norm', st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return ('norm', st)
        self.ev(s.value, st)
        return self.settle(st)

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for tg in s.targets:
            self.assign(tg, v, st)
        return self.settle(st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return self.settle(st)

    def s_AugAssign(self, s, st):
        ld = ast.copy_location(type(s.target)(**{k: getattr(s.target, k) for k in s.target._fields}), s.target)
        ld.ctx = ast.Load()
        a = self.ev(ld, st)
        b = self.ev(s.value, st)
        op = type(s.op).__name__
        if isinstance(a, tuple) and a[0] == 'ref' and self.kind(a, st) in ('lst', 'set'):
            self.extend_ref(a, b, st, op)
        elif isinstance(a, tuple) and a[0] == 'arr':
            self.arrput(a, self.binop(op, a, b, st), st)
        else:
            self.assign(s.target, self.binop(op, a, b, st), st)
        return self.settle(st)

    def s_Delete(self, s, st):
        for x in s.targets:
            if isinstance(x, ast.Name):
                self.setvar(st, x.id, top('deleted'))
            else:
                self.havoc(self.ev(x.value, st), st)
        return ('norm', st)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        return self.then(self.settle(st), lambda z: ('ret', z, v))

    def s_Raise(self, s, st):
        return ('raise', st)

    def s_Assert(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        out = self.settle(st)

        def go(z):
            cc = self.simp(c, z)
            if t.has_top(cc) and not isinstance(cc, Ite) and cc not in (T, F):
                return ('norm', z)
            return self.split(cc, z, lambda y: ('norm', y), lambda y: ('raise', y))
        return self.then(out, go)

    def s_If(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        out = self.settle(st)
        return self.then(out, lambda z: self.split(c, z, lambda y: self.block(s.body, y),
                                                   lambda y: self.block(s.orelse, y)))

    def s_Break(self, s, st):
        return ('brk', st)

    def s_Continue(self, s, st):
        return ('cont', st)

    def s_FunctionDef(self, s, st):
        self.setvar(st, s.name, self.closure(s, st))
        return ('norm', st)

    def s_ClassDef(self, s, st):
        self.setvar(st, s.name, ('cls', self.p.classes[id(s)].cid))
        return ('norm', st)

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st)
        return self.then(self.settle(st), lambda z: self.block(s.body, z))

    def s_Try(self, s, st):
        out = self.block(s.body + s.orelse, st)

        def go(o):
            if isinstance(o, Ite):
                return t.ite2(o.atom, go(o.a), go(o.b))
            if o[0] == 'raise' and s.handlers:
                h = s.handlers[0]
                z = o[1].copy()
                if h.name:
                    self.setvar(z, h.name, ('app', 'exception'))
                return self.block(h.body, z)
            return o
        out = go(out)
        if s.finalbody:
            def fin(o):
                if isinstance(o, Ite):
                    return t.ite2(o.atom, fin(o.a), fin(o.b))
                return self.then(self.block(s.finalbody, o[1].copy()), lambda z: (o[0], z) + o[2:])
            out = fin(out)
        return out

    # ------------------------------------------------------------ loops
    def s_While(self, s, st):
        """Unrolled while the condition is known; otherwise everything assigned is unknown."""
        st = st.copy()
        for _ in range(40):
            c = self.simp(self.truth(self.ev(s.test, st), st), st)
            if c == F:
                return ('norm', st)
            if c != T:
                break
            out = self.relabel(self.block(s.body, st), 'cont', 'norm')
            if not (isinstance(out, tuple) and out[0] == 'norm'):
                break
            st = out[1]
        return self.havoc_loop(s, st)

    def havoc_loop(self, s, st):
        st = st.copy()
        self.havoc_names(s, st)
        if any(isinstance(x, (ast.Assert, ast.Raise, ast.Call)) for x in ast.walk(s)):
            st.pend = gor(st.pend, top('loop'))
        return ('norm', st)

    def havoc_names(self, s, st):
        names, objs = set(), []
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.id)
            elif isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load):
                objs.append(x.value)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                objs.append(x.func.value)
        for n in names:
            self.setvar(st, n, top('loop'))
        for o in objs:
            if isinstance(o, ast.Name):
                v = self.lookup(o.id, st)
                if v is not None:
                    self.havoc(v, st)
        if any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)) for x in ast.walk(s)):
            if '$yield' in st.env():
                self.havoc(st.env()['$yield'], st)
            else:
                raise Giveup('return in an unbounded loop')

    def relabel(self, out, a, b):
        if isinstance(out, Ite):
            return t.ite2(out.atom, self.relabel(out.a, a, b), self.relabel(out.b, a, b))
        return (b,) + out[1:] if out[0] == a else out

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        out = self.settle(st)
        return self.then(out, lambda z: self.loop(s, self.pieces(it, z), z))

    def loop(self, s, ps, st):
        if ps is None:
            out = self.havoc_loop(s, st)
        else:
            out = self.run_pieces(s, ps, 0, st)
        out = self.then(out, lambda z: self.block(s.orelse, z)) if s.orelse else out
        return self.relabel(out, 'brk', 'norm')

    def run_pieces(self, s, ps, i, st):
        if i == len(ps):
            return ('norm', st)
        _, g, binders, v = ps[i]
        if i > getattr(self, 'unroll', 60):
            return self.havoc_loop(s, st)
        if binders:
            try:
                out = self.generic(s, ps[i], st)
            except Giveup:
                out = self.havoc_loop(s, st)
        else:
            def body(z):
                self.assign(s.target, v, z)
                return self.relabel(self.block(s.body, z), 'cont', 'norm')
            out = self.split(g, st.copy(), body, lambda z: ('norm', z))
        return self.then(out, lambda z: self.run_pieces(s, ps, i + 1, z))

    # a loop over an unknown collection -----------------------------------
    def generic(self, s, pc, st, emit=None):
        """Summarise the loop body for a generic element."""
        _, g, binders, v = pc
        self.binders.extend(binders)
        try:
            base = st.copy()
            out, before = self.once(s, v, base, {}, g)
            changed = self.diff(before, out)
            if changed:
                accs = {}
                base = st.copy()
                for key in changed:
                    self.put(base, key, self.acc(key, self.get(st, key), st))
                    accs[key] = self.get(base, key)
                out, before = self.once(s, v, base, accs, g)
                more = self.diff(before, out)
                still = [k for k in changed if k in more]
                if set(still) != set(changed) or set(more) - set(changed):
                    # substitute what turned out not to be carried
                    changed = sorted(set(more) | set(still), key=str)
                    base = st.copy()
                    accs = {}
                    for key in changed:
                        self.put(base, key, self.acc(key, self.get(st, key), st))
                        accs[key] = self.get(base, key)
                    out, before = self.once(s, v, base, accs, g)
            else:
                accs = {}
        finally:
            del self.binders[len(self.binders) - len(binders):]
        res = st.copy()
        # exceptional exits
        rz = self.cond_of(out, ('raise',))
        ret = self.cond_of(out, ('ret',))
        brk = self.cond_of(out, ('brk',))
        end = self.merge_out(out, ('norm', 'brk') if brk != F else ('norm',))
        for key in changed:
            new = self.get(end, key) if end is not None else None
            self.put(res, key, self.fold(key, accs[key], self.get(st, key), new, accs, g, binders, brk != F, st))
        result = ('norm', res)
        if brk != F:
            result = ('norm', res)
        if rz != F:
            e = self.exists(binders, gand(g, rz))
            result = self.split(e, res, lambda z: ('raise', z), lambda z: ('norm', z))
        if ret != F:
            result = self.search_exit(out, g, binders, result)
        return result

    def search_exit(self, out, g, binders, result):
        vals = {}

        def walk(o, cond):
            if isinstance(o, Ite):
                walk(o.a, gand(cond, Ite(o.atom, T, F)))
                walk(o.b, gand(cond, Ite(o.atom, F, T)))
            elif o[0] == 'ret':
                vals[o[2]] = gor(vals.get(o[2], F), cond)
        walk(out, g)
        if len(vals) > 1 and self.search != 'exists':
            raise Giveup('search with several results')
        for val, c in sorted(vals.items(), key=str):
            if any(self.mentions(val, b[1]) for b in binders):
                val = ('app', 'found', binders, c, val)
            e = self.exists(binders, c)
            st = self.merge_out(result)
            if st is None:
                break
            r = self.split(e, st, lambda z: ('ret', z, val), lambda z: ('norm', z))
            result = self.graft(result, r)
        return result

    def exists(self, binders, c):
        """Gated boolean: some element satisfies c."""
        if c == F:
            return F
        # conditions not depending on the element come out
        if isinstance(c, Ite) and not any(self.mentions(c.atom, b[1]) for b in binders):
            return t.ite2(c.atom, self.exists(binders, c.a), self.exists(binders, c.b))
        if t.has_top(c):
            return top('exists')
        return Ite(('exists', binders, c), T, F)

    def mentions(self, v, sub):
        if v == sub:
            return True
        if isinstance(v, Ite):
            return self.mentions(v.atom, sub) or self.mentions(v.a, sub) or self.mentions(v.b, sub)
        if isinstance(v, Rat):
            return any(self.mentions(t.atom_of(a), sub) for a in v.atoms())
        if isinstance(v, t.Poly):
            return any(self.mentions(t.atom_of(a), sub) for a in v.atoms())
        if isinstance(v, tuple):
            return any(self.mentions(x, sub) for x in v if isinstance(x, (tuple, Ite, Rat, t.Poly)))
        return False

    def cond_of(self, out, kinds):
        if isinstance(out, Ite):
            return t.ite2(out.atom, self.cond_of(out.a, kinds), self.cond_of(out.b, kinds))
        return T if out[0] in kinds else F

    def once(self, s, v, st, accs, g=T):
        z = st.copy()
        for k in list(z.heap):
            if isinstance(z.heap[k], (Env, Inst)):
                z.heap[k] = z.heap[k].cp()
        for a, val in self.implied(g, T) if isinstance(g, Ite) else ():
            z.path[a] = val
        before = {k: (x.cp() if isinstance(x, (Env, Inst)) else x) for k, x in z.heap.items()}
        self.assign(s.target, v, z)
        out = self.then(self.settle(z), lambda y: self.block(s.body, y))
        out = self.relabel(out, 'cont', 'norm')
        return out, before

    def diff(self, before, out):
        """Variables and heap cells that existed before and are changed."""
        st = self.merge_out(out, ('norm', 'brk'))
        res = []
        if st is None:
            return res
        for k, old in before.items():
            new = st.heap.get(k)
            if new is None or new is old:
                continue
            if isinstance(old, (Env, Inst)):
                for n, x in old.items():
                    if n in new and new[n] != x:
                        res.append((k, n))
            elif new != old:
                res.append((k, None))
        return sorted(res, key=str)

    def get(self, st, key):
        c = st.heap.get(key[0])
        return c if key[1] is None else c.get(key[1])

    def put(self, st, key, v):
        if key[1] is None:
            st.heap[key[0]] = v
        else:
            st.heap[key[0]] = st.heap[key[0]].cp()
            st.heap[key[0]][key[1]] = v

    def acc(self, key, v0, st):
        """Symbol for the value at the head of an arbitrary iteration."""
        name = ('acc',) + tuple(str(x) for x in key) + (len(self.binders),)
        return self.acc_like(name, v0)

    def acc_like(self, name, v0):
        ls = list(t.leaves(v0))
        k = {x[0] if isinstance(x, tuple) else 'rat' for x in ls}
        if k == {'rat'}:
            return ra(name)
        if k == {'geo'}:
            return ('geo', ls[0][1], Ite(('in', name), T, F))
        if k == {'rec'} and len({x[1] for x in ls}) == 1 and all(len(x[2]) == len(ls[0][2]) for x in ls):
            return ('rec', ls[0][1], tuple((f, self.acc_like(name + (f,), x) if self.carry(x) else x) for f, x in ls[0][2]))
        if k == {'lst'} or k == {'set'}:
            return (ls[0][0], (('p', T, (('acc', name),), name),))
        if k == {'map'}:
            return ('map', ('accm', name), ())
        if all(x in (T, F) for x in ls):
            return Ite(('b', name), T, F)
        return ('sym', name, 'any')

    def carry(self, x):
        return isinstance(x, (Rat, Ite)) or x[0] in ('geo', 'map', 'rec')

    def fold(self, key, acc, v0, new, accs, g, binders, early, st):
        if new is None:
            return v0
        if new == acc:
            return v0
        self.steps.append((key, acc, v0, new, binders, g))
        if key[0] in self.eventrefs:
            accs = {}
        r = self.fold1(acc, v0, new, list(accs.values()), g, binders, early)
        return r

    def fold1(self, acc, v0, new, accs, g, binders, early):
        if new == acc:
            return v0
        others = [a for a in accs if a != acc]

        def foreign(x):
            return any(self.dep(x, a) for a in others)
        if isinstance(acc, Rat):
            if early:
                return top('loop')
            try:
                d = apply(lambda n: t.rsub(n, acc) if isinstance(n, Rat) else top(), new)
            except Giveup:
                return top('loop')
            if self.dep(d, acc) or foreign(d) or t.has_top(d) or not isinstance(v0, Rat):
                return top('loop')
            return t.radd(v0, ra(('sum', binders, g, d)))
        if isinstance(acc, Ite) and acc.atom[0] == 'b':
            hi, lo = t.cof(new, acc.atom, True), t.cof(new, acc.atom, False)
            if foreign(new):
                return top('loop')
            if hi == T and not self.dep(lo, acc):
                return gor(v0, self.exists(binders, gand(g, lo)))
            if lo == F and not self.dep(hi, acc):
                return gand(v0, gnot(self.exists(binders, gand(g, gnot(hi)))))
            return top('loop')
        if acc[0] == 'geo':
            if early:
                return top('loop')
            n = apply(lambda x: x[2] if x[0] == 'geo' else top(), new)
            if t.has_top(n) or foreign(n):
                return top('loop')
            at = acc[2].atom
            hi, lo = t.cof(n, at, True), t.cof(n, at, False)
            if self.dep(hi, acc[2]) or self.dep(lo, acc[2]):
                return top('loop')
            if hi == T:
                return apply(lambda b: ('geo', b[1], gor(b[2], self.big(binders, g, lo))) if b[0] == 'geo' else top(), v0)
            if lo == F:
                return apply(lambda b: ('geo', b[1], gand(b[2], gnot(self.big(binders, g, gnot(hi))))) if b[0] == 'geo' else top(), v0)
            return top('loop')
        if acc[0] in ('lst', 'set'):
            ps = self.flat(new)
            old = self.flat(v0)
            if ps is None or old is None or not ps or ps[0] != acc[1][0]:
                return top('loop')
            add = []
            for _, gg, bb, x in ps[1:]:
                if foreign(x) or foreign(gg) or early or any(a[0] == 'acc' for a in bb):
                    return top('loop')
                add.append(('p', gand(g, gg), binders + bb, x))
            return (acc[0], tuple(old) + tuple(add))
        if acc[0] == 'map':
            if isinstance(new, Ite) or new[0] != 'map' or new[1] != acc[1] or early:
                return self.fold_gated_map(acc, v0, new, others, g, binders, early)
            adds = []
            if any(z[0] == 'bulk' for z in new[2]):
                return top('loop')
            for k, x, gg in new[2]:
                if not getattr(self, 'eventmaps', False) and (foreign(x) or foreign(k) or foreign(gg)):
                    return top('loop')
                adds.append(('bulk', binders, gand(g, gg), k, x, acc[1]))
            if isinstance(v0, Ite) or v0[0] != 'map':
                return top('loop')
            return ('map', v0[1], v0[2] + tuple(adds))
        if acc[0] == 'rec':
            if isinstance(new, Ite):
                ls = list(t.leaves(new))
                if any(x[0] != 'rec' or x[1] != acc[1] for x in ls):
                    return top('loop')
            elif new[0] != 'rec' or new[1] != acc[1]:
                return top('loop')
            if isinstance(v0, Ite):
                return top('loop')
            oldf = dict(v0[2])
            res = []
            fa = [x for f, x in acc[2] if self.carry(x)]
            for f, a in acc[2]:
                n = apply(lambda r: dict(r[2]).get(f, top()), new)
                if not self.carry(a):
                    res.append((f, oldf[f] if n == a else top('loop')))
                else:
                    res.append((f, self.fold1(a, oldf[f], n, fa + others, g, binders, early)))
            return ('rec', acc[1], tuple(res))
        return top('loop')

    def fold_gated_map(self, acc, v0, new, others, g, binders, early):
        return top('loop')

    def dep(self, x, a):
        """Does the value x depend on the loop symbol a?"""
        if isinstance(a, Rat):
            return any(self.mentions(x, t.atom_of(i)) for i in a.atoms())
        if isinstance(a, Ite):
            return self.mentions(x, a.atom)
        if a[0] == 'geo':
            return self.mentions(x, a[2].atom) if isinstance(a[2], Ite) else False
        if a[0] == 'map':
            return self.mentions(x, a[1])
        if a[0] in ('lst', 'set'):
            return self.mentions(x, a[1][0])
        if a[0] == 'rec':
            return any(self.dep(x, y) for f, y in a[2] if self.carry(y))
        return self.mentions(x, a)

    def big(self, binders, g, c):
        """Gated membership of the union over the elements."""
        c = gand(g, c)
        if c == F:
            return F
        if isinstance(c, Ite) and not any(self.mentions(c.atom, b[1]) for b in binders):
            return t.ite2(c.atom, self.big(binders, T, c.a), self.big(binders, T, c.b))
        return Ite(('in', ('U', binders, c)), T, F)
