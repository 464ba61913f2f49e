"""Engine B: expressions, names, calls, collections."""
import ast
import re
from fractions import Fraction as Q
from . import terms as t
from .terms import T, F, NONE, Ite, Rat, Giveup, top, apply, gif, gnot, gand, gor, rc, ra
from .gvg import Core, St, Env, Inst, seq, piece

OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**',
       'BitOr': '|', 'BitAnd': '&', 'BitXor': '^', 'MatMult': '@'}
DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'FloorDiv': '__floordiv__',
          'Mod': '__mod__', 'BitOr': '__or__', 'BitAnd': '__and__', 'BitXor': '__xor__'}


class Expr(Core):
    # ------------------------------------------------------------ symbols
    def sym(self, ty, term):
        """An unknown value of a type, named by a term."""
        if ty == 'num':
            return ra(term)
        if ty == 'bool':
            return Ite(('b', term), T, F)
        if ty in ('geo1', 'geo2'):
            return ('geo', int(ty[3]), Ite(('in', term), T, F))
        if ty == 'vec2':
            return ('arr', (ra(('ix', term, 0)), ra(('ix', term, 1))))
        if ty == 'pt2':
            return ('tup', (ra(('ix', term, 0)), ra(('ix', term, 1))))
        if isinstance(ty, tuple) and ty[0] == 'tup':
            return ('tup', tuple(self.sym(x, ('ix', term, i)) for i, x in enumerate(ty[1:])))
        if isinstance(ty, tuple) and ty[0] == 'map':
            return ('map', ('base', term, ty), ())
        if isinstance(ty, tuple) and ty[0] == 'obj':
            fs = self.types.get(ty[1])
            if fs is not None and fs.get('$rec'):
                return ('rec', ty[1], tuple((f, self.sym(x, ('attr', term, f))) for f, x in sorted(fs.items()) if f[0] != '$'))
            return ('sym', term, ty)
        return ('sym', term, ty)

    def el(self, sterm, ty):
        """The generic element of a collection; nested loops get different ones."""
        n = sum(1 for b in self.binders if b[0] == sterm)
        name = ('el', sterm, n)
        return name, self.sym(ty, name)

    # ------------------------------------------------------------ names
    def setvar(self, st, name, v):
        e = st.env()
        fi = e.fi
        if fi is not None and not fi.is_comp and (name in fi.globals):
            return
        if fi is not None and name in fi.nonlocals:
            f = e.parent
            while f is not None:
                if name in st.heap[f]:
                    st.heap[f] = st.heap[f].cp()
                    st.heap[f][name] = v
                    return
                f = st.heap[f].parent
        e = e.cp()
        e[name] = v
        st.heap[st.frame] = e

    def lookup(self, name, st):
        f = st.frame
        while f is not None:
            e = st.heap[f]
            if name in e:
                return e[name]
            f = e.parent
        return None

    def e_Name(self, n, st):
        v = self.lookup(n.id, st)
        if v is not None:
            return self.simp(v, st)
        return self.glob(self.cur_fi.module, n.id)

    def glob(self, mod, name):
        k = (mod.name, name)
        if k in self.modcache:
            return self.modcache[k]
        self.modcache[k] = top('cyclic')
        v = self.glob1(mod, name)
        self.modcache[k] = v
        return v

    def glob1(self, mod, name):
        found = []
        for s in ast.walk(mod.tree):
            if isinstance(s, ast.Global) and name in s.names:
                return ('sym', ('global', mod.name, name), 'any')
        for s in mod.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == name:
                found.append(s)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    if (a.asname or a.name.split('.')[0]) == name:
                        found.append((s, a))
            elif isinstance(s, ast.Assign):
                for tg in s.targets:
                    if isinstance(tg, ast.Name) and tg.id == name:
                        found.append(s)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value:
                found.append(s)
            elif isinstance(s, (ast.If, ast.Try, ast.AugAssign, ast.For, ast.With)):
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name:
                        return ('sym', ('global', mod.name, name), 'any')
        if not found:
            return ('ext', 'builtins.' + name)
        if len(found) > 1:
            return ('sym', ('global', mod.name, name), 'any')
        s = found[0]
        if isinstance(s, ast.FunctionDef):
            if s.decorator_list:
                return ('app', 'decorated', ('fn', self.fm[id(s)].fid, None))
            return ('fn', self.fm[id(s)].fid, None)
        if isinstance(s, ast.ClassDef):
            return ('cls', self.p.classes[id(s)].cid)
        if isinstance(s, tuple):
            s, a = s
            if isinstance(s, ast.Import):
                if a.asname:
                    return self.modval(a.name)
                return self.modval(a.name.split('.')[0])
            return self.imported(mod, s, a.name)
        z = St({('mod',): Env(fi=None)}, ('mod',), {})
        old = self.cur_fi
        self.cur_fi = ModFi(mod)
        try:
            v = self.ev(s.value, z)
        except Giveup:
            v = top('global')
        finally:
            self.cur_fi = old
        if z.pend != F:
            return top('global')
        if any(isinstance(x, tuple) and x[0] == 'ref' for x in t.leaves(v)):
            c = self.content(v, z) if not isinstance(v, Ite) else None
            if isinstance(c, tuple) and c[0] in ('lst', 'map') and not self.heldrefs(c) and not self.changed_somewhere(name):
                # a literal nobody changes
                return ('seq', c[1]) if c[0] == 'lst' else c
            return ('sym', ('global', mod.name, name), 'any')
        return v

    def heldrefs(self, c):
        if isinstance(c, tuple):
            return len(c) == 2 and c[0] == 'ref' or any(self.heldrefs(x) for x in c)
        return isinstance(c, Ite)

    def changed_somewhere(self, name):
        def is_it(x):
            return isinstance(x, ast.Name) and x.id == name or isinstance(x, ast.Attribute) and x.attr == name
        for m in self.p.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.value, (ast.Name, ast.Attribute)) and is_it(x.value) and x.attr in (
                        'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem'):
                    return True
                if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) and is_it(x.value):
                    return True
                if isinstance(x, ast.AugAssign) and is_it(x.target):
                    return True
                if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load) and x.attr == name:
                    return True
        return False

    def modval(self, name):
        if name in self.p.modules:
            return ('mod', name)
        return ('ext', name)

    def imported(self, mod, s, name):
        base = self.p.lookup_rel(mod, s.level, s.module)
        full = base + '.' + name if base else name
        if base in self.p.modules:
            m = self.p.modules[base]
            if any(self.binds(x, name) for x in m.tree.body):
                return self.glob(m, name)
            if full in self.p.modules:
                return ('mod', full)
            return top('import')
        if full in self.p.modules:
            return ('mod', full)
        return special(full) or ('ext', full)

    def binds(self, s, name):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return s.name == name
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return any((a.asname or a.name.split('.')[0]) == name for a in s.names)
        return any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name for x in ast.walk(s))

    def closure(self, node, st):
        fi = self.fm[id(node)]
        return ('fn', fi.fid, st.frame)

    # ------------------------------------------------------------ evaluation
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return top(type(n).__name__)
        return m(n, st)

    def e_Constant(self, n, st):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
            return ('c', v)
        if isinstance(v, int):
            return rc(v)
        if isinstance(v, float):
            return rc(Q(v).limit_denominator(10 ** 12)) if v == v and abs(v) < 1e300 else ('inf', 1 if v > 0 else -1)
        return top('constant')

    def e_JoinedStr(self, n, st):
        ps = []
        for x in n.values:
            if not isinstance(x, ast.FormattedValue):
                ps.append(('c', x.value))
                continue
            v = self.ev(x.value, st)
            plain = x.format_spec is None and x.conversion == -1
            if plain and isinstance(v, Rat) and v.const() is not None and v.const().denominator == 1:
                v = ('c', str(int(v.const())))
            elif not plain or not (isinstance(v, tuple) and v[0] == 'c'):
                v = ('app', 'fmt', v, ('c', None if plain else ast.dump(x)))
            ps.append(v)
        return self.text(ps)

    def text(self, ps):
        """Texts one after the other."""
        def f(*ps):
            out = []
            for v in ps:
                for w in (v[2:] if isinstance(v, tuple) and v[:2] == ('app', 'text') else [v]):
                    if out and isinstance(w, tuple) and w[0] == 'c' and isinstance(w[1], str) and out[-1][0] == 'c' and isinstance(out[-1][1], str):
                        out[-1] = ('c', out[-1][1] + w[1])
                    else:
                        out.append(w)
            out = [w for w in out if w != ('c', '')] or [('c', '')]
            return out[0] if len(out) == 1 and out[0][0] == 'c' else ('app', 'text') + tuple(out)
        return apply(f, *ps) if ps else ('c', '')

    def e_Tuple(self, n, st):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return seq(self.elts(n.elts, st))
        return ('tup', tuple(self.ev(x, st) for x in n.elts))

    def elts(self, es, st):
        ps = []
        for x in es:
            if isinstance(x, ast.Starred):
                p = self.pieces(self.ev(x.value, st), st)
                if p is None:
                    raise Giveup('star')
                ps += p
            else:
                ps.append(piece(self.ev(x, st)))
        return ps

    def new(self, st, content):
        oid = self.fresh()
        st.heap[oid] = content
        return ('ref', oid)

    def e_List(self, n, st):
        return self.new(st, ('lst', tuple(self.elts(n.elts, st))))

    def e_Set(self, n, st):
        return self.new(st, ('set', tuple(self.elts(n.elts, st))))

    def e_Dict(self, n, st):
        m = ('map', ('empty',), ())
        for k, v in zip(n.keys, n.values):
            if k is None:
                b = self.content(self.ev(v, st), st)
                if isinstance(b, Ite) or not isinstance(b, tuple) or b[0] != 'map':
                    return top('dict')
                m = b if m == ('map', ('empty',), ()) else top('dict')
                if m == top('dict'):
                    return m
            else:
                m = self.store(m, self.ev(k, st), self.ev(v, st))
        return self.new(st, m)

    def e_Lambda(self, n, st):
        return self.closure(n, st)

    def e_IfExp(self, n, st):
        c = self.simp(self.truth(self.ev(n.test, st), st), st)
        return self.choose(c, st, lambda z: self.ev(n.body, z), lambda z: self.ev(n.orelse, z))

    def choose(self, c, st, fa, fb):
        """Evaluate two expressions under complementary conditions; effects are merged."""
        if c == T:
            return fa(st)
        if c == F:
            return fb(st)
        if not isinstance(c, Ite):
            fa(st.copy())
            fb(st.copy())
            return top('condition')
        sa, sb = st.copy(), st.copy()
        for s, want in ((sa, T), (sb, F)):
            for a, v in self.implied(c, want):
                s.path[a] = v
        va, vb = fa(sa), fb(sb)
        m = self.merge_cond(c, sa, sb)
        st.heap, st.pend = m.heap, m.pend
        return gif(c, va, vb)

    def merge_cond(self, c, a, b):
        if c == T:
            return a
        if c == F:
            return b
        return self.merge2(c.atom, self.merge_cond(c.a, a, b), self.merge_cond(c.b, a, b))

    def e_BoolOp(self, n, st):
        v = self.ev(n.values[0], st)
        for x in n.values[1:]:
            c = self.simp(self.truth(v, st), st)
            v0 = v
            if isinstance(n.op, ast.And):
                v = self.choose(c, st, lambda z: self.ev(x, z), lambda z: v0 if v0 not in (T, F) else F)
            else:
                v = self.choose(c, st, lambda z: v0 if v0 not in (T, F) else T, lambda z: self.ev(x, z))
        return v

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        op = type(n.op).__name__
        if op == 'Not':
            return gnot(self.truth(v, st))
        if op == 'Invert':
            return self.invert(v, st)

        def f(x):
            if isinstance(x, tuple) and x[0] == 'inf' and op == 'USub':
                return ('inf', -x[1])
            if x == ('nan',):
                return x
            if isinstance(x, tuple) and x[0] in ('arr',):
                return ('arr', tuple(apply(f, y) for y in x[1]))
            r = self.num(x)
            if r is None:
                return top('unary')
            return t.rneg(r) if op == 'USub' else r
        return apply(f, v)

    def invert(self, v, st):
        ls = list(t.leaves(v))
        if ls and all(isinstance(x, tuple) and x[0] == 'geo' for x in ls):
            return apply(lambda x: ('geo', x[1], gnot(x[2])), v)
        r = self.dunder('__invert__', v, [], st)
        if r is not None:
            return r
        return apply(lambda x: gnot(x) if x in (T, F) else top('invert'), v)

    def e_BinOp(self, n, st):
        a, b = self.ev(n.left, st), self.ev(n.right, st)
        return self.binop(type(n.op).__name__, a, b, st)

    def num(self, x):
        """A number for a leaf value, if it can be one."""
        if isinstance(x, Rat):
            return x
        if isinstance(x, tuple):
            if x in (T, F):
                return rc(1 if x == T else 0)
            if x[0] == 'app' or x[0] == 'sym' and x[2] == 'any':
                return None if t.has_top(x) else ra(x)
        return None

    def binop(self, op, a, b, st):
        a, b = self.simp(a, st), self.simp(b, st)
        if op == 'Mod' and isinstance(a, tuple) and a[0] == 'c' and isinstance(a[1], str):
            r = self.percent(a[1], b[1] if isinstance(b, tuple) and b[0] == 'tup' else (b,))
            if r is not None:
                return r
        la, lb = list(t.leaves(a)), list(t.leaves(b))
        if any(isinstance(x, tuple) and x[0] in ('arr', 'arrs') for x in la + lb):
            a, b = (self.asarr(x, st) if any(isinstance(y, tuple) and y[0] in ('ref', 'seq') for y in l) else x
                    for x, l in ((a, la), (b, lb)))
            return apply(lambda x, y: self.bin(op, x, y), a, b)
        if any(isinstance(x, tuple) and x[0] in ('rec', 'ref', 'sym') for x in la) and op in DUNDER:
            r = self.dunder(DUNDER[op], a, [b], st)
            if r is not None:
                return r
        if any(isinstance(x, tuple) and x[0] in ('ref', 'seq') for x in la + lb):
            r = self.seqop(op, a, b, st)
            if r is not None:
                return r
        return apply(lambda x, y: self.bin(op, x, y), a, b)

    def percent(self, form, args):
        """Texts such as 'f%d' % i."""
        parts = re.split('%([sdi])', form)
        if len(parts) != 2 * len(args) + 1 or any('%' in z for z in parts[::2]):
            return None
        ps = [('c', parts[0])]
        for k, v in enumerate(args):
            if isinstance(v, Rat) and v.const() is not None and v.const().denominator == 1:
                v = ('c', str(int(v.const())))
            elif not (isinstance(v, tuple) and v[0] == 'c' and isinstance(v[1], str)):
                v = ('app', 'fmt', v, ('c', None))
            ps += [v, ('c', parts[2 * k + 2])]
        return self.text(ps)

    def bin(self, op, x, y):
        if t.is_top(x) or t.is_top(y):
            return top('operand')
        tx = x[0] if isinstance(x, tuple) else 'rat'
        ty = y[0] if isinstance(y, tuple) else 'rat'
        if tx == 'geo' and ty == 'geo':
            g = {'BitOr': gor, 'BitAnd': gand, 'Sub': lambda p, q: gand(p, gnot(q)),
                 'BitXor': lambda p, q: gor(gand(p, gnot(q)), gand(gnot(p), q))}.get(op)
            return ('geo', x[1], g(x[2], y[2])) if g else top('geometry operator')
        if 'arrs' in (tx, ty):
            return self.broadcasts(op, x, y)
        if 'arr' in (tx, ty):
            return self.broadcast(op, x, y)
        if op == 'Add' and tx == ty == 'tup':
            return ('tup', x[1] + y[1])
        if x in (T, F) and y in (T, F) and op in ('BitOr', 'BitAnd', 'BitXor'):
            p, q = x == T, y == T
            return ('c', {'BitOr': p or q, 'BitAnd': p and q, 'BitXor': p != q}[op])
        if tx == 'c' and isinstance(x[1], str) or ty == 'c' and isinstance(y[1], str):
            if op == 'Add' and tx == ty == 'c' and isinstance(y[1], str) and isinstance(x[1], str):
                return ('c', x[1] + y[1])
            return self.text([x, y])
        if 'nan' in (tx, ty) and {tx, ty} <= {'nan', 'inf', 'rat'}:
            return ('nan',)
        if 'inf' in (tx, ty):
            return self.infop(op, x, y)
        a, b = self.num(x), self.num(y)
        if a is None or b is None:
            return top('operands of ' + op)
        try:
            if op == 'Add':
                return t.radd(a, b)
            if op == 'Sub':
                return t.rsub(a, b)
            if op == 'Mult':
                return t.rmul(a, b)
            if op == 'Div':
                return t.rdiv(a, b)
        except Giveup:
            return top('arithmetic')
        ca, cb = a.const(), b.const()
        if op == 'Pow' and cb is not None and cb.denominator == 1 and 0 <= cb <= 6:
            r = rc(1)
            for _ in range(int(cb)):
                r = t.rmul(r, a)
            return r
        if op in ('FloorDiv', 'Mod') and ca is not None and cb is not None and cb != 0:
            return rc(ca // cb if op == 'FloorDiv' else ca % cb)
        if op in ('FloorDiv', 'Mod'):
            return ra(('app', OPS[op], a, b))
        return ra(('app', OPS.get(op, op), a, b))

    def infop(self, op, x, y):
        if x[0] == 'inf' if isinstance(x, tuple) else False:
            if isinstance(y, Rat) and op in ('Add', 'Sub'):
                return x
        elif isinstance(x, Rat) and isinstance(y, tuple) and y[0] == 'inf' and op in ('Add', 'Sub'):
            return y if op == 'Add' else ('inf', -y[1])
        return top('infinity')

    def broadcasts(self, op, x, y):
        """Operation with an array that has one row per element of an unknown sequence."""
        def rows(z):
            return isinstance(z, tuple) and z[0] == 'arrs'
        if rows(x) and rows(y):
            if [p[1:3] for p in x[1]] != [p[1:3] for p in y[1]]:
                return top('shapes')
            return ('arrs', tuple(('p', p[1], p[2], self.bin(op, p[3], q[3])) for p, q in zip(x[1], y[1])))
        z = x if rows(x) else y
        other = y if rows(x) else x
        if not isinstance(other, Rat) and not all(isinstance(p[3], tuple) and p[3][0] == 'arr' for p in z[1]):
            return top('shapes')
        if isinstance(other, tuple) and other[0] == 'arr' and any(isinstance(w, tuple) and w[0] == 'arr' for w in other[1]):
            return top('shapes')
        return ('arrs', tuple(('p', p[1], p[2], self.bin(op, p[3], other) if rows(x) else self.bin(op, other, p[3])) for p in z[1]))

    def broadcast(self, op, x, y):
        ix = x[1] if isinstance(x, tuple) and x[0] in ('arr', 'tup') else None
        iy = y[1] if isinstance(y, tuple) and y[0] in ('arr', 'tup') else None
        if ix is not None and iy is not None:
            if len(ix) != len(iy):
                # (n, k) array with a (k,) vector
                if ix and all(isinstance(z, tuple) and z[0] in ('arr', 'tup') for z in ix):
                    return ('arr', tuple(self.bin(op, ('arr', z[1]), y) for z in ix))
                return top('shapes')
            return ('arr', tuple(apply(lambda p, q: self.bin(op, p, q), a, b) for a, b in zip(ix, iy)))
        if ix is not None:
            return ('arr', tuple(apply(lambda p: self.bin(op, p, y), a) for a in ix))
        return ('arr', tuple(apply(lambda p: self.bin(op, x, p), a) for a in iy))

    # ------------------------------------------------------------ comparisons
    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st)
            c = self.cmp(type(op).__name__, left, right, st)
            res = c if res is None else gand(res, self.truth(c, st)) if res not in (T,) else c
            left = right
        return res

    def cmp(self, op, a, b, st):
        a, b = self.simp(a, st), self.simp(b, st)
        if op in ('In', 'NotIn'):
            r = self.member(a, b, st)
            return gnot(r) if op == 'NotIn' else r
        neg = op in ('NotEq', 'IsNot')
        if op in ('Is', 'IsNot', 'Eq', 'NotEq'):
            r = apply(lambda x, y: self.same(x, y, op in ('Eq', 'NotEq')), a, b)
            if neg:
                r = apply(lambda x: ('arr', tuple(gnot(z) for z in x[1])) if isinstance(x, tuple) and x[0] == 'arr' else gnot(x), r)
            return self.simp(r, st)
        return self.simp(apply(lambda x, y: self.order(op, x, y), a, b), st)

    def same(self, x, y, eq=True):
        if t.is_top(x) or t.is_top(y):
            return top('comparison')
        ax = isinstance(x, tuple) and x[0] == 'arr'
        ay = isinstance(y, tuple) and y[0] == 'arr'
        if (ax or ay) and eq:
            return self.vec(lambda p, q: self.same(p, q), x, y)
        if eq and ('nan',) in (x, y):
            return F
        if x == y:
            return T
        tx = x[0] if isinstance(x, tuple) else 'rat'
        ty = y[0] if isinstance(y, tuple) else 'rat'
        if tx == 'rat' and ty == 'rat':
            return t.sign_eq(t.rsub(x, y))
        if 'inf' in (tx, ty) and {tx, ty} <= {'inf', 'rat'} or tx == ty == 'inf':   # equal ones were met above
            return F
        if tx == 'tup' and ty == 'tup':
            if len(x[1]) != len(y[1]):
                return F
            r = T
            for p, q in zip(x[1], y[1]):
                r = gand(r, apply(lambda u, v: self.same(u, v), p, q))
            return r
        if tx == 'c' and ty == 'c':
            return F
        if NONE in (x, y) and ({tx, ty} - {'c'}) & {'geo', 'rec', 'ref', 'tup', 'arr', 'fn', 'rat', 'seq', 'map'}:
            return F
        if {tx, ty} & {'ref'} and tx == ty:
            return F
        if {tx, ty} == {'cls'} or {tx, ty} == {'fn'}:
            return F
        a, b = sorted((x, y), key=lambda z: t.aid(('cmp', z)))
        return Ite(('is', a, b), T, F)

    def vec(self, f, x, y):
        ix = x[1] if isinstance(x, tuple) and x[0] in ('arr', 'tup') else None
        iy = y[1] if isinstance(y, tuple) and y[0] in ('arr', 'tup') else None
        if ix is not None and iy is not None:
            if len(ix) != len(iy):
                return top('shapes')
            return ('arr', tuple(apply(f, p, q) for p, q in zip(ix, iy)))
        if ix is not None:
            return ('arr', tuple(apply(lambda p: f(p, y), p) for p in ix))
        return ('arr', tuple(apply(lambda p: f(x, p), p) for p in iy))

    def order(self, op, x, y):
        if t.is_top(x) or t.is_top(y):
            return top('comparison')
        if isinstance(x, tuple) and x[0] == 'arr' or isinstance(y, tuple) and y[0] == 'arr':
            return self.vec(lambda p, q: self.order(op, p, q), x, y)
        if ('nan',) in (x, y):
            return F
        if op in ('Gt', 'GtE'):
            x, y = y, x
            op = 'Lt' if op == 'Gt' else 'LtE'
        ix = x[1] if isinstance(x, tuple) and x[0] == 'inf' else 0
        iy = y[1] if isinstance(y, tuple) and y[0] == 'inf' else 0
        if ix or iy:
            return ('c', ix < iy if op == 'Lt' else ix <= iy) if (ix or isinstance(x, Rat)) and (iy or isinstance(y, Rat)) else top('cmp')
        a, b = self.num(x), self.num(y)
        if a is None or b is None:
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'tup' and len(x[1]) == len(y[1]):
                return self.lex(op, x[1], y[1])
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'c' and isinstance(x[1], str) and isinstance(y[1], str):
                return ('c', x[1] < y[1] if op == 'Lt' else x[1] <= y[1])
            return top('comparison')
        d = t.rsub(a, b)
        return t.sign_lt(d) if op == 'Lt' else gnot(t.sign_lt(t.rneg(d)))

    def lex(self, op, xs, ys):
        if not xs:
            return F if op == 'Lt' else T
        eq = apply(lambda p, q: self.same(p, q), xs[0], ys[0])
        lt = apply(lambda p, q: self.order('Lt', p, q), xs[0], ys[0])
        return gor(lt, gand(eq, self.lex(op, xs[1:], ys[1:])))

    def member(self, a, b, st):
        ps = self.pieces(b, st)
        if ps is None:
            if isinstance(b, tuple) and b[0] in ('map',):
                return self.haskey(b, a, st)
            c = self.content(b, st)
            if isinstance(c, tuple) and c[0] == 'map':
                return self.haskey(c, a, st)
            if t.has_top(a) or t.has_top(b):
                return top('in')
            return Ite(('member', a, b), T, F)
        r = F
        for _, g, bb, v in ps:
            c = gand(g, self.truth(self.cmp('Eq', a, v, st), st))
            if bb:
                # an element of the same collection equal to itself
                c = Ite(('member', a, ('S', bb, g, v)), T, F)
            r = gor(r, c)
        return r

    def haskey(self, m, k, st):
        if m[0] == 'map' and m[1] == ('empty',) and not m[2]:
            return F
        return Ite(('haskey', k, m), T, F)

    # ------------------------------------------------------------ truth
    def truth(self, v, st):
        return self.simp(apply(lambda x: self.truth1(x, st), v), st)

    def truth1(self, x, st):
        if x in (T, F):
            return x
        if isinstance(x, Rat):
            return gnot(t.sign_eq(x))
        k = x[0]
        if k == 'c':
            return ('c', bool(x[1]))
        if k in ('tup',):
            return ('c', bool(x[1]))
        if k == 'ref':
            c = self.content(x, st)
            if isinstance(c, Inst):
                return T
            return self.nonempty(x, st)
        if k in ('seq', 'map'):
            return self.nonempty(x, st)
        if k in ('geo', 'rec', 'fn', 'cls', 'inf', 'ext', 'mod'):
            return T
        if k == 'sym' and isinstance(x[2], tuple) and x[2][0] == 'obj':
            return T
        if k in ('sym', 'app') and not t.has_top(x):
            return Ite(('b', x), T, F)
        return top('truth')

    def nonempty(self, x, st):
        ps = self.pieces(x, st)
        if ps is None:
            return top('truth') if t.has_top(x) else Ite(('b', ('nonempty', self.content(x, st))), T, F)
        r = F
        for _, g, bb, v in ps:
            r = gor(r, self.exists(bb, g) if bb and g != T else Ite(('exists', bb, T), T, F) if bb else g)
        return r


class ModFi:
    """Stands for the function info while evaluating module-level expressions."""
    def __init__(self, m):
        self.module = m
        self.fid = m.name
        self.globals, self.nonlocals, self.is_comp = set(), set(), False


def special(full):
    """Infinity and not-a-number by their library names."""
    if full in ('math.inf', 'numpy.inf'):
        return ('inf', 1)
    return ('nan',) if full in ('math.nan', 'numpy.nan', 'numpy.NaN') else None
