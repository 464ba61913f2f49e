"""Engine B: library functions and methods of built-in values."""
from fractions import Fraction as Q
import math
from . import terms as t
from .terms import T, F, NONE, Ite, Rat, Giveup, top, apply, gif, gnot, gand, gor, rc, ra
from .gvg import Env, Inst, St, seq, piece
from .calls import Calls

PURE = {'str', 'repr', 'format', 'hash', 'id', 'ord', 'chr', 'float', 'int', 'round', 'type', 'divmod', 'hex'}
SILENT = ('logging.', 'logger', 'builtins.print', 'warnings.', 'matplotlib', 'time.')
NPNUM = {'sum', 'max', 'min', 'all', 'any', 'abs', 'absolute'}


def isarr(x):
    return isinstance(x, tuple) and x[0] == 'arr'


class Lib(Calls):
    # ------------------------------------------------------------ external functions
    def ext(self, name, args, kw, st):
        if name.startswith(SILENT) or name.startswith('class.'):
            return NONE if not name.startswith('logging.getLogger') else ('ext', 'logger')
        short = name.split('.')[-1]
        if name.startswith('builtins.'):
            m = getattr(self, 'b_' + short, None)
            if m is not None:
                return m(args, kw, st)
            if short == 'str' and len(args) == 1 and not kw:
                v = self.percent('%s', args)
                if v[0] == 'c':
                    return v
            if short in PURE:
                return self.pure(short, args, kw, st)
            if short.endswith('Error') or short.endswith('Exception') or short == 'StopIteration':
                return ('app', 'exception')
        elif name.split('.')[0] in ('numpy', 'np'):
            m = getattr(self, 'np_' + name.split('.', 1)[1].replace('.', '_'), None)
            if m is not None:
                return m(args, kw, st)
            if not any(self.mut(a, st) for a in list(args) + list(kw.values())):
                return self.pure(name, args, kw, st)
        elif name.split('.')[0] in ('pyrsistent',):
            m = getattr(self, 'pyr_' + short, None)
            if m is not None:
                return m(args, kw, st)
        elif name.split('.')[0] == 'math':
            m = getattr(self, 'm_' + short, None)
            if m is not None:
                return m(args, kw, st)
            return self.pure(name, args, kw, st)
        elif name.split('.')[0] == 'gmpy2':
            if short == 'mpq' and len(args) == 2:
                return self.binop('Div', args[0], args[1], st)
            if short in ('mpq', 'mpz', 'f2q') and args:
                return args[0]
        elif name == 'functools.reduce' and len(args) in (2, 3):
            ps = self.pieces(args[1], st)
            if ps is not None and (ps or len(args) == 3) and all(z[1] == T and not z[2] for z in ps):
                vs = [z[3] for z in ps]
                acc = args[2] if len(args) == 3 else vs.pop(0)
                for v in vs:
                    acc = self.call(args[0], [acc, v], {}, st)
                return acc
        elif name == 'functools.partial' and args:
            return ('part', args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        elif name.startswith('operator.') and len(args) <= 2 and not kw:
            r = self.operator(short, args, st)
            if r is not None:
                return r
        elif name.startswith('itertools.'):
            m = getattr(self, 'it_' + short, None)
            if m is not None:
                return m(args, kw, st)
        elif name in ('geoclass1.empty', 'geoclass2.empty'):
            return ('geo', int(name[8]), F)
        elif name == 'geoclass1.full':
            return ('geo', 1, T)
        elif name.startswith('copy.'):
            return self.copyof(args[0], st)
        elif name.startswith('typing.') or name in ('object.__init__',):
            return NONE
        elif name == 'geoclass2.union' or name == 'geoclass1.union':
            return self.geo_union(args[0], int(name[8]), st)
        self.escape(args, kw, st)
        return top('call of ' + name)

    OPERATOR = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'floordiv': 'FloorDiv', 'mod': 'Mod', 'pow': 'Pow',
                'or_': 'BitOr', 'and_': 'BitAnd', 'xor': 'BitXor', 'matmul': 'MatMult', 'lshift': 'LShift', 'rshift': 'RShift'}
    OPCMP = {'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq', 'is_': 'Is', 'is_not': 'IsNot'}

    def operator(self, name, args, st):
        if len(args) == 2:
            if name in self.OPERATOR:
                return self.binop(self.OPERATOR[name], args[0], args[1], st)
            if name in self.OPCMP:
                return self.cmp(self.OPCMP[name], args[0], args[1], st)
            if name == 'contains':
                return self.cmp('In', args[1], args[0], st)
            if name == 'getitem':
                return self.index(args[0], args[1], st)
        if len(args) == 1:
            if name == 'neg':
                return self.binop('Sub', rc(0), args[0], st)
            if name == 'not_':
                return gnot(self.truth(args[0], st))
            if name == 'truth':
                return self.truth(args[0], st)
        return None

    def mut(self, a, st):
        return any(isinstance(x, tuple) and x[0] == 'ref' for x in t.leaves(a))

    def pure(self, name, args, kw, st):
        """Uninterpreted function of its arguments."""
        vs = [self.freeze(a, st) for a in args] + [self.freeze(v, st) for _, v in sorted(kw.items())]
        ks = tuple(k for k, _ in sorted(kw.items()))
        if any(v is None or t.has_top(v) for v in vs):
            return top(name)

        def f(*xs):
            return ('app', name) + xs + ((('kw',) + ks,) if ks else ())
        try:
            return apply(f, *vs)
        except Giveup:
            return top(name)

    def freeze(self, a, st):
        """Immutable description of a value."""
        if isinstance(a, Ite):
            x, y = self.freeze(a.a, st), self.freeze(a.b, st)
            return None if x is None or y is None else t.ite2(a.atom, x, y)
        if isinstance(a, tuple) and a[0] == 'ref':
            c = st.heap.get(a[1])
            if isinstance(c, Inst):
                return ('inst', c.cid) + tuple((k, self.freeze(v, st)) for k, v in sorted(c.items())) if c else None
            if isinstance(c, Ite):
                return self.freeze(c, st)
            if isinstance(c, tuple) and c[0] in ('lst', 'set'):
                return ('seq', tuple(('p', p[1], p[2], self.freeze(p[3], st)) for p in c[1]))
            return c
        if isinstance(a, tuple) and a[0] in ('tup', 'arr'):
            xs = tuple(self.freeze(x, st) for x in a[1])
            return None if any(x is None for x in xs) else (a[0], xs)
        return a

    def copyof(self, a, st):
        if isinstance(a, tuple) and a[0] == 'ref':
            c = st.heap.get(a[1])
            return self.new(st, c.cp() if isinstance(c, Inst) else c)
        return a

    # ------------------------------------------------------------ built-ins
    def b_len(self, args, kw, st):
        def f(x):
            c = self.content(x, st)
            if isinstance(c, tuple) and c[0] in ('tup', 'arr'):
                return rc(len(c[1]))
            if isinstance(c, Inst):
                return top('len')
            if isinstance(c, tuple) and c[0] == 'set' and len(c[1]) > 1:
                n = self.distinct(c[1], st)
                return rc(n) if n is not None else top('len of a set')
            ps = self.pieces(x, st)
            if ps is None:
                if isinstance(c, tuple) and c[0] in ('sym', 'app') and not t.has_top(c):
                    return ra(('app', 'len', c))
                if isinstance(c, tuple) and c[0] == 'c' and isinstance(c[1], str):
                    return rc(len(c[1]))
                return top('len')
            r = rc(0)
            for _, g, bb, v in ps:
                n = ra(('len', bb, g)) if bb else gif(g, rc(1), rc(0))
                r = apply(lambda p, q: t.radd(p, q), r, n)
            return r
        r = self.dunder('__len__', args[0], [], st)
        return r if r is not None else apply(f, args[0])

    def b_sum(self, args, kw, st):
        ps = self.pieces(args[0], st)
        start = args[1] if len(args) > 1 else rc(0)
        if ps is None:
            return self.pure('sum', args, kw, st)
        for _, g, bb, v in ps:
            if bb:
                if not isinstance(v, Rat) and not isinstance(v, Ite) or t.has_top(v):
                    return top('sum')
                v = ra(('sum', bb, g, v))
                g = T
            start = gif(g, self.binop('Add', start, v, st), start)
        return start

    def np_sum(self, args, kw, st):
        if kw or len(args) != 1:
            return top('sum')
        if isarr(args[0]) and any(isarr(x) for x in args[0][1]):
            return top('sum')
        return self.b_sum(args, kw, st)

    def b_any(self, args, kw, st):
        ps = self.pieces(args[0], st)
        if ps is None:
            return top('any')
        r = F
        for _, g, bb, v in ps:
            c = gand(g, self.truth(v, st))
            r = gor(r, self.exists(bb, c) if bb else c)
        return r

    def b_all(self, args, kw, st):
        ps = self.pieces(args[0], st)
        if ps is None:
            return top('all')
        r = T
        for _, g, bb, v in ps:
            c = gand(g, gnot(self.truth(v, st)))
            r = gand(r, gnot(self.exists(bb, c) if bb else c))
        return r

    def np_any(self, args, kw, st):
        return self.np_bool(args, kw, st, self.b_any)

    def np_all(self, args, kw, st):
        return self.np_bool(args, kw, st, self.b_all)

    def np_bool(self, args, kw, st, f):
        a = args[0]
        if kw:
            return self.pure('numpy.' + f.__name__[2:], args, kw, st)
        if isarr(a) and any(isarr(x) for x in a[1]):
            a = ('arr', tuple(self.np_bool([x], {}, st, f) for x in a[1]))
        ls = list(t.leaves(a))
        if all(x in (T, F) for x in ls):
            return a
        return f([a], kw, st)

    def b_min(self, args, kw, st, mx=False):
        if 'key' in kw:
            return self.pure('max' if mx else 'min', args, {k: v for k, v in kw.items()}, st)
        if len(args) == 1:
            ps = self.pieces(args[0], st)
            if ps is None or any(p[1] != T or p[2] for p in ps) or not ps:
                return self.pure('max' if mx else 'min', args, kw, st)
            args = [p[3] for p in ps]
        r = args[0]
        for x in args[1:]:
            c = self.cmp('Lt', r, x, st) if mx else self.cmp('Lt', x, r, st)
            c = self.truth(c, st)
            if t.has_top(c):
                return top('min')
            r = gif(c, x, r)
        return r

    def b_max(self, args, kw, st):
        return self.b_min(args, kw, st, mx=True)

    np_minimum = lambda self, a, k, st: self.vecmin(a, k, st, False)
    np_maximum = lambda self, a, k, st: self.vecmin(a, k, st, True)

    def vecmin(self, args, kw, st, mx):
        x, y = args[:2]
        if isarr(x) or isarr(y):
            return self.vec(lambda p, q: self.b_min([p, q], {}, st, mx), x, y)
        return self.b_min([x, y], {}, st, mx)

    def np_min(self, args, kw, st):
        return self.np_ext(args, kw, st, False)

    def np_max(self, args, kw, st):
        return self.np_ext(args, kw, st, True)

    def np_ext(self, args, kw, st, mx):
        a = args[0]
        ax = kw.get('axis', args[1] if len(args) > 1 else None)
        ax = int(ax.const()) if isinstance(ax, Rat) and ax.const() is not None else None if ax is None else 'x'
        a = self.asarr(a, st)
        if isarr(a) and a[1]:
            if ax == 0 and all(isarr(y) for y in a[1]):
                return ('arr', tuple(self.b_min(list(col), {}, st, mx) if len(col) > 1 else col[0] for col in zip(*[y[1] for y in a[1]])))
            if ax in (None, 0) and not any(isarr(y) for y in a[1]):
                return self.b_min(list(a[1]), {}, st, mx) if len(a[1]) > 1 else a[1][0]
            if ax in (1, -1) and all(isarr(y) for y in a[1]):
                return ('arr', tuple(self.b_min(list(y[1]), {}, st, mx) for y in a[1]))
        return self.pure('numpy.max' if mx else 'numpy.min', args, kw, st)

    np_amin, np_amax = np_min, np_max

    def b_abs(self, args, kw, st):
        def f(x):
            if isarr(x):
                return ('arr', tuple(apply(f, y) for y in x[1]))
            if isinstance(x, tuple) and x[0] == 'inf':
                return ('inf', 1)
            if x == ('nan',):
                return x
            r = self.num(x)
            if r is None:
                return top('abs')
            return gif(t.sign_lt(r), t.rneg(r), r)
        return self.simp(apply(f, args[0]), st)

    np_abs = np_absolute = b_abs

    def b_zip(self, args, kw, st):
        pss = [self.pieces(a, st) for a in args]
        if any(p is None for p in pss):
            return top('zip')
        if all(all(q[1] == T and not q[2] for q in p) for p in pss):
            return seq([piece(('tup', tuple(q[3] for q in z))) for z in zip(*pss)])
        if all(len(p) == 1 and p[0][2] and p[0][1] == T for p in pss) and len({p[0][2] for p in pss}) == 1:
            return seq([('p', T, pss[0][0][2], ('tup', tuple(p[0][3] for p in pss)))])
        # the same pieces with the same guards
        if len({len(p) for p in pss}) == 1 and all(len({(q[1], q[2]) for q in z}) == 1 for z in zip(*pss)):
            return seq([('p', z[0][1], z[0][2], ('tup', tuple(q[3] for q in z))) for z in zip(*pss)])
        return top('zip')

    def b_enumerate(self, args, kw, st):
        ps = self.pieces(args[0], st)
        if ps is None:
            return top('enumerate')
        start = args[1] if len(args) > 1 else kw.get('start', rc(0))
        if all(p[1] == T and not p[2] for p in ps):
            return seq([piece(('tup', (self.binop('Add', start, rc(i), st), p[3]))) for i, p in enumerate(ps)])
        if isinstance(start, Rat) and all(isinstance(p[1], Ite) and not p[2] or p[1] == T for p in ps):
            # the number of elements before, and the position among those of the same piece
            res, base = [], start
            for _, g, bb, v in ps:
                res.append(('p', g, bb, ('tup', (t.radd(base, ra(('pos', bb, g))) if bb else base, v))))
                if bb:
                    base = t.radd(base, ra(('sum', bb, g, rc(1))))
                else:
                    base = self.binop('Add', base, t.gif(g, rc(1), rc(0)), None)
                if not isinstance(base, Rat):
                    return top('enumerate')
            return seq(res)
        if len(ps) == 1 and start == rc(0):
            return seq([('p', ps[0][1], ps[0][2], ('tup', (ra(('pos', ps[0][2], ps[0][1])), ps[0][3])))])
        return top('enumerate')

    def b_sorted(self, args, kw, st):
        ps = self.pieces(args[0], st)
        if ps is None:
            return self.new(st, top('sorted'))
        if all(p[1] == T and not p[2] for p in ps) and len(ps) > 1:
            return self.new(st, self.sortps(ps, kw, st))
        # the order of an unknown collection is not modelled
        return self.new(st, ('lst', tuple(ps)))

    def sortps(self, ps, kw, st):
        vs = [p[3] for p in ps]
        if len(vs) > getattr(self, 'sortmax', 5):
            return top('sorted')
        keys = vs
        if 'key' in kw and kw['key'] != NONE:
            keys = [self.call(kw['key'], [v], {}, st) for v in vs]
        rev = kw.get('reverse', F) == T
        # insertion sort on gated values
        out = []
        for k, v in zip(keys, vs):
            item = ('tup', (k, v))
            for i in range(len(out)):
                o = out[i]
                c = apply(lambda p, q: self.truth(self.cmp('Lt', q[1][0], p[1][0], st), st) if not rev
                          else self.truth(self.cmp('Lt', p[1][0], q[1][0], st), st), o, item)
                if t.has_top(c):
                    return top('sorted')
                out[i], item = gif(c, item, o), gif(c, o, item)
            out.append(item)
        return ('lst', tuple(piece(self.simp(apply(lambda z: z[1][1], x), st)) for x in out))

    def b_reversed(self, args, kw, st):
        ps = self.pieces(args[0], st)
        if ps is None:
            return self.pure('reversed', args, kw, st)
        return seq([('p', g, tuple((('rev', b[0]), b[1]) for b in bb), v) for _, g, bb, v in reversed(ps)])

    def b_range(self, args, kw, st):
        cs = [a.const() if isinstance(a, Rat) else None for a in args]
        if all(c is not None for c in cs) and all(c.denominator == 1 for c in cs):
            r = range(*[int(c) for c in cs])
            if len(r) <= 60:
                return seq([piece(rc(i)) for i in r])
            return top('range')
        if any(t.has_top(a) or isinstance(a, Ite) for a in args):
            return top('range')
        name, e = self.el(('range',) + tuple(args), 'num')
        return seq([('p', T, ((('range',) + tuple(args), name),), e)])

    def b_list(self, args, kw, st):
        if not args:
            return self.new(st, ('lst', ()))
        ps = self.pieces(args[0], st)
        return self.new(st, ('lst', tuple(ps)) if ps is not None else top('list'))

    def b_tuple(self, args, kw, st):
        if not args:
            return ('tup', ())
        ps = self.pieces(args[0], st)
        if ps is None:
            a = args[0]
            return a if isinstance(a, tuple) and a[0] in ('sym', 'app') else top('tuple')
        if all(p[1] == T and not p[2] for p in ps):
            return ('tup', tuple(p[3] for p in ps))
        return seq(ps)

    def b_set(self, args, kw, st):
        if not args:
            return self.new(st, ('set', ()))
        ps = self.pieces(args[0], st)
        if ps is None:
            return self.new(st, top('set'))
        return self.new(st, ('set', self.uniq(ps)))

    b_frozenset = b_set

    def distinct(self, ps, st):
        """Number of distinct elements of plain pieces, or None if undetermined."""
        if not all(z[1] == T and not z[2] for z in ps):
            return None
        vs = list(dict.fromkeys(z[3] for z in ps))
        if all(isinstance(v, tuple) and v[0] == 'c' for v in vs):
            return len(vs)
        if len(vs) > 40 or any(t.has_top(v) for v in vs):
            return None
        for i, a in enumerate(vs):
            for b in vs[:i]:
                if self.simp(self.truth(self.cmp('Eq', a, b, st), st), st) != F:
                    return None
        return len(vs)

    def b_dict(self, args, kw, st):
        m = ('map', ('empty',), ())
        if args:
            c = self.content(args[0], st)
            if isinstance(c, tuple) and c[0] == 'map':
                m = c
            else:
                ps = self.pieces(args[0], st)
                m = self.dictof(ps) if ps is not None else top('dict')
        for k, v in kw.items():
            m = self.store(m, ('c', k), v)
        return self.new(st, m)

    def b_bool(self, args, kw, st):
        return self.truth(args[0], st) if args else F

    def b_isinstance(self, args, kw, st):
        return self.simp(apply(lambda x, c: self.inst(x, c, st), args[0], args[1]), st)

    def inst(self, x, c, st):
        if isinstance(c, tuple) and c[0] == 'tup':
            r = F
            for y in c[1]:
                r = gor(r, self.inst(x, y, st))
            return r
        if not isinstance(c, tuple) or c[0] not in ('cls', 'ext'):
            return top('isinstance')
        if t.is_top(x):
            return top('isinstance')
        n = c[1]
        if isinstance(x, Rat):
            if n == 'numclass':
                return T
            if n == 'builtins.int':
                k = x.const()
                return T if k is not None and k.denominator == 1 else F
            return F
        if x[0] == 'ref':
            z = st.heap.get(x[1])
            if isinstance(z, Inst):
                return T if n in self.mro(z.cid) else F
            z = z[0] if isinstance(z, tuple) else '?'
            return T if {'lst': 'builtins.list', 'set': 'builtins.set', 'map': 'builtins.dict'}.get(z) == n else F
        if x[0] == 'tup':
            return ('c', n == 'builtins.tuple')
        if x[0] == 'rec':
            return ('c', n in self.mro(x[1]))
        if x[0] == 'c':
            return ('c', n == 'builtins.' + type(x[1]).__name__)
        if x[0] == 'sym' and isinstance(x[2], tuple) and x[2][0] == 'obj':
            return ('c', x[2][1] in self.p.class_by_cid and n in self.mro(x[2][1]))
        return Ite(('isinstance', x, n), T, F)

    def b_callable(self, args, kw, st):
        return apply(lambda x: ('c', isinstance(x, tuple) and x[0] in ('fn', 'bm', 'cls', 'ext', 'meth')), args[0])

    def b_map(self, args, kw, st):
        if len(args) != 2:
            return top('map')
        ps = self.pieces(args[1], st)
        if ps is None:
            return top('map')
        return seq([('p', g, bb, self.under(bb, g, st, lambda: self.call(args[0], [v], {}, st))) for _, g, bb, v in ps])

    def b_filter(self, args, kw, st):
        ps = self.pieces(args[1], st)
        if ps is None:
            return top('filter')
        out = []
        for _, g, bb, v in ps:
            c = self.under(bb, g, st, lambda: self.truth(self.call(args[0], [v], {}, st) if args[0] != NONE else v, st))
            out.append(('p', gand(g, c), bb, v))
        return seq(out)

    def under(self, bb, g, st, f):
        self.binders.extend(bb)
        p0 = st.pend
        st.pend = F
        try:
            v = f()
        finally:
            del self.binders[len(self.binders) - len(bb):]
        if st.pend != F:
            c = gand(g, st.pend)
            st.pend = gor(p0, self.exists(bb, c) if bb else c)
        else:
            st.pend = p0
        return v

    def b_iter(self, args, kw, st):
        return args[0]

    def b_next(self, args, kw, st):
        ps = self.pieces(args[0], st)
        if ps and ps[0][1] == T and not ps[0][2]:
            if isinstance(args[0], tuple) and args[0][0] == 'ref':
                return top('next')
            return ps[0][3]
        return top('next')

    def b_getattr(self, args, kw, st):
        if args[1][0] == 'c':
            return self.getattr(args[0], args[1][1], st)
        return top('getattr')

    def b_setattr(self, args, kw, st):
        if args[1][0] == 'c':
            self.setattr(args[0], args[1][1], args[2], st)
            return NONE
        self.havoc(args[0], st)
        return NONE

    def b_hasattr(self, args, kw, st):
        return top('hasattr')

    def b_type(self, args, kw, st):
        return self.getattr(args[0], '__class__', st) if len(args) == 1 else top('type')

    def b_float(self, args, kw, st):
        def f(x):
            if x == ('c', 'inf'):
                return ('inf', 1)
            if x == ('c', '-inf'):
                return ('inf', -1)
            if x == ('c', 'nan'):
                return ('nan',)
            return ('app', 'float', x) if not t.has_top(x) else top('float')
        return apply(f, args[0])

    def b_int(self, args, kw, st):
        def f(x):
            if isinstance(x, Rat) and x.const() is not None:
                return rc(int(x.const()))
            return ra(('app', 'int', x)) if not t.has_top(x) else top('int')
        return apply(f, args[0])

    def b_pow(self, args, kw, st):
        return self.binop('Pow', args[0], args[1], st)

    def b_divmod(self, args, kw, st):
        return ('tup', (self.binop('FloorDiv', args[0], args[1], st), self.binop('Mod', args[0], args[1], st)))

    def b_locals(self, args, kw, st):
        return ('sym', ('locals',), 'any')

    b_globals = b_locals

    def b_object(self, args, kw, st):
        return ('ref', self.fresh())

    def b_print(self, args, kw, st):
        return NONE

    # ------------------------------------------------------------ math, itertools
    def m_ceil(self, args, kw, st):
        return self.rounding('ceil', args[0], lambda c: math.ceil(c))

    def m_floor(self, args, kw, st):
        return self.rounding('floor', args[0], lambda c: math.floor(c))

    def rounding(self, name, a, g):
        def f(x):
            r = self.num(x)
            if r is None or t.has_top(x):
                return top(name)
            if r.const() is not None:
                return rc(g(r.const()))
            return ra(('app', name, r))
        return apply(f, a)

    def it_chain(self, args, kw, st):
        ps = []
        for a in args:
            p = self.pieces(a, st)
            if p is None:
                return top('chain')
            ps += p
        return seq(ps)

    def it_combinations(self, args, kw, st):
        ps = self.pieces(args[0], st)
        n = args[1].const() if isinstance(args[1], Rat) else None
        if ps is not None and n is not None and all(p[1] == T and not p[2] for p in ps):
            import itertools
            return seq([piece(('tup', z)) for z in itertools.combinations([p[3] for p in ps], int(n))])
        return self.pure('itertools.combinations', args, kw, st)
