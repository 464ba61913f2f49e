"""Engine B: arrays, geometries, lists, maps and records."""
from . import terms as t
from .terms import T, F, NONE, Ite, Rat, Giveup, top, apply, gif, gnot, gand, gor, rc, ra
from .gvg import Env, Inst, St, seq, piece
from .lib import Lib, isarr


class Engine(Lib):
    assume_keys = True

    # ------------------------------------------------------------ arrays
    def asarr(self, v, st):
        if isinstance(v, Ite):
            return apply(lambda x: self.asarr(x, st), v)
        if isinstance(v, Rat):
            return v
        c = self.content(v, st)
        ps = self.flat(c) if isinstance(c, (tuple, Ite)) else None
        if isinstance(v, tuple) and v[0] in ('arr',):
            return v
        if ps is None or not all(p[1] == T and not p[2] for p in ps):
            if ps is not None:
                return ('arrs', tuple(('p', q[1], q[2], self.asarr(q[3], st)) for q in ps))
            if isinstance(c, tuple) and c[0] == 'sym' and isinstance(c[2], tuple) and c[2][0] == 'seq':
                return ('arrs', tuple(('p', q[1], q[2], self.asarr(q[3], st)) for q in self.pieces(c, st)))
            return v
        return ('arr', tuple(self.asarr(p[3], st) for p in ps))

    def np_array(self, args, kw, st):
        r = self.asarr(args[0], st)
        if isinstance(r, tuple) and r[0] == 'ref':
            return top('array')
        if isarr(r):
            return self.x_arr_copy(r, [], {}, st)
        return r

    def np_asarray(self, args, kw, st):
        r = self.asarr(args[0], st)
        return top('array') if isinstance(r, tuple) and r[0] == 'ref' else r

    np_asanyarray = np_asarray
    np_stack = np_array

    def np_dot(self, args, kw, st):
        return apply(lambda a, b: self.dot(a, b), self.asarr(args[0], st), self.asarr(args[1], st))

    np_inner = np_dot

    def dot(self, a, b):
        if not isarr(a) or not isarr(b):
            x, y = self.num(a) if not isarr(a) else None, self.num(b) if not isarr(b) else None
            if x is not None and y is not None:
                return t.rmul(x, y)
            return top('dot')
        ma = bool(a[1]) and all(isarr(x) for x in a[1])
        mb = bool(b[1]) and all(isarr(x) for x in b[1])
        if ma:
            return ('arr', tuple(self.dot(x, b) for x in a[1]))
        if mb:
            if len(a[1]) != len(b[1]):
                return top('dot shapes')
            cols = list(zip(*[x[1] for x in b[1]]))
            return ('arr', tuple(self.dot(a, ('arr', tuple(c))) for c in cols))
        if len(a[1]) != len(b[1]):
            return top('dot shapes')
        r = rc(0)
        for x, y in zip(a[1], b[1]):
            p = apply(lambda u, v: self.bin('Mult', u, v), x, y)
            r = apply(lambda u, v: self.bin('Add', u, v), r, p)
        return r

    def np_cross(self, args, kw, st):
        a, b = self.asarr(args[0], st), self.asarr(args[1], st)
        if isarr(a) and isarr(b) and len(a[1]) == len(b[1]) == 3:
            def m(i, j):
                return self.bin('Sub', self.bin('Mult', a[1][i], b[1][j]), self.bin('Mult', a[1][j], b[1][i]))
            try:
                return ('arr', (m(1, 2), m(2, 0), m(0, 1)))
            except Exception:
                return top('cross')
        return self.pure('numpy.cross', args, kw, st)

    def np_zeros(self, args, kw, st):
        def mk(dims):
            return rc(0) if not dims else ('arr', tuple(mk(dims[1:]) for _ in range(dims[0])))
        a = args[0]
        ds = [a] if isinstance(a, Rat) else [p[3] for p in self.pieces(a, st) or ()]
        if ds and all(isinstance(d, Rat) and d.const() is not None for d in ds):
            return mk([int(d.const()) for d in ds])
        return top('zeros')

    def np_arange(self, args, kw, st):
        r = self.b_range(args, {}, st) if not kw else top('arange')
        ps = self.pieces(r, st) if not t.has_top(r) else None
        if ps is not None and all(z[1] == T and not z[2] for z in ps):
            return ('arr', tuple(z[3] for z in ps))
        return self.pure('numpy.arange', args, kw, st)

    def np_linspace(self, args, kw, st):
        n = args[2] if len(args) > 2 else kw.get('num')
        if set(kw) - {'num'} or not (isinstance(n, Rat) and n.const() is not None) or not all(isinstance(a, Rat) for a in args[:2]):
            return self.pure('numpy.linspace', args, kw, st)
        n = int(n.const())
        a, b = args[:2]
        return ('arr', tuple(t.radd(a, t.rmul(rc(i), t.rdiv(t.rsub(b, a), rc(max(n - 1, 1))))) for i in range(n)))

    def np_argsort(self, args, kw, st):
        ps = self.pieces(args[0], st)
        if kw or len(args) != 1 or ps is None or len(ps) > 8 or any(z[1] != T or z[2] or not isinstance(z[3], Rat) for z in ps):
            return self.pure('numpy.argsort', args, kw, st)
        xs = []
        for i, z in enumerate(ps):
            j = len(xs)
            while j:
                c = self.truth(self.cmp('Lt', z[3], ps[xs[j - 1]][3], st), st)
                if c not in (T, F):
                    return self.pure('numpy.argsort', args, kw, st)
                if c == F:
                    break
                j -= 1
            xs.insert(j, i)
        return ('arr', tuple(rc(i) for i in xs))

    def np_argmax(self, args, kw, st, op='Gt'):
        ps = self.pieces(args[0], st) if len(args) == 1 and not kw else None
        if not ps or len(ps) > 6 or not all(z[1] == T and not z[2] and not t.has_top(z[3]) for z in ps):
            return self.pure('numpy.argmax', args, kw, st) if op == 'Gt' else top('argmin')
        best, at = ps[0][3], rc(0)
        for i, z in enumerate(ps[1:], 1):
            c = self.truth(self.cmp(op, z[3], best, st), st)
            if t.has_top(c):
                return top('argmax')
            best, at = gif(c, z[3], best), gif(c, rc(i), at)
        return at

    def np_argmin(self, args, kw, st):
        return self.np_argmax(args, kw, st, 'Lt')

    def np_roll(self, args, kw, st):
        a, k = args[0], args[1]
        if isarr(a) and isinstance(k, Rat) and k.const() is not None:
            n = int(k.const()) % len(a[1])
            return ('arr', a[1][-n:] + a[1][:-n])
        return self.pure('numpy.roll', args, kw, st)

    def np_concatenate(self, args, kw, st):
        ps = self.pieces(args[0], st)
        if ps is not None and not kw and all(p[1] == T and not p[2] for p in ps):
            xs = [self.asarr(p[3], st) for p in ps]
            if all(isarr(x) for x in xs):
                return ('arr', tuple(y for x in xs for y in x[1]))
        return self.pure('numpy.concatenate', args, kw, st)

    def np_sort(self, args, kw, st):
        a = self.asarr(args[0], st)
        if isarr(a) and not any(isarr(x) for x in a[1]):
            r = self.sortps([piece(x) for x in a[1]], {}, st)
            if r[0] == 'lst':
                return ('arr', tuple(p[3] for p in r[1]))
        return self.pure('numpy.sort', args, kw, st)

    def np_array_equal(self, args, kw, st):
        a, b = self.asarr(args[0], st), self.asarr(args[1], st)
        if isarr(a) and isarr(b):
            if len(a[1]) != len(b[1]):
                return F
            return self.np_all([self.vec(lambda p, q: self.same(p, q), a, b)], {}, st)
        return top('array_equal')

    def np_vectorize(self, args, kw, st):
        return ('vect', args[0]) if args else top('vectorize')

    def vectorized(self, f, args, kw, st):
        """A function applied to every entry of an array."""
        if len(args) != 1 or kw:
            return top('vectorized call')

        def go(x):
            if isarr(x):
                return ('arr', tuple(apply(go, y) for y in x[1]))
            return self.call(f, [x], {}, st)
        return apply(go, self.asarr(args[0], st))

    def np_sign(self, args, kw, st):
        return self.simp(apply(lambda x: gif(t.sign_lt(x), rc(-1), gif(t.sign_eq(x), rc(0), rc(1))) if isinstance(x, Rat) else top('sign'), args[0]), st)

    # ------------------------------------------------------------ methods
    def meth(self, name, x, args, kw, st):
        ls = list(t.leaves(x))
        kinds = set()
        for y in ls:
            if isinstance(y, Rat):
                kinds.add('num')
            elif y[0] == 'ref':
                kinds.add(self.kind(y, st))
            elif y[0] == 'ext':
                kinds.add('ext:' + y[1])
            else:
                kinds.add(y[0])
        if len(kinds) == 1:
            k = kinds.pop()
            m = getattr(self, 'x_%s_%s' % (k, name), None)
            if m is not None:
                return m(x, args, kw, st)
            if k in ('sym', 'app', 'num') and not any(self.mut(a, st) for a in args + list(kw.values())):
                return self.pure('.' + name, [x] + args, kw, st)
            if k == 'c' and not any(self.mut(a, st) for a in args):
                return ('app', 'textm', x, ('c', name)) + tuple(self.freeze(a, st) for a in args)
        self.escape([x] + args, kw, st)
        return top('method ' + name)

    def x_c_join(self, x, args, kw, st):
        ps = self.pieces(args[0], st) if args else None
        if isinstance(x[1], str) and ps is not None and all(p[1] == T and not p[2] for p in ps):
            vs = []
            for p in ps:
                vs += ([x] if vs else []) + [p[3]]
            if all(isinstance(v, (tuple, Ite)) for v in vs):
                return self.text(vs)
        if args and not self.mut(args[0], st):
            return ('app', 'textm', x, ('c', 'join'), self.freeze(args[0], st))
        return top('join')

    def x_c_format(self, x, args, kw, st):
        if isinstance(x[1], str) and not kw and '%' not in x[1]:
            v = self.percent(x[1].replace('{}', '%s'), tuple(args))
            if v is not None and not any(z in x[1].replace('{}', '') for z in '{}'):
                return v
        if not any(self.mut(a, st) for a in args + list(kw.values())):
            return ('app', 'textm', x, ('c', 'format')) + tuple(self.freeze(a, st) for a in args + list(kw.values()))
        return top('format')

    # arrays
    def x_arr_dot(self, x, args, kw, st):
        return self.np_dot([x] + args, kw, st)

    def x_arr_copy(self, x, args, kw, st):
        return ('arr', tuple(self.x_arr_copy(y, args, kw, st) if isarr(y) else y for y in x[1]))

    x_arr_tolist = lambda self, x, a, k, st: self.tolist(x, st)
    x_arr_astype = x_arr_copy

    def x_arrs_tolist(self, x, a, k, st):
        return self.new(st, ('lst', tuple(('p', p[1], p[2], self.tolist(p[3], st)) for p in x[1])))

    def x_arrs_copy(self, x, a, k, st):
        return x

    def tolist(self, x, st):
        if isarr(x):
            return self.new(st, ('lst', tuple(piece(self.tolist(y, st)) for y in x[1])))
        return x

    def x_arr_all(self, x, args, kw, st):
        return self.np_all([x] + args, kw, st)

    def x_arr_any(self, x, args, kw, st):
        return self.np_any([x] + args, kw, st)

    def x_arr_sum(self, x, args, kw, st):
        return self.np_sum([x] + args, kw, st)

    def x_arr_min(self, x, args, kw, st):
        return self.np_min([x] + args, kw, st)

    def x_arr_max(self, x, args, kw, st):
        return self.np_max([x] + args, kw, st)

    # geometries
    def x_geo_is_empty(self, x, args, kw, st):
        return self.geo_fun(x, lambda d, g: T if g == F else Ite(('empty', d, g), T, F))

    def geo_fun(self, x, f):
        def h(y):
            # keep the whole set as one term
            return f(y[1], y[2])
        return self.map_geo(x, h)

    def map_geo(self, x, h):
        if isinstance(x, Ite) and not (isinstance(x.atom, tuple) and x.atom[0] == 'in'):
            return t.ite2(x.atom, self.map_geo(x.a, h), self.map_geo(x.b, h))
        return h(x) if not isinstance(x, Ite) else top('geo')

    def x_geo_area(self, x, args, kw, st):
        return self.geo_fun(x, lambda d, g: rc(0) if g == F else ra(('meas', d, g)))

    x_geo_measure1d = x_geo_area

    def x_geo_buffer(self, x, args, kw, st):
        amt = args[0]
        return self.geo_fun(x, lambda d, g: self.buffered(d, g, amt))

    def buffered(self, d, g, amt):
        if g == F:
            return ('geo', d, F)
        if amt == rc(0):
            return ('geo', d, g)
        if t.has_top(amt):
            return top('buffer')
        return ('geo', d, Ite(('in', ('buf', d, g, amt)), T, F))

    def x_geo_project_to_1d(self, x, args, kw, st):
        fs = tuple(self.freeze(a, st) for a in args)
        if kw or any(f is None or t.has_top(f) for f in fs):
            return top('project')
        return self.geo_fun(x, lambda d, g: ('geo', 1, F) if g == F else ('geo', 1, Ite(('in', ('proj', g) + fs), T, F)))

    def geo_union(self, arg, dim, st):
        ps = self.pieces(arg, st)
        if ps is None:
            return top('union')
        r = F
        for _, g, bb, v in ps:
            if isinstance(v, Ite) or not isinstance(v, tuple) or v[0] != 'geo':
                return top('union')
            r = gor(r, self.big(bb, g, v[2]) if bb else gand(g, v[2]))
        return ('geo', dim, r)

    # lists
    def upd(self, x, st, f):
        if not (isinstance(x, tuple) and x[0] == 'ref'):
            self.havoc(x, st)
            return NONE
        st.heap[x[1]] = apply(lambda c: f(c) if c[0] == 'lst' else ('set', self.uniq(f(c)[1])) if c[0] == 'set' else top('update'), st.heap[x[1]])
        return NONE

    def x_lst_append(self, x, args, kw, st):
        return self.upd(x, st, lambda c: (c[0], c[1] + (piece(args[0]),)))

    x_set_add = x_lst_append

    def x_lst_extend(self, x, args, kw, st):
        ps = self.pieces(args[0], st)
        if ps is None:
            self.havoc(x, st)
            return NONE
        return self.upd(x, st, lambda c: (c[0], c[1] + tuple(ps)))

    x_set_update = x_lst_extend

    def x_lst_insert(self, x, args, kw, st):
        if args[0] == rc(0):
            return self.upd(x, st, lambda c: (c[0], (piece(args[1]),) + c[1]))
        self.havoc(x, st)
        return NONE

    def x_lst_reverse(self, x, args, kw, st):
        return self.upd(x, st, lambda c: (c[0], tuple(('p', g, tuple((('rev', b[0]), b[1]) for b in bb), v) for _, g, bb, v in reversed(c[1]))))

    def x_lst_sort(self, x, args, kw, st):
        ps = self.pieces(x, st)
        if isinstance(x, tuple) and x[0] == 'ref' and ps is not None:
            if all(p[1] == T and not p[2] for p in ps) and len(ps) > 1:
                st.heap[x[1]] = self.sortps(ps, kw, st)
            return NONE
        self.havoc(x, st)
        return NONE

    def x_lst_pop(self, x, args, kw, st):
        c = self.content(x, st)
        if isinstance(c, tuple) and c[0] == 'lst' and all(p[1] == T and not p[2] for p in c[1]) and c[1]:
            i = int(args[0].const()) if args and isinstance(args[0], Rat) and args[0].const() is not None else -1 if not args else None
            if i is not None and -len(c[1]) <= i < len(c[1]):
                ps = list(c[1])
                v = ps.pop(i)[3]
                st.heap[x[1]] = ('lst', tuple(ps))
                return v
        self.havoc(x, st)
        return top('pop')

    def x_lst_copy(self, x, args, kw, st):
        return self.new(st, self.content(x, st))

    x_set_copy = x_map_copy = x_lst_copy

    def x_set_union(self, x, args, kw, st):
        ps = self.pieces(x, st)
        for a in args:
            p = self.pieces(a, st)
            if p is None or ps is None:
                return top('union')
            ps = ps + p
        return self.new(st, ('set', self.uniq(ps)))

    def x_set_difference(self, x, args, kw, st, op='Sub'):
        ps = self.pieces(x, st)
        for a in args:
            p = self.pieces(a, st)
            ps = self.setop(ps, p, op, st) if p is not None and ps is not None else None
        return self.new(st, ('set', tuple(ps)) if ps is not None else top('difference'))

    def x_set_intersection(self, x, args, kw, st):
        return self.x_set_difference(x, args, kw, st, 'BitAnd')

    def x_set_difference_update(self, x, args, kw, st):
        for a in args:
            self.extend_ref(x, a, st, 'Sub')
        return NONE

    def x_set_discard(self, x, args, kw, st):
        self.extend_ref(x, ('tup', (args[0],)), st, 'Sub')
        return NONE

    def x_set_remove(self, x, args, kw, st):
        c = self.content(x, st)
        if isinstance(c, tuple) and c[0] == 'set':
            # removing what is not there is an error
            st.pend = gor(st.pend, gnot(self.member(args[0], c, st)))
        self.extend_ref(x, ('tup', (args[0],)), st, 'Sub')
        return NONE

    def x_lst_remove(self, x, args, kw, st):
        c = self.content(x, st)
        if isinstance(c, tuple) and c[0] == 'lst' and all(p[1] == T and not p[2] for p in c[1]):
            for i, p in enumerate(c[1]):
                eq = self.same(p[3], args[0])
                if eq == T:
                    st.heap[x[1]] = ('lst', c[1][:i] + c[1][i + 1:])
                    return NONE
                if eq != F:
                    break
            else:
                st.pend = T
                return NONE
        self.havoc(x, st)
        return top('remove')

    def x_tup_index(self, x, args, kw, st):
        return self.pure('.index', [x] + args, kw, st)

    # maps
    def mapc(self, x, st):
        return self.content(x, st) if isinstance(x, tuple) and x[0] == 'ref' else x

    def x_map_get(self, x, args, kw, st):
        m = self.mapc(x, st)
        v = self.select(m, args[0])
        d = args[1] if len(args) > 1 else NONE
        if isinstance(m, tuple) and m[0] == 'map' and m[1] == ('empty',):
            return apply(lambda y: d if y == ('app', 'KeyError') else y, v)
        if self.assume_keys and len(args) == 1:
            return v
        return gif(self.haskey(m, args[0], st), v, d) if isinstance(m, tuple) else top('get')

    def x_map_set(self, x, args, kw, st):
        return self.store(self.mapc(x, st), args[0], args[1])

    def x_map_items(self, x, args, kw, st, what='items'):
        m = self.mapc(x, st)
        ps = self.mapiter(m, what)
        return seq(ps) if ps is not None else top(what)

    def x_map_keys(self, x, args, kw, st):
        return self.x_map_items(x, args, kw, st, 'keys')

    def x_map_values(self, x, args, kw, st):
        return self.x_map_items(x, args, kw, st, 'values')

    def x_map_setdefault(self, x, args, kw, st):
        self.havoc(x, st)
        return top('setdefault')

    def x_map_update(self, x, args, kw, st):
        if isinstance(x, tuple) and x[0] == 'ref' and not kw and len(args) == 1:
            ps = self.mapiter(self.mapc(args[0], st), 'items')
            m = self.mapc(x, st)
            if ps is not None and all(not p[2] for p in ps):
                for _, g, bb, v in ps:
                    m = self.store(m, v[1][0], v[1][1], g)
                st.heap[x[1]] = m
                return NONE
        if isinstance(x, tuple) and x[0] == 'map':
            m = x
            ps = self.mapiter(self.mapc(args[0], st), 'items') if args else []
            if ps is not None and all(not p[2] or isinstance(p[3], tuple) and p[3][0] == 'tup' for p in ps):
                for _, g, bb, v in ps:
                    if bb:
                        m = ('map', m[1], m[2] + (('bulk', bb, g, v[1][0], v[1][1], ('accm', 'none')),))
                    else:
                        m = self.store(m, v[1][0], v[1][1], g)
                return m
            return top('update')
        self.havoc(x, st)
        return NONE

    def x_map_transform(self, x, args, kw, st):
        return self.transform(self.mapc(x, st), args, st)

    def x_map___contains__(self, x, args, kw, st):
        return self.member(args[0], x, st)

    # records
    def x_rec_set(self, x, args, kw, st):
        for k, v in list(kw.items()) + ([(args[0][1], args[1])] if len(args) == 2 and args[0][0] == 'c' else []):
            x = self.recset(x, k, v)
        return x

    def recset(self, x, k, v):
        def f(y):
            d = dict(y[2])
            d[k] = v
            return ('rec', y[1], tuple(sorted(d.items())))
        return apply(f, x) if isinstance(x, Ite) else f(x)

    def x_rec_transform(self, x, args, kw, st):
        return self.transform(x, args, st)

    def transform(self, x, args, st):
        if len(args) % 2 or isinstance(x, Ite):
            return top('transform')
        for i in range(0, len(args), 2):
            ps = self.pieces(args[i], st)
            if ps is None or any(p[1] != T or p[2] for p in ps):
                return top('transform')
            x = self.trans1(x, [p[3] for p in ps], args[i + 1], st)
        return x

    def trans1(self, x, path, f, st):
        if not path:
            if isinstance(f, tuple) and f[0] in ('fn', 'bm', 'part', 'meth', 'ext', 'cls'):
                return self.call(f, [x], {}, st)
            return f
        k = path[0]
        if isinstance(x, tuple) and x[0] == 'rec' and k[0] == 'c':
            return self.recset(x, k[1], self.trans1(self.getattr1(x, k[1], st), path[1:], f, st))
        m = self.content(x, st)
        if isinstance(m, tuple) and m[0] == 'map':
            return self.store(m, k, self.trans1(self.select(m, k), path[1:], f, st))
        return top('transform')

    # pyrsistent
    def pyr_pmap(self, args, kw, st):
        if not args:
            return ('map', ('empty',), ())
        c = self.content(args[0], st)
        return c if isinstance(c, (tuple, Ite)) else top('pmap')

    def pyr_m(self, args, kw, st):
        m = ('map', ('empty',), ())
        for k, v in kw.items():
            m = self.store(m, ('c', k), v)
        return m

    def pyr_pvector(self, args, kw, st):
        ps = self.pieces(args[0], st) if args else []
        return seq(ps) if ps is not None else top('pvector')

    pyr_v = lambda self, args, kw, st: seq([piece(a) for a in args])

    def pyr_field(self, args, kw, st):
        return ('app', 'field')

    def pyr_thaw(self, args, kw, st):
        return args[0]

    pyr_freeze = pyr_thaw

    def rat_attr(self, x, name):
        if name == '__class__':
            return ('ext', 'numclass')
        return None

    # ------------------------------------------------------------ running
    def run(self, fid, args, kw=None, st=None, frame=None):
        """Outcome of a function on symbolic arguments: (value, state); state.pend is the condition of failing."""
        st = st or St({}, ('root',), {})
        if st.frame not in st.heap:
            st.heap[st.frame] = Env()
        fi = self.p.func_by_fid[fid]
        old, Ite.left = Ite.left, self.BUDGET
        try:
            v = self.inline(fi, list(args), dict(kw or {}), st, frame)
        finally:
            Ite.left = old
        return v, st

    BUDGET = 3000000


def opaque(name, ty):
    """Primitive: a function treated as an unknown one of its arguments."""
    def h(eng, args, kw, st):
        fs = [eng.freeze(a, st) for a in args] + [('kw', k, eng.freeze(v, st)) for k, v in sorted(kw.items())]
        if any(f is None or t.has_top(f) for f in fs):
            return top(name)
        return eng.sym(ty, ('app', name) + tuple(fs))
    return h
