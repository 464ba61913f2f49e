"""Engine A: numpy functions, ndarray methods, methods of opaque objects."""
from .absint import (V, BOT, EMPTY, NONE, BOOL, VB, VNONE, EXACTK, FLOATK, join,
                     joinall, taint, strip, is_loop_taint, const_atom)

FRESH = ('x', 'fresh')
VX = V(FRESH)
INT = ('n', 'int', None)
DXF_ADD = ('add_lwpolyline', 'add_polyline2d', 'add_line', 'add_circle', 'add_arc', 'add_polyline3d', 'add_spline',
           'add_hatch', 'add_text', 'add_point', 'add_entity', 'add_lwpolyline2')
BOOLFN = ('isfinite', 'isinf', 'isnan', 'equal', 'not_equal', 'less', 'greater', 'less_equal', 'greater_equal', 'isclose')
SHAPEFN = ('reshape', 'ravel', 'squeeze', 'transpose', 'atleast_1d', 'atleast_2d', 'ascontiguousarray', 'copy',
           'flip', 'flipud', 'fliplr', 'roll', 'swapaxes', 'expand_dims', 'repeat', 'tile', 'broadcast_to')
FLOATFN = ('sqrt', 'linspace', 'mean', 'median', 'std', 'var', 'cos', 'sin', 'tan', 'arctan', 'arctan2', 'arccos', 'exp', 'log', 'hypot',
           'radians', 'degrees', 'average', 'percentile')


class ArrMixin:
    def scalars(self, v, lim=4):
        """Join of the scalar leaves of a nested sequence."""
        I = self.I
        r = BOT
        for a in v[0]:
            if a[0] == 'o' and lim:
                o = I.obj(a)
                if o.kind in ('ndarray', 'list', 'tuple', 'iter', 'set', 'gen', 'frozenset'):
                    e = I.elem_atom(a, v[1])
                    if e != BOT:
                        r = join(r, self.scalars(e, lim - 1))
                    continue
            r = join(r, V(a, t=v[1]))
        return r

    def nest_nd(self, v, lim=3):
        r = EMPTY
        for a in v[0]:
            if a[0] == 'o' and lim and self.I.obj(a).kind in ('ndarray', 'list', 'tuple', 'iter', 'gen'):
                r |= self.nd_val(V(a)) | self.nest_nd(self.I.elem_atom(a, EMPTY), lim - 1)
        return r

    def to_array(self, v, node, dtype=None, lim=4):
        """np.array of nested sequences."""
        I = self.I
        r = BOT
        for a in v[0]:
            if a[0] == 'o':
                o = I.obj(a)
                if o.kind in ('list', 'tuple', 'ndarray', 'iter') and lim:
                    if o.kind == 'iter':
                        I.note('badop', node, key=('array of an iterator',)) if False else None
                    if o.n is not None:
                        f = {i: self.to_array(I.load_from(a, EMPTY, i), node, dtype, lim - 1) for i in range(o.n)}
                        kinds = {x[1] for fv in f.values() for x in fv[0] if x[0] == 'n'}
                        f = {i: self.unify(fv, kinds, node) for i, fv in f.items()}
                        r = join(r, self.new_arr(node, o.n, f, self.nd_of(a), 50 + lim))
                    else:
                        e0 = I.elem_atom(a, EMPTY)
                        e = self.to_array(e0, node, dtype, lim - 1) if e0 != BOT else BOT
                        kinds = {x[1] for x in e[0] if x[0] == 'n'}
                        r = join(r, self.new_seq(node, 'ndarray', self.unify(e, kinds, node), self.nd_of(a), tag='array%d' % lim))
                    continue
                if o.kind in ('set', 'frozenset', 'dict', 'gen'):
                    # numpy makes a 0-dimensional object array of these
                    I.note('badop', node, key=('np.array', o.kind))
                    continue
                r = join(r, V(a))
            elif a[0] == 'n':
                r = join(r, V(self.npkind(a)) if lim == 4 else V(a))
                if dtype == 'float':
                    r = taint(join(BOT, V(('n', 'float', None))), self.frt(node) if a[1] in EXACTK else EMPTY)
            else:
                r = join(r, V(a))
        return taint(r, v[1])

    def npkind(self, a):
        return a

    def unify(self, v, kinds, node):
        """Machine numbers in one array get one type; mpq keeps object arrays exact."""
        if any(k in ('mpq', 'frac', 'mpz') for k in kinds):
            return v
        if any(k in ('float', 'npfloat') for k in kinds) and any(k in ('int', 'npint', 'bool') for k in kinds):
            out = set()
            t = v[1]
            for a in v[0]:
                if a[0] == 'n' and a[1] in ('int', 'npint', 'bool'):
                    c = a[2] is not None and a[2][0] == 'c'
                    out.add(('n', 'float', a[2] if c else None))
                    if not c:
                        t = t | self.frt(node)
                else:
                    out.add(a)
            return (frozenset(out), t)
        return v

    def dtype_of(self, kwargs):
        d = kwargs.get('dtype')
        if d is None:
            return None
        for a in d[0]:
            if a[0] == 'k' and a[1] in ('float', 'npfloat') or a[0] == 'e' and 'float' in a[1]:
                return 'float'
            if a[0] == 's' and a[1] and a[1][0] == 'c' and str(a[1][1])[:1] in ('f', 'd'):
                return 'float'
        return None

    def np_call(self, n, args, kwargs, node, t):
        I = self.I
        t = frozenset(x for x in t if x[0] != 'NDO')
        if n in ('array', 'asarray', 'asanyarray', 'stack', 'vstack', 'hstack', 'concatenate', 'column_stack', 'row_stack', 'array_split'):
            if n in ('vstack', 'hstack', 'concatenate'):
                inner = I.elem(args[0])
                nd = self.nest_nd(args[0])
                e = I.elem(inner)
                if e == BOT:
                    e = inner
                return taint(self.new_seq(node, 'ndarray', e, nd, tag=n), t)
            return taint(self.to_array(args[0], node, self.dtype_of(kwargs)), t)
        if n in ('dot', 'inner', 'matmul', 'vdot', 'outer', 'cross', 'tensordot', 'einsum'):
            return self.np_dot(n, args, node, t)
        if n in ('sum', 'prod', 'cumsum', 'cumprod', 'nansum'):
            e = self.scalars(args[0])
            if e == BOT:
                return V(('n', 'int', ('c', 0)), t=t)
            acc = join(e, self.binop('Add' if 'sum' in n else 'Mult', e, e, node))
            nd = self.nest_nd(args[0])
            if nd and not self.commuting_kinds(acc):
                t = t | frozenset(('ORD',) + tuple(x[1:]) for x in nd)
            acc = (frozenset(('n', a[1], None) if a[0] == 'n' else a for a in acc[0]), acc[1])
            if n.startswith('cum') or 'axis' in kwargs and self.arr_depth(next(iter(args[0][0]))) > 1:
                return taint(self.new_seq(node, 'ndarray', acc, EMPTY, tag=n), t)
            return taint(acc, t)
        if n in ('min', 'max', 'amin', 'amax', 'minimum', 'maximum', 'nanmin', 'nanmax', 'clip'):
            e = joinall([self.scalars(a) for a in args if not n.endswith('min') and not n.endswith('max') or a is args[0]])
            if n in ('minimum', 'maximum', 'clip') or 'axis' in kwargs or (len(args) > 1 and n in ('min', 'max', 'amin', 'amax')):
                arr = args[0][0]
                if any(a[0] == 'o' for v in args for a in v[0]):
                    return taint(self.new_seq(node, 'ndarray', e, EMPTY, tag=n), t)
            return taint(e, t)
        if n in ('abs', 'absolute', 'fabs', 'negative', 'conj', 'real', 'round', 'around', 'rint', 'floor', 'ceil', 'trunc', 'sign'):
            if n in ('floor', 'ceil', 'rint', 'trunc', 'round', 'around'):
                v = self.map_num(args[0], node, lambda a: ('n', a[1] if a[1] in EXACTK else 'npfloat', None))
                return taint(v, t | self.float_of(args[0], node))
            return taint(self.map_num(args[0], node, lambda a: ('n', a[1], None)), t)
        if n in BOOLFN:
            tt = strip((frozenset([BOOL]), t), lambda x: n in ('isfinite', 'isinf', 'isnan') and x[0] in ('FR', 'SQRT'))[1]
            arr = any(a[0] == 'o' and I.obj(a).kind in ('ndarray', 'list', 'tuple') for v in args for a in v[0])
            if n in ('isfinite', 'isinf', 'isnan'):
                for a in self.scalars(args[0])[0]:
                    if a[0] in ('none', 's') or a[0] == 'n' and a[1] in ('mpq', 'frac'):
                        I.note('badop', node, key=('np.' + n, self.kindname(a)))
            if arr:
                return taint(self.new_seq(node, 'ndarray', VB, EMPTY, tag=n), tt)
            return V(BOOL, t=tt)
        if n in ('any', 'all', 'array_equal', 'allclose', 'isin', 'issubdtype', 'iscomplexobj'):
            if n in ('any', 'all') and 'axis' in kwargs:
                return taint(self.new_seq(node, 'ndarray', VB, EMPTY, tag=n), t)
            return V(BOOL, t=t)
        if n in ('argmin', 'argmax', 'searchsorted', 'count_nonzero', 'argsort', 'nonzero', 'where', 'lexsort', 'flatnonzero', 'argwhere'):
            nd = self.nest_nd(args[0])
            tt = t | frozenset(('ORD',) + tuple(x[1:]) for x in nd) if n != 'count_nonzero' else t
            if n in ('argsort', 'flatnonzero', 'argwhere', 'lexsort'):
                return taint(self.new_seq(node, 'ndarray', V(('n', 'npint', None)), EMPTY, tag=n), tt)
            if n in ('nonzero', 'where') and len(args) == 1:
                a = self.new_seq(node, 'ndarray', V(('n', 'npint', None)), EMPTY, tag=n)
                return taint(self.new_seq(node, 'tuple', a, EMPTY, tag='t' + n), tt)
            if n == 'where':
                e = join(self.scalars(args[1]), self.scalars(args[2]))
                return taint(self.new_seq(node, 'ndarray', e, EMPTY, tag=n), tt)
            return V(('n', 'npint', None), t=tt)
        if n == 'arange':
            e = V(('n', 'npint', None))
            if any(a[0] == 'n' and a[1] in FLOATK for v in args for a in v[0]):
                e = V(('n', 'npfloat', None), t=self.frt(node))
            return taint(self.new_seq(node, 'ndarray', e, EMPTY, tag=n), t)
        if n in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'eye', 'identity'):
            dt = self.dtype_kind(kwargs)
            e = V(('n', dt or 'npfloat', None))
            if n.startswith('full'):
                e = args[1]
            return self.new_seq(node, 'ndarray', e, EMPTY, tag=n)
        if n == 'vectorize':
            o = I.alloc(node, 'vectorize', 'vectorize')
            I.store_field(o[1], '$fn', args[0])
            return V(o)
        if n == 'unique':
            e = self.scalars(args[0])
            return taint(self.new_seq(node, 'ndarray', e, EMPTY, tag=n), t)
        if n in ('sort',):
            return taint(self.new_seq(node, 'ndarray', I.elem(args[0]), EMPTY, tag=n), t)
        if n in SHAPEFN:
            if n == 'transpose':
                return joinall([self.attr_atom(a, 'T', node, args[0][1]) for a in args[0][0]])
            return self.to_array(args[0], node)
        if n in ('float64', 'float32', 'float_'):
            return self.call_kind('npfloat', args, kwargs, node)
        if n in ('seterr', 'errstate', 'set_printoptions'):
            return VX
        if n in ('diff', 'ediff1d'):
            e = self.scalars(args[0])
            return taint(self.new_seq(node, 'ndarray', self.binop('Sub', e, e, node), self.nest_nd(args[0]), tag=n), t)
        # anything else computes in machine floats
        nd = EMPTY
        for v in args:
            nd |= self.nest_nd(v)
        tt = t | frozenset(('ORD',) + tuple(x[1:]) for x in nd)
        for v in args:
            tt |= self.float_of(v, node) | self.scalars(v)[1]
        self.escape(args, kwargs, node)
        if n in FLOATFN or n.startswith('linalg.'):
            tt |= self.frt(node)
        return V(FRESH, t=tt)

    def float_of(self, v, node):
        """FR if a machine-float function is applied to exact numbers."""
        for a in self.scalars(v)[0]:
            if a[0] == 'n' and a[1] in ('mpq', 'frac', 'mpz'):
                return self.frt(node)
        return EMPTY

    def dtype_kind(self, kwargs):
        d = kwargs.get('dtype')
        if d is None:
            return None
        for a in d[0]:
            if a[0] == 'k':
                return {'int': 'npint', 'bool': 'bool', 'object': 'int', 'float': 'npfloat'}.get(a[1], 'npfloat')
        return None

    def np_dot(self, n, args, node, t):
        I = self.I
        a, b = self.scalars(args[0]), self.scalars(args[1])
        if a == BOT or b == BOT:
            return BOT
        p = self.binop('Mult', a, b, node)
        s = join(p, self.binop('Add', p, p, node)) if n != 'outer' else p
        da = max([self.arr_depth(x) for x in args[0][0]] or [0])
        db = max([self.arr_depth(x) for x in args[1][0]] or [0])
        nd = self.nest_nd(args[0]) | self.nest_nd(args[1])
        if nd and not self.commuting_kinds(s):
            t = t | frozenset(('ORD',) + tuple(x[1:]) for x in nd)
        if any(self.soft(x) for x in args[0][0] | args[1][0]):
            return V(FRESH, t=t | s[1])
        if n == 'cross':
            ln = {I.obj(x).n for v in args for x in v[0] if x[0] == 'o'}
            if ln == {2}:
                return taint(s, t)
            return taint(self.new_arr(node, 3, {0: s, 1: s, 2: s}, EMPTY, 60), t)
        depth = max(da + db - 2, 0) if n in ('dot', 'matmul', 'inner', 'tensordot') else (da + db if n == 'outer' else 0)
        r = s
        for i in range(depth):
            r = self.new_seq(node, 'ndarray', r, EMPTY, tag='dot%d' % i)
        return taint(r, t)

    # ------------------------------------------------------------ ndarray methods
    def m_nd_dot(self, recv, o, args, kwargs, node, t):
        return self.np_dot('dot', [V(recv, t=t), args[0]], node, t)

    def m_nd_tolist(self, recv, o, args, kwargs, node, t):
        return self.tolist(V(recv, t=t), node)

    def tolist(self, v, node, lim=4):
        I = self.I
        r = BOT
        for a in v[0]:
            if a[0] == 'o' and I.obj(a).kind == 'ndarray' and lim:
                o = I.obj(a)
                if o.n is not None:
                    r = join(r, self.new_arr(node, o.n, {i: self.tolist(I.load_from(a, EMPTY, i), node, lim - 1) for i in range(o.n)},
                                             self.nd_of(a), 70 + lim, kind='list'))
                else:
                    e = I.elem_atom(a, EMPTY)
                    r = join(r, self.new_seq(node, 'list', self.tolist(e, node, lim - 1), self.nd_of(a), tag='tolist%d' % lim))
            elif a[0] == 'n':
                r = join(r, V(('n', {'npint': 'int', 'npfloat': 'float'}.get(a[1], a[1]), a[2])))
            else:
                r = join(r, V(a))
        return taint(r, v[1])

    def m_nd_astype(self, recv, o, args, kwargs, node, t):
        tgt = next(iter(args[0][0])) if args else None
        if tgt is not None and tgt[0] == 'k' and tgt[1] in ('float', 'npfloat', 'int'):
            k = 'npfloat' if tgt[1] != 'int' else 'npint'
            tt = self.float_of(V(recv), node) if k == 'npfloat' else EMPTY
            v = self.map_num(V(recv), node, lambda a: ('n', k, None))
            return taint(v, t | tt)
        return taint(self.to_array(V(recv), node), t)

    def m_nd_copy(self, recv, o, args, kwargs, node, t):
        return taint(self.to_array(V(recv), node), t)

    m_nd_reshape = m_nd_ravel = m_nd_flatten = m_nd_squeeze = m_nd_copy

    def m_nd_transpose(self, recv, o, args, kwargs, node, t):
        return self.transpose(recv, node, t)

    def m_nd_sum(self, recv, o, args, kwargs, node, t):
        return self.np_call('sum', [V(recv, t=t)] + list(args), kwargs, node, t)

    def m_nd_min(self, recv, o, args, kwargs, node, t):
        return self.np_call('min', [V(recv, t=t)] + list(args), kwargs, node, t)

    m_nd_max = m_nd_min

    def m_nd_any(self, recv, o, args, kwargs, node, t):
        return self.np_call('any', [V(recv, t=t)] + list(args), kwargs, node, t)

    m_nd_all = m_nd_any

    def m_nd_argmin(self, recv, o, args, kwargs, node, t):
        return self.np_call('argmin', [V(recv, t=t)] + list(args), kwargs, node, t)

    m_nd_argmax = m_nd_argmin

    def m_nd_mean(self, recv, o, args, kwargs, node, t):
        return self.np_call('mean', [V(recv, t=t)] + list(args), kwargs, node, t)

    def m_nd_sort(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'sort', node)
        return VNONE

    def m_nd_fill(self, recv, o, args, kwargs, node, t):
        self.store_item(V(recv), V(('slice',)), args[0], node, self.I.st, True)
        return VNONE

    def vectorized(self, args, kwargs, node, t):
        """Call of an np.vectorize object: args[0] is the object."""
        I = self.I
        o = next(iter(args[0][0]))
        fn = I.load_from(o, EMPTY, '$fn')
        leaves = [self.scalars(a) for a in args[1:]]
        if any(x == BOT for x in leaves):
            return BOT
        e = I.call_value(fn, leaves, {}, node)
        if e == BOT:
            return BOT
        nd = EMPTY
        for a in args[1:]:
            nd |= self.nest_nd(a)
        d = max([self.arr_depth(x) for a in args[1:] for x in a[0]] or [0])
        if any(x[0] in ('x', 'xa') for a in args[1:] for x in a[0]) and d == 0:
            return taint(join(e, self.new_seq(node, 'ndarray', e, EMPTY, tag='vec')), t)
        src = None
        if len(args) == 2 and len(args[1][0]) == 1:
            src = next(iter(args[1][0]))
        if d == 1 and src is not None and src[0] == 'o' and I.obj(src).n is not None:
            n = I.obj(src).n
            return taint(self.new_arr(node, n, {i: e for i in range(n)}, nd, 80), t)
        r = e
        if any(self.soft(x) for a in args[1:] for x in a[0]):
            r = join(e, self.new_seq(node, 'ndarray', e, nd, tag='vecx'))
        for i in range(d):
            r = self.new_seq(node, 'ndarray', r, nd, tag='vec%d' % i)
        if d == 0:
            pass
        return taint(r, t)

    # ------------------------------------------------------------ opaque objects
    def call_xmethod(self, name, recv, args, kwargs, node):
        I = self.I
        t = self.allt(args, kwargs)
        lbl = recv[1]
        if lbl == 'logger':
            for v in args:
                self.stringify(v, node)
            return VNONE if name != 'isEnabledFor' else VB
        if lbl.startswith('dxf'):
            if name in ('modelspace', 'layout', 'blocks', 'layers'):
                return V(('x', 'dxf'))
            if name in DXF_ADD:
                deep = t
                for v in list(args) + list(kwargs.values()):
                    deep |= self.deep_t(v, 5) | frozenset(('ORD',) + tuple(x[1:]) for x in self.nest_nd(v, 5))
                lids = self.loops_in_force()
                pc = I.st.pc if I.st is not None else EMPTY
                I.note('dxf_add', node, key=name, t=deep | pc, nd=[l[0] for l in lids], name=name,
                       args=list(args), kwargs=dict(kwargs))
                return V(('x', 'dxf-entity'))
            if name in ('saveas', 'save', 'write', 'encode_base64', 'export'):
                I.note('save', node, key=name, t=t, args=list(args), kwargs=dict(kwargs), must=I.st.must if I.st else EMPTY,
                       method=name)
                return VNONE
            return V(('x', 'dxf-part'), t=t)
        self.escape(args, kwargs, node)
        if lbl not in ('fresh',) and name in ('append', 'extend', 'pop', 'remove', 'clear', 'update', 'add', 'sort',
                                              'insert', 'apply_transform', 'apply_scale', 'apply_translation', 'merge_vertices',
                                              'process', 'invert', 'fill', 'put', 'rezero', 'subdivide', 'fix_normals'):
            self.mutate(V(recv), name, node, I.st)
        return V(FRESH if not lbl.startswith('mesh') else ('x', 'mesh.' + name), t=t)
