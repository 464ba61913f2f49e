"""Engine A: transfer functions of the number, operator and comparison domain."""
from .absint import (V, BOT, EMPTY, NONE, BOOL, VB, VNONE, EXACTK, FLOATK, join,
                     joinall, taint, strip, is_loop_taint, const_atom)

INF = float('inf')
FRT = ('FR', 'float')
COMMUT = ('Add', 'Mult', 'BitOr', 'BitAnd', 'BitXor')
DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv',
          'Mod': 'mod', 'Pow': 'pow', 'BitOr': 'or', 'BitAnd': 'and', 'BitXor': 'xor',
          'LShift': 'lshift', 'RShift': 'rshift', 'MatMult': 'matmul'}
CMPD = {'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge', 'Eq': 'eq', 'NotEq': 'ne'}
CMPR = {'Lt': 'gt', 'LtE': 'ge', 'Gt': 'lt', 'GtE': 'le', 'Eq': 'eq', 'NotEq': 'ne'}


def fr(node_desc):
    return frozenset([('FR', node_desc)])


def has_fr(t):
    return any(x[0] == 'FR' for x in t)


class NumMixin:
    # ------------------------------------------------------------ numbers
    def frt(self, node):
        a = self.I.cur
        return frozenset([('FR', '%s:%d' % (a.module.rel, getattr(node, 'lineno', 0)))])

    def num_bin(self, op, a, b, node):
        """One pair of number atoms."""
        ka, kb = a[1], b[1]
        ia, ib = a[2], b[2]
        ca = ia[1] if ia is not None and ia[0] == 'c' else None
        cb = ib[1] if ib is not None and ib[0] == 'c' else None
        if ca is not None and cb is not None and ka in ('int', 'bool') and kb in ('int', 'bool'):
            try:
                r = {'Add': lambda: ca + cb, 'Sub': lambda: ca - cb, 'Mult': lambda: ca * cb,
                     'Mod': lambda: ca % cb, 'FloorDiv': lambda: ca // cb,
                     'BitAnd': lambda: ca & cb, 'BitOr': lambda: ca | cb, 'BitXor': lambda: ca ^ cb}.get(op, lambda: None)()
                if op == 'Div' and cb and not ca:
                    # a zero is exact in every representation (it only joins the values of other paths)
                    return V(const_atom(0))
                if op == 'Div' and cb:
                    r = ca / cb
                    if r * cb != ca or r * 1024 != int(r * 1024):
                        return V(('n', 'float', None), t=self.frt(node))
                    return V(('n', 'float', ('c', r)))
                if op == 'Pow' and 0 <= cb < 64:
                    r = ca ** cb
                if r is not None and abs(r) < 10 ** 9:
                    return V(const_atom(r))
            except ZeroDivisionError:
                return BOT
        if 'nan' in (ka, kb):
            return V(('n', 'nan', None))
        if 'inf' in (ka, kb):
            return V(('n', 'inf', None))
        if ka in FLOATK or kb in FLOATK:
            t = EMPTY
            for k, c in ((ka, ca), (kb, cb)):
                if k in EXACTK and c is None:
                    t = self.frt(node)
            if op == 'Mod' and ia is not None and ia[0] == 'nonint' and cb == 1:
                return V(('n', 'float', ('nonint', ia)), t=t)
            kind = 'npfloat' if 'npfloat' in (ka, kb) or 'npint' in (ka, kb) else 'float'
            return V(('n', kind, None), t=t)
        ks = {ka, kb}
        if op == 'Pow':
            if kb in ('int', 'bool', 'mpz', 'npint'):
                if ka in ('mpq', 'frac', 'mpz'):
                    return V(('n', 'mpq' if ka != 'frac' else 'frac', None))
                if cb is not None and cb >= 0:
                    return V(('n', ka, None))
                return V(('n', 'int', None), ('n', 'float', None), t=self.frt(node))
            return V(('n', 'float', None), t=self.frt(node))
        if 'mpq' in ks:
            if op == 'FloorDiv':
                return V(('n', 'mpz', None))
            return V(('n', 'mpq', None))
        if 'frac' in ks:
            if 'mpz' in ks:
                return V(('n', 'mpq', None))
            return V(('n', 'int' if op == 'FloorDiv' else 'frac', None))
        if op == 'Div':
            # integer true division rounds
            return V(('n', 'npfloat' if 'npint' in ks else 'float', None), t=self.frt(node))
        if ks == {'bool'} and op in ('BitAnd', 'BitOr', 'BitXor'):
            return VB
        if 'mpz' in ks:
            return V(('n', 'mpz', None))
        if 'npint' in ks:
            return V(('n', 'npint', None))
        return V(('n', 'int', None))

    # ------------------------------------------------------------ operators
    def mixed(self, x, y):
        """Identity of a text made of an option's text and something else."""
        for z in (x, y):
            if z[0] in ('s', 'path') and z[1] and z[1][0] in ('opt', 'sfx', 'psfx', 'mix', 'pstem', 'stem'):
                return ('mix',)
        return None

    def note_use(self, op, a, b, node):
        if not self.I.final:
            return
        ia = {x[2][1] for x in a[0] if x[0] == 'n' and x[2] and x[2][0] == 'opt'}
        ib = {x[2][1] for x in b[0] if x[0] == 'n' and x[2] and x[2][0] == 'opt'}
        if not ia and not ib:
            return
        ca = all(x[0] == 'n' and x[2] and x[2][0] in ('c', 'num') for x in a[0])
        cb = all(x[0] == 'n' and x[2] and x[2][0] in ('c', 'num') for x in b[0])
        self.I.note('opt_use', node, key=(op, tuple(sorted(ia)), tuple(sorted(ib)), ca, cb))

    def binop(self, op, a, b, node):
        self.note_use(op, a, b, node)
        t = a[1] | b[1]
        r, rest = self.inst_calls('__%s__' % DUNDER[op], a, b, node)
        # operands whose kinds vary together (two coordinates of one vector, say):
        # both integers at once is only an artefact of joining the alternatives
        mixed = op == 'Div' and all(any(x[0] == 'n' and x[1] in ('mpq', 'frac') for x in z[0]) for z in (a, b))
        for x in rest:
            for y in b[0]:
                if mixed and x[0] == 'n' and y[0] == 'n' and x[1] == 'int' and y[1] == 'int':
                    if self.I.final:
                        self.I.note('mixed_div', node)
                    continue
                r = join(r, self.bin_pair(op, x, y, a[1], b[1], node))
        return taint(r, t)

    def inst_calls(self, dunder, a, b, node):
        """Call the left operands' method, once per class, on all right operands."""
        I = self.I
        groups = {}
        rest = []
        for x in a[0]:
            if x[0] == 'o':
                o = I.obj(x)
                if o.kind == 'inst':
                    groups.setdefault(o.cls, []).append(x)
                    continue
            rest.append(x)
        r = BOT
        for cls, xs in groups.items():
            m = I.class_lookup(cls, dunder)
            if m is None:
                rest.extend(xs)
                continue
            fv = joinall([I.bind_method(m, x, cls) for x in xs])
            r = join(r, I.call_value(fv, [b], {}, node))
        return r, rest

    def is_arr(self, a):
        return a[0] == 'o' and self.I.obj(a).kind == 'ndarray'

    def bin_pair(self, op, x, y, tx, ty, node, depth=0):
        I = self.I
        if x[0] == 'n' and y[0] == 'n':
            return self.num_bin(op, x, y, node)
        if self.is_arr(x) or self.is_arr(y):
            return self.array_bin(op, x, y, tx, ty, node, depth)
        if x[0] == 'o' or y[0] == 'o':
            for p, q, tp, tq, pre in ((x, y, tx, ty, '__'), (y, x, ty, tx, '__r')):
                if p[0] == 'o' and I.obj(p).kind == 'inst':
                    o = I.obj(p)
                    m = I.class_lookup(o.cls, pre + DUNDER[op] + '__')
                    if m is not None:
                        return I.call_value(I.bind_method(m, p, o.cls), [V(q, t=tq)], {}, node)
                    if I.record_fields(o.cls) is None:
                        ext = I.ext_base(o.cls)
                        if pre == '__' and not (q[0] == 'o' and I.obj(q).kind == 'inst'):
                            continue
                        if pre == '__':
                            continue
            if 'x' in (x[0], y[0]) or 'xa' in (x[0], y[0]):
                return V(('x', 'fresh'))
            if (x[0] == 'o' and I.obj(x).kind == 'inst') or (y[0] == 'o' and I.obj(y).kind == 'inst'):
                I.note('badop', node, key=(op, self.kindname(x), self.kindname(y)))
                return BOT
            if x[0] == 'o' and y[0] == 'o':
                return self.coll_bin(op, x, y, tx, ty, node)
            if x[0] == 'o' and y[0] == 'n' or x[0] == 'n' and y[0] == 'o':
                o = x if x[0] == 'o' else y
                k = I.obj(o).kind
                if k in ('list', 'tuple') and op == 'Mult':
                    return self.new_seq(node, k, I.elem(V(o)), self.nd_of(o), tag='rep')
                if op == 'Mod' and x[0] == 'n':
                    pass
                I.note('badop', node, key=(op, self.kindname(x), self.kindname(y)))
                return BOT
        if x[0] == 's':
            if op == 'Mod':
                return V(('s', None), t=self.str_t(V(y, t=ty), node))
            if op == 'Add' and y[0] == 's':
                if x[1] and y[1] and x[1][0] == 'c' and y[1][0] == 'c' and len(x[1][1] + y[1][1]) < 80:
                    return V(('s', ('c', x[1][1] + y[1][1])))
                if x[1] and x[1][0] == 'stem' and y[1] and y[1][0] == 'c':
                    return V(('s', ('sfx', x[1][1], y[1][1])))
                if x[1] and x[1][0] == 'pstem' and y[1] and y[1][0] == 'c':
                    return V(('s', ('psfx', x[1][1], y[1][1])))
                if x[1] == ('c', ''):
                    return V(y)
                if y[1] == ('c', ''):
                    return V(x)
                return V(('s', self.mixed(x, y)))
            if op == 'Mult':
                return V(('s', None))
            if y[0] != 'x':
                I.note('badop', node, key=(op, self.kindname(x), self.kindname(y)))
                return BOT
        if x[0] == 'path' or y[0] == 'path':
            if x[1] and y[1] and x[1][0] == 'parent' and y[1][0] == 'psfx' and x[1][1] == y[1][1]:
                return V(('path', ('sfx',) + y[1][1:]))
            return V(('path', self.mixed(x, y)))
        if NONE in (x, y):
            I.note('badop', node, key=(op, self.kindname(x), self.kindname(y)))
            return BOT
        if x[0] == 'x' or y[0] == 'x':
            t = EMPTY
            for z in (x, y):
                if z[0] == 'n' and z[1] in ('mpq', 'frac', 'mpz'):
                    t |= self.frt(node)
            return V(('x', 'fresh'), t=t)
        if x[0] == 's' or y[0] == 's':
            return V(('s', None))
        if 'n' in (x[0], y[0]) or x[0] in ('f', 'm', 'c') or y[0] in ('f', 'm', 'c'):
            I.note('badop', node, key=(op, self.kindname(x), self.kindname(y)))
            return BOT
        return V(('x', 'fresh'))

    def array_bin(self, op, x, y, tx, ty, node, depth):
        """Element-wise operation with at least one array."""
        I = self.I
        def parts(z, tz):
            if z[0] == 'o':
                o = I.obj(z)
                if o.kind in ('ndarray', 'list', 'tuple'):
                    if o.n is not None:
                        return [I.load_from(z, tz, i) for i in range(o.n)], o.n
                    return None, I.elem_atom(z, tz)
            return V(z, t=tz), 'scalar'
        px, nx = parts(x, tx)
        py, ny = parts(y, ty)
        nd = self.nd_of(x) | self.nd_of(y)
        if depth > 3:
            return V(('x', 'fresh'))

        def one(u, v):
            r = BOT
            t = u[1] | v[1]
            for p in u[0]:
                for q in v[0]:
                    r = join(r, self.bin_pair(op, p, q, u[1], v[1], node, depth + 1))
            return taint(r, t)
        if isinstance(nx, int) and isinstance(ny, int) and nx == ny:
            # rows of different depth broadcast; vectors pair up
            dx = self.arr_depth(x)
            dy = self.arr_depth(y)
            if dx == dy:
                fields = {i: one(px[i], py[i]) for i in range(nx)}
                return self.new_arr(node, nx, fields, nd, depth)
            if dx > dy:
                fields = {i: one(px[i], V(y, t=ty)) for i in range(nx)}
            else:
                fields = {i: one(V(x, t=tx), py[i]) for i in range(ny)}
            return self.new_arr(node, nx, fields, nd, depth)
        if ny == 'scalar' and isinstance(nx, int):
            return self.new_arr(node, nx, {i: one(px[i], py) for i in range(nx)}, nd, depth)
        if nx == 'scalar' and isinstance(ny, int):
            return self.new_arr(node, ny, {i: one(px, py[i]) for i in range(ny)}, nd, depth)
        dx = self.arr_depth(x)
        dy = self.arr_depth(y)
        ex = I.elem_atom(x, tx) if x[0] == 'o' else V(x, t=tx)
        ey = I.elem_atom(y, ty) if y[0] == 'o' else V(y, t=ty)
        if dx > dy:
            e = one(ex, V(y, t=ty))
        elif dy > dx:
            e = one(V(x, t=tx), ey)
        else:
            e = one(ex, ey)
        return self.new_seq(node, 'ndarray', e, nd, tag='ew%d' % depth)

    def arr_depth(self, a, lim=4):
        I = self.I
        if a[0] != 'o' or lim == 0:
            return 0
        o = I.obj(a)
        if o.kind not in ('ndarray', 'list', 'tuple'):
            return 0
        d = 0
        for v in ([I.load_from(a, EMPTY, i) for i in range(o.n)] if o.n is not None else [I.elem_atom(a, EMPTY)]):
            for z in v[0]:
                d = max(d, self.arr_depth(z, lim - 1))
        return d + 1

    def soft(self, a, lim=4):
        """Is there an unknown value among the entries, so that the array may be deeper than arr_depth says?"""
        I = self.I
        if a[0] in ('x', 'xa'):
            return True
        if a[0] != 'o' or lim == 0:
            return False
        o = I.obj(a)
        if o.kind not in ('ndarray', 'list', 'tuple'):
            return False
        for v in ([I.load_from(a, EMPTY, i) for i in range(o.n)] if o.n is not None else [I.elem_atom(a, EMPTY)]):
            if any(self.soft(z, lim - 1) for z in v[0]):
                return True
        return False

    def new_arr(self, node, n, fields, nd, depth=0, kind='ndarray'):
        for v in fields.values():
            if v == BOT:
                return BOT
        o = self.I.alloc(node, kind, 'arr%d_%d' % (depth, n), n=n, fields=fields)
        if self.I.heap[o[1]].n is None:
            for v in fields.values():
                self.I.store_field(o[1], '$elem', v)
        if nd:
            self.I.store_field(o[1], '$nd', (frozenset([BOOL]), nd))
        return V(o)

    def new_seq(self, node, kind, elem, nd=EMPTY, tag='', t=EMPTY):
        o = self.I.alloc(node, kind, kind + ':' + tag)
        if elem != BOT:
            self.I.store_field(o[1], '$elem', elem)
        if nd:
            self.I.store_field(o[1], '$nd', (frozenset([BOOL]), frozenset(nd)))
        return V(o, t=t)

    def coll_bin(self, op, x, y, tx, ty, node):
        I = self.I
        ox, oy = I.obj(x), I.obj(y)
        kx, ky = ox.kind, oy.kind
        nd = self.nd_of(x) | self.nd_of(y)
        if op == 'Add' and kx in ('list', 'tuple') and ky == kx:
            if ox.n is not None and oy.n is not None and ox.n + oy.n <= 16:
                fs = [I.load_from(x, EMPTY, i) for i in range(ox.n)] + [I.load_from(y, EMPTY, i) for i in range(oy.n)]
                return self.new_arr(node, len(fs), dict(enumerate(fs)), nd, 9, kind=kx)
            e = join(I.elem_atom(x, EMPTY), I.elem_atom(y, EMPTY))
            return self.new_seq(node, kx, e, nd, tag='cat')
        setk = ('set', 'frozenset', 'iter')
        if kx in setk and ky in setk and op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
            e = I.elem_atom(x, EMPTY)
            if op in ('BitOr', 'BitXor'):
                e = join(e, I.elem_atom(y, EMPTY))
            return self.new_seq(node, 'set' if kx == 'iter' else kx, e, nd, tag='setop')
        if kx == 'dict' and op == 'BitOr':
            d = I.alloc(node, 'dict', 'dor')
            self.dict_merge(d, V(x))
            self.dict_merge(d, V(y))
            return V(d)
        if kx == 'pmap' and op in ('Add', 'BitOr'):
            d = I.alloc(node, 'pmap', 'por')
            self.dict_merge(d, V(x))
            self.dict_merge(d, V(y))
            return V(d)
        I.note('badop', node, key=(op, kx, ky))
        return BOT

    def kindname(self, a):
        if a[0] == 'o':
            o = self.I.obj(a)
            return o.cls or o.kind
        if a[0] in ('n', 'k'):
            return a[1]
        return a[0]

    def augassign(self, cur, rhs, op, node, st):
        """In-place operator: mutates mutable operands, else a new value."""
        I = self.I
        r = BOT
        lids = self.active_lids()
        t = cur[1] | rhs[1]
        for x in cur[0]:
            if x[0] == 'o':
                o = I.obj(x)
                if o.kind == 'inst':
                    m = I.class_lookup(o.cls, '__i' + DUNDER[op] + '__')
                    if m is not None:
                        r = join(r, I.call_value(I.bind_method(m, x, o.cls), [rhs], {}, node))
                        continue
                elif o.kind == 'list' and op == 'Add':
                    self.mutate_obj(x, 'extend', node)
                    I.unfix(o)
                    e = I.elem(rhs)
                    I.store_field(x[1], '$elem', taint(e, rhs[1]))
                    self.spread_nd(x, rhs, node)
                    r = join(r, V(x))
                    continue
                elif o.kind == 'set' and op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
                    self.mutate_obj(x, 'update', node)
                    if op in ('BitOr', 'BitXor'):
                        I.store_field(x[1], '$elem', taint(I.elem(rhs), rhs[1]))
                    self.spread_nd(x, rhs, node)
                    r = join(r, V(x))
                    continue
                elif o.kind == 'dict' and op == 'BitOr':
                    self.mutate_obj(x, 'update', node)
                    for y in rhs[0]:
                        self.dict_merge(x, V(y))
                    r = join(r, V(x))
                    continue
                elif o.kind == 'ndarray':
                    self.mutate_obj(x, 'ielem', node)
                    n = self.binop(op, V(x, t=cur[1]), rhs, node)
                    for y in n[0]:
                        if y[0] == 'o':
                            oy = I.obj(y)
                            if oy.n is not None and oy.n == o.n:
                                for i in range(o.n):
                                    I.store_field(x[1], i, I.load_from(y, EMPTY, i))
                            else:
                                I.unfix(o)
                                I.store_field(x[1], '$elem', I.elem_atom(y, EMPTY))
                    r = join(r, V(x))
                    continue
            if x[0] == 'x':
                # arrays of unknown origin are updated in place
                self.mutate_obj(x, 'ielem', node)
                r = join(r, V(x))
                continue
            r = join(r, self.binop(op, V(x), (rhs[0], EMPTY), node))
        # commuting exact accumulation does not depend on the order
        if lids and op in COMMUT and self.commuting_kinds(r):
            lc = {x[1] for x in cur[1] if x[0] == 'LC' and x[1] in lids}
            if lc and not any(x[0] == 'LC' and x[1] in lc for x in rhs[1]):
                t = cur[1] | frozenset(x for x in rhs[1] if not (x[0] == 'EL' and x[1] in lc))
                self.suppress_pc(st, lc)
        return taint(r, t)

    def suppress_pc(self, st, lids):
        st.pc = frozenset(x for x in st.pc if not (x[0] == 'EL' and x[1] in lids))

    def commuting_kinds(self, v):
        for a in v[0]:
            if a[0] == 'n' and (a[1] in EXACTK or a[1] == 'inf'):
                continue
            if a[0] == 'o' and self.I.obj(a).kind in ('set', 'frozenset'):
                continue
            if a[0] == 'o' and self.I.obj(a).kind == 'inst' and (self.I.obj(a).cls or '').endswith('geom1d:Geom1D'):
                continue
            return False
        return bool(v[0])

    def unop(self, op, v, node):
        I = self.I
        r = BOT
        for x in v[0]:
            if x[0] == 'n':
                if x[2] is not None and x[2][0] == 'c':
                    c = x[2][1]
                    if op == 'USub':
                        r = join(r, V(const_atom(-c)) if x[1] in ('int', 'float', 'bool', 'inf') else V(('n', x[1], None)))
                        continue
                    if op == 'UAdd':
                        r = join(r, V(x))
                        continue
                r = join(r, V(('n', 'int' if op == 'Invert' and x[1] == 'bool' else x[1], None)))
            elif x[0] == 'o':
                o = I.obj(x)
                if o.kind == 'ndarray':
                    if o.n is not None:
                        f = {i: self.unop(op, I.load_from(x, EMPTY, i), node) for i in range(o.n)}
                        r = join(r, self.new_arr(node, o.n, f, self.nd_of(x), 5))
                    else:
                        e = self.unop(op, I.elem_atom(x, EMPTY), node)
                        r = join(r, self.new_seq(node, 'ndarray', e, self.nd_of(x), tag='un'))
                elif o.kind == 'inst':
                    m = I.class_lookup(o.cls, {'USub': '__neg__', 'Invert': '__invert__', 'UAdd': '__pos__'}[op])
                    if m is None:
                        I.note('badop', node, key=(op, o.cls))
                    else:
                        r = join(r, I.call_value(I.bind_method(m, x, o.cls), [], {}, node))
                else:
                    I.note('badop', node, key=(op, o.kind))
            elif x[0] == 'x':
                r = join(r, V(('x', 'fresh')))
            else:
                I.note('badop', node, key=(op, self.kindname(x)))
        return taint(r, v[1])

    # ------------------------------------------------------------ comparison
    def compare(self, op, l, r, node):
        self.note_use(op, l, r, node)
        t = l[1] | r[1]
        res = BOT
        rest = l[0]
        if op in CMPD and any(x[0] == 'o' for x in rest):
            res, rest = self.inst_calls('__%s__' % CMPD[op], l, r, node)
            if res != BOT:
                res = taint(VB, res[1])
        for x in rest:
            for y in r[0]:
                res = join(res, self.cmp_pair(op, x, y, l[1], r[1], node))
        if self.I.final and op in CMPD:
            for x, y in ((l, r), (r, l)):
                for c in y[0]:
                    if c[0] == 'n' and c[1] in FLOATK and c[2] and c[2][0] == 'c' and c[2][1] == c[2][1] \
                            and abs(c[2][1]) != INF and not float(c[2][1]).is_integer() \
                            and any(a[0] == 'n' and a[1] in ('mpq', 'frac') for a in x[0]):
                        self.I.note('cmp_tol', node, key=c[2][1])
        return taint(res, t)

    def cb(self, v):
        return V(('n', 'bool', ('c', bool(v))))

    def cmp_pair(self, op, x, y, tx, ty, node):
        I = self.I
        if op in ('Is', 'IsNot'):
            r = self.same_atom(x, y)
            if r is None:
                return VB
            return self.cb(r if op == 'Is' else not r)
        if op in ('In', 'NotIn'):
            return self.contains(op, x, y, tx, ty, node)
        if self.is_arr(x) or self.is_arr(y):
            t = self.deep_t(V(x, t=tx)) | self.deep_t(V(y, t=ty))
            t = frozenset(z for z in t if z[0] != 'NDO')
            n = None
            for z in (x, y):
                if self.is_arr(z) and I.obj(z).n is not None:
                    n = I.obj(z).n
            if n is not None:
                return self.new_arr(node, n, {i: taint(VB, t) for i in range(n)}, EMPTY, 6)
            return self.new_seq(node, 'ndarray', taint(VB, t), EMPTY, tag='cmp')
        if x[0] == 'n' and y[0] == 'n':
            return self.cmp_num(op, x, y)
        if x[0] == 'o' and I.obj(x).kind == 'inst' or y[0] == 'o' and I.obj(y).kind == 'inst':
            for p, q, tq, nm in ((x, y, ty, CMPD), (y, x, tx, CMPR)):
                if p[0] == 'o' and I.obj(p).kind == 'inst':
                    o = I.obj(p)
                    m = I.class_lookup(o.cls, '__%s__' % nm[op])
                    if m is None and op == 'NotEq':
                        m = I.class_lookup(o.cls, '__eq__')
                    if m is not None:
                        v = I.call_value(I.bind_method(m, p, o.cls), [V(q, t=tq)], {}, node)
                        return taint(VB, v[1]) if v != BOT else BOT
                    if op in ('Eq', 'NotEq'):
                        if I.record_fields(o.cls) is not None:
                            return VB
            if op in ('Eq', 'NotEq'):
                return VB
            I.note('badop', node, key=(op, self.kindname(x), self.kindname(y)))
            return BOT
        if op in ('Eq', 'NotEq'):
            s = self.same_atom(x, y)
            if s is True and x[0] in ('none', 'k', 'c', 'e', 's'):
                return self.cb(op == 'Eq')
            if s is False:
                return self.cb(op == 'NotEq')
            t = EMPTY
            if x[0] == 'o' or y[0] == 'o':
                t = self.deep_t(V(x, t=tx)) | self.deep_t(V(y, t=ty))
                t = self.nd_to_ord(t, x, y)
            return taint(VB, t)
        if NONE in (x, y):
            I.note('badop', node, key=(op, self.kindname(x), self.kindname(y)))
            return BOT
        t = EMPTY
        if x[0] == 'o' or y[0] == 'o':
            t = self.nd_to_ord(self.deep_t(V(x, t=tx)) | self.deep_t(V(y, t=ty)), x, y)
        return taint(VB, t)

    def nd_to_ord(self, t, *atoms):
        nd = EMPTY
        for a in atoms:
            if a[0] == 'o' and self.I.obj(a).kind not in ('set', 'frozenset', 'dict', 'pmap'):
                nd |= self.nd_of(a)
        t = frozenset(z for z in t if z[0] != 'NDO')
        return t | frozenset(('ORD',) + tuple(z[1:]) for z in nd)

    def cmp_num(self, op, x, y):
        ix, iy = x[2], y[2]
        cx = ix[1] if ix is not None and ix[0] == 'c' else None
        cy = iy[1] if iy is not None and iy[0] == 'c' else None
        if cx is not None and cy is not None:
            r = {'Eq': cx == cy, 'NotEq': cx != cy, 'Lt': cx < cy, 'LtE': cx <= cy,
                 'Gt': cx > cy, 'GtE': cx >= cy}[op]
            return self.cb(r)
        if 'nan' in (x[1], y[1]):
            return self.cb(op == 'NotEq')
        if op in ('Eq', 'NotEq'):
            if (x[1] == 'inf') != (y[1] == 'inf'):
                return self.cb(op == 'NotEq')
            for p, q in ((x, y), (y, x)):
                if p[2] == ('nonzero',) and q[2] == ('c', 0):
                    return self.cb(op == 'NotEq')
                if p[2] is not None and p[2][0] == 'nonint':
                    if q[1] in ('int', 'mpz', 'npint', 'bool') or (q[2] is not None and q[2][0] in ('trunc', 'c') and q[2][0] == 'trunc'):
                        return self.cb(op == 'NotEq')
                    if q[2] is not None and q[2][0] == 'c' and q[2][1] == int(q[2][1] if q[2][1] == q[2][1] and abs(q[2][1]) != INF else 0):
                        return self.cb(op == 'NotEq')
        if op in ('Lt', 'LtE', 'Gt', 'GtE'):
            # a finite number against a signed infinity
            for p, q, o in ((x, y, op), (y, x, {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}[op])):
                if q[1] == 'inf' and q[2] is not None and p[1] not in ('inf',):
                    pos = q[2][1] > 0
                    return self.cb(o in ('Lt', 'LtE') if pos else o in ('Gt', 'GtE'))
        return VB

    def same_atom(self, x, y):
        """True / False / None: are these the same value?"""
        if x[0] == 'none' or y[0] == 'none':
            if x[0] == y[0]:
                return True
            if x[0] == 'x' or y[0] == 'x':
                return None
            return False
        if x[0] in ('k', 'c', 'e') and y[0] in ('k', 'c', 'e'):
            return x == y or (self.type_alias(x) == self.type_alias(y))
        if x[0] in ('k', 'c') or y[0] in ('k', 'c'):
            o = y if x[0] in ('k', 'c') else x
            if o[0] in ('x', 'o'):
                return None
            return False
        if x[0] == 's' and y[0] == 's':
            if x[1] and y[1] and x[1][0] == 'c' and y[1][0] == 'c':
                return x[1][1] == y[1][1]
            return None
        if x[0] == 'n' and y[0] == 'n':
            if x[1] == 'bool' and y[1] == 'bool' and x[2] and y[2]:
                return x[2][1] == y[2][1]
            return None
        if {x[0], y[0]} == {'s', 'n'}:
            return False
        if x[0] in ('s', 'n') and y[0] == 'o' or y[0] in ('s', 'n') and x[0] == 'o':
            return False
        return None

    def type_alias(self, x):
        if x[0] == 'e':
            return {'fractions.Fraction': ('k', 'frac'), 'numbers.Rational': x}.get(x[1], x)
        return x

    def contains(self, op, x, y, tx, ty, node):
        I = self.I
        if y[0] == 'o':
            o = I.obj(y)
            if o.kind == 'inst':
                m = I.class_lookup(o.cls, '__contains__')
                if m is not None:
                    v = I.call_value(I.bind_method(m, y, o.cls), [V(x, t=tx)], {}, node)
                    return taint(VB, v[1]) if v != BOT else BOT
                return VB
            if o.n is not None and o.kind in ('tuple', 'list'):
                allf, anyt = True, False
                tt = EMPTY
                for i in range(o.n):
                    e = I.load_from(y, ty, i)
                    tt |= e[1]
                    et = ef = False
                    for z in e[0]:
                        ct, cf = I.truth(self.cmp_pair('Eq', x, z, tx, ty, node))
                        et, ef = et or ct, ef or cf
                    if et:
                        allf = False
                    if et and not ef:
                        anyt = True
                if allf:
                    return taint(self.cb(op == 'NotIn'), tt)
                if anyt:
                    return taint(self.cb(op == 'In'), tt)
                return taint(VB, tt)
            if o.kind in ('dict', 'ns') and x[0] == 's' and x[1] and x[1][0] == 'c' and '$dyn' not in o.f:
                return self.cb((('k', x[1][1]) in o.f) == (op == 'In')) if ('k', x[1][1]) not in o.f or o.kind == 'ns' else VB
            # membership in a collection built in arbitrary order is fixed
            t = I.read(y[1], '$elem')[1] if o.kind not in ('dict', 'pmap') else I.read(y[1], '$key')[1]
            return taint(VB, frozenset(z for z in t if z[0] in ('HIST', 'FR', 'ORD')))
        if y[0] == 'none' or y[0] == 'n':
            I.note('badop', node, key=(op, self.kindname(x), self.kindname(y)))
            return BOT
        return VB
