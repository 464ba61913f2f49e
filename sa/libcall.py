"""Engine A: calls of types, built-in functions and methods of built-in kinds."""
from .absint import (V, BOT, EMPTY, NONE, BOOL, VB, VNONE, EXACTK, FLOATK, join,
                     joinall, taint, strip, is_loop_taint, const_atom)
from .libext import ExtMixin

FRESH = ('x', 'fresh')
VX = V(FRESH)
INT = ('n', 'int', None)
PURE = {'len', 'isinstance', 'issubclass', 'type', 'callable', 'hasattr', 'getattr', 'repr', 'str',
        'abs', 'min', 'max', 'sum', 'any', 'all', 'round', 'pow', 'divmod', 'ord', 'chr', 'hex', 'bin',
        'oct', 'format', 'ascii', 'sorted', 'reversed', 'enumerate', 'zip', 'map', 'filter', 'iter',
        'next', 'range', 'hash', 'id', 'locals', 'vars', 'globals', 'dir', 'super', 'print', 'setattr',
        'delattr', 'object', 'property', 'staticmethod', 'classmethod'}


def not_fr(v):
    return strip(v, lambda x: x[0] in ('FR', 'SQRT'))


class CallMixin(ExtMixin):
    def allt(self, args, kwargs=None):
        t = EMPTY
        for v in args:
            t |= v[1]
        for v in (kwargs or {}).values():
            t |= v[1]
        return t

    def call(self, f, args, kwargs, node, ft, starflag):
        k = f[0]
        if k == 'k':
            r = self.call_kind(f[1], args, kwargs, node)
        elif k == 'e':
            self.I.note('extcall', node, key=f[1], name=f[1], args=list(args), kwargs=dict(kwargs), must=self.I.st.must if self.I.st else EMPTY)
            if f[1].startswith('builtins.'):
                r = self.call_builtin(f[1][9:], args, kwargs, node)
            else:
                r = self.call_ext(f[1], args, kwargs, node)
        elif k == 'em':
            r = self.call_method(f[1], f[2], args, kwargs, node, ft)
        elif k == 'xa':
            lbl = f[2][1]
            self.I.note('extcall', node, key='%s.%s' % (lbl, f[1]), name='%s.%s' % (lbl, f[1]), args=list(args), kwargs=dict(kwargs), must=self.I.st.must if self.I.st else EMPTY)
            r = self.call_xmethod(f[1], f[2], args, kwargs, node)
        elif k == 'x':
            self.escape(args, kwargs, node)
            r = V(FRESH, t=self.allt(args, kwargs))
        elif k == 'partial':
            r = BOT
        else:
            r = V(FRESH, t=self.allt(args, kwargs))
        return r

    def escape(self, args, kwargs, node):
        """Repo callables handed to unknown code are called with unknowns."""
        for v in list(args) + list(kwargs.values()):
            for a in v[0]:
                if a[0] in ('f', 'm'):
                    self.call_unknown(a, node)

    def call_unknown(self, a, node):
        I = self.I
        fi = I.p.func_by_fid[a[1]]
        n = len(fi.args.args) + len(fi.args.posonlyargs) - (1 if a[0] == 'm' else 0)
        n -= len(fi.args.defaults)
        return I.call_value(V(a), [VX] * max(n, 0), {}, node)

    # ------------------------------------------------------------ type calls
    def call_kind(self, n, args, kwargs, node):
        I = self.I
        t = self.allt(args)
        if n in ('int', 'float', 'mpq', 'mpz', 'frac', 'npfloat', 'npint', 'bool'):
            if not args:
                return V(('n', n, ('c', 0) if n == 'int' else ('c', False) if n == 'bool' else None))
            r = BOT
            if n in ('mpq', 'frac') and len(args) == 2:
                bad = False
                for v in args:
                    for a in v[0]:
                        if a[0] in ('none', 's') or a[0] == 'n' and a[1] in ('float', 'npfloat', 'inf', 'nan'):
                            I.note('badop', node, key=(n, 'two arguments', self.kindname(a)))
                            bad = True
                if bad and all(all(a[0] in ('none', 's') or a[0] == 'n' and a[1] not in EXACTK for a in v[0]) for v in args):
                    return BOT
                return V(('n', n, None), t=t)
            for a in args[0][0]:
                r = join(r, self.convert(n, a, node))
            return taint(r, t)
        if n == 'str':
            if not args:
                return V(('s', ('c', '')))
            self.stringify(args[0], node)
            r = BOT
            for a in args[0][0]:
                if a[0] == 's':
                    r = join(r, V(a))
                elif a[0] == 'path':
                    r = join(r, V(('s', a[1])))
                elif a[0] == 'n' and a[1] in ('int', 'bool') and a[2] is not None and a[2][0] == 'c':
                    r = join(r, V(('s', ('c', str(a[2][1])))))
                else:
                    r = join(r, V(('s', None)))
            return taint(r, self.str_t(args[0], node))
        if n in ('list', 'tuple'):
            if not args:
                return self.new_arr(node, 0, {}, EMPTY, 20, kind=n)
            return self.to_seq(n, args[0], node)
        if n in ('set', 'frozenset'):
            o = I.alloc(node, n, n + '()')
            if args:
                e = I.elem(args[0])
                if e != BOT:
                    I.store_field(o[1], '$elem', e)
                    self.hash_elems(e, node)
            return V(o, t=self.allt(args) - frozenset(x for x in self.allt(args) if x[0] == 'NDO'))
        if n == 'dict':
            o = I.alloc(node, 'dict', 'dict()')
            for v in args:
                self.dict_merge(o, v)
            for k, v in kwargs.items():
                if k == '**':
                    I.store_field(o[1], '$key', V(('s', None)))
                    I.store_field(o[1], '$val', v)
                    I.store_field(o[1], '$dyn', VB)
                else:
                    self.dict_put(o, V(('s', ('c', k))), v)
            return V(o, t=self.allt(args, kwargs))
        if n == 'ndarray':
            return VX
        if n == 'object':
            return V(I.alloc(node, 'object', 'object'))
        if n == 'type':
            return self.type_of(args[0], node) if len(args) == 1 else VX
        if n in ('bytes', 'bytearray'):
            return V(('s', None), t=t)
        return V(FRESH, t=t)

    def hash_elems(self, e, node):
        I = self.I
        for a in e[0]:
            if a[0] == 'o' and I.obj(a).kind in ('list', 'dict', 'set', 'ndarray'):
                I.note('badop', node, key=('unhashable', I.obj(a).kind))

    def convert(self, n, a, node):
        """Number conversion n(a)."""
        I = self.I
        if a[0] in ('x', 'xa'):
            return V(('n', n, None), t=self.frt(node) if n in ('float', 'npfloat') else EMPTY)
        if a[0] == 's':
            idt = None
            if a[1] is not None:
                idt = ('num', a[1])
                if a[1][0] == 'c':
                    try:
                        return V(const_atom({'int': int, 'float': float}[n](a[1][1])))
                    except KeyError:
                        pass
                    except ValueError:
                        I.note('badop', node, key=(n, 'text'))
                        return BOT
            if n == 'float':
                return V(('n', 'float', idt), ('n', 'inf', None), ('n', 'nan', None))
            return V(('n', n, idt))
        if a[0] == 'none':
            if n == 'bool':
                return V(('n', 'bool', ('c', False)))
            I.note('badop', node, key=(n, 'None'))
            return BOT
        if n == 'bool':
            tr, fa = I.truth(V(a))
            return self.cb(tr) if tr != fa else VB
        if a[0] == 'n':
            k, i = a[1], a[2]
            if n in ('int', 'mpz'):
                if k in ('inf', 'nan'):
                    I.note('badop', node, key=(n, k))
                    return BOT
                if k in ('int', 'bool', 'mpz', 'npint'):
                    return V(('n', n, i))
                return V(('n', n, ('trunc', i)))
            if n in ('float', 'npfloat'):
                if k in ('inf', 'nan'):
                    return V(a)
                if k in EXACTK:
                    c = i is not None and i[0] == 'c' and abs(i[1]) < 2 ** 53
                    return V(('n', n, ('c', float(i[1])) if c and n == 'float' else i if k in ('int', 'bool') else None),
                             t=EMPTY if c else self.frt(node))
                return V(('n', n, i))
            if n in ('mpq', 'frac'):
                if k in ('inf', 'nan'):
                    I.note('badop', node, key=(n, k))
                    return BOT
                return V(('n', n, ('d', i[1]) if i is not None and i[0] in ('c', 'd') else i))
            return V(('n', n, i))
        if a[0] == 'o':
            o = I.obj(a)
            if o.kind == 'inst':
                d = {'int': '__int__', 'float': '__float__', 'bool': '__bool__'}.get(n)
                m = I.class_lookup(o.cls, d) if d else None
                if m is not None:
                    return I.call_value(I.bind_method(m, a, o.cls), [], {}, node)
                if I.ext_base(o.cls):
                    return V(('n', n, None))
            if o.kind == 'ndarray':
                r = BOT
                for x in I.elem_atom(a, EMPTY)[0]:
                    r = join(r, self.convert(n, x, node))
                return r
            I.note('badop', node, key=(n, o.cls or o.kind))
            return BOT
        I.note('badop', node, key=(n, a[0]))
        return BOT

    def to_seq(self, n, v, node):
        I = self.I
        r = BOT
        for a in v[0]:
            if a[0] == 'o':
                o = I.obj(a)
                nd = self.nd_val(V(a))
                if o.kind in ('list', 'tuple', 'ndarray', 'iter') and o.n is not None:
                    f = {i: I.load_from(a, EMPTY, i) for i in range(o.n)}
                    r = join(r, self.new_arr(node, o.n, f, nd, 21, kind=n))
                    continue
                e = I.elem_atom(a, EMPTY)
                if o.kind in ('n', 'rng', 'ns', 'object', 'argparser', 'module'):
                    I.note('badop', node, key=('iterate', o.kind))
                    continue
                r = join(r, self.new_seq(node, n, e, nd, tag='conv'))
            elif a[0] in ('n', 'none', 'f', 'm', 'c', 'k'):
                I.note('badop', node, key=('iterate', self.kindname(a)))
            else:
                r = join(r, self.new_seq(node, n, I.elem_atom(a, EMPTY), EMPTY, tag='conv'))
        return taint(r, frozenset(x for x in v[1] if x[0] != 'NDO'))

    def type_of(self, v, node):
        r = BOT
        for a in v[0]:
            r = join(r, self.attr_atom(a, '__class__', node, EMPTY) if a[0] != 'none' else V(('k', 'NoneType')))
        return r

    # ------------------------------------------------------------ builtins
    def call_builtin(self, n, args, kwargs, node):
        I = self.I
        t = self.allt(args, kwargs)
        from .libmodel import EXCS
        if n in EXCS:
            for v in args:
                self.stringify(v, node)
            return V(('x', 'exc:' + n), t=t)
        m = getattr(self, 'b_' + n, None)
        if m is not None:
            return m(args, kwargs, node, t)
        self.escape(args, kwargs, node)
        return V(FRESH, t=t)

    def b_len(self, args, kwargs, node, t):
        I = self.I
        r = BOT
        for a in args[0][0]:
            if a[0] == 'o':
                o = I.obj(a)
                if o.kind == 'inst':
                    m = I.class_lookup(o.cls, '__len__')
                    if m is not None:
                        r = join(r, I.call_value(I.bind_method(m, a, o.cls), [], {}, node))
                    elif I.ext_base(o.cls):
                        r = join(r, V(INT))
                    else:
                        I.note('badop', node, key=('len', o.cls))
                elif o.kind in ('gen', 'ns', 'rng', 'object', 'argparser'):
                    I.note('badop', node, key=('len', o.kind))
                elif o.kind == 'iter' and o.n is None:
                    r = join(r, V(INT))
                elif o.n is not None:
                    r = join(r, V(('n', 'int', ('c', o.n))))
                else:
                    r = join(r, V(INT))
            elif a[0] in ('n', 'none', 'f', 'm', 'c', 'path'):
                I.note('badop', node, key=('len', self.kindname(a)))
            else:
                r = join(r, V(INT))
        return taint(r, frozenset(x for x in args[0][1] if x[0] not in ('FR', 'SQRT', 'NDO')))

    def b_isinstance(self, args, kwargs, node, t):
        if len(args) != 2:
            return BOT
        r = BOT
        for a in args[0][0]:
            x = self.isinst(a, args[1])
            r = join(r, VB if x is None else self.cb(x))
        return taint(r, not_fr(args[0])[1])

    def b_issubclass(self, args, kwargs, node, t):
        return VB

    def b_callable(self, args, kwargs, node, t):
        return VB

    def b_type(self, args, kwargs, node, t):
        return self.type_of(args[0], node)

    def b_hasattr(self, args, kwargs, node, t):
        I = self.I
        nm = next(iter(args[1][0]))
        if nm[0] != 's' or nm[1] is None or nm[1][0] != 'c':
            return VB
        nm = nm[1][1]
        r = BOT
        for a in args[0][0]:
            if a[0] == 'n':
                from .libmodel import NUM_DIR
                r = join(r, self.cb(nm in NUM_DIR.get(a[1], ())) if a[1] in NUM_DIR else VB)
            elif a[0] == 'o' and I.obj(a).kind == 'inst' and not I.ext_base(I.obj(a).cls):
                o = I.obj(a)
                if I.class_lookup(o.cls, nm) is not None:
                    r = join(r, self.cb(True))
                elif nm in o.f:
                    r = join(r, VB)
                else:
                    r = join(r, self.cb(False))
            elif a[0] == 'o' and I.obj(a).kind in ('list', 'tuple', 'dict', 'set', 'frozenset'):
                from .libmodel import KIND_DIR
                r = join(r, self.cb(nm in KIND_DIR[I.obj(a).kind]))
            elif a[0] in ('none', 's'):
                r = join(r, self.cb(nm in (dir(None) if a[0] == 'none' else dir(str))))
            else:
                r = join(r, VB)
        return r

    def b_getattr(self, args, kwargs, node, t):
        r = BOT
        for nm in args[1][0]:
            if nm[0] == 's' and nm[1] is not None and nm[1][0] == 'c':
                if len(args) > 2:
                    for a in args[0][0]:
                        h = self.b_hasattr([V(a), V(nm)], {}, node, EMPTY)
                        ct, cf = self.I.truth(h)
                        if ct:
                            r = join(r, self.attr_atom(a, nm[1][1], node, args[0][1]))
                        if cf:
                            r = join(r, args[2])
                else:
                    r = join(r, self.attr(args[0], nm[1][1], node, self.I.st))
            else:
                r = join(r, V(FRESH, t=t))
        return r

    def b_setattr(self, args, kwargs, node, t):
        for nm in args[1][0]:
            if nm[0] == 's' and nm[1] is not None and nm[1][0] == 'c':
                self.store_attr(args[0], nm[1][1], args[2], node, self.I.st)
            else:
                self.mutate(args[0], 'setattr', node, self.I.st)
        return VNONE

    def b_delattr(self, args, kwargs, node, t):
        self.mutate(args[0], 'delattr', node, self.I.st)
        return VNONE

    def b_repr(self, args, kwargs, node, t):
        self.stringify(args[0], node)
        return V(('s', None), t=self.str_t(args[0], node))

    b_format = b_ascii = b_repr

    def b_print(self, args, kwargs, node, t):
        for v in args:
            self.stringify(v, node)
        return VNONE

    def b_abs(self, args, kwargs, node, t):
        return self.map_num(args[0], node, lambda a: (a[0], a[1], self.absid(a[2])) if a[1] != 'bool' else INT, '__abs__')

    def absid(self, i):
        if i is not None and i[0] == 'c':
            return ('c', abs(i[1]))
        return None

    def map_num(self, v, node, fn, dunder=None):
        I = self.I
        r = BOT
        for a in v[0]:
            if a[0] == 'n':
                r = join(r, V(fn(a)))
            elif a[0] in ('x', 'xa'):
                r = join(r, VX)
            elif a[0] == 'o':
                o = I.obj(a)
                if o.kind == 'ndarray':
                    if o.n is not None:
                        f = {i: self.map_num(I.load_from(a, EMPTY, i), node, fn) for i in range(o.n)}
                        r = join(r, self.new_arr(node, o.n, f, self.nd_of(a), 22))
                    else:
                        e = self.map_num(I.elem_atom(a, EMPTY), node, fn)
                        if e != BOT or '$elem' not in o.f:
                            r = join(r, self.new_seq(node, 'ndarray', e, self.nd_of(a), tag='mapn'))
                elif o.kind == 'inst' and dunder and I.class_lookup(o.cls, dunder) is not None:
                    r = join(r, I.call_value(I.bind_method(I.class_lookup(o.cls, dunder), a, o.cls), [], {}, node))
                else:
                    I.note('badop', node, key=(dunder or 'number', o.cls or o.kind))
            else:
                I.note('badop', node, key=(dunder or 'number', self.kindname(a)))
        return taint(r, v[1])

    def b_round(self, args, kwargs, node, t):
        if len(args) > 1:
            return V(*args[0][0], t=t)
        return self.map_num(args[0], node, lambda a: ('n', 'int', ('trunc', a[2])))

    def b_pow(self, args, kwargs, node, t):
        return self.binop('Pow', args[0], args[1], node)

    def b_divmod(self, args, kwargs, node, t):
        a, b = self.binop('FloorDiv', args[0], args[1], node), self.binop('Mod', args[0], args[1], node)
        return self.new_arr(node, 2, {0: a, 1: b}, EMPTY, 23, kind='tuple')

    def ord_over(self, v, e, node, exact_ok=True):
        """Taint of folding the elements of v: exact commuting folds are clean."""
        nd = self.nd_val(v)
        if not nd:
            return EMPTY
        if exact_ok and self.commuting_kinds(e):
            return EMPTY
        return frozenset(('ORD',) + tuple(x[1:]) for x in nd)

    def b_sum(self, args, kwargs, node, t):
        I = self.I
        v = args[0]
        e = I.elem(v)
        start = args[1] if len(args) > 1 else kwargs.get('start', V(('n', 'int', ('c', 0))))
        if e == BOT:
            return taint(start, v[1])
        acc = self.binop('Add', start, e, node)
        for _ in range(3):
            nxt = join(acc, self.binop('Add', acc, e, node))
            if nxt == acc:
                break
            acc = nxt
        n = None
        if len(v[0]) == 1:
            a = next(iter(v[0]))
            n = I.obj(a).n if a[0] == 'o' else None
        out = acc
        if n is None and any(x[0] == 'o' and I.obj(x).kind == 'inst' for x in e[0]) is False:
            pass
        return taint((frozenset(('n', x[1], None) if x[0] == 'n' and x[1] != 'inf' and n != 0 else x for x in out[0]), out[1]),
                     t | self.ord_over(v, e, node))

    def minmax(self, args, kwargs, node, t):
        I = self.I
        key = kwargs.get('key')
        dfl = kwargs.get('default')
        if len(args) == 1:
            e = I.elem(args[0])
            nd = self.nd_val(args[0])
        else:
            e = joinall(args)
            nd = EMPTY
        if e != BOT:
            if key is not None and key[0] != frozenset([NONE]):
                kv = I.call_value(key, [e], {}, node)
                if kv == BOT:
                    return BOT
                I.note('branch', node, taints=kv[1])
                self.cmp_all(kv, node)
            else:
                self.cmp_all(e, node)
        tt = frozenset(x for x in t if x[0] != 'NDO')
        if nd and (key is not None or not all(a[0] in ('n', 's') for a in e[0])):
            tt |= frozenset(('ORD',) + tuple(x[1:]) for x in nd)
        if dfl is not None:
            e = join(e, dfl)
        if len(args) > 1:
            # the result equals one of the arguments; identities survive only alone
            if len({a[2] if a[0] == 'n' else a for a in e[0]}) > 1:
                e = (frozenset(('n', a[1], a[2]) if a[0] == 'n' else a for a in e[0]), e[1])
        return taint(e, tt)

    def cmp_all(self, e, node):
        self.compare('Lt', e, e, node)

    def b_min(self, args, kwargs, node, t):
        return self.minmax(args, kwargs, node, t)

    b_max = b_min

    def quant(self, args, t, stop):
        """any (stop=True) / all (stop=False)."""
        I = self.I
        e = I.elem(args[0])
        t = frozenset(x for x in t | e[1] if x[0] != 'NDO')
        pos = I.positional(args[0])
        if pos is not None:
            ts = [I.truth(v) for v in pos if v != BOT]
            if len(ts) == len(pos):
                if any(x[0 if not stop else 1] is False for x in ts):
                    return taint(self.cb(stop), t)
                if all(x[0 if stop else 1] is False for x in ts):
                    return taint(self.cb(not stop), t)
        if e != BOT:
            tr, fa = I.truth(e)
            if not (tr if stop else fa):
                return taint(self.cb(not stop), t)
        return taint(VB, t)

    def b_any(self, args, kwargs, node, t):
        return self.quant(args, t, True)

    def b_all(self, args, kwargs, node, t):
        return self.quant(args, t, False)

    def b_sorted(self, args, kwargs, node, t):
        I = self.I
        v = args[0]
        e = I.elem(v)
        key = kwargs.get('key')
        nd = self.nd_val(v)
        clean = True
        if e != BOT:
            if key is not None and NONE not in key[0]:
                kv = I.call_value(key, [e], {}, node)
                if kv == BOT:
                    return BOT
                I.note('branch', node, taints=kv[1])
                self.cmp_all(kv, node)
                clean = self.key_total(kv, e) and not any(x[0] == 'AH' for x in kv[1])
            else:
                self.cmp_all(e, node)
        out = self.new_seq(node, 'list', e, EMPTY if clean else nd, tag='sorted')
        if len(v[0]) == 1:
            a = next(iter(v[0]))
            if a[0] == 'o' and I.obj(a).n is not None and I.obj(a).kind in ('list', 'tuple') and I.obj(a).n <= 8:
                n = I.obj(a).n
                out = self.new_arr(node, n, {i: e for i in range(n)}, EMPTY if clean else nd, 24, kind='list')
        return taint(out, frozenset(x for x in t if x[0] not in ('NDO', 'FR', 'SQRT')))

    def key_total(self, kv, e):
        """Does the sort key separate any two different elements?"""
        I = self.I
        if not kv[0]:
            return True
        for a in kv[0]:
            ok = False
            if a in e[0]:
                ok = True
            elif a[0] == 's':
                ok = True          # identifiers
            elif a[0] == 'o' and I.obj(a).kind in ('tuple', 'list'):
                o = I.obj(a)
                if o.n is not None:
                    ok = any(self.key_total(I.load_from(a, EMPTY, i), e) and I.load_from(a, EMPTY, i)[0] for i in range(o.n))
                else:
                    ok = self.key_total(I.elem_atom(a, EMPTY), e)
            elif a[0] == 'x':
                ok = False
            if not ok:
                return False
        return True

    def derived(self, v, elem, node, tag, kind='iter'):
        nd = self.nd_val(v)
        r = self.new_seq(node, kind, elem, nd, tag=tag)
        return taint(r, frozenset(x for x in v[1] if x[0] != 'NDO'))

    def b_reversed(self, args, kwargs, node, t):
        I = self.I
        r = BOT
        for a in args[0][0]:
            if a[0] == 'o' and I.obj(a).n is not None and I.obj(a).kind in ('list', 'tuple', 'iter'):
                n = I.obj(a).n
                f = {i: I.load_from(a, EMPTY, n - 1 - i) for i in range(n)}
                r = join(r, taint(self.new_arr(node, n, f, self.nd_of(a), 25, kind='iter'), args[0][1]))
            else:
                r = join(r, self.derived((frozenset([a]), args[0][1]), I.elem_atom(a, EMPTY), node, 'rev'))
        return r

    def b_enumerate(self, args, kwargs, node, t):
        I = self.I
        v = args[0]
        start = args[1] if len(args) > 1 else kwargs.get('start')
        pos = I.positional(v)
        if pos is not None and start is None:
            f = {}
            for i, x in enumerate(pos):
                p = I.alloc(node, 'tuple', 'enum%d' % i, n=2, fields={0: V(('n', 'int', ('c', i))), 1: x})
                f[i] = V(p)
            return taint(self.new_arr(node, len(pos), f, EMPTY, 26, kind='iter'), v[1])
        e = I.elem(v)
        if e == BOT:
            return self.derived(v, BOT, node, 'enum')
        nd = self.nd_val(v)
        ix = V(INT, t=frozenset(('ORD',) + tuple(x[1:]) + ('position in an unordered sequence',) for x in nd))
        p = I.alloc(node, 'tuple', 'enump', n=2, fields={0: ix, 1: e})
        return self.derived(v, V(p, t=e[1]), node, 'enum')

    def b_zip(self, args, kwargs, node, t):
        I = self.I
        poss = [I.positional(v) for v in args]
        if args and all(p is not None for p in poss):
            n = min(len(p) for p in poss)
            f = {}
            for i in range(n):
                p = I.alloc(node, 'tuple', 'zip%d' % i, n=len(args), fields={j: poss[j][i] for j in range(len(args))})
                f[i] = V(p)
            return taint(self.new_arr(node, n, f, EMPTY, 27, kind='iter'), t)
        es = [I.elem(v) for v in args]
        nd = EMPTY
        for v in args:
            nd |= self.nd_val(v)
        if any(e == BOT for e in es):
            return self.new_seq(node, 'iter', BOT, nd, tag='zip')
        p = I.alloc(node, 'tuple', 'zipp', n=len(args), fields=dict(enumerate(es)))
        return taint(self.new_seq(node, 'iter', V(p), nd, tag='zip'), frozenset(x for x in t if x[0] != 'NDO'))

    def b_map(self, args, kwargs, node, t):
        I = self.I
        es = [I.elem(v) for v in args[1:]]
        nd = EMPTY
        for v in args[1:]:
            nd |= self.nd_val(v)
        if any(e == BOT for e in es):
            return self.new_seq(node, 'iter', BOT, nd, tag='map')
        e = I.call_value(args[0], es, {}, node)
        return taint(self.new_seq(node, 'iter', e, nd, tag='map'), frozenset(x for x in t if x[0] != 'NDO'))

    def b_filter(self, args, kwargs, node, t):
        I = self.I
        e = I.elem(args[1])
        if e != BOT and NONE not in args[0][0]:
            I.call_value(args[0], [e], {}, node)
        return self.derived(args[1], e, node, 'filter')

    def b_iter(self, args, kwargs, node, t):
        return self.derived(args[0], self.I.elem(args[0]), node, 'iter')

    def b_next(self, args, kwargs, node, t):
        I = self.I
        v = args[0]
        r = BOT
        nd = self.nd_val(v)
        for a in v[0]:
            if a[0] == 'o' and I.obj(a).kind == 'inst':
                m = I.class_lookup(I.obj(a).cls, '__next__')
                if m is not None:
                    r = join(r, I.call_value(I.bind_method(m, a, I.obj(a).cls), [], {}, node))
                continue
            r = join(r, I.elem_atom(a, EMPTY))
        r = taint(r, v[1])
        r = taint(r, frozenset(('ORD',) + tuple(x[1:]) + ('first of an unordered collection',) for x in nd))
        if len(args) > 1:
            r = join(r, args[1])
        return r

    def b_range(self, args, kwargs, node, t):
        for v in args:
            for a in v[0]:
                if a[0] == 'n' and a[1] in ('float', 'npfloat', 'mpq', 'frac', 'inf', 'nan') or a[0] in ('none', 's'):
                    self.I.note('badop', node, key=('range', self.kindname(a)))
        cs = [self.const_index(v) for v in args]
        if all(c is not None for c in cs) and not t:
            r = range(*cs)
            if len(r) <= 8:
                return self.new_arr(node, len(r), {i: V(('n', 'int', ('c', x))) for i, x in enumerate(r)}, EMPTY, 28, kind='iter')
        return self.new_seq(node, 'iter', V(INT, t=frozenset(x for x in t if x[0] not in ('FR', 'SQRT'))), EMPTY, tag='range')

    def b_hash(self, args, kwargs, node, t):
        I = self.I
        tt = t
        h = self.addr_hashed(args[0])
        if h:
            tt |= frozenset([('ORD', 'hash of ' + h), ('AH', '')])
        return V(INT, t=tt)

    def b_id(self, args, kwargs, node, t):
        return V(INT, t=t | frozenset([('ORD', 'object address'), ('AH', '')]))

    def b_super(self, args, kwargs, node, t):
        I = self.I
        c = I.cur
        if c.fi is None or c.fi.cls is None:
            return VX
        slf = c.fi.args.args[0].arg if c.fi.args.args else None
        v = I.st.env.get(slf, BOT)
        r = BOT
        for a in v[0]:
            if a[0] == 'o' and I.obj(a).kind == 'inst':
                r = join(r, V(('x', 'super')))
            else:
                r = join(r, VX)
        return r

    def b_locals(self, args, kwargs, node, t):
        I = self.I
        d = I.alloc(node, 'dict', 'locals')
        for k, v in I.st.env.items():
            v2 = (frozenset(x for x in v[0] if x != ('ub',)), v[1])
            if v2[0]:
                self.dict_put(d, V(('s', ('c', k))), v2)
        I.store_field(d[1], '$dyn', VB)
        return V(d)

    def b_globals(self, args, kwargs, node, t):
        return VX

    def b_vars(self, args, kwargs, node, t):
        if not args:
            return self.b_locals(args, kwargs, node, t)
        r = BOT
        for a in args[0][0]:
            if a[0] == 'o' and self.I.obj(a).kind == 'ns':
                d = self.I.alloc(node, 'dict', 'vars')
                self.dict_merge(d, V(a))
                r = join(r, V(d, t=args[0][1]))
            else:
                r = join(r, self.attr_atom(a, '__dict__', node, args[0][1]))
        return r

    def b_dir(self, args, kwargs, node, t):
        return self.new_seq(node, 'list', V(('s', None)), EMPTY, tag='dir')

    def b_open(self, args, kwargs, node, t):
        return V(('x', 'file'), t=t)
