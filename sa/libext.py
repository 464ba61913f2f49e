"""Engine A: methods of built-in kinds."""
from .absint import (V, BOT, EMPTY, NONE, BOOL, VB, VNONE, EXACTK, FLOATK, join,
                     joinall, taint, strip, is_loop_taint, const_atom)
from .libnp import NpMixin

FRESH = ('x', 'fresh')
VX = V(FRESH)
INT = ('n', 'int', None)
STR_BOOL = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isspace', 'isupper', 'islower', 'isidentifier'}
STR_LIST = {'split', 'rsplit', 'splitlines', 'partition', 'rpartition'}
STR_INT = {'find', 'index', 'count', 'rfind', 'rindex', '__len__', '__hash__'}
LISTY = ('list', 'tuple', 'iter', 'ndarray', 'sortedlist')


class ExtMixin(NpMixin):
    def call_method(self, name, recv, args, kwargs, node, ft):
        I = self.I
        t = self.allt(args, kwargs) | ft
        k = recv[0]
        if k == 'n' and name in ('tolist', 'item'):
            return V(recv, t=t)
        if k == 'o':
            o = I.obj(recv)
            m = getattr(self, 'm_%s_%s' % ({'frozenset': 'set', 'iter': 'list', 'tuple': 'list', 'ndarray': 'nd'}.get(o.kind, o.kind), name), None)
            if m is None and o.kind == 'ndarray':
                m = getattr(self, 'm_list_' + name, None)
            if m is not None:
                return m(recv, o, args, kwargs, node, t)
            if o.kind == 'inst':
                if I.record_fields(o.cls) is not None:
                    m = getattr(self, 'm_rec_' + name, None)
                    if m is not None:
                        return m(recv, o, args, kwargs, node, t)
                return V(FRESH, t=t)
            if o.kind == 'gen' and name in ('close', 'send', 'throw', '__next__'):
                return taint(I.elem_atom(recv, EMPTY), t)
            if o.kind in ('rng', 'argparser'):
                I.note('extcall', node, key='%s.%s' % (o.kind, name), name='%s.%s' % (o.kind, name))
            self.escape(args, kwargs, node)
            if o.kind in ('list', 'dict', 'set', 'sortedlist', 'sorteddict') and name not in ('copy', '__len__', '__repr__', '__iter__', '__contains__', '__getitem__'):
                self.mutate(V(recv), name, node, I.st)
            return V(FRESH, t=t)
        if k == 's':
            return self.str_method(name, recv, args, kwargs, node, t)
        if k == 'n':
            if name in ('as_integer_ratio',):
                return self.new_arr(node, 2, {0: V(('n', 'int', None)), 1: V(('n', 'int', None))}, EMPTY, 30, kind='tuple')
            if name in ('is_integer', '__bool__'):
                return V(('n', 'bool', None), t=t)
            if name in ('tolist', 'item'):
                return V(('n', {'npint': 'int', 'npfloat': 'float'}.get(recv[1], recv[1]), recv[2]), t=t)
            if name in ('__hash__', 'bit_length', '__int__', '__trunc__', '__floor__', '__ceil__'):
                return V(INT, t=t)
            if name == '__float__':
                return taint(self.convert('float', recv, node), t)
            if name == '__abs__':
                return V(('n', recv[1], None), t=t)
            if name in ('conjugate', 'astype', 'limit_denominator'):
                return V(('n', recv[1], None), t=t if name != 'limit_denominator' else t | self.frt(node))
            return V(FRESH, t=t)
        if k == 'path':
            if name == 'with_suffix':
                sfx = next(iter(args[0][0])) if args else None
                if sfx and sfx[0] == 's' and sfx[1] is not None and sfx[1][0] == 'c':
                    return V(('path', ('sfx', recv[1], sfx[1][1])), t=t)
                return V(('path', None), t=t)
            if name in ('__str__', '__fspath__', 'as_posix'):
                return V(('s', recv[1]), t=t)
            if name in ('resolve', 'absolute', 'expanduser'):
                return V(recv, t=t)
            if name in ('with_name', 'with_stem', 'joinpath'):
                r = BOT
                for x in (args[0][0] if args else ()):
                    if x[0] == 's' and x[1] and x[1][0] == 'psfx' and x[1][1] == recv[1] and name == 'with_name':
                        r = join(r, V(('path', ('sfx',) + x[1][1:])))
                    else:
                        r = join(r, V(('path', ('mix',) if recv[1] else None)))
                return taint(r, t) if r != BOT else V(('path', None), t=t)
            I.note('extcall', node, key='pathlib.' + name, name='pathlib.Path.' + name)
            if name in ('exists', 'is_file', 'is_dir'):
                return V(BOOL, t=t)
            return V(FRESH, t=t)
        if k == 'k':
            if recv[1] == 'dict' and name == 'fromkeys':
                d = I.alloc(node, 'dict', 'fromkeys')
                e = I.elem(args[0])
                if e != BOT:
                    self.dict_put(d, e, args[1] if len(args) > 1 else VNONE)
                self.spread_nd(d, args[0], node)
                return V(d, t=t)
            if recv[1] == 'object' and name in ('__new__',):
                return VX
            if args and recv[1] in ('list', 'dict', 'set', 'tuple', 'frozenset', 'str'):
                r = BOT
                for a in args[0][0]:
                    r = join(r, self.call_method(name, a, args[1:], kwargs, node, t))
                return r
            if recv[1] in ('frac', 'mpq') and name in ('from_float', 'from_decimal'):
                return V(('n', recv[1], None), t=t)
            return V(FRESH, t=t)
        if k == 'c':
            I.note('extcall', node, key='class.' + name, name='class.' + name)
            return V(FRESH, t=t)
        if k == 'x':
            return self.call_xmethod(name, recv, args, kwargs, node)
        return V(FRESH, t=t)

    def str_method(self, name, recv, args, kwargs, node, t):
        if name == 'join':
            e = self.I.elem(args[0])
            tt = t | e[1]
            nd = self.nd_val(args[0])
            tt |= frozenset(('ORD',) + tuple(x[1:]) for x in nd)
            for a in e[0]:
                if a[0] in ('n', 'none'):
                    self.I.note('badop', node, key=('join', self.kindname(a)))
            return V(('s', None), t=frozenset(x for x in tt if x[0] != 'NDO'))
        if name in STR_BOOL:
            return V(BOOL, t=t)
        if name in STR_LIST:
            return V(next(iter(self.new_seq(node, 'list', V(('s', None)), EMPTY, tag='split')[0])), t=t)
        if name in STR_INT:
            return V(INT, t=t)
        if name in ('format', 'format_map'):
            tt = t
            for v in list(args) + list(kwargs.values()):
                self.stringify(v, node)
                tt |= self.str_t(v, node)
            return V(('s', None), t=tt)
        if recv[0] == 's' and recv[1] and recv[1][0] in ('opt', 'sfx', 'mix') and name in (
                'lower', 'upper', 'replace', 'title', 'capitalize', 'swapcase', 'rjust', 'ljust', 'zfill', 'removesuffix'):
            return V(('s', ('mix',)), t=t)
        return V(('s', None), t=t)

    # ------------------------------------------------------------ list
    def add_elem(self, recv, v, node, op):
        I = self.I
        o = I.obj(recv)
        self.mutate_obj(recv, op, node)
        I.unfix(o)
        p = self.persists(recv)
        if I.st is not None and I.st.pc:
            v = taint(v, I.st.pc)
        if p:
            v = strip(v, is_loop_taint)
            I.store_field(recv[1], '$nd', (frozenset([BOOL]), p))
        if v != BOT:
            I.store_field(recv[1], '$elem', v)
            for z in self.view_chain(recv):
                I.store_field(z, '$elem', v)

    def m_list_append(self, recv, o, args, kwargs, node, t):
        self.add_elem(recv, args[0], node, 'append')
        return VNONE

    def m_list_insert(self, recv, o, args, kwargs, node, t):
        self.add_elem(recv, args[1], node, 'insert')
        return VNONE

    def m_list_extend(self, recv, o, args, kwargs, node, t):
        e = self.I.elem(args[0])
        self.add_elem(recv, taint(e, args[0][1]) if e != BOT else BOT, node, 'extend')
        self.spread_nd(recv, args[0], node)
        return VNONE

    def m_list_pop(self, recv, o, args, kwargs, node, t):
        I = self.I
        self.mutate_obj(recv, 'pop', node)
        e = I.elem_atom(recv, t)
        I.unfix(o)
        nd = self.nd_of(recv)
        return taint(e, frozenset(('ORD',) + tuple(x[1:]) for x in nd))

    def m_list_remove(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'remove', node)
        self.I.unfix(o)
        return VNONE

    def m_list_clear(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'clear', node)
        return VNONE

    def m_list_reverse(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'reverse', node)
        self.I.unfix(o)
        return VNONE

    def m_list_sort(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'sort', node)
        self.I.unfix(o)
        e = self.I.elem_atom(recv, EMPTY)
        if e != BOT:
            key = kwargs.get('key')
            if key is not None and NONE not in key[0]:
                e = self.I.call_value(key, [e], {}, node)
                self.I.note('branch', node, taints=e[1])
            if e != BOT:
                self.cmp_all(e, node)
        # the $nd mark stays: flow-insensitive heap (conservative)
        return VNONE

    def m_list_index(self, recv, o, args, kwargs, node, t):
        nd = self.nd_of(recv)
        return V(INT, t=t | frozenset(('ORD',) + tuple(x[1:]) for x in nd))

    def m_list_count(self, recv, o, args, kwargs, node, t):
        return V(INT, t=t)

    def m_list_copy(self, recv, o, args, kwargs, node, t):
        return self.to_seq('list' if o.kind != 'ndarray' else 'ndarray', V(recv, t=t), node)

    def m_list___len__(self, recv, o, args, kwargs, node, t):
        return self.b_len([V(recv, t=t)], {}, node, t)

    def m_list_split(self, recv, o, args, kwargs, node, t):
        return V(FRESH, t=t)

    # ------------------------------------------------------------ set
    def m_set_add(self, recv, o, args, kwargs, node, t):
        I = self.I
        self.mutate_obj(recv, 'add', node)
        v = args[0]
        self.hash_elems(v, node)
        if I.st is not None and I.st.pc:
            v = taint(v, I.st.pc)
        I.store_field(recv[1], '$elem', v)
        return VNONE

    def m_set_update(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'update', node)
        for a in args:
            e = self.I.elem(a)
            if e != BOT:
                self.I.store_field(recv[1], '$elem', taint(e, frozenset(x for x in a[1] if x[0] != 'NDO')))
        return VNONE

    def m_set_remove(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'remove', node)
        return VNONE

    m_set_discard = m_set_clear = m_set_difference_update = m_set_intersection_update = m_set_symmetric_difference_update = m_set_remove

    def m_set_pop(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'pop', node)
        e = self.I.elem_atom(recv, t)
        nd = self.nd_val(V(recv))
        return taint(e, frozenset(('ORD',) + tuple(x[1:]) for x in nd))

    def m_set_copy(self, recv, o, args, kwargs, node, t):
        return self.new_seq(node, o.kind, self.I.elem_atom(recv, EMPTY), EMPTY, tag='copy', t=t)

    def m_set_union(self, recv, o, args, kwargs, node, t):
        e = self.I.elem_atom(recv, EMPTY)
        for a in args:
            e = join(e, self.I.elem(a))
        return self.new_seq(node, 'set', e, EMPTY, tag='union', t=frozenset(x for x in t if x[0] != 'NDO'))

    m_set_symmetric_difference = m_set_union

    def m_set_intersection(self, recv, o, args, kwargs, node, t):
        return self.new_seq(node, 'set', self.I.elem_atom(recv, EMPTY), EMPTY, tag='inter', t=frozenset(x for x in t if x[0] != 'NDO'))

    m_set_difference = m_set_intersection

    def m_set_issubset(self, recv, o, args, kwargs, node, t):
        return V(BOOL, t=frozenset(x for x in t if x[0] != 'NDO'))

    m_set_issuperset = m_set_isdisjoint = m_set_issubset

    # ------------------------------------------------------------ dict
    def view(self, recv, o, elem, node, t, tag):
        nd = self.nd_val(V(recv))
        r = self.new_seq(node, 'iter', elem, nd, tag=tag)
        return taint(r, frozenset(x for x in t if x[0] != 'NDO'))

    def m_dict_keys(self, recv, o, args, kwargs, node, t):
        return self.view(recv, o, self.I.load_from(recv, t, '$key'), node, t, 'keys')

    def m_dict_values(self, recv, o, args, kwargs, node, t):
        return self.view(recv, o, self.I.load_from(recv, t, '$val'), node, t, 'values')

    def m_dict_items(self, recv, o, args, kwargs, node, t):
        I = self.I
        k, v = I.load_from(recv, t, '$key'), I.load_from(recv, t, '$val')
        if k == BOT or v == BOT:
            return self.view(recv, o, BOT, node, t, 'items')
        p = I.alloc(node, 'tuple', 'item', n=2, fields={0: k, 1: v})
        p = ('o', p[1], recv[2])
        return self.view(recv, o, V(p, t=k[1]), node, t, 'items')

    def m_dict_get(self, recv, o, args, kwargs, node, t):
        d = args[1] if len(args) > 1 else kwargs.get('default', VNONE)
        r = self.dict_get(recv, o, args[0], node, t, strict=False)
        certain = False
        if len(args[0][0]) == 1:
            c = self.const_key(next(iter(args[0][0])))
            if c is not None and ('k', c) in o.f and o.kind == 'ns':
                certain = True
        el = {x[1] for x in args[0][1] if x[0] == 'EL'}
        td = frozenset(x for x in t if not (x[0] == 'LC' and x[1] in el)) | args[0][1] if el else t
        return r if certain else join(r, taint(d, td))

    def m_dict_setdefault(self, recv, o, args, kwargs, node, t):
        d = args[1] if len(args) > 1 else VNONE
        self.mutate_obj(recv, 'setdefault', node)
        self.nd_mark(recv)
        self.dict_put(recv, args[0], d)
        return self.dict_get(recv, o, args[0], node, t, strict=False)

    def m_dict_pop(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'pop', node)
        r = self.dict_get(recv, o, args[0], node, t, strict=len(args) == 1)
        if len(args) > 1:
            r = join(r, args[1])
        return r

    def m_dict_popitem(self, recv, o, args, kwargs, node, t):
        I = self.I
        self.mutate_obj(recv, 'popitem', node)
        k, v = I.load_from(recv, t, '$key'), I.load_from(recv, t, '$val')
        if k == BOT:
            return BOT
        nd = self.nd_val(V(recv)) if o.kind == 'dict' else EMPTY
        tt = frozenset(('ORD',) + tuple(x[1:]) for x in nd)
        p = I.alloc(node, 'tuple', 'popitem', n=2, fields={0: taint(k, tt), 1: taint(v, tt)})
        return V(p, t=t | tt)

    def m_dict_update(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'update', node)
        for a in args:
            self.dict_merge(recv, a)
            self.nd_mark(recv)
        for k, v in kwargs.items():
            self.dict_put(recv, V(('s', ('c', k))), v)
        return VNONE

    def m_dict_clear(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'clear', node)
        return VNONE

    def m_dict_copy(self, recv, o, args, kwargs, node, t):
        d = self.I.alloc(node, o.kind if o.kind != 'pmap' else 'pmap', 'copy')
        self.dict_merge(d, V(recv, t=t))
        if '$factory' in o.f:
            self.I.store_field(d[1], '$factory', self.I.load_from(recv, EMPTY, '$factory'))
        return V(d, t=t)

    m_ns_get = m_dict_get
    m_ns_items = m_dict_items
    m_ns_keys = m_dict_keys
    m_ns_values = m_dict_values
    m_sorteddict_get = m_dict_get
    m_sorteddict_items = m_dict_items
    m_sorteddict_keys = m_dict_keys
    m_sorteddict_values = m_dict_values
    m_sorteddict_pop = m_dict_pop
    m_sorteddict_popitem = m_dict_popitem
    m_sorteddict_setdefault = m_dict_setdefault
    m_sorteddict_update = m_dict_update
    m_sorteddict_copy = m_dict_copy
    m_sorteddict_clear = m_dict_clear

    def m_sorteddict_irange(self, recv, o, args, kwargs, node, t):
        e = self.I.load_from(recv, t, '$key')
        for a in list(args) + [v for k, v in kwargs.items() if k in ('minimum', 'maximum')]:
            if e != BOT:
                self.compare('Lt', a, e, node) if NONE not in a[0] else None
        return self.new_seq(node, 'iter', e, EMPTY, tag='irange')

    def m_sorteddict_peekitem(self, recv, o, args, kwargs, node, t):
        I = self.I
        k, v = I.load_from(recv, t, '$key'), I.load_from(recv, t, '$val')
        if k == BOT:
            return BOT
        return V(I.alloc(node, 'tuple', 'peek', n=2, fields={0: k, 1: v}), t=t)

    # ------------------------------------------------------------ sorted list
    def sl_key(self, recv, o, v, node):
        if '$keyf' in o.f:
            kf = self.I.load_from(recv, EMPTY, '$keyf')
            kv = self.I.call_value(kf, [v], {}, node)
            if kv != BOT:
                self.cmp_all(kv, node)
            return kv
        e = self.I.elem_atom(recv, EMPTY)
        if e != BOT:
            self.compare('Lt', v, e, node)
        return v

    def m_sortedlist_add(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'add', node)
        v = args[0]
        if self.I.st is not None and self.I.st.pc:
            v = taint(v, self.I.st.pc)
        self.I.store_field(recv[1], '$elem', v)
        self.sl_key(recv, o, args[0], node)
        return VNONE

    def m_sortedlist_update(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'update', node)
        e = self.I.elem(args[0])
        if e != BOT:
            self.I.store_field(recv[1], '$elem', e)
            self.sl_key(recv, o, e, node)
        return VNONE

    def m_sortedlist_remove(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'remove', node)
        self.sl_key(recv, o, args[0], node)
        return VNONE

    m_sortedlist_discard = m_sortedlist_remove

    def m_sortedlist_pop(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'pop', node)
        return self.I.elem_atom(recv, t)

    def m_sortedlist_irange(self, recv, o, args, kwargs, node, t):
        for a in list(args) + [v for k, v in kwargs.items() if k in ('minimum', 'maximum')]:
            if NONE not in a[0]:
                self.sl_key(recv, o, a, node)
        return self.new_seq(node, 'iter', self.I.elem_atom(recv, t), EMPTY, tag='irange')

    def m_sortedlist_bisect_left(self, recv, o, args, kwargs, node, t):
        self.sl_key(recv, o, args[0], node)
        return V(INT, t=t)

    m_sortedlist_bisect = m_sortedlist_bisect_right = m_sortedlist_index = m_sortedlist_bisect_left

    # ------------------------------------------------------------ pyrsistent
    def m_pmap_set(self, recv, o, args, kwargs, node, t):
        d = self.I.alloc(node, 'pmap', 'pset')
        self.dict_merge(d, V(recv))
        v = args[1]
        if self.I.st is not None and self.I.st.pc:
            v = taint(v, self.I.st.pc)
        el = {x[1] for x in args[0][1] if x[0] == 'EL'}
        lc = {x[1] for x in t if x[0] == 'LC'}
        tt = t
        if el & lc:
            # each pass writes its own slot
            vlc = {x[1] for x in args[1][1] if x[0] == 'LC'}
            tt = frozenset(x for x in t if not (x[0] == 'EL' and x[1] in el and x[1] not in vlc))
        self.dict_put(d, args[0], v)
        return V(d, t=tt)

    def m_pmap_get(self, recv, o, args, kwargs, node, t):
        return self.m_dict_get(recv, o, args, kwargs, node, t)

    m_pmap_items = m_dict_items
    m_pmap_iteritems = m_dict_items
    m_pmap_keys = m_dict_keys
    m_pmap_iterkeys = m_dict_keys
    m_pmap_values = m_dict_values
    m_pmap_itervalues = m_dict_values

    def m_pmap_copy(self, recv, o, args, kwargs, node, t):
        return V(recv, t=t)

    def m_pmap_remove(self, recv, o, args, kwargs, node, t):
        d = self.I.alloc(node, 'pmap', 'pdel')
        self.dict_merge(d, V(recv))
        return V(d, t=t)

    m_pmap_discard = m_pmap_remove

    def m_pmap_update(self, recv, o, args, kwargs, node, t):
        d = self.I.alloc(node, 'pmap', 'pupd')
        self.dict_merge(d, V(recv))
        for a in args:
            self.dict_merge(d, a)
        return V(d, t=t)

    def m_pmap_evolver(self, recv, o, args, kwargs, node, t):
        d = self.I.alloc(node, 'dict', 'evolver')
        self.dict_merge(d, V(recv))
        return V(d, t=t)

    def m_dict_persistent(self, recv, o, args, kwargs, node, t):
        d = self.I.alloc(node, 'pmap', 'persistent')
        self.dict_merge(d, V(recv))
        return V(d, t=t)

    def m_dict_set(self, recv, o, args, kwargs, node, t):
        self.mutate_obj(recv, 'setitem', node)
        self.dict_put(recv, args[0], args[1])
        return V(recv, t=t)

    def m_pmap_transform(self, recv, o, args, kwargs, node, t):
        return self.transform(V(recv, t=t), args, node)

    def transform(self, base, args, node):
        """pyrsistent transform: pairs of (path, command)."""
        r = base
        for i in range(0, len(args) - 1, 2):
            path = self.I.positional(args[i])
            if path is None:
                return V(FRESH, t=self.allt(args))
            r = self.transform1(r, path, args[i + 1], node)
            if r == BOT:
                return BOT
        return r

    def transform1(self, base, path, cmd, node):
        I = self.I
        if not path:
            out = BOT
            for c in cmd[0]:
                if c[0] in ('f', 'm', 'e', 'k', 'em', 'partial') or c[0] == 'o' and I.obj(c).kind == 'inst' and I.class_lookup(I.obj(c).cls, '__call__'):
                    if c[0] == 'e' and c[1] == 'pyrsistent.discard':
                        continue
                    out = join(out, I.call_value(V(c), [base], {}, node))
                else:
                    out = join(out, V(c, t=cmd[1]))
            return out
        r = BOT
        for a in base[0]:
            if a[0] != 'o':
                if a[0] in ('x', 'xa'):
                    r = join(r, VX)
                else:
                    I.note('badop', node, key=('transform', self.kindname(a)))
                continue
            cur = self.getitem_atom(a, path[0], node, base[1])
            if cur == BOT:
                o = I.obj(a)
                if o.kind == 'pmap' and len(path) == 1:
                    cur = BOT
                    new = (frozenset(c for c in cmd[0] if c[0] not in ('f', 'm')), cmd[1])
                else:
                    continue
            else:
                new = self.transform1(cur, path[1:], cmd, node)
            if new == BOT or not new[0]:
                continue
            o = I.obj(a)
            if o.kind == 'pmap':
                r = join(r, self.m_pmap_set(a, o, [path[0], new], {}, node, base[1] | path[0][1] | new[1]))
            elif o.kind == 'inst' and I.record_fields(o.cls) is not None:
                r = join(r, self.m_rec_set(a, o, [path[0], new], {}, node, base[1] | new[1]))
            else:
                r = join(r, VX)
        return r

    # records
    def rec_copy(self, recv, o, node, tag):
        I = self.I
        n = I.alloc(node, 'inst', 'rec:%s:%s' % (tag, o.cls), cls=o.cls)
        for f in I.record_fields(o.cls):
            if f in o.f:
                I.store_field(n[1], f, I.load_from(recv, EMPTY, f))
        return n

    def m_rec_set(self, recv, o, args, kwargs, node, t):
        I = self.I
        rec = I.record_fields(o.cls)
        n = self.rec_copy(recv, o, node, 'set')
        items = []
        if len(args) == 2:
            for a in args[0][0]:
                if a[0] == 's' and a[1] is not None and a[1][0] == 'c':
                    items.append((a[1][1], args[1]))
                else:
                    for f in rec:
                        items.append((f, args[1]))
        elif args:
            I.note('arity', node, key=('record set', len(args)), callee='set', err='record.set takes a name and a value')
            return BOT
        items += [(k, v) for k, v in kwargs.items() if k != '**']
        for k, v in items:
            if k not in rec:
                I.note('badfield', node, key=(o.cls, k), cls=o.cls, field=k, op='set')
                return BOT
            if I.st is not None and I.st.pc:
                v = taint(v, I.st.pc)
            I.state_created(o.cls, k)
            I.store_field(n[1], k, v)
        return V(n, t=t)

    def m_rec_get(self, recv, o, args, kwargs, node, t):
        I = self.I
        r = args[1] if len(args) > 1 else VNONE
        for a in args[0][0]:
            if a[0] == 's' and a[1] is not None and a[1][0] == 'c':
                if a[1][1] in I.record_fields(o.cls):
                    r = join(r, I.load_from(recv, t, a[1][1]))
                else:
                    I.note('badfield', node, key=(o.cls, a[1][1]), cls=o.cls, field=a[1][1], op='get')
        return r

    def m_rec_transform(self, recv, o, args, kwargs, node, t):
        return self.transform(V(recv, t=t), args, node)

    def m_rec_evolver(self, recv, o, args, kwargs, node, t):
        return VX

    def m_rec_keys(self, recv, o, args, kwargs, node, t):
        return self.view(recv, o, V(('s', None)), node, t, 'rkeys')

    def m_rec_values(self, recv, o, args, kwargs, node, t):
        e = joinall([self.I.load_from(recv, t, f) for f in self.I.record_fields(o.cls) if f in o.f])
        return self.view(recv, o, e, node, t, 'rvalues')

    def m_rec_items(self, recv, o, args, kwargs, node, t):
        e = joinall([self.I.load_from(recv, t, f) for f in self.I.record_fields(o.cls) if f in o.f])
        p = self.I.alloc(node, 'tuple', 'ritem', n=2, fields={0: V(('s', None)), 1: e})
        return self.view(recv, o, V(p), node, t, 'ritems')

    def m_rec_update(self, recv, o, args, kwargs, node, t):
        I = self.I
        n = self.rec_copy(recv, o, node, 'upd')
        for a in args:
            ck = self.const_keys(a)
            if ck is None:
                return VX
            for k, v in ck.items():
                if k not in I.record_fields(o.cls):
                    I.note('badfield', node, key=(o.cls, k), cls=o.cls, field=k, op='update')
                    return BOT
                I.state_created(o.cls, k)
                I.store_field(n[1], k, v)
        return V(n, t=t)

    def m_rec_copy(self, recv, o, args, kwargs, node, t):
        return V(recv, t=t)

    def m_rec_serialize(self, recv, o, args, kwargs, node, t):
        d = self.I.alloc(node, 'dict', 'ser')
        self.dict_merge(d, V(recv))
        return V(d, t=t)
