"""Engine A: functions and methods of external libraries."""
from .absint import (V, BOT, EMPTY, NONE, BOOL, VB, VNONE, EXACTK, FLOATK, join,
                     joinall, taint, strip, is_loop_taint, const_atom)

from .libarr import ArrMixin

FRESH = ('x', 'fresh')
VX = V(FRESH)
INT = ('n', 'int', None)
EXC_STATUS = {}
OPERATOR = {'operator.' + k: v for k, v in dict(
    add='Add', sub='Sub', mul='Mult', truediv='Div', floordiv='FloorDiv', mod='Mod', pow='Pow',
    or_='BitOr', and_='BitAnd', xor='BitXor', ior='BitOr', iand='BitAnd', iadd='Add', concat='Add').items()}
OPCMP = {'operator.' + k: v for k, v in dict(lt='Lt', le='LtE', gt='Gt', ge='GtE', eq='Eq', ne='NotEq', is_='Is', is_not='IsNot').items()}
ORDSRC = ('time.', 'random.', 'os.environ', 'os.getpid', 'os.urandom', 'uuid.', 'secrets.', 'datetime.',
          'numpy.random.', 'os.listdir', 'os.getenv', 'glob.', 'socket.', 'threading.get_ident', 'os.scandir', 'os.cpu_count')
DRAWS = ('randint', 'rand', 'randn', 'random', 'random_sample', 'uniform', 'choice', 'shuffle', 'permutation',
         'normal', 'integers', 'randrange', 'sample', 'getrandbits')


class NpMixin(ArrMixin):
    def ordt(self, what):
        return frozenset([('ORD', what)])

    def call_ext(self, q, args, kwargs, node):
        I = self.I
        t = self.allt(args, kwargs)
        if q.startswith('_sa.'):
            return self.call_sa(q[4:], args, kwargs, node, t)
        if q in OPERATOR and len(args) == 2:
            return self.binop(OPERATOR[q], args[0], args[1], node)
        if q in OPCMP and len(args) == 2:
            return self.compare(OPCMP[q], args[0], args[1], node)
        if q == '$identity':
            return args[0] if args else BOT
        if q == '$vectorized':
            return self.vectorized(args, kwargs, node, t)
        m = getattr(self, 'e_' + q.replace('.', '_'), None)
        if m is not None:
            return m(args, kwargs, node, t)
        if any(q.startswith(p) for p in ORDSRC):
            return V(FRESH, t=t | self.ordt(q))
        if q.startswith('numpy.'):
            return self.np_call(q[6:], args, kwargs, node, t)
        if q.startswith('itertools.'):
            return self.itertools(q[10:], args, kwargs, node, t)
        if q.startswith('math.'):
            return self.math(q[5:], args, kwargs, node, t)
        if q.startswith('logging.'):
            return V(('x', 'logger')) if q.endswith('getLogger') else VNONE
        self.escape(args, kwargs, node)
        return V(('x', 'ext:' + q), t=t)

    # ------------------------------------------------------------ driver inputs
    def call_sa(self, n, args, kwargs, node, t):
        I = self.I
        if n == 'q':
            return V(('n', 'mpq', None))
        if n == 'qinf':
            return V(('n', 'mpq', None), ('n', 'inf', None))
        if n == 'i':
            return V(INT)
        if n == 'idx':
            return V(('n', 'int', None))
        if n == 'flag':
            return VB
        if n == 'text':
            return V(('s', None))
        if n == 'nonint_float':
            return V(('n', 'float', ('nonint', 'a')))
        if n == 'nonint_npfloat':
            return V(('n', 'npfloat', ('nonint', 'b')))
        if n == 'nonzero_float':
            return V(('n', 'float', ('nonzero',)), ('n', 'npfloat', ('nonzero',)))
        if n == 'any_float':
            return V(('n', 'float', None))
        if n == 'nan':
            return V(('n', 'nan', None))
        if n == 'inf':
            return V(('n', 'inf', ('c', float('inf'))))
        if n == 'ninf':
            return V(('n', 'inf', ('c', float('-inf'))))
        if n == 'frac':
            return V(('n', 'frac', None))
        if n == 'tag':
            # tag('name', value): the number or text, with an identity
            nm = next(iter(args[0][0]))[1][1]
            out = set()
            for a in args[1][0]:
                if a[0] == 'n':
                    out.add(('n', a[1], ('in', nm)))
                elif a[0] == 's':
                    out.add(('s', ('in', nm)))
                else:
                    out.add(a)
            return (frozenset(out), args[1][1])
        if n == 'opaque':
            nm = next(iter(args[0][0]))[1][1]
            return V(('x', nm))
        if n == 'several':
            # an arbitrary-length list of such elements
            return self.new_seq(node, 'list', joinall(args), EMPTY, tag='several')
        if n == 'array':
            return self.new_seq(node, 'ndarray', joinall(args), EMPTY, tag='sarray')
        if n == 'sink':
            nm = next(iter(args[0][0]))[1][1]
            I.note('sink', node, key=nm, name=nm, value=joinall(args[1:]))
            return VNONE
        if n == 'either':
            return joinall(args)
        if n == 'instance':
            r = BOT
            for a in args[0][0]:
                if a[0] == 'c':
                    r = join(r, self.any_instance(a[1], node))
            return r
        return VX

    def any_instance(self, cid, node):
        """An instance of the class whose fields hold anything."""
        I = self.I
        o = I.alloc(node, 'inst', 'any:' + cid, cls=cid)
        names = set(I.record_fields(cid) or ()) | I.instance_fields(cid)
        for x in list(I.heap.values()):
            if x.kind == 'inst' and x.cls == cid:
                names |= {f for f in x.f if isinstance(f, str) and not f.startswith('$')}
        for f in names:
            I.store_field(o[1], f, VX)
        return V(o)

    # ------------------------------------------------------------ math
    def math(self, n, args, kwargs, node, t):
        I = self.I
        if n in ('isfinite', 'isinf', 'isnan'):
            r = BOT
            for a in args[0][0]:
                if a[0] == 'n':
                    x = {'isfinite': a[1] not in ('inf', 'nan'), 'isinf': a[1] == 'inf', 'isnan': a[1] == 'nan'}[n]
                    if a[1] in FLOATK and (a[2] is None or a[2][0] == 'num'):
                        r = join(r, self.cb(x))
                    else:
                        r = join(r, self.cb(x))
                elif a[0] in ('x', 'xa'):
                    r = join(r, VB)
                elif a[0] == 'o' and I.obj(a).kind == 'inst':
                    f = I.class_lookup(I.obj(a).cls, '__float__')
                    if f is None and not I.ext_base(I.obj(a).cls):
                        I.note('badop', node, key=('math.' + n, I.obj(a).cls))
                    else:
                        r = join(r, VB)
                else:
                    I.note('badop', node, key=('math.' + n, self.kindname(a)))
            return r
        if n in ('floor', 'ceil', 'trunc'):
            r = BOT
            for a in args[0][0]:
                if a[0] == 'n':
                    if a[1] in ('inf', 'nan'):
                        I.note('badop', node, key=('math.' + n, a[1]))
                        continue
                    r = join(r, V(('n', 'mpz' if a[1] in ('mpq', 'mpz') else 'int',
                                   a[2] if a[1] in ('int', 'bool', 'mpz') else ('trunc', a[2]))))
                elif a[0] in ('x', 'xa'):
                    r = join(r, V(INT))
                else:
                    I.note('badop', node, key=('math.' + n, self.kindname(a)))
            return taint(r, t)
        if n in ('gcd', 'lcm', 'factorial', 'comb', 'isqrt'):
            return V(INT, t=t)
        if n == 'sqrt':
            tt = frozenset(x for x in t if x[0] != 'FR')
            a = I.cur
            return V(('n', 'float', None), t=tt | frozenset([('SQRT', '%s:%d' % (a.module.rel, node.lineno))]))
        if n in ('copysign', 'fabs') and False:
            return BOT
        return V(('n', 'float', None), t=t | self.frt(node))

    def e_gmpy2_f2q(self, args, kwargs, node, t):
        r = BOT
        tt = EMPTY
        for a in args[0][0]:
            if a[0] == 'n' and a[1] in FLOATK and not any(x[0] == 'SQRT' for x in t):
                tt |= self.frt(node)
            r = join(r, V(('n', 'mpq', None)))
        return taint(r, t | tt)

    def e_gmpy2_sqrt(self, args, kwargs, node, t):
        return self.math('sqrt', args, kwargs, node, t)

    def e_gmpy2_sign(self, args, kwargs, node, t):
        return V(INT, t=t)

    def e_gmpy2_numer(self, args, kwargs, node, t):
        return V(('n', 'mpz', None), t=t)

    e_gmpy2_denom = e_gmpy2_numer

    # ------------------------------------------------------------ functools etc.
    def e_functools_reduce(self, args, kwargs, node, t):
        I = self.I
        e = I.elem(args[1])
        init = args[2] if len(args) > 2 else None
        acc = init if init is not None else e
        if e == BOT:
            return init if init is not None else BOT
        for _ in range(6):
            r = I.call_value(args[0], [acc, e], {}, node)
            nxt = join(acc, r)
            if nxt == acc:
                break
            acc = nxt
        # with distinct freshness the fixpoint is reached through joins
        nd = self.nd_val(args[1])
        tt = frozenset(x for x in t if x[0] != 'NDO')
        if nd:
            commuting = all(f[0] == 'e' and f[1] in OPERATOR and OPERATOR[f[1]] in ('Add', 'Mult', 'BitOr', 'BitAnd', 'BitXor')
                            for f in args[0][0]) and self.commuting_kinds(acc)
            if not commuting:
                tt |= frozenset(('ORD',) + tuple(x[1:]) for x in nd)
        return taint(acc, tt)

    def e_functools_lru_cache(self, args, kwargs, node, t):
        if args and any(a[0] in ('f', 'm') for a in args[0][0]):
            return args[0]
        return V(('e', '$identity'))

    e_functools_cache = e_functools_cached_property = e_functools_wraps = e_functools_lru_cache

    def e_functools_total_ordering(self, args, kwargs, node, t):
        return args[0]

    def e_functools_partial(self, args, kwargs, node, t):
        p = self.I.alloc(node, 'partial', 'partial', n=None)
        self.I.store_field(p[1], '$fn', args[0])
        for i, a in enumerate(args[1:]):
            self.I.store_field(p[1], ('a', i), a)
        for k, v in kwargs.items():
            self.I.store_field(p[1], ('kw', k), v)
        return V(p, t=t)

    def e_functools_cmp_to_key(self, args, kwargs, node, t):
        return VX

    def e_operator_itemgetter(self, args, kwargs, node, t):
        p = self.I.alloc(node, 'itemgetter', 'ig')
        for i, a in enumerate(args):
            self.I.store_field(p[1], i, a)
        self.I.store_field(p[1], '$n', V(('n', 'int', ('c', len(args)))))
        return V(p)

    def e_operator_attrgetter(self, args, kwargs, node, t):
        p = self.I.alloc(node, 'attrgetter', 'ag')
        for i, a in enumerate(args):
            self.I.store_field(p[1], i, a)
        return V(p)

    def call_helper(self, f, o, args, kwargs, node, t):
        """Objects that are functions: partial, itemgetter, attrgetter."""
        I = self.I
        if o.kind == 'partial':
            pa = []
            i = 0
            while ('a', i) in o.f:
                pa.append(I.load_from(f, EMPTY, ('a', i)))
                i += 1
            kw = {k[1]: I.load_from(f, EMPTY, k) for k in list(o.f) if isinstance(k, tuple) and k[0] == 'kw'}
            kw.update(kwargs)
            return I.call_value(I.load_from(f, EMPTY, '$fn'), pa + list(args), kw, node)
        n = sum(1 for k in o.f if isinstance(k, int))
        rs = []
        for i in range(n):
            if o.kind == 'itemgetter':
                rs.append(self.getitem(args[0], I.load_from(f, EMPTY, i), node, I.st))
            else:
                nm = next(iter(I.load_from(f, EMPTY, i)[0]))
                v = args[0]
                for part in (nm[1][1].split('.') if nm[0] == 's' and nm[1] else []):
                    v = self.attr(v, part, node, I.st)
                rs.append(v)
        if len(rs) == 1:
            return rs[0]
        return self.new_arr(node, len(rs), dict(enumerate(rs)), EMPTY, 40, kind='tuple')

    def e_collections_defaultdict(self, args, kwargs, node, t):
        d = self.I.alloc(node, 'dict', 'defaultdict')
        if args and NONE not in args[0][0]:
            self.I.store_field(d[1], '$factory', args[0])
        for a in args[1:]:
            self.dict_merge(d, a)
        return V(d, t=t)

    def e_collections_OrderedDict(self, args, kwargs, node, t):
        return self.call_kind('dict', args, kwargs, node)

    def e_collections_Counter(self, args, kwargs, node, t):
        d = self.I.alloc(node, 'dict', 'counter')
        for a in args:
            e = self.I.elem(a)
            if e != BOT:
                self.dict_put(d, e, V(INT))
            self.spread_nd(d, a, node)
        self.I.store_field(d[1], '$factory', V(('k', 'int')))
        self.I.store_field(d[1], '$dyn', VB)
        return V(d, t=t)

    def e_collections_deque(self, args, kwargs, node, t):
        return self.to_seq('list', args[0], node) if args else self.new_seq(node, 'list', BOT, EMPTY, tag='deque')

    def e_collections_namedtuple(self, args, kwargs, node, t):
        return VX

    # ------------------------------------------------------------ pyrsistent, sortedcontainers
    def e_pyrsistent_field(self, args, kwargs, node, t):
        return V(('field',))

    def e_pyrsistent_m(self, args, kwargs, node, t):
        d = self.I.alloc(node, 'pmap', 'm')
        for k, v in kwargs.items():
            self.dict_put(d, V(('s', ('c', k))), v)
        return V(d, t=t)

    def e_pyrsistent_pmap(self, args, kwargs, node, t):
        d = self.I.alloc(node, 'pmap', 'pmap')
        for a in args:
            self.dict_merge(d, a)
        return V(d, t=t)

    def e_pyrsistent_pset(self, args, kwargs, node, t):
        return self.call_kind('frozenset', args, kwargs, node)

    def e_pyrsistent_pvector(self, args, kwargs, node, t):
        return self.call_kind('tuple', args, kwargs, node)

    def e_pyrsistent_freeze(self, args, kwargs, node, t):
        return VX

    e_pyrsistent_thaw = e_pyrsistent_freeze

    def e_sortedcontainers_SortedList(self, args, kwargs, node, t):
        I = self.I
        o = I.alloc(node, 'sortedlist', 'sl')
        if 'key' in kwargs:
            I.store_field(o[1], '$keyf', kwargs['key'])
        if args:
            e = I.elem(args[0])
            if e != BOT:
                I.store_field(o[1], '$elem', e)
                self.sl_key(o, I.obj(o), e, node)
        return V(o, t=frozenset(x for x in t if x[0] != 'NDO'))

    e_sortedcontainers_SortedKeyList = e_sortedcontainers_SortedList

    def e_sortedcontainers_SortedDict(self, args, kwargs, node, t):
        o = self.I.alloc(node, 'sorteddict', 'sd')
        for a in args:
            if any(x[0] in ('f', 'm') for x in a[0]):
                continue
            self.dict_merge(o, a)
        return V(o, t=t)

    # ------------------------------------------------------------ itertools
    def itertools(self, n, args, kwargs, node, t):
        I = self.I
        tt = frozenset(x for x in t if x[0] != 'NDO')
        if n in ('islice', 'cycle', 'takewhile', 'dropwhile', 'filterfalse'):
            src = args[0] if n in ('islice', 'cycle') else args[1]
            e = I.elem(src)
            if n not in ('islice', 'cycle') and e != BOT:
                I.call_value(args[0], [e], {}, node)
            nd = self.nd_val(src)
            if n != 'cycle' and n != 'filterfalse' and nd:
                e = taint(e, frozenset(('ORD',) + tuple(x[1:]) for x in nd))
            return taint(self.new_seq(node, 'iter', e, nd, tag=n), tt)
        nd = EMPTY
        for a in args:
            nd |= self.nd_val(a)
        if n == 'chain':
            return taint(self.new_seq(node, 'iter', joinall([I.elem(a) for a in args]), nd, tag=n), tt)
        if n == 'chain.from_iterable':
            inner = I.elem(args[0])
            return taint(self.new_seq(node, 'iter', I.elem(inner), nd | self.nd_val(inner), tag=n), tt)
        if n == 'count':
            return self.new_seq(node, 'iter', V(INT, t=tt), EMPTY, tag=n)
        if n == 'repeat':
            return self.new_seq(node, 'iter', args[0], EMPTY, tag=n)
        if n in ('combinations', 'permutations', 'combinations_with_replacement', 'product', 'pairwise', 'zip_longest'):
            k = None
            if n in ('product', 'zip_longest'):
                es = [I.elem(a) for a in args]
                if n == 'zip_longest':
                    es = [join(e, VNONE) for e in es]
                rep = self.const_index(kwargs['repeat']) if 'repeat' in kwargs else 1
                es = es * (rep or 1)
            elif n == 'pairwise':
                es = [I.elem(args[0])] * 2
            else:
                k = self.const_index(args[1]) if len(args) > 1 else None
                es = [I.elem(args[0])] * (k or 0)
                if not k:
                    tup = self.new_seq(node, 'tuple', I.elem(args[0]), nd, tag='comb')
                    return taint(self.new_seq(node, 'iter', tup, nd, tag=n), tt)
            if any(e == BOT for e in es):
                return self.new_seq(node, 'iter', BOT, nd, tag=n)
            if nd and n not in ('product',):
                es = [taint(e, frozenset(('ORD',) + tuple(x[1:]) for x in nd)) for e in es]
            p = self.new_arr(node, len(es), dict(enumerate(es)), EMPTY, 41, kind='tuple')
            return taint(self.new_seq(node, 'iter', p, nd, tag=n), tt)
        if n == 'groupby':
            e = I.elem(args[0])
            if e == BOT:
                return self.new_seq(node, 'iter', BOT, nd, tag=n)
            kv = I.call_value(args[1], [e], {}, node) if len(args) > 1 else e
            g = self.new_seq(node, 'iter', e, nd, tag='group')
            p = self.new_arr(node, 2, {0: kv, 1: g}, EMPTY, 42, kind='tuple')
            return taint(self.new_seq(node, 'iter', p, nd, tag=n), tt)
        if n == 'accumulate':
            e = I.elem(args[0])
            if e == BOT:
                return self.new_seq(node, 'iter', BOT, nd, tag=n)
            acc = e
            for _ in range(3):
                r = I.call_value(args[1], [acc, e], {}, node) if len(args) > 1 else self.binop('Add', acc, e, node)
                acc = join(acc, r)
            return taint(self.new_seq(node, 'iter', acc, nd, tag=n), tt)
        if n == 'starmap':
            return taint(self.new_seq(node, 'iter', VX, nd, tag=n), tt)
        return V(FRESH, t=t)

    # ------------------------------------------------------------ files, options
    def e_ezdxf_new(self, args, kwargs, node, t):
        return V(('x', 'dxf'))

    def e_pathlib_Path(self, args, kwargs, node, t):
        if len(args) != 1:
            return V(('path', None), t=t)
        r = BOT
        for a in args[0][0]:
            if a[0] == 'path':
                r = join(r, V(a))
            elif a[0] == 's':
                r = join(r, V(('path', a[1])))
            elif a[0] in ('x', 'xa'):
                r = join(r, V(('path', None)))
            else:
                self.I.note('badop', node, key=('Path', self.kindname(a)))
        return taint(r, t)

    e_pathlib_PurePath = e_pathlib_Path

    def e_os_path_splitext(self, args, kwargs, node, t):
        r = BOT
        for a in args[0][0]:
            i = a[1] if a[0] in ('s', 'path') else None
            r = join(r, self.new_arr(node, 2, {0: V(('s', ('stem', i))), 1: V(('s', ('ext', i)))}, EMPTY, 43, kind='tuple'))
        return taint(r, t)

    def e_argparse_ArgumentParser(self, args, kwargs, node, t):
        return V(self.I.alloc(node, 'argparser', 'parser'))

    def e_argparse_Namespace(self, args, kwargs, node, t):
        o = self.I.alloc(node, 'ns', 'Namespace')
        for k, v in kwargs.items():
            if k == '**':
                self.I.store_field(o[1], '$key', V(('s', None)))
                self.I.store_field(o[1], '$val', v)
                self.I.store_field(o[1], '$dyn', VB)
            else:
                self.dict_put(o, V(('s', ('c', k))), v)
        return V(o, t=t)

    e_types_SimpleNamespace = e_argparse_Namespace

    def const_text(self, v):
        if v is not None and len(v[0]) == 1:
            a = next(iter(v[0]))
            if a[0] == 's' and a[1] is not None and a[1][0] == 'c':
                return a[1][1]
        return None

    def m_argparser_add_argument(self, recv, o, args, kwargs, node, t):
        I = self.I
        names = [self.const_text(a) for a in args]
        if not names or any(n is None for n in names):
            I.store_field(recv[1], '$dyn', VB)
            return VX
        dest = self.const_text(kwargs.get('dest'))
        if dest is None:
            lng = [n for n in names if n.startswith('--')]
            dest = (lng or names)[0].lstrip('-').replace('-', '_')
        ty = kwargs.get('type')
        action = self.const_text(kwargs.get('action')) if 'action' in kwargs else None
        idt = ('opt', dest)
        default = kwargs.get('default')
        if action in ('store_true', 'store_false'):
            v = VB
            default = None
            v = V(('n', 'bool', None))
        elif ty is not None:
            v = I.call_value(ty, [V(('s', ('opt', dest)))], {}, node)
            v = self.retag(v, idt)
            if v == BOT:
                return VX
        else:
            v = V(('s', idt))
        if names[0].startswith('-') and action not in ('store_true', 'store_false'):
            if default is None:
                v = join(v, VNONE)
            else:
                # a default is used in place of the option's value
                dv = default
                if ty is not None and all(a[0] == 's' for a in dv[0]):
                    dv = I.call_value(ty, [dv], {}, node)
                I.store_field(recv[1], ('default', dest), dv)
                v = join(v, self.retag(dv, idt))
        I.store_field(recv[1], ('k', dest), v)
        I.note('option', node, key=dest, names=names, value=v, action=action, type=ty, default=default,
               choices=kwargs.get('choices'), const=kwargs.get('const'), nargs=kwargs.get('nargs'))
        return VX

    def retag(self, v, idt):
        out = set()
        for a in v[0]:
            if a[0] == 'n' and a[1] != 'bool':
                out.add(('n', a[1], idt))
            elif a[0] == 's':
                out.add(('s', idt))
            else:
                out.add(a)
        return (frozenset(out), v[1])

    def m_argparser_parse_args(self, recv, o, args, kwargs, node, t):
        I = self.I
        ns = I.alloc(node, 'ns', 'args')
        for f in list(o.f):
            if isinstance(f, tuple) and f[0] == 'k':
                self.dict_put(ns, V(('s', ('c', f[1]))), I.load_from(recv, EMPTY, f))
        if '$dyn' in o.f:
            I.store_field(ns[1], '$dyn', VB)
        return V(ns)

    def m_argparser_add_argument_group(self, recv, o, args, kwargs, node, t):
        return V(recv)

    m_argparser_add_mutually_exclusive_group = m_argparser_add_argument_group

    def e_contextlib_suppress(self, args, kwargs, node, t):
        return V(('x', 'suppress'))

    def e_numpy_random_RandomState(self, args, kwargs, node, t):
        I = self.I
        o = I.alloc(node, 'rng', 'rng')
        seed = args[0] if args else kwargs.get('seed')
        I.note('rng_new', node, key=None, seed=seed)
        if seed is None or NONE in seed[0]:
            return V(o, t=self.ordt('unseeded random generator'))
        return V(o, t=t)

    e_numpy_random_default_rng = e_numpy_random_RandomState
    e_random_Random = e_numpy_random_RandomState

    def rng_draw(self, recv, name, args, kwargs, node, t):
        I = self.I
        own = [l for l in self.loops_in_force() if self.persists(recv)]
        I.note('rng_draw', node, key=name, inloop=bool(own), t=t, nd=[(l[0]) for l in own], method=name)
        tt = frozenset(x for x in t)
        if own:
            tt |= frozenset(('ORD', l[0], 'random draw in an unordered loop') for l in own)
        if name == 'shuffle':
            for v in args:
                self.mutate(v, 'shuffle', node, I.st)
                nd = self.nd_val(v)
                if nd:
                    I.note('rng_draw', node, key='shuffled', inloop=True, t=nd, nd=list(nd), method=name)
            return VNONE
        if name in ('choice', 'permutation', 'sample'):
            nd = self.nd_val(args[0])
            tt |= frozenset(('ORD',) + tuple(x[1:]) for x in nd)
            e = I.elem(args[0])
            return taint(e if name == 'choice' and e != BOT else self.new_seq(node, 'ndarray', e, nd, tag='perm'), tt)
        if name in ('randint', 'integers', 'randrange', 'getrandbits'):
            if 'size' in kwargs or len(args) > 2:
                return taint(self.new_seq(node, 'ndarray', V(('n', 'npint', None)), EMPTY, tag='draws'), tt)
            return V(('n', 'int', None), t=tt)
        if 'size' in kwargs or len(args) > 2:
            return taint(self.new_seq(node, 'ndarray', V(('n', 'npfloat', None), t=tt | self.frt(node)), EMPTY, tag='draws'), tt)
        return V(('n', 'float', None), t=tt | self.frt(node))


def _mk_draw(n):
    def f(self, recv, o, args, kwargs, node, t):
        return self.rng_draw(recv, n, args, kwargs, node, t)
    return f


for _n in DRAWS:
    setattr(NpMixin, 'm_rng_' + _n, _mk_draw(_n))
