"""Engine A: model of the Python built-ins and of the libraries the package
uses (numpy, gmpy2, pyrsistent, sortedcontainers, itertools, argparse, ...).
"""
import ast
import builtins as _b
from .absint import (V, BOT, EMPTY, NONE, BOOL, VB, VNONE, EXACTK, FLOATK, UB, join,
                     joinall, taint, strip, is_loop_taint, const_atom, K)
from .libnum import NumMixin
from .libcall import CallMixin

BUILTIN_TYPES = {'int', 'float', 'str', 'bool', 'list', 'tuple', 'set', 'frozenset', 'dict',
                 'bytes', 'complex', 'object', 'type', 'slice', 'bytearray'}
EXCS = {n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}
KIND_DIR = {'list': dir(list), 'tuple': dir(tuple), 'dict': dir(dict), 'set': dir(set),
            'frozenset': dir(frozenset)}
NUM_DIR = {'int': dir(int), 'bool': dir(bool), 'float': dir(float), 'inf': dir(float), 'nan': dir(float)}
NUM_DIR['mpq'] = ['numerator', 'denominator', 'digits', 'conjugate', 'imag', 'real', 'as_integer_ratio',
                  'is_integer', 'limit_denominator'] + dir(object)
LOGMETHODS = {'debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log'}


class Lib(NumMixin, CallMixin):
    def __init__(self, interp):
        self.I = interp
        self.depth = 0

    # ------------------------------------------------------------ order nondeterminism
    def active_lids(self):
        c = self.I.cur
        out = {l[0] for l in c.ndloops}
        if c.s is not None:
            out |= {l[0] for l in self.I.in_nd.get(c.s.key, ())}
        return out

    def nd_of(self, a):
        """NDO taints of one object: why its element order is arbitrary."""
        if a[0] != 'o':
            return EMPTY
        v = self.I.read(a[1], '$nd')
        return frozenset(x for x in v[1] if x[0] == 'NDO')

    def nd_val(self, v):
        r = EMPTY
        for a in v[0]:
            r |= self.nd_atom(a)
        return r

    def nd_atom(self, a):
        if a[0] != 'o':
            return EMPTY
        I = self.I
        o = I.obj(a)
        r = self.nd_of(a)
        if o.kind in ('set', 'frozenset'):
            h = self.addr_hashed(I.elem_atom(a, EMPTY))
            if h:
                r |= frozenset([('NDO', o.site, 'iteration of a set of %s' % h)])
        elif o.kind == 'pmap':
            h = self.addr_hashed(I.read(a[1], '$key'))
            if h:
                r |= frozenset([('NDO', o.site, 'iteration of a persistent map keyed by %s' % h)])
        elif o.kind == 'inst' and I.record_fields(o.cls) is not None:
            r |= frozenset([('NDO', o.site, 'iteration of a record')])
        return r

    def addr_hashed(self, v, lim=4):
        """Is the hash of such a value different from run to run?"""
        I = self.I
        for a in v[0]:
            if a[0] == 's' or a[0] == 'path':
                return 'strings'
            if a[0] in ('f', 'm', 'c'):
                return 'objects hashed by address'
            if a[0] == 'o' and lim:
                o = I.obj(a)
                if o.kind in ('tuple', 'frozenset', 'list'):
                    r = self.addr_hashed(I.elem_atom(a, EMPTY), lim - 1)
                    if r:
                        return r
                elif o.kind == 'inst':
                    if I.record_fields(o.cls) is not None:
                        return 'records'
                    h = I.class_lookup(o.cls, '__hash__')
                    if h is None:
                        return 'objects hashed by address'
                    hv = I.call_value(I.bind_method(h, a, o.cls), [], {}, I.curnode)
                    if any(x[0] == 'AH' for x in hv[1]):
                        return 'objects hashed by address or string'
                elif o.kind in ('gen', 'iter', 'rng'):
                    return 'objects hashed by address'
        return None

    def nd_order(self, v):
        return self.nd_val(v)

    def nd_elem(self, it, e, lid):
        return taint(e, frozenset([('EL', lid)]))

    def spread_nd(self, x, src, node):
        """src's elements were put into x in src's order."""
        nd = self.nd_val(src)
        if nd:
            self.I.store_field(x[1], '$nd', (frozenset([BOOL]), nd))

    def persists(self, a):
        """NDO taints if the object outlives one pass of an unordered loop."""
        I = self.I
        c = I.cur
        o = I.heap[a[1]]
        out = set()
        for lid, _, rng, ctx in self.loops_in_force():
            mod, lo, hi = rng
            def inr(s):
                return s[0] == mod and lo <= s[1] <= hi
            sctx = o.oid[1]
            if inr(o.site) or any(inr(s) for s in sctx if isinstance(s, tuple)):
                continue
            own = c.s is not None and sctx == c.ctx and ctx != c.ctx
            if own:
                continue
            if o.imp or sctx == ctx or sctx == () or (sctx and sctx[-1] in ctx):
                out.add(('NDO', lid))
        return frozenset(out)

    def loops_in_force(self):
        I = self.I
        c = I.cur
        out = []
        for l in c.ndloops:
            out.append((l[0], l[1], l[2], c.ctx))
        if c.s is not None:
            for l in I.in_nd.get(c.s.key, ()):
                out.append(l)
        return out

    def nd_store(self, a, node, keyed=None, value=None):
        """A store into object a: order marks.  Returns the value to store."""
        p = self.persists(a)
        if not p:
            return value
        lids = {x[1] for x in p}
        if keyed is not None and value is not None:
            if not any(x[0] == 'EL' and x[1] in lids for x in keyed[1]):
                if any(x[0] == 'EL' and x[1] in lids for x in value[1]):
                    value = taint(value, frozenset(('ORD', l, 'last write wins') for l in lids))
        return value

    def nd_mark(self, a):
        p = self.persists(a)
        if p:
            self.I.store_field(a[1], '$nd', (frozenset([BOOL]), p))

    # ------------------------------------------------------------ taints
    def deep_t(self, v, lim=3):
        t = v[1]
        if lim:
            for a in v[0]:
                if a[0] == 'o':
                    o = self.I.obj(a)
                    if o.kind in ('frame', 'module', 'classobj'):
                        continue
                    if o.kind in ('list', 'tuple', 'ndarray', 'set', 'frozenset', 'iter', 'gen'):
                        self.I.reads(o, '$all')
                        for f in list(o.f.values()):
                            t |= self.deep_t(f, lim - 1)
        return t

    def str_t(self, v, node):
        """Taints of a textual rendering of v."""
        t = v[1]
        for a in v[0]:
            if a[0] == 'o':
                nd = self.nd_atom(a)
                o = self.I.obj(a)
                t |= frozenset(('ORD',) + tuple(x[1:]) for x in nd)
                if o.kind == 'inst' and self.I.record_fields(o.cls) is None:
                    if self.I.class_lookup(o.cls, '__repr__') is None and self.I.class_lookup(o.cls, '__str__') is None:
                        t |= frozenset([('ORD', 'object address')])
                if o.kind in ('list', 'tuple', 'set', 'dict', 'ndarray'):
                    t |= frozenset(x for x in self.deep_t(V(a), 2) if x[0] in ('ORD', 'HIST'))
        return t

    def stringify(self, v, node):
        for a in v[0]:
            if a[0] == 'o':
                o = self.I.obj(a)
                if o.kind == 'inst':
                    for nm in ('__str__', '__format__', '__repr__'):
                        m = self.I.class_lookup(o.cls, nm)
                        if m is not None:
                            self.I.call_value(self.I.bind_method(m, a, o.cls),
                                              [] if nm != '__format__' else [V(('s', None))], {}, node)
                            break

    # ------------------------------------------------------------ names
    def builtin(self, name):
        if name in BUILTIN_TYPES:
            return V(('k', name))
        if name in EXCS:
            return V(('e', 'builtins.' + name))
        if name == 'NotImplemented':
            return V(('x', 'fresh'))
        if name == 'Ellipsis':
            return V(('ellipsis',))
        if name == '__debug__':
            return V(('n', 'bool', ('c', True)))
        if hasattr(_b, name):
            return V(('e', 'builtins.' + name))
        if name in ('__name__', '__file__'):
            return V(('s', None))
        return None

    CONSTS = {'math.inf': float('inf'), 'numpy.inf': float('inf'), 'numpy.Inf': float('inf'),
              'math.nan': float('nan'), 'numpy.nan': float('nan')}
    KINDS = {'gmpy2.mpq': 'mpq', 'gmpy2.mpz': 'mpz', 'fractions.Fraction': 'frac',
             'numpy.float64': 'npfloat', 'numpy.float32': 'npfloat', 'numpy.ndarray': 'ndarray',
             'numpy.int64': 'npint', 'numpy.int32': 'npint', 'numpy.integer': 'npint', 'numpy.floating': 'npfloat'}

    def ext_symbol(self, base, name):
        q = base + '.' + name
        if q in self.CONSTS:
            return const_atom(self.CONSTS[q])
        if q in self.KINDS:
            return ('k', self.KINDS[q])
        if q in ('math.pi', 'numpy.pi', 'math.e', 'math.tau'):
            return ('n', 'float', None)
        if base == 'builtins' or base == 'typing' and False:
            return ('e', q)
        if q == 'sys.argv' or q.startswith('os.environ'):
            return ('x', q)
        return ('e', q)

    # ------------------------------------------------------------ attributes
    def attr(self, b, name, node, st):
        r = BOT
        for a in b[0]:
            r = join(r, self.attr_atom(a, name, node, b[1]))
        return r

    def attr_atom(self, a, name, node, t):
        I = self.I
        k = a[0]
        if k == 'o':
            o = I.obj(a)
            if o.kind == 'inst':
                return self.attr_inst(a, o, name, node, t)
            if o.kind == 'ns':
                if name in ('__dict__',):
                    return V(a, t=t)
                v = I.load_from(a, t, ('k', name))
                if v == BOT:
                    if ('k', name) not in o.f and '$dyn' in o.f:
                        return I.load_from(a, t, '$val')
                    if ('k', name) not in o.f:
                        I.note('missing_attr', node, key=(o.kind, name), name=name, what='namespace')
                return v
            if o.kind == 'ndarray':
                if name == 'T':
                    return self.transpose(a, node, t)
                if name in ('shape', 'strides'):
                    d = self.arr_depth(a)
                    e = V(('n', 'int', None))
                    tt = I.alloc(node, 'tuple', 'shape', fields={'$elem': e})
                    return V(tt, t=t)
                if name in ('size', 'ndim'):
                    return V(('n', 'int', None), t=t)
                if name in ('real', 'flat'):
                    return V(a, t=t)
                if name == 'dtype':
                    return V(('x', 'fresh'), t=t)
            if name == '__class__':
                return V(('k', o.kind if o.kind in BUILTIN_TYPES or o.kind == 'ndarray' else o.kind), t=t)
            if o.kind in KIND_DIR and name not in KIND_DIR[o.kind]:
                I.note('missing_attr', node, key=(o.kind, name), name=name, what=o.kind)
                return BOT
            if o.kind == 'dict' and '$factory' in o.f and name == 'default_factory':
                return I.load_from(a, t, '$factory')
            return V(('em', name, a), t=t)
        if k == 'mod':
            oid = I.modns(a[1])
            v = I.read(oid, name)
            if v == BOT:
                sub = a[1] + '.' + name
                if sub in I.p.modules:
                    I.modns(sub)
                    return V(('mod', sub))
                I.note('missing_attr', node, key=('module', a[1], name), name=name, what='module ' + a[1])
                return BOT
            for x in v[0]:
                if x[0] == 'lazy':
                    return I.resolve_lazy(x)
            if (a[1], name) in I.global_mutated and I.cur.fi is not None and ('g', a[1], name) not in I.st.must:
                v = taint(v, frozenset([('HIST', a[1] + '.' + name)]))
            if I.cur.fi is not None:
                v = (frozenset(('o', x[1], 0) if x[0] == 'o' and x[2] else x for x in v[0]), v[1])
            return taint(v, t)
        if k == 'e':
            if a[1].startswith('builtins.'):
                import builtins
                b = getattr(builtins, a[1][9:], None)
                if b is not None and not hasattr(b, name):
                    I.note('missing_attr', node, key=('builtin', a[1], name), name=name, what='built-in ' + a[1][9:])
                    return BOT
            return V(self.ext_symbol(a[1], name), t=t)
        if k == 'c':
            if name in ('__name__', '__qualname__', '__module__', '__doc__'):
                return V(('s', None), t=t)
            if name == '__class__':
                return V(('k', 'type'))
            v = I.class_lookup(a[1], name)
            if v is None:
                if I.ext_base(a[1]):
                    return V(('em', name, a), t=t)
                if name in dir(object) or name in ('__dict__', '__mro__', 'mro', '__subclasses__'):
                    return V(('em', name, a), t=t)
                I.note('missing_attr', node, key=('class', a[1], name), name=name, what='class ' + a[1])
                return BOT
            out = set()
            for x in v[0]:
                if x[0] == 'f' and I.fkind(I.p.func_by_fid[x[1]]) == 'class':
                    out.add(('m', x[1], x[2], a))
                else:
                    out.add(x)
            return (frozenset(out), v[1] | t)
        if k == 'n':
            if name == '__class__':
                return V(('k', {'inf': 'float', 'nan': 'float'}.get(a[1], a[1])), t=t)
            if name in ('numerator', 'denominator'):
                return V(('n', 'mpz' if a[1] in ('mpq', 'mpz') else 'int', None), t=t)
            if name in ('real', 'imag'):
                return V(('n', a[1], None), t=t)
            if name in NUM_DIR.get(a[1], (name,)) or name in ('tolist', 'item'):
                return V(('em', name, a), t=t)
            if name == 'shape':
                # zero-dimensional arrays are modelled by their element
                return V(I.alloc(node, 'tuple', 'shape0', n=0), t=t)
            I.note('missing_attr', node, key=(a[1], name), name=name, what='a number (%s)' % a[1])
            return BOT
        if k == 's':
            if name == '__class__':
                return V(('k', 'str'), t=t)
            if name in dir(str) or a[1] is None:
                return V(('em', name, a), t=t)
            I.note('missing_attr', node, key=('str', name), name=name, what='a string')
            return BOT
        if k == 'none':
            if name in dir(None) or name == '__class__':
                return V(('em', name, a), t=t)
            I.note('missing_attr', node, key=('None', name), name=name, what='None')
            return BOT
        if k == 'path':
            if name in ('stem',):
                return V(('s', ('pstem', a[1])), t=t)
            if name in ('parent', ):
                return V(('path', ('parent', a[1])), t=t)
            if name in ('suffix', 'name', 'parts', 'suffixes', 'anchor', 'root', 'drive'):
                return V(('s', (name, a[1])), t=t)
            return V(('em', name, a), t=t)
        if k == 'x':
            lbl = a[1]
            if name.startswith('add_') or name in LOGMETHODS:
                return V(('em', name, a), t=t)
            return V(('em', name, a), ('x', lbl), t=t) if False else V(('xa', name, a), t=t)
        if k == 'xa':
            return self.attr_atom(('x', a[2][1]), name, node, t)
        if k in ('f', 'm'):
            return V(('em', name, a), t=t)
        if k == 'k':
            if name in ('__name__', '__qualname__', '__module__'):
                return V(('s', ('c', a[1])), t=t)
            if name == '__class__':
                return V(('k', 'type'))
            return V(('em', name, a), t=t)
        if k == 'em':
            return V(('x', 'fresh'), t=t)
        return V(('x', 'fresh'), t=t)

    def attr_inst(self, a, o, name, node, t):
        I = self.I
        if name == '__class__':
            return V(('c', o.cls), t=t)
        if name == '__dict__':
            d = I.alloc(node, 'dict', 'instdict')
            I.reads(o, '$all')
            for k, v in list(o.f.items()):
                if isinstance(k, str) and not k.startswith('$'):
                    self.dict_put(d, V(('s', ('c', k))), v)
            return V(d, t=t)
        rec = I.record_fields(o.cls)
        if rec is not None and name in rec:
            v = I.load_from(a, t, name)
            if v == BOT:
                if name not in o.f:
                    I.note('unset_field', node, key=(o.cls, name), name=name, cls=o.cls)
            return v
        v = I.load_from(a, t, name)
        if v != BOT:
            return v
        cv = I.class_lookup(o.cls, name)
        if cv is not None:
            for x in cv[0]:
                if x[0] == 'f' and I.fkind(I.p.func_by_fid[x[1]]) == 'property':
                    return I.call_value(I.bind_method(cv, a, o.cls), [], {}, node)
            b = I.bind_method(cv, a, o.cls)
            if not I.owned:
                b = (frozenset(('o', x[1], 0) if x[0] == 'o' and x[2] else x for x in b[0]), b[1])
            return taint(b, t)
        if rec is not None:
            if name in PRECORD_DIR:
                return V(('em', name, a), t=t)
            I.note('missing_attr', node, key=(o.cls, name), name=name, what='record ' + o.cls)
            return BOT
        base = I.ext_base(o.cls)
        if base:
            return V(('em', name, a), t=t)
        if name in dir(object) or name == '__dict__':
            return V(('em', name, a), t=t)
        g = I.class_lookup(o.cls, '__getattr__')
        if g is not None:
            return I.call_value(I.bind_method(g, a, o.cls), [V(('s', ('c', name)))], {}, node)
        if name not in o.f:
            I.note('missing_attr', node, key=(o.cls, name), name=name, what='instance of ' + o.cls)
        return BOT

    def transpose(self, a, node, t):
        I = self.I
        o = I.obj(a)
        if self.arr_depth(a) <= 1:
            return V(a, t=t)
        e = BOT
        row = I.elem_atom(a, EMPTY)
        inner = I.elem(row)
        r = self.new_seq(node, 'ndarray', inner, EMPTY, tag='Trow')
        return taint(self.new_seq(node, 'ndarray', r, self.nd_of(a), tag='T'), t)

    # ------------------------------------------------------------ items
    def const_index(self, i):
        if len(i[0]) == 1:
            a = next(iter(i[0]))
            if a[0] == 'n' and a[1] in ('int', 'bool') and a[2] is not None and a[2][0] == 'c':
                return int(a[2][1])
        return None

    def getitem(self, b, i, node, st):
        r = BOT
        for a in b[0]:
            r = join(r, self.getitem_atom(a, i, node, b[1]))
        return r

    def getitem_atom(self, a, i, node, t):
        I = self.I
        k = a[0]
        if k == 'xa':
            a = ('x', a[2][1])
            k = 'x'
        if k == 'o':
            o = I.obj(a)
            if o.kind in ('list', 'tuple', 'ndarray', 'iter', 'sortedlist', 'sorteddictkeys'):
                t2 = t | i[1]
                nd = self.nd_of(a)
                if nd and o.n is None:
                    t2 |= frozenset(('ORD',) + tuple(x[1:]) + ('element of an unordered list',) for x in nd)
                ci = self.const_index(i)
                if ci is not None:
                    if o.n is not None:
                        if -o.n <= ci < o.n:
                            return I.load_from(a, t2, ci % o.n)
                        I.note('badindex', node, key=(o.n, ci))
                        return BOT
                    return I.load_from(a, t2, '$elem')
                # array indices, tuples, booleans
                r = BOT
                for x in i[0]:
                    if x[0] == 'n' or x[0] == 'x':
                        r = join(r, taint(I.elem_atom(a, EMPTY), t2))
                    elif x[0] == 'o':
                        ox = I.obj(x)
                        if ox.kind == 'tuple' and o.kind == 'ndarray':
                            cur = V(a, t=t2)
                            for j in range(ox.n or 1):
                                jv = I.load_from(x, EMPTY, j) if ox.n else I.elem_atom(x, EMPTY)
                                if any(z == ('slice',) for z in jv[0]):
                                    continue
                                cur = self.getitem(cur, jv, node, None)
                            r = join(r, cur)
                        elif o.kind == 'ndarray':
                            r = join(r, taint(self.new_seq(node, 'ndarray', I.elem_atom(a, EMPTY),
                                                           self.nd_of(a) | self.nd_of(x), tag='fancy'), t2))
                        elif ox.kind == 'inst':
                            r = join(r, taint(I.elem_atom(a, EMPTY), t2))
                        else:
                            I.note('badop', node, key=('index', o.kind, ox.kind))
                    elif x[0] == 'slice':
                        r = join(r, V(a, t=t2))
                    else:
                        I.note('badop', node, key=('index', o.kind, x[0]))
                return r
            if o.kind in ('dict', 'pmap', 'sorteddict'):
                return self.dict_get(a, o, i, node, t, strict=True)
            if o.kind == 'ns':
                I.note('badop', node, key=('index', 'namespace'))
                return BOT
            if o.kind == 'inst':
                m = I.class_lookup(o.cls, '__getitem__')
                if m is not None:
                    return taint(I.call_value(I.bind_method(m, a, o.cls), [i], {}, node), t)
                rec = I.record_fields(o.cls)
                if rec is not None:
                    r = BOT
                    for x in i[0]:
                        if x[0] == 's' and x[1] and x[1][0] == 'c':
                            if x[1][1] not in rec:
                                I.note('badfield', node, key=(o.cls, x[1][1]), cls=o.cls, field=x[1][1], op='[]')
                                continue
                            v = I.load_from(a, t, x[1][1])
                            if v == BOT and x[1][1] not in o.f:
                                I.note('unset_field', node, key=(o.cls, x[1][1]), name=x[1][1], cls=o.cls)
                            r = join(r, v)
                        else:
                            for f in rec:
                                r = join(r, I.load_from(a, t, f))
                    return r
                if I.ext_base(o.cls):
                    return V(('x', 'fresh'), t=t | i[1])
                I.note('badop', node, key=('index', o.cls))
                return BOT
            if o.kind in ('set', 'frozenset', 'gen'):
                I.note('badop', node, key=('index', o.kind))
                return BOT
            return V(('x', 'fresh'), t=t | i[1])
        if k == 's':
            return V(('s', None), t=t | i[1])
        if k == 'x':
            return V(a, t=t | i[1])
        if k in ('n', 'none', 'f', 'm'):
            I.note('badop', node, key=('index', self.kindname(a)))
            return BOT
        if k in ('k', 'c', 'e'):
            return V(a)       # generic alias
        return V(('x', 'fresh'), t=t | i[1])

    def dict_get(self, a, o, i, node, t, strict):
        """Value under key i; with strict, a key that cannot be there is an error."""
        I = self.I
        r = BOT
        t2 = t | i[1]
        # own-slot read in an unordered loop: no loop-carried dependence
        if o.kind == 'pmap' or o.kind == 'dict':
            el = {x[1] for x in i[1] if x[0] == 'EL'}
            if el:
                t2 = frozenset(x for x in t2 if not (x[0] == 'LC' and x[1] in el))
        for x in i[0]:
            c = self.const_key(x)
            if c is not None and '$dyn' not in o.f:
                if ('k', c) in o.f:
                    r = join(r, I.load_from(a, t2, ('k', c)))
                elif '$factory' in o.f:
                    r = join(r, self.dict_default(a, o, V(x), node))
                elif strict:
                    I.note('missing_key', node, key=(c,), name=c, complete=sorted(str(z[1]) for z in o.f if isinstance(z, tuple) and z[0] == 'k'))
            else:
                v = I.load_from(a, t2, '$val')
                if '$factory' in o.f:
                    v = join(v, self.dict_default(a, o, V(x), node))
                r = join(r, v)
        return r

    def dict_default(self, a, o, kv, node):
        I = self.I
        f = I.load_from(a, EMPTY, '$factory')
        d = I.call_value(f, [], {}, node)
        if d == BOT:
            return BOT
        self.nd_mark(a)
        if a[2] == 1:
            d0 = d
        else:
            d0 = (frozenset(('o', x[1], 0) if x[0] == 'o' and x[2] else x for x in d[0]), d[1])
        self.dict_put(a, kv, d)
        return d0

    def const_key(self, x):
        if x[0] == 's' and x[1] is not None and x[1][0] == 'c':
            return x[1][1]
        if x[0] == 'n' and x[2] is not None and x[2][0] == 'c' and x[1] in ('int', 'bool'):
            return x[2][1]
        return None

    def dict_put(self, o, kv, vv):
        I = self.I
        oid = o[1]
        I.store_field(oid, '$key', kv)
        I.store_field(oid, '$val', vv)
        for x in kv[0]:
            c = self.const_key(x)
            if c is not None and '$dyn' not in I.heap[oid].f:
                I.store_field(oid, ('k', c), vv)
            else:
                I.store_field(oid, '$dyn', VB)

    def dict_merge(self, o, v):
        I = self.I
        for a in v[0]:
            if a[0] == 'o':
                ob = I.obj(a)
                if ob.kind in ('dict', 'pmap', 'ns', 'sorteddict'):
                    for f, x in list(ob.f.items()):
                        if isinstance(f, tuple) or f in ('$key', '$val', '$dyn'):
                            I.store_field(o[1], f, taint(I.load_from(a, EMPTY, f), v[1]))
                    nd = self.nd_val(V(a))
                    if nd:
                        I.store_field(o[1], '$nd', (frozenset([BOOL]), nd))
                elif ob.kind == 'inst' and I.record_fields(ob.cls) is not None:
                    for f in I.record_fields(ob.cls):
                        if f in ob.f:
                            self.dict_put(o, V(('s', ('c', f))), I.load_from(a, EMPTY, f))
                else:
                    e = I.elem_atom(a, EMPTY)
                    kv, vv = self.pair(e)
                    if kv != BOT:
                        self.dict_put(o, kv, vv)
                    nd = self.nd_val(V(a))
                    if nd:
                        I.store_field(o[1], '$nd', (frozenset([BOOL]), nd))
            elif a[0] in ('x', 'xa'):
                I.store_field(o[1], '$key', V(('x', 'fresh')))
                I.store_field(o[1], '$val', V(('x', 'fresh')))
                I.store_field(o[1], '$dyn', VB)

    def pair(self, e):
        """Split an abstract 2-sequence."""
        I = self.I
        kv = vv = BOT
        for a in e[0]:
            if a[0] == 'o':
                o = I.obj(a)
                if o.n == 2:
                    kv = join(kv, I.load_from(a, e[1], 0))
                    vv = join(vv, I.load_from(a, e[1], 1))
                else:
                    x = taint(I.elem_atom(a, EMPTY), e[1])
                    kv, vv = join(kv, x), join(vv, x)
            elif a[0] in ('x', 'xa'):
                kv, vv = join(kv, V(('x', 'fresh'))), join(vv, V(('x', 'fresh')))
        return kv, vv

    def const_keys(self, v):
        """{name: value} if every key of the mapping is a known constant."""
        if len(v[0]) != 1:
            return None
        a = next(iter(v[0]))
        if a[0] != 'o':
            return None
        o = self.I.obj(a)
        if o.kind not in ('dict', 'ns') or '$dyn' in o.f:
            return None
        out = {f[1]: self.I.load_from(a, v[1], f) for f in o.f if isinstance(f, tuple) and f[0] == 'k'}
        if all(isinstance(k, str) for k in out):
            return out
        return None

    def dict_vals(self, v):
        r = BOT
        for a in v[0]:
            if a[0] == 'o':
                o = self.I.obj(a)
                if o.kind in ('dict', 'pmap', 'ns'):
                    r = join(r, self.I.load_from(a, v[1], '$val'))
                elif o.kind == 'inst':
                    for f in self.I.record_fields(o.cls) or ():
                        r = join(r, self.I.load_from(a, v[1], f))
            elif a[0] in ('x', 'xa'):
                r = join(r, V(('x', 'fresh')))
        return r if r != BOT else V(('x', 'fresh'))

    def slice(self, b, parts, node, st):
        I = self.I
        r = BOT
        t = b[1]
        for p in parts:
            if p is not None:
                t |= p[1]
        lo, hi, step = [None if p is None else self.const_index(p) for p in parts]
        known = all(p is None or self.const_index(p) is not None for p in parts)
        for a in b[0]:
            if a[0] == 'o':
                o = I.obj(a)
                if o.kind in ('list', 'tuple', 'ndarray'):
                    if o.n is not None and known:
                        idx = list(range(o.n))[slice(lo, hi, step)]
                        f = {j: I.load_from(a, EMPTY, i) for j, i in enumerate(idx)}
                        if o.kind == 'ndarray' and len(idx) == o.n and step in (None, 1):
                            r = join(r, V(a))
                            continue
                        n = self.new_arr(node, len(idx), f, self.nd_of(a), 7, kind=o.kind)
                        if o.kind == 'ndarray':
                            self.I.heap[next(iter(n[0]))[1]].phase = ('view', a[1])
                        r = join(r, self.as_view(a, n) if o.kind == 'ndarray' else n)
                    elif o.kind == 'ndarray':
                        r = join(r, V(a))
                    else:
                        nd = self.nd_of(a)
                        e = I.elem_atom(a, EMPTY)
                        if nd and not (parts[0] is None and parts[1] is None):
                            e = taint(e, frozenset(('ORD',) + tuple(x[1:]) for x in nd))
                        r = join(r, self.new_seq(node, o.kind, e, nd, tag='slice'))
                elif o.kind == 'inst':
                    m = I.class_lookup(o.cls, '__getitem__')
                    r = join(r, V(('x', 'fresh')) if m is None else I.call_value(I.bind_method(m, a, o.cls), [V(('slice',))], {}, node))
                elif o.kind in ('sortedlist',):
                    r = join(r, self.new_seq(node, 'list', I.elem_atom(a, EMPTY), EMPTY, tag='slice'))
                else:
                    I.note('badop', node, key=('slice', o.kind))
            elif a[0] == 's':
                r = join(r, V(('s', None)))
            elif a[0] == 'x':
                r = join(r, V(a))
            elif a[0] == 'xa':
                r = join(r, V(('x', a[2][1])))
            elif a[0] in ('n', 'none', 'f', 'm', 'c'):
                I.note('badop', node, key=('slice', self.kindname(a)))
            else:
                r = join(r, V(('x', 'fresh')))
        return taint(r, t)

    def as_view(self, base, n):
        """A view of an array has the freshness of the array."""
        if base[2] == 1:
            return n
        return (frozenset(('o', x[1], 0) for x in n[0]), n[1])

    # ------------------------------------------------------------ stores and mutation
    def store_attr(self, b, name, v, node, st):
        I = self.I
        for a in b[0]:
            if a[0] == 'o':
                o = I.obj(a)
                if o.kind == 'inst':
                    rec = I.record_fields(o.cls)
                    if rec is not None:
                        I.note('record_assign', node, key=(o.cls, name), cls=o.cls, name=name)
                        if I.final and len(b[0]) == 1:
                            k = (I.cur.module.rel, node.lineno, node.col_offset, node.end_lineno, node.end_col_offset)
                            I.dead.setdefault(k, set()).add(I.cur.s.key if I.cur.s else None)
                        return False
                    self.mutate_obj(a, 'setattr', node, name)
                    v2 = self.nd_store(a, node, keyed=V(), value=taint(v, st.pc)) if True else v
                    I.store_field(a[1], name, v2)
                elif o.kind == 'ns':
                    self.mutate_obj(a, 'setattr', node, name)
                    self.dict_put(a, V(('s', ('c', name))), v)
                else:
                    I.note('badop', node, key=('setattr', o.kind))
                    return False
            elif a[0] == 'c':
                oid = I.class_members[a[1]]['oid']
                if I.cur.fi is not None:
                    I.global_mutated.add((oid, name))
                    self.mut_import(oid, node, name)
                I.store_field(oid, name, v)
            elif a[0] == 'mod':
                oid = I.modns(a[1])
                if I.cur.fi is not None:
                    I.global_mutated.add((a[1], name))
                    I.note('global_store', node, key=(a[1], name))
                I.store_field(oid, name, v)
            elif a[0] in ('x', 'xa', 'e'):
                self.mutate_obj(a, 'setattr', node, name)
            elif a[0] in ('n', 's', 'none'):
                I.note('badop', node, key=('setattr', self.kindname(a)))
                return False
        return True

    def store_item(self, b, i, v, node, st, isslice):
        I = self.I
        ok = False
        for a in b[0]:
            if a[0] == 'o':
                o = I.obj(a)
                ok = True
                vv = taint(v, st.pc) if st.pc else v
                if o.kind in ('list', 'ndarray'):
                    self.mutate_obj(a, 'setitem', node)
                    vv = self.nd_store(a, node, keyed=i, value=vv)
                    ci = self.const_index(i)
                    if isslice:
                        e = vv if o.kind == 'ndarray' and not any(x[0] == 'o' for x in vv[0]) else I.elem(vv)
                        if o.kind == 'list' or o.n is None:
                            I.unfix(o)
                            I.store_field(a[1], '$elem', taint(e, vv[1]))
                            for z in self.view_chain(a):
                                I.store_field(z, '$elem', taint(e, vv[1]))
                            self.spread_nd(a, vv, node)
                            self.nd_mark(a)
                        else:
                            for j in range(o.n):
                                I.store_field(a[1], j, e)
                        continue
                    if o.n is not None and ci is not None and -o.n <= ci < o.n:
                        I.store_field(a[1], ci % o.n, vv)
                    elif o.n is not None:
                        for j in range(o.n):
                            I.store_field(a[1], j, vv)
                    else:
                        e = vv
                        if o.kind == 'ndarray' and any(x[0] == 'o' and I.obj(x).kind == 'tuple' for x in i[0]):
                            # a[i, j] = v
                            for x in I.elem_atom(a, EMPTY)[0]:
                                if x[0] == 'o' and I.obj(x).kind == 'ndarray':
                                    self.store_item(V(x), V(('n', 'int', None)), v, node, st, False)
                            continue
                        I.store_field(a[1], '$elem', e)
                elif o.kind in ('dict', 'sorteddict'):
                    self.mutate_obj(a, 'setitem', node)
                    vv = self.nd_store(a, node, keyed=i, value=vv)
                    if self.persists(a):
                        vv = strip(vv, is_loop_taint)
                        if o.kind == 'dict':
                            self.nd_mark(a)
                    self.dict_put(a, i, vv)
                elif o.kind == 'inst':
                    m = I.class_lookup(o.cls, '__setitem__')
                    if m is not None:
                        I.call_value(I.bind_method(m, a, o.cls), [i, v], {}, node)
                    else:
                        I.note('badop', node, key=('setitem', o.cls))
                elif o.kind in ('tuple', 'pmap', 'set', 'frozenset', 'gen', 'iter'):
                    I.note('badop', node, key=('setitem', o.kind))
                    return False
            elif a[0] in ('x', 'xa'):
                self.mutate_obj(a, 'setitem', node)
                ok = True
            elif a[0] in ('n', 's', 'none', 'f', 'm'):
                I.note('badop', node, key=('setitem', self.kindname(a)))
            else:
                ok = True
        return ok

    def view_chain(self, a):
        out = []
        o = self.I.heap[a[1]]
        while isinstance(o.phase, tuple) and o.phase[0] == 'view':
            out.append(o.phase[1])
            o = self.I.heap[o.phase[1]]
        return out

    def mut_import(self, oid, node, what):
        I = self.I
        if oid not in I.persist_mutated:
            I.persist_mutated.add(oid)
            I.changed(I.heap[oid])
        I.note('import_mutated', node, key=(I.describe(oid), what))

    def mutate_obj(self, a, op, node, name=None):
        """Record a mutation of one object."""
        I = self.I
        if a[0] == 'xa':
            a = ('x', a[2][1])
        if a[0] == 'o':
            o = I.obj(a)
            if o.imp and I.cur.fi is not None:
                self.mut_import(a[1], node, op)
            if a[2] == 0:
                I.note('mutate', node, key=(op, a[1], name), obj=a[1], okind=o.kind, cls=o.cls, op=op, name=name)
        elif a[0] == 'x' and a[1] != 'fresh':
            I.note('mutate', node, key=(op, a[1], name), obj=a, okind='x', cls=None, op=op, name=name)
        elif a[0] == 'e':
            I.note('ext_mutate', node, key=(op, a[1], name))

    def mutate(self, b, op, node, st):
        for a in b[0]:
            self.mutate_obj(a, op, node)
            if a[0] == 'o':
                self.nd_mark(a)

    # ------------------------------------------------------------ misc hooks
    def after_call(self, interp, fv, node):
        pass

    def on_construct(self, interp, cid):
        interp.state_created(cid, None)

    def enter(self, v, node):
        I = self.I
        r = BOT
        for a in v[0]:
            if a[0] == 'o' and I.obj(a).kind == 'inst':
                m = I.class_lookup(I.obj(a).cls, '__enter__')
                if m is not None:
                    r = join(r, I.call_value(I.bind_method(m, a, I.obj(a).cls), [], {}, node))
                    continue
            r = join(r, V(a, t=v[1]))
        return r

    def filter_pattern(self, interp, test, st):
        """(name, pred) for tests that narrow one local."""
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = type(test.ops[0]).__name__
            l, r = test.left, test.comparators[0]
            if op in ('Is', 'IsNot', 'Eq', 'NotEq'):
                for p, q in ((l, r), (r, l)):
                    neg = op in ('IsNot', 'NotEq')
                    if isinstance(p, ast.Attribute) and isinstance(q, ast.Constant) and interp.narrowable(p, st):
                        p = ast.Name(id='%s.%s' % (p.value.id, p.attr))
                    if isinstance(p, ast.Name) and isinstance(q, ast.Constant) and (q.value is None or op in ('Eq', 'NotEq')):
                        ca = const_atom(q.value)
                        def pred(a, ca=ca, neg=neg):
                            s = self.cmp_pair('Is' if ca == NONE else 'Eq', a, ca, EMPTY, EMPTY, test) if a[0] != 'o' or ca == NONE else VB
                            ct, cf = interp.truth(s)
                            if ct and cf:
                                return None
                            return ct != neg
                        return p.id, pred
                    nm = None
                    if isinstance(p, ast.Attribute) and p.attr == '__class__' and isinstance(p.value, ast.Name):
                        nm = p.value.id
                    if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == 'type' and len(p.args) == 1 and isinstance(p.args[0], ast.Name):
                        nm = p.args[0].id
                    if nm is not None:
                        tv = interp.ev_quiet(q, st)
                        def pred(a, tv=tv, neg=neg):
                            r = self.isinst(a, tv, exact=True)
                            return None if r is None else r != neg
                        return nm, pred
                    if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == 'abs' and isinstance(p.args[0], ast.Name):
                        qv = interp.ev_quiet(q, st)
                        if len(qv[0]) == 1 and next(iter(qv[0]))[:2] == ('n', 'inf'):
                            def pred(a, neg=neg):
                                if a[0] != 'n':
                                    return None
                                return (a[1] == 'inf') != neg
                            return p.args[0].id, pred
            if op in ('In', 'NotIn'):
                nm = None
                if isinstance(l, ast.Attribute) and l.attr == '__class__' and isinstance(l.value, ast.Name):
                    nm = l.value.id
                if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == 'type' and len(l.args) == 1 and isinstance(l.args[0], ast.Name):
                    nm = l.args[0].id
                if nm is not None:
                    tv = interp.ev_quiet(r, st)
                    neg = op == 'NotIn'
                    def pred(a, tv=tv, neg=neg):
                        x = self.isinst(a, tv, exact=True)
                        return None if x is None else x != neg
                    return nm, pred
        if isinstance(test, ast.Call) and len(test.args) in (1, 2) and isinstance(test.args[0], ast.Name):
            f = test.func
            fn = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if fn == 'isinstance' and len(test.args) == 2:
                tv = interp.ev_quiet(test.args[1], st)
                return test.args[0].id, lambda a: self.isinst(a, tv)
            if fn == 'isinf':
                return test.args[0].id, lambda a: (a[1] == 'inf') if a[0] == 'n' else None
            if fn == 'isfinite':
                return test.args[0].id, lambda a: (a[1] not in ('inf', 'nan')) if a[0] == 'n' else None
            if fn == 'isnan':
                return test.args[0].id, lambda a: (a[1] == 'nan') if a[0] == 'n' else None
        return None

    SUPER = {'bool': ('bool', 'int'), 'inf': ('float',), 'nan': ('float',), 'npfloat': ('npfloat', 'float'),
             'npint': ('npint',)}

    def isinst(self, a, tv, exact=False):
        """True / False / None: is a an instance of one of the types?"""
        I = self.I
        types = []
        stack = list(tv[0])
        while stack:
            x = stack.pop()
            if x[0] == 'o' and I.obj(x).kind in ('tuple', 'list', 'set'):
                stack.extend(I.elem_atom(x, EMPTY)[0])
            else:
                types.append(x)
        res = False
        for ty in types:
            r = self.isinst1(a, ty, exact)
            if r is True:
                return True
            if r is None:
                res = None
        return res

    def isinst1(self, a, ty, exact):
        I = self.I
        k = a[0]
        if ty[0] == 'k':
            n = ty[1]
            if n == 'object' and not exact:
                return True
            if k == 'n':
                sup = ({'inf': 'float', 'nan': 'float'}.get(a[1], a[1]),) if exact else self.SUPER.get(a[1], (a[1],))
                return n in sup
            if k == 's':
                return n == 'str'
            if k == 'none':
                return False
            if k == 'o':
                o = I.obj(a)
                if o.kind == 'inst':
                    b = I.ext_base(o.cls)
                    return None if b and not exact else False
                if o.kind in ('sorteddict',):
                    return n == 'dict' if not exact else False
                return o.kind == n
            if k in ('f', 'm', 'c'):
                return k == 'c' and n == 'type'
            if k in ('x', 'xa', 'e', 'em'):
                return None
            return None
        if ty[0] == 'c':
            if k == 'o':
                o = I.obj(a)
                if o.kind == 'inst':
                    return (o.cls == ty[1]) if exact else (ty[1] in I.mro(o.cls))
                return False
            if k in ('x', 'xa'):
                return None
            return False
        if ty[0] == 'e':
            q = ty[1]
            if k == 'n':
                if q == 'numbers.Rational':
                    return a[1] in EXACTK
                if q in ('numbers.Number', 'numbers.Real'):
                    return True
                if q == 'numbers.Integral':
                    return a[1] in ('int', 'bool', 'mpz', 'npint')
                return None
            if k in ('s', 'none'):
                return False
            if k == 'o':
                o = I.obj(a)
                if o.kind == 'pmap':
                    return True if q.endswith('PMap') else None
                if o.kind == 'inst' and I.ext_base(o.cls) is None:
                    return False
            return None
        return None


PRECORD_DIR = {'set', 'get', 'transform', 'keys', 'values', 'items', 'remove', 'discard', 'update',
               'serialize', 'create', 'evolver', 'copy', 'iteritems', 'iterkeys', 'itervalues',
               'update_with', '_precord_fields'} | set(dir(object)) | {'__dict__', '__contains__', '__len__', '__iter__', '__getitem__'}
