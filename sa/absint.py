"""Engine A: a whole-program abstract interpreter for the Python subset the
package uses.

Domain: a value is (atoms, taints).  Atoms are number kinds with an optional
identity, strings, heap objects named by allocation site and a k-limited call
string, functions, classes, external symbols.  Locals are flow sensitive, the
heap is flow insensitive, calls are analysed per (function, call string) and
iterated to a global fixpoint.  Nothing is executed: every construct is mapped
to its transfer function, branches are joined, loops are iterated to a
fixpoint.
"""
import ast
import sys
from .frontend import Program, arg_names, bound_names

sys.setrecursionlimit(20000)

EMPTY = frozenset()
BOT = (EMPTY, EMPTY)
NONE = ('none',)
UB = ('ub',)
MAXCONST = 8
K = 2


NUMK = ('bool', 'int', 'npint', 'mpz', 'mpq', 'frac', 'float', 'npfloat', 'inf', 'nan')
EXACTK = ('int', 'mpz', 'mpq', 'frac', 'bool', 'npint')
FLOATK = ('float', 'npfloat')


def V(*atoms, t=EMPTY):
    return (frozenset(atoms), t)


def num(kind, ident=None):
    return ('n', kind, ident)


def const_atom(v):
    if v is None:
        return NONE
    if v is True or v is False:
        return ('n', 'bool', ('c', v))
    if isinstance(v, int):
        return ('n', 'int', ('c', v))
    if isinstance(v, float):
        if v != v:
            return ('n', 'nan', None)
        if v in (float('inf'), float('-inf')):
            return ('n', 'inf', ('c', v))
        return ('n', 'float', ('c', v))
    if isinstance(v, str):
        return ('s', ('c', v))
    if isinstance(v, bytes):
        return ('s', None)
    if v is Ellipsis:
        return ('ellipsis',)
    return ('x', 'fresh')


BOOL = ('n', 'bool', None)
VB = V(BOOL)
VNONE = V(NONE)


GENERIC = frozenset([('n', k, None) for k in NUMK] + [('s', None)])


def norm_atoms(atoms):
    """Widening: too many constants of one kind collapse; an unknown number
    of a kind subsumes the constants of that kind."""
    if len(atoms) < 2:
        return atoms
    for g in GENERIC & atoms:
        if 1:
            atoms = frozenset(a for a in atoms if a[0] != g[0] or a == g or len(a) > 2 and a[1] != g[1] or
                              a[-1] is None or a[-1][0] not in ('c', 'd'))
    if len(atoms) <= MAXCONST:
        return atoms
    cnt = {}
    for a in atoms:
        if a[0] == 'n' and a[2] is not None and a[2][0] in ('c', 'd'):
            cnt[a[1]] = cnt.get(a[1], 0) + 1
        elif a[0] == 's' and a[1] is not None and a[1][0] == 'c':
            cnt['s'] = cnt.get('s', 0) + 1
    big = {k for k, v in cnt.items() if v > MAXCONST}
    if not big:
        return atoms
    out = set()
    for a in atoms:
        if a[0] == 'n' and a[1] in big and a[2] is not None and a[2][0] in ('c', 'd'):
            out.add(('n', a[1], None))
        elif a[0] == 's' and 's' in big and a[1] is not None and a[1][0] == 'c':
            out.add(('s', None))
        else:
            out.add(a)
    return frozenset(out)


def join(a, b):
    if a is b or a == b:
        return a
    if a == BOT:
        return b
    if b == BOT:
        return a
    return (norm_atoms(a[0] | b[0]), a[1] | b[1])


def joinall(vs):
    r = BOT
    for v in vs:
        r = join(r, v)
    return r


def taint(v, t):
    if not t or not v[0]:
        return v
    return (v[0], v[1] | t)


def strip(v, pred):
    if not v[1]:
        return v
    t = frozenset(x for x in v[1] if not pred(x))
    return v if len(t) == len(v[1]) else (v[0], t)


def is_loop_taint(x):
    return x[0] in ('EL', 'ELV', 'ELK', 'LC')


class Obj:
    __slots__ = ('oid', 'kind', 'cls', 'f', 'n', 'site', 'readers', 'imp', 'phase')
    # kind: inst list tuple dict set frozenset ndarray gen pmap rng argparser
    #       ns(namespace) frame classobj sortedlist sorteddict iter
    # n: fixed length (positional fields 0..n-1) or None

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.oid)


class Summary:
    __slots__ = ('key', 'fi', 'ctx', 'frame', 'params', 'ret', 'ret_must', 'yields',
                 'callers', 'returns', 'kills', 'entry_pc', 'calls', 'handlers')


class State:
    __slots__ = ('env', 'must', 'pc')

    def __init__(self, env, must, pc):
        self.env, self.must, self.pc = env, must, pc

    def copy(self):
        return State(dict(self.env), self.must, self.pc)


def join_states(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = {}
    ea, eb = a.env, b.env
    for k in ea.keys() | eb.keys():
        if k in ea:
            if k in eb:
                env[k] = join(ea[k], eb[k])
            elif '.' in k:
                continue
            else:
                env[k] = (ea[k][0] | {UB}, ea[k][1])
        elif '.' not in k:
            env[k] = (eb[k][0] | {UB}, eb[k][1])
    return State(env, a.must & b.must, a.pc | b.pc if a.pc != b.pc else a.pc)


DEADLY = (ast.Attribute, ast.Subscript, ast.Call, ast.BinOp, ast.UnaryOp, ast.Compare, ast.Name)
ALLT = ('FR', 'SQRT', 'ORD', 'EL', 'LC', 'NDO', 'HIST')
CANON = {'FR': ('FR', ''), 'ORD': ('ORD', ''), 'SQRT': ('SQRT', '')}


class Unsupported(Exception):
    pass


class Activation:
    """Everything that one analysis of one (function, context) needs."""
    __slots__ = ('s', 'fi', 'ctx', 'ret', 'ret_must', 'yields', 'returns', 'loops',
                 'collectors', 'module', 'kills', 'cls', 'ndloops', 'must_before_raise')


class Interp:
    def __init__(self, program, config=None):
        self.p = program
        self.heap = {}
        self.sums = {}
        self.modenv = {}       # module name -> oid of its namespace object
        self.modstate = {}
        self.work = []
        self.inwork = set()
        self.cur = None
        self.final = False
        self.log = {}
        self.persist_mutated = set()     # oids of import-time objects mutated at run time
        self.global_mutated = set()      # (module, name)
        self.reached = set()             # ids of statements reached
        self.class_members = {}
        self.mro_cache = {}
        self.truth_cache = {}
        self.driver_hooks = {}
        self.owned = bool((config or {}).get('owned'))
        self.kindctx = bool((config or {}).get('kindctx'))
        self.ident_counter = 0
        self.nsteps = 0
        from . import libmodel
        self.lib = libmodel.Lib(self)
        self.hist_exempt = set()
        self.tracked = frozenset((config or {}).get('tracked', ALLT))
        if 'ORD' in self.tracked:
            self.tracked |= {'AH'}
        self.origins = (config or {}).get('origins', False)
        self.import_calls = {}
        self.construct_override = {}
        self.want_must = (config or {}).get('must', False)
        self.kg = (config or {}).get('kg', 2)
        self.km = (config or {}).get('km', 2)
        self.tfc = {}
        self.in_nd = {}
        self.curnode = None
        self._disp = {}
        self.nonlocal_names = set()
        self.cap_by_comp = {}
        self.lazy_imports = []
        self.clsbody = []
        self._assigned_cache = {}
        self.defaults = {}
        self.gen_nd = {}

    # ------------------------------------------------------------ logging
    def note(self, kind, node, key=None, **info):
        """Record a fact in the final pass (keyed, so that it is a set)."""
        if not self.final:
            if kind == 'extcall' and self.cur is not None and self.cur.fi is None:
                self.import_calls.setdefault((self.cur.module.rel, getattr(node, 'lineno', 0), key), dict(
                    info, func='<module>', file=self.cur.module.rel, line=getattr(node, 'lineno', 0), kind=kind, key=key))
            return
        a = self.cur
        k = (kind, a.module.rel if a else '?', getattr(node, 'lineno', 0),
             getattr(node, 'col_offset', 0), key)
        d = self.log.setdefault(k, dict(info, func=a.fi.qualname if a and a.fi else '<module>',
                                        file=a.module.rel if a else '?',
                                        line=getattr(node, 'lineno', 0), kind=kind, key=key,
                                        end=(getattr(node, 'end_lineno', 0), getattr(node, 'end_col_offset', 0)),
                                        ctxs=set()))
        d['ctxs'].add(a.s.key if a and a.s else None)
        if info:
            d.setdefault('all', []).append(info)
            d.setdefault('allctx', []).append(a.s.key if a and a.s else None)
        return d

    def site(self, node, tag=''):
        a = self.cur
        return (a.module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), tag)

    # ------------------------------------------------------------ heap
    def alloc(self, node, kind, tag='', cls=None, n=None, fields=None, ctx=None):
        a = self.cur
        oid = (self.site(node, tag or kind), a.ctx if ctx is None else ctx)
        o = self.heap.get(oid)
        if o is None:
            o = Obj()
            o.oid, o.kind, o.cls, o.f, o.n = oid, kind, cls, {}, n
            o.site = oid[0]
            o.readers = {}
            o.imp = (a.fi is None)
            o.phase = 0
            self.heap[oid] = o
        else:
            if o.n != n and o.n is not None:
                self.unfix(o)
        if fields:
            for k, v in fields.items():
                self.store_field(oid, k, v)
        return ('o', oid, 1)

    def unfix(self, o):
        if o.n is not None:
            n = o.n
            o.n = None
            for i in range(n):
                v = o.f.get(i)
                if v is not None:
                    self.store_field(o.oid, '$elem', v)
            self.changed(o)

    def changed(self, o, name=None):
        """Wake the readers of one field, or everyone who looked at o."""
        if name is None:
            for ks in o.readers.values():
                for k in ks:
                    self.enqueue(k)
            return
        for n in (name, '$all'):
            for k in o.readers.get(n, ()):
                self.enqueue(k)

    def reads(self, o, name):
        c = self.cur
        if c is not None and c.s is not None:
            r = o.readers.get(name)
            if r is None:
                r = o.readers[name] = set()
            r.add(c.s.key)

    def tf(self, v, loop=False):
        """Keep the taints this run tracks; without their origins unless asked."""
        t = v[1]
        if not t:
            return v
        c = self.tfc.get((t, loop))
        if c is None:
            out = set()
            for x in t:
                k = x[0]
                if k not in self.tracked:
                    continue
                if loop and (k == 'EL' or k == 'LC'):
                    continue
                if not self.origins and k in CANON:
                    x = CANON[k]
                out.add(x)
            c = self.tfc[(t, loop)] = frozenset(out)
        return v if c is t else (v[0], c)

    def store_field(self, oid, name, v):
        o = self.heap[oid]
        if v[1]:
            v = self.tf(v, True)
        old = o.f.get(name)
        if old is None:
            if v == BOT and name in o.f:
                return
            o.f[name] = v
            self.changed(o, '$struct')
            self.changed(o, name)
            return
        new = join(old, v)
        if new != old:
            o.f[name] = new
            self.changed(o, name)

    def read(self, oid, name):
        o = self.heap[oid]
        self.reads(o, name)
        return o.f.get(name, BOT)

    def obj(self, atom):
        o = self.heap[atom[1]]
        self.reads(o, '$struct')
        return o

    def load_from(self, atom, base_t, name):
        """Field load through a reference atom: freshness and taints."""
        v = self.read(atom[1], name)
        if v == BOT:
            return v
        if atom[2] == 0 or self.owned and self.heap[atom[1]].kind in ('inst', 'pmap') and not (self.cur.fi is not None and self.cur.fi.name == '__init__'):
            v = (frozenset(('o', x[1], 0) if x[0] == 'o' and x[2] else x for x in v[0]), v[1])
        if base_t:
            v = (v[0], v[1] | base_t)
        if atom[1] in self.persist_mutated:
            v = taint(v, frozenset([('HIST', self.describe(atom[1]))]))
        return v

    def describe(self, oid):
        s = oid[0]
        return '%s:%s' % (s[0], s[1])

    def elem(self, v):
        """Join of the elements an iterable value can produce."""
        r = BOT
        for a in v[0]:
            r = join(r, self.elem_atom(a, v[1]))
        return r

    def elem_atom(self, a, t):
        k = a[0]
        if k == 'o':
            o = self.obj(a)
            if o.kind in ('dict', 'pmap', 'sorteddict'):
                return self.load_from(a, t, '$key')
            if o.kind == 'ns' or o.kind == 'rng':
                return BOT
            if o.kind == 'inst':
                it = self.class_lookup(o.cls, '__iter__')
                if it is not None:
                    m = self.bind_method(it, a, o.cls)
                    g = self.call_value(m, [], {}, self.curnode)
                    return self.elem(g)
                base = self.ext_base(o.cls)
                if base:
                    return V(('s', None), t=t)
                return BOT
            if o.n is not None:
                r = BOT
                for i in range(o.n):
                    r = join(r, self.load_from(a, t, i))
                return r
            return self.load_from(a, t, '$elem')
        if k == 's':
            return V(('s', None), t=t)
        if k == 'x':
            return V(a, t=t)
        if k == 'xa':
            return V(('x', a[2][1]), t=t)
        if k in ('e', 'em'):
            return V(('x', 'fresh'), t=t)
        if k in ('n', 'none', 'f', 'm', 'c', 'path', 'k') and self.st is not None:
            self.note('badop', self.curnode, key=('iterate', self.lib.kindname(a)))
        return BOT

    # ------------------------------------------------------------ worklist
    def enqueue(self, key):
        if key not in self.inwork:
            self.inwork.add(key)
            self.work.append(key)

    def run(self):
        import heapq
        n = 0
        while self.work:
            key = self.work.pop()
            self.inwork.discard(key)
            n += 1
            if n > 400000:
                raise Unsupported('fixpoint did not converge')
            self.analyze(key)
        return n

    def finish(self):
        """Stabilise once more, with logging."""
        while True:
            self.run()
            self.final = True
            self.log = {}
            self.dead, self.live = {}, {}
            self.callmust = {}
            before = self.version()
            for key in list(self.sums):
                self.inwork.add(key)      # no re-enqueueing noise
            for key in list(self.sums):
                self.analyze(key)
            self.inwork.clear()
            if self.version() == before:
                if not self.want_must:
                    break
                # what calls certainly do was under-estimated while the
                # callees were not yet known: recompute from the callees up
                work = list(self.sums)
                n = 0
                while work and n < 40 * len(self.sums):
                    n += 1
                    key = work.pop(0)
                    old = self.sums[key].ret_must
                    self.analyze(key)
                    if self.sums[key].ret_must != old:
                        for c in self.sums[key].callers:
                            if c not in work:
                                work.append(c)
                self.want_must = False
                continue
            self.final = False
            for key in list(self.sums):
                self.enqueue(key)
        self.final = True

    def entry_must(self):
        """What has certainly been done before each activation starts (callers included)."""
        into = {}
        for (c, k), m in self.callmust.items():
            into.setdefault(k, []).append((c, m))
        out = {}
        while True:
            changed = False
            for k in self.sums:
                if k not in into:
                    new = EMPTY
                else:
                    new = None
                    for c, m in into[k]:
                        base = out.get(c)
                        if base is None and c in into:
                            continue          # not known yet
                        base = base or EMPTY
                        if self.sums[c].kills:
                            base = self.kill(base)
                        new = base | m if new is None else new & (base | m)
                    if new is None:
                        continue
                if out.get(k) != new:
                    out[k] = new
                    changed = True
            if not changed:
                return out

    def version(self):
        return (len(self.sums), len(self.heap), sum(len(o.f) for o in self.heap.values()),
                sum(len(v[0]) + len(v[1]) for o in self.heap.values() for v in o.f.values()),
                sum(len(s.ret[0]) + len(s.ret[1]) + len(s.yields[0]) + len(s.params) + (s.returns and 1 or 0)
                    for s in self.sums.values()),
                len(self.persist_mutated), len(self.global_mutated))

    # ------------------------------------------------------------ modules
    def modns(self, name):
        """Namespace object of a repo module, initialising it on first use."""
        if name in self.modenv:
            return self.modenv[name]
        m = self.p.modules[name]
        o = Obj()
        o.oid, o.kind, o.cls, o.f, o.n = ((name, 0, 0, 'module'), ()), 'module', None, {}, None
        o.site, o.readers, o.imp, o.phase = o.oid[0], {}, True, 0
        self.heap[o.oid] = o
        self.modenv[name] = o.oid
        # parents first
        if '.' in name:
            par = name.rsplit('.', 1)[0]
            if par in self.p.modules:
                self.modns(par)
                self.store_field(self.modenv[par], name.rsplit('.', 1)[1], V(('mod', name)))
        saved = self.cur
        a = Activation()
        a.s, a.fi, a.ctx, a.module, a.cls = None, None, ('import',), m, None
        a.ret, a.ret_must, a.yields, a.returns, a.kills = BOT, None, BOT, False, False
        a.collectors, a.loops, a.ndloops = [], [], []
        self.cur = a
        st = State({}, EMPTY, EMPTY)
        for fname, v in (('__name__', V(('s', ('c', name)))), ('__file__', V(('s', None))), ('__doc__', V(('s', None)))):
            self.store_field(o.oid, fname, v)
        self.exec_block(m.tree.body, st)
        self.cur = saved
        return o.oid

    # ------------------------------------------------------------ classes
    def classobj(self, cid):
        return self.class_members[cid]

    def mro(self, cid):
        """Repo classes in resolution order (linear, depth first)."""
        if cid in self.mro_cache:
            return self.mro_cache[cid]
        info = self.class_members.get(cid)
        out = [cid]
        for b in (info['bases'] if info else ()):
            if b[0] == 'c':
                for x in self.mro(b[1]):
                    if x not in out:
                        out.append(x)
        self.mro_cache[cid] = out
        return out

    def ext_base(self, cid):
        for c in self.mro(cid):
            info = self.class_members.get(c)
            for b in info['bases']:
                if b[0] == 'e' and b[1] not in ('builtins.object',):
                    return b[1]
        return None

    def class_lookup(self, cid, name):
        for c in self.mro(cid):
            info = self.class_members.get(c)
            oid = info['oid']
            o = self.heap[oid]
            self.reads(o, name)
            if name in o.f:
                v = o.f[name]
                if oid in self.persist_mutated:
                    v = taint(v, frozenset([('HIST', c)])) if (oid, name) in self.global_mutated else v
                return v
        return None

    def record_fields(self, cid):
        """Declared fields of a persistent record class, or None."""
        if self.ext_base(cid) not in ('pyrsistent.PRecord', 'pyrsistent.PClass'):
            return None
        out = set()
        for c in self.mro(cid):
            o = self.heap[self.class_members[c]['oid']]
            for k, v in o.f.items():
                if any(x[0] == 'field' for x in v[0]):
                    out.add(k)
        return out

    def instance_fields(self, cid):
        """Names assigned on the receiver by the methods of a class."""
        out = set()
        for c in self.mro(cid):
            for n in ast.walk(self.p.class_by_cid[c].node):
                if isinstance(n, ast.FunctionDef) and n.args.args:
                    me = n.args.args[0].arg
                    for x in ast.walk(n):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) \
                                and isinstance(x.value, ast.Name) and x.value.id == me:
                            out.add(x.attr)
        return out

    def bind_method(self, v, recv, cid):
        """Class attribute value as seen through an instance."""
        out = set()
        for a in v[0]:
            if a[0] == 'f':
                fi = self.p.func_by_fid[a[1]]
                kind = self.fkind(fi)
                if kind == 'static':
                    out.add(a)
                elif kind == 'class':
                    out.add(('m', a[1], a[2], ('c', cid)))
                else:
                    out.add(('m', a[1], a[2], recv))
            else:
                out.add(a)
        return (frozenset(out), v[1])

    def fkind(self, fi):
        for d in fi.decorators:
            n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if n == 'classmethod':
                return 'class'
            if n == 'staticmethod':
                return 'static'
            if n in ('property', 'cached_property'):
                return 'property'
        return 'fn'

    # ------------------------------------------------------------ calls
    def call_key(self, fid, frame, node, bound=None):
        a = self.cur
        site = (a.module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        if self.kindctx and bound:
            # numbers of different kinds are analysed apart
            site += tuple((k, tuple(sorted({x[1] for x in v[0]}))) for k, v in sorted(bound.items())
                          if v[0] and all(x[0] == 'n' for x in v[0]))
        ctx = ((a.ctx if a.ctx != ('import',) else ()) + (site,))[-self.k_for(fid):]
        return (fid, ctx, frame)

    def k_for(self, fid):
        return self.kg if '.geometry.' in fid else self.km

    def call_func(self, fid, frame, args, kwargs, node, recv=None, star=None, dstar=None, ctor=False):
        """Transfer a call of a repo function; returns its summary value."""
        fi = self.p.func_by_fid[fid]
        hook = self.driver_hooks.get(fid)
        if hook is not None:
            return hook(self, args, kwargs, node, recv)
        bound = self.bind_args(fi, args, kwargs, node, recv, star, dstar)
        key = self.call_key(fid, frame, node, bound)
        s = self.sums.get(key)
        if s is None:
            s = Summary()
            s.key, s.fi, s.ctx, s.frame = key, fi, key[1], frame
            s.params, s.ret, s.yields = {}, BOT, BOT
            s.ret_must, s.callers, s.returns, s.kills = None, set(), False, False
            s.entry_pc, s.calls, s.handlers = EMPTY, {}, []
            self.sums[key] = s
            self.enqueue(key)
        if self.cur.s is not None:
            s.callers.add(self.cur.s.key)
        if bound is None:
            return BOT
        changed = False
        priv = ctor or fi.name.startswith('_') or fi.parent is not None or fi.is_lambda
        if self.owned:
            priv = self.cur.module.rel.startswith('plycutter') and self.cur.fi is not None
        first = next(iter(bound), None)
        for k, v in bound.items():
            if not priv and not (ctor and k == first):
                v = (frozenset(('o', x[1], 0) if x[0] == 'o' and x[2] else x for x in v[0]), v[1])
            old = s.params.get(k)
            v = self.tf(v)
            new = v if old is None else join(old, v)
            if new != old:
                s.params[k] = new
                changed = True
        a = self.cur
        if a.s is not None:
            inh = set(self.in_nd.get(a.s.key, ()))
            for l in a.ndloops:
                inh.add((l[0], l[1], l[2], a.ctx))
            old = self.in_nd.setdefault(key, set())
            if inh - old and key != a.s.key:
                old |= inh
                changed = True
        if changed:
            self.enqueue(key)
        self.lastcall = s
        if self.final:
            for k, v in bound.items():
                ids = {x[2][1] for x in v[0] if x[0] == 'n' and x[2] and x[2][0] == 'opt'}
                if ids or (fi.name == 'buffer' and k != 'self'):
                    self.note('optarg', node, key=(fid, k, tuple(sorted(ids)), tuple(sorted({x[1] if x[0] == 'n' else x[0] for x in v[0]}))),
                              callee=fid, param=k, value=v)
        if self.final and a.s is not None and self.st is not None:
            e = (a.s.key, key)
            m = self.st.must
            self.callmust[e] = self.callmust[e] & m if e in self.callmust else m
        if fi.is_gen:
            g = self.alloc(node, 'gen', 'gen:' + fid)
            self.store_field(g[1], '$elem', s.yields)
            if self.cur.s is not None:
                s.callers.add(self.cur.s.key)
            t = EMPTY
            for v in bound.values():
                t |= v[1]
            if s.yields[1]:
                t |= frozenset(x for x in s.yields[1] if x[0] == 'NDO')
            nd = self.gen_nd.get(key)
            if nd:
                self.store_field(g[1], '$nd', (frozenset([BOOL]), nd))
            return V(g, t=t)
        if not s.returns:
            return BOT
        return s.ret


    def bind_args(self, fi, args, kwargs, node, recv, star, dstar):
        a = fi.args
        names = [x.arg for x in a.posonlyargs + a.args]
        pos = list(args)
        if recv is not None:
            pos = [recv] + pos
        out = {}
        err = None
        for n, v in zip(names, pos):
            out[n] = v
        extra = pos[len(names):]
        if star is not None:
            for n in names[len(pos):]:
                if n not in kwargs:
                    out[n] = join(out.get(n, BOT), star)
        if a.vararg:
            t = self.alloc(fi.node, 'tuple', 'vararg', n=None, ctx=())
            t = self.alloc(node, 'tuple', 'vararg:' + fi.fid, n=None if star is not None else len(extra),
                           fields={i: v for i, v in enumerate(extra)})
            if star is not None:
                for v in extra:
                    self.store_field(t[1], '$elem', v)
                self.store_field(t[1], '$elem', star)
            out[a.vararg.arg] = V(t)
        elif extra:
            err = 'too many positional arguments'
        kwn = names[len(a.posonlyargs):] + [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if k in [x.arg for x in a.posonlyargs] or k not in kwn:
                if a.kwarg:
                    rest[k] = v
                else:
                    err = 'unexpected keyword argument %r' % k
            elif k in names[:len(pos)]:
                err = 'multiple values for argument %r' % k
            else:
                out[k] = v
        if a.kwarg:
            d = self.alloc(node, 'dict', 'kwarg:' + fi.fid)
            for k, v in rest.items():
                self.store_field(d[1], ('k', k), v)
                self.store_field(d[1], '$key', V(('s', ('c', k))))
                self.store_field(d[1], '$val', v)
            if dstar is not None:
                self.store_field(d[1], '$val', dstar)
                self.store_field(d[1], '$key', V(('s', None)))
            out[a.kwarg.arg] = V(d)
        elif dstar is not None:
            for n in kwn:
                if n not in out:
                    out[n] = dstar
        # defaults
        nd = len(a.defaults)
        for i, dflt in enumerate(a.defaults):
            n = names[len(names) - nd + i]
            if n not in out:
                out[n] = self.default_value(fi, dflt)
        for x, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and dflt is not None:
                out[x.arg] = self.default_value(fi, dflt)
        missing = [n for n in names + [x.arg for x in a.kwonlyargs] if n not in out]
        if missing and star is None and dstar is None:
            err = 'missing argument(s) %s' % ', '.join(missing)
        if err:
            self.note('arity', node, key=(fi.fid, err), callee=fi.qualname, err=err)
            return None
        for v in out.values():
            if v == BOT or not v[0]:
                return None
        return out

    def default_value(self, fi, dflt):
        return self.defaults.get(id(dflt), BOT)


    def call_value(self, fv, args, kwargs, node, star=None, dstar=None):
        """Call any abstract value."""
        r = BOT
        for v in args:
            if v == BOT:
                return BOT
        for v in kwargs.values():
            if v == BOT:
                return BOT
        must = None
        kills = False
        fs = fv[0]
        if len(fs) > 1:
            groups = {}
            for f in fs:
                if f[0] == 'm':
                    groups.setdefault((f[1], f[2]), []).append(f[3])
            if groups:
                fs = [f for f in fs if f[0] != 'm'] + [('m', k[0], k[1], frozenset(v)) for k, v in groups.items()]
        for f in fs:
            self.lastcall = None
            self.ext_must = None
            x = self.call_atom(f, args, kwargs, node, star, dstar, fv[1])
            if x == BOT:
                continue
            s = self.lastcall
            ev = EMPTY
            if s is not None:
                ev = (s.ret_must if s.ret_must is not None else EMPTY) | {('call', s.fi.fid)}
                kills = kills or s.kills
                if self.cur.s is not None:
                    pass
            if self.ext_must is not None:
                ev = ev | self.ext_must
            must = ev if must is None else (must & ev)
            # reading one's own slot does not depend on the other slots
            r = join(r, x if f[0] == 'em' and f[1] == 'get' else taint(x, fv[1]))
        if self.st is not None and must is not None:
            if kills:
                self.st.must = self.kill(self.st.must)
            if must:
                self.st.must = self.st.must | must
            self.lib.after_call(self, fv, node)
        return r

    def kill(self, must):
        return frozenset(x for x in must if x[0] != 'guard')

    def call_atom(self, f, args, kwargs, node, star, dstar, ft):
        k = f[0]
        if k == 'f':
            return self.call_func(f[1], f[2], args, kwargs, node, None, star, dstar)
        if k == 'm':
            recv = (f[3], ft) if isinstance(f[3], frozenset) else V(f[3], t=ft)
            r = self.call_func(f[1], f[2], args, kwargs, node, recv, star, dstar)
            return r
        if k == 'c':
            return self.construct(f[1], args, kwargs, node, star, dstar)
        if k in ('e', 'k', 'em', 'x', 'xa', 'field'):
            if star is not None:
                args = list(args) + [star]
            if dstar is not None:
                kwargs = dict(kwargs)
                kwargs['**'] = dstar
            return self.lib.call(f, args, kwargs, node, ft, star is not None)
        if k == 'o':
            o = self.obj(f)
            if o.kind == 'inst':
                c = self.class_lookup(o.cls, '__call__')
                if c is not None:
                    return self.call_value(self.bind_method(c, f, o.cls), args, kwargs, node, star, dstar)
            if o.kind in ('partial', 'itemgetter', 'attrgetter'):
                return self.lib.call_helper(f, o, args, kwargs, node, ft)
            if o.kind == 'vectorize':
                return self.lib.call(('e', '$vectorized'), [V(f)] + list(args), kwargs, node, ft, False)
            self.note('notcallable', node, key=o.kind)
            return BOT
        if k in ('none', 'n', 's'):
            self.note('notcallable', node, key=f)
            return BOT
        return BOT

    def construct(self, cid, args, kwargs, node, star=None, dstar=None):
        t = EMPTY
        for v in list(args) + list(kwargs.values()) + ([star] if star else []) + ([dstar] if dstar else []):
            t |= v[1]
        base = self.ext_base(cid)
        inst = self.alloc(node, 'inst', 'new:' + cid, cls=cid)
        self.note('construct', node, key=cid, cls=cid)
        rec = self.record_fields(cid)
        self.lib.on_construct(self, cid)
        if rec is not None:
            over = self.construct_override.get(cid.split(':')[-1])
            if over is not None:
                kwargs = dict(kwargs, **over(self, node))
            for k, v in kwargs.items():
                if k == '**':
                    continue
                if k not in rec:
                    self.note('badfield', node, key=(cid, k), cls=cid, field=k, op='construct')
                    return BOT
                self.store_field(inst[1], k, v)
            if dstar is not None:
                for k in rec:
                    self.store_field(inst[1], k, dstar)
            if args:
                self.note('arity', node, key=(cid, 'positional'), callee=cid, err='positional arguments to a record')
            return V(inst, t=t)
        init = self.class_lookup(cid, '__init__')
        if init is not None:
            for f in init[0]:
                if f[0] == 'f':
                    self.lastcall = None
                    r = self.call_func(f[1], f[2], args, kwargs, node, V(inst), star, dstar, ctor=True)
                    if r == BOT:
                        return BOT
        elif base is None or base in ('builtins.object',):
            if args or kwargs:
                self.note('arity', node, key=(cid, 'noinit'), callee=cid, err='class takes no arguments')
                return BOT
        else:
            self.store_field(inst[1], '$extargs', joinall(args) if args else VNONE)
        return V(inst, t=t)

    # ------------------------------------------------------------ analysis of one function
    def analyze(self, key):
        s = self.sums[key]
        fi = s.fi
        a = Activation()
        a.s, a.fi, a.ctx, a.module, a.cls = s, fi, s.ctx, fi.module, fi.cls
        a.ret, a.ret_must, a.yields, a.returns, a.kills = BOT, None, BOT, False, False
        a.collectors, a.loops, a.ndloops = [], [], []
        need = [n for n in arg_names(fi.args)]
        env = {}
        for n in need:
            v = s.params.get(n)
            if v is None or v == BOT:
                return
            env[n] = v
        saved = self.cur, self.st
        self.cur = a
        st = State(env, EMPTY, EMPTY)
        self.st = st
        if fi.captured:
            fr = self.frame_oid()
            for n in need:
                if n in fi.captured:
                    self.store_field(fr, n, env[n])
        st = self.exec_block(fi.body, st)
        if st is not None:
            self.do_return(VNONE, st)
        self.cur, self.st = saved
        changed = False
        new = join(s.ret, self.tf(a.ret))
        if new != s.ret:
            s.ret = new
            changed = True
        if a.returns and not s.returns:
            s.returns = True
            changed = True
        if a.returns:
            if s.ret_must != a.ret_must:
                # must-information only shrinks once a return is known
                nm = a.ret_must if s.ret_must is None else s.ret_must & a.ret_must
                if self.final:
                    nm = a.ret_must
                if nm != s.ret_must:
                    s.ret_must = nm
                    changed = True
        ny = join(s.yields, self.tf(a.yields, True))
        if ny != s.yields:
            s.yields = ny
            changed = True
        if a.kills and not s.kills:
            s.kills = True
            changed = True
        if changed:
            for c in s.callers:
                self.enqueue(c)

    st = None

    def frame_oid(self):
        a = self.cur
        if a.fi is None:
            return None
        oid = ((a.fi.fid, 0, 0, 'frame'), a.ctx)
        if oid not in self.heap:
            o = Obj()
            o.oid, o.kind, o.cls, o.f, o.n = oid, 'frame', None, {}, None
            o.site, o.readers, o.imp, o.phase = oid[0], {}, False, 0
            self.heap[oid] = o
            par = a.s.frame if a.s is not None else None
            if par is not None:
                o.f['$parent'] = V(('fr', par))
        return oid

    def do_return(self, v, st):
        a = self.cur
        if v == BOT:
            return
        if a.ndloops:
            v = self.nd_escape(v)
        v = taint(v, self.control(v, st.pc))
        a.ret = join(a.ret, v)
        a.returns = True
        a.ret_must = st.must if a.ret_must is None else a.ret_must & st.must

    def control(self, v, pc):
        """Marks a value takes from the conditions it is chosen under.

        Which slot of a map under construction an element updates, and whether, does not depend on the order
        of the elements when the condition looks at that element alone."""
        if not pc or not v[0] or not any(x[0] == 'LC' for x in v[1]):
            return pc
        if not all(x[0] == 'o' and self.obj(x).kind == 'pmap' for x in v[0]):
            return pc
        lc = {x[1] for x in v[1] if x[0] == 'LC'} - {x[1] for x in v[1] if x[0] in ('EL', 'ELV', 'ELK')}
        lc -= {x[1] for x in pc if x[0] == 'LC'}
        return frozenset(x for x in pc if not (x[0] in ('EL', 'ELV', 'ELK') and x[1] in lc))

    def nd_escape(self, v):
        """A value leaves an unordered loop early: it depends on the order."""
        bad = [x for x in v[1] if is_loop_taint(x)]
        if not bad:
            return v
        t = frozenset(x for x in v[1] if not is_loop_taint(x))
        own = {lp[0] for lp in self.cur.ndloops}
        if any(x[1] in own for x in bad):
            t |= frozenset(('ORD', x[1], 'first found') for x in bad if x[1] in own)
        t |= frozenset(x for x in bad if x[1] not in own)
        return (v[0], t)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.exec_stmt(s, st)
        return st

    def snapshot(self, st):
        for c in self.cur.collectors:
            c[0] = join_states(c[0], st.copy()) if c[0] is not None else st.copy()

    def exec_stmt(self, s, st):
        self.nsteps += 1
        if self.final:
            self.reached.add((self.cur.module.rel, s.lineno, s.col_offset, type(s).__name__))
        if self.cur.collectors:
            self.snapshot(st)
        self.st = st
        self.curnode = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s:%d' % (type(s).__name__, self.cur.module.rel, s.lineno))
        st = m(s, st)
        if st is not None and self.cur.collectors:
            self.snapshot(st)
        return st

    def s_Pass(self, s, st):
        return st

    def s_Expr(self, s, st):
        v = self.ev(s.value, st)
        if v == BOT:
            return None
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        if v == BOT:
            return None
        for t in s.targets:
            if not self.assign(t, v, st):
                return None
        return st

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return st
        v = self.ev(s.value, st)
        if v == BOT:
            return None
        return st if self.assign(s.target, v, st) else None

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), st)
        elif isinstance(t, ast.Attribute):
            cur = self.ev(ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t), st)
        else:
            cur = self.ev(ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t), st)
        if cur == BOT:
            return None
        rhs = self.ev(s.value, st)
        if rhs == BOT:
            return None
        v = self.lib.augassign(cur, rhs, type(s.op).__name__, s, st)
        if v == BOT:
            return None
        return st if self.assign(t, v, st) else None

    def s_Return(self, s, st):
        v = VNONE if s.value is None else self.ev(s.value, st)
        self.do_return(v, st)
        return None

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        if s.cause is not None:
            self.ev(s.cause, st)
        return None

    def s_Assert(self, s, st):
        c = self.ev(s.test, st)
        self.note('assert', s, cond_t=c[1])
        if c == BOT:
            return None
        self.note_branch(s, c)
        ct, cf = self.truth(c)
        if cf and s.msg is not None:
            st2 = self.refine(s.test, st.copy(), False)
            if st2 is not None:
                self.st = st2
                self.ev(s.msg, st2)
                self.st = st
        if not ct:
            return None
        r = self.refine(s.test, st, True)
        if r is not None:
            r.must = r.must | {self.guard_event(s)}
        return r

    def guard_event(self, s):
        a = self.cur
        return ('guard', a.module.rel, s.lineno, s.col_offset)

    callmust = {}

    def state_created(self, cid, field):
        """A value of a watched class came into being with another content of `field`."""
        if cid.split(':')[-1] != 'SheetBuild' or field not in (None, 'sheet_chosen', 'sheet_ok', 'interside_chosen', 'interside_ok'):
            return
        self.cur.kills = True
        if self.st is not None:
            self.st.must = self.kill(self.st.must)

    def s_If(self, s, st):
        c = self.ev(s.test, st)
        if c == BOT:
            return None
        self.note_branch(s, c)
        ct, cf = self.truth(c)
        pct = frozenset(x for x in c[1] if x[0] in ('ORD', 'HIST', 'EL', 'ELV', 'ELK', 'LC'))
        old = st.pc
        a = b = None
        if ct:
            a = self.refine(s.test, st.copy(), True)
            if a is not None:
                a.pc = old | pct
                a = self.exec_block(s.body, a)
        if cf:
            b = self.refine(s.test, st, False)
            if b is not None:
                b.pc = old | pct
                b = self.exec_block(s.orelse, b)
        r = join_states(a, b)
        if r is not None:
            r.pc = old
            self.st = r
            dead = (s.body if a is None else None, s.orelse if b is None else None)
            if any(x and isinstance(x[-1], ast.Raise) for x in dead):
                r.must = r.must | {self.guard_event(s)}
        return r

    def note_branch(self, s, c):
        if self.final and c[1]:
            self.note('branch', s, taints=c[1])

    def s_While(self, s, st):
        exits = None
        self.cur.loops.append([None, None])
        head = st
        n = 0
        old = st.pc
        while True:
            n += 1
            if n > 60:
                raise Unsupported('while loop does not stabilise')
            cur = head.copy()
            self.st = cur
            self.cur.loops[-1] = [None, None]
            c = self.ev(s.test, cur)
            if c == BOT:
                body = None
                ex = None
            else:
                self.note_branch(s, c)
                ct, cf = self.truth(c)
                ex = self.refine(s.test, cur.copy(), False) if cf else None
                body = None
                if ct:
                    b = self.refine(s.test, cur, True)
                    body = self.exec_block(s.body, b) if b is not None else None
            brk, cont = self.cur.loops[-1]
            body = join_states(body, cont)
            exits = (ex, brk)
            if body is None:
                break
            new = join_states(head.copy(), body)
            if self.same(new, head):
                break
            head = new
        self.cur.loops.pop()
        ex, brk = exits
        if ex is not None and s.orelse:
            ex = self.exec_block(s.orelse, ex)
        r = join_states(ex, brk)
        if r is not None:
            r.pc = old
            self.st = r
        return r

    def same(self, a, b):
        return a.env == b.env and a.must == b.must

    def s_Break(self, s, st):
        lp = self.cur.loops[-1]
        if self.cur.ndloops and self.cur.ndloops[-1][1] == len(self.cur.loops):
            lid = self.cur.ndloops[-1][0]
            env = {}
            for k, v in st.env.items():
                if any(is_loop_taint(x) and x[1] == lid for x in v[1]):
                    v = (v[0], frozenset(x for x in v[1] if not (is_loop_taint(x) and x[1] == lid)) | {('ORD', lid, 'break')})
                env[k] = v
            st.env = env
        lp[0] = join_states(lp[0], st)
        return None

    def s_Continue(self, s, st):
        lp = self.cur.loops[-1]
        lp[1] = join_states(lp[1], st)
        return None

    def positional(self, v):
        """List of element values if v is a single fixed-length sequence."""
        if len(v[0]) != 1:
            return None
        a = next(iter(v[0]))
        if a[0] == 'o':
            o = self.obj(a)
            if o.kind in ('list', 'tuple', 'ndarray', 'iter') and o.n is not None and o.n <= 16:
                if '$nd' in o.f:
                    return None
                return [self.load_from(a, v[1], i) for i in range(o.n)]
        return None

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        if it == BOT:
            return None
        old = st.pc
        pos = self.positional(it)
        self.cur.loops.append([None, None])
        if pos is not None:
            ex = st
            brks = None
            for v in pos:
                if ex is None:
                    break
                self.cur.loops[-1] = [None, None]
                self.st = ex
                if v == BOT or not self.assign(s.target, v, ex):
                    body = None
                else:
                    body = self.exec_block(s.body, ex)
                brk, cont = self.cur.loops[-1]
                brks = join_states(brks, brk)
                ex = join_states(body, cont)
            self.cur.loops.pop()
            if ex is not None and s.orelse:
                ex = self.exec_block(s.orelse, ex)
            r = join_states(ex, brks)
            if r is not None:
                r.pc = old
                self.st = r
            return r
        nd = self.lib.nd_order(it)
        e = self.elem(it)
        must0 = st.must
        if nd:
            lid = self.site(s, 'loop')
            self.note('ndloop', s, why=nd)
            e = self.lib.nd_elem(it, e, lid)
            self.cur.ndloops.append((lid, len(self.cur.loops), (self.cur.module.name, s.lineno, s.end_lineno)))
            carried = [k for k in st.env if k in self.assigned_in(s)]
            carried = set(carried)
            head = st.copy()
            for k in head.env:
                # marks of this loop that came back through shared
                # summaries do not belong to a value made before it
                head.env[k] = strip(head.env[k], lambda x: is_loop_taint(x) and x[1] == lid)
            for k in carried:
                head.env[k] = taint(head.env[k], frozenset([('LC', lid, k)]))
            written = carried | self.assigned_in(s) | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        else:
            head = st
        n = 0
        bodymust = None
        while True:
            n += 1
            if n > 60:
                raise Unsupported('for loop does not stabilise at %s:%d' % (self.cur.module.rel, s.lineno))
            cur = head.copy()
            self.st = cur
            self.cur.loops[-1] = [None, None]
            if e == BOT or not self.assign(s.target, e, cur):
                body = None
            else:
                body = self.exec_block(s.body, cur)
            brk, cont = self.cur.loops[-1]
            body = join_states(body, cont)
            if body is None:
                break
            bodymust = body.must
            if nd:
                body = self.nd_body_end(body, lid, written)
            new = join_states(head.copy(), body)
            new.must = head.must
            if self.same(new, head):
                break
            head = new
        self.cur.loops.pop()
        ex = head.copy()
        # a for loop is a universally quantified block: what every pass
        # through its body does counts as done for every element
        if bodymust is not None:
            # what the body can undo is undone; what every pass does counts
            # as done (for every element there is)
            ex.must = (must0 & bodymust) | (bodymust - must0)
        if nd:
            self.cur.ndloops.pop()
            ex = self.nd_loop_exit(ex, lid, written)
            if brk is not None:
                brk = self.nd_loop_exit(brk, lid, written)
        if s.orelse:
            ex = self.exec_block(s.orelse, ex)
        r = join_states(ex, brk)
        if r is not None:
            r.pc = old
            self.st = r
            # assume at least one pass for the purposes of boundness
            if e != BOT:
                for k, v in r.env.items():
                    if UB in v[0] and body is not None and k in body.env and UB not in body.env[k][0] and (brk is None or (k in brk.env and UB not in brk.env[k][0])):
                        r.env[k] = (v[0] - {UB}, v[1])
        return r

    def nd_body_end(self, body, lid, written):
        env = {}
        for k, v in body.env.items():
            lt = [x for x in v[1] if is_loop_taint(x) and x[1] == lid]
            if lt:
                has_lc = any(x[0] == 'LC' for x in lt)
                has_el = any(x[0] != 'LC' for x in lt)
                if k not in written:
                    v = strip(v, lambda x: is_loop_taint(x) and x[1] == lid)
                elif has_lc and has_el:
                    v = (v[0], frozenset(x for x in v[1] if not (is_loop_taint(x) and x[1] == lid)) |
                         {('ORD', lid, k), ('LC', lid, k)})
            env[k] = v
        body.env = env
        return body

    def nd_loop_exit(self, st, lid, written):
        env = {}
        for k, v in st.env.items():
            lt = [x for x in v[1] if is_loop_taint(x) and x[1] == lid]
            if lt:
                t = frozenset(x for x in v[1] if not (is_loop_taint(x) and x[1] == lid))
                if k in written and any(x[0] != 'LC' for x in lt):
                    t |= {('ORD', lid, k)}
                v = (v[0], t)
            env[k] = v
        st.env = env
        return st

    def assigned_in(self, s):
        c = self._assigned_cache.get(id(s))
        if c is None:
            b, _, _ = bound_names(s.body)
            tg = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
            c = b - tg
            self._assigned_cache[id(s)] = c
        return c


    def s_With(self, s, st):
        swallow = False
        for item in s.items:
            v = self.ev(item.context_expr, st)
            if v == BOT:
                return None
            if any(a == ('x', 'suppress') for a in v[0]):
                swallow = True
            if item.optional_vars is not None:
                r = self.lib.enter(v, item.context_expr)
                if r == BOT or not self.assign(item.optional_vars, r, st):
                    return None
        if swallow:
            self.cur.collectors.append([None])
            self.note('handler', s, key='suppress', broad=True, completes=True)
        st = self.exec_block(s.body, st)
        if swallow:
            c = self.cur.collectors.pop()[0]
            st = join_states(st, c)
        return st

    def s_Try(self, s, st):
        self.cur.collectors.append([st.copy()])
        # an exception can happen before any effect of the first statement
        body = self.exec_block(s.body, st)
        snap = self.cur.collectors.pop()[0]
        if body is not None and s.orelse:
            body = self.exec_block(s.orelse, body)
        out = body
        can_raise = True
        if can_raise:
            for h in s.handlers:
                hs = snap.copy()
                self.st = hs
                broad = h.type is None
                names = []
                if h.type is not None:
                    self.ev(h.type, hs)
                    for x in ([h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts):
                        nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else '?'
                        names.append(nm)
                    broad = any(nm in ('Exception', 'BaseException', 'AssertionError') for nm in names)
                if h.name:
                    self.assign(ast.copy_location(ast.Name(id=h.name, ctx=ast.Store()), h), V(('x', 'exception')), hs)
                ret0 = self.cur.returns
                self.cur.returns = False
                rm = self.cur.ret_must
                nloops = [tuple(x) for x in self.cur.loops]
                hs = self.exec_block(h.body, hs)
                returned = self.cur.returns
                self.cur.returns = ret0 or returned
                jumped = [tuple(x) for x in self.cur.loops] != nloops
                completes = hs is not None or returned or jumped
                self.note('handler', h, key=tuple(names), broad=broad, completes=completes,
                          calls=self.has_repo_calls(s.body))
                out = join_states(out, hs)
        if s.finalbody:
            if any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for b in s.finalbody for x in ast.walk(b)):
                self.note('handler', s, key='finally', broad=True, completes=True, calls=True)
            if out is not None:
                out = self.exec_block(s.finalbody, out)
            else:
                fs = snap.copy()
                self.st = fs
                self.exec_block(s.finalbody, fs)
            # exceptional entry
            if out is not None:
                self.st = out
        return out

    def has_repo_calls(self, body):
        return any(isinstance(n, ast.Call) for b in body for n in ast.walk(b))

    def s_FunctionDef(self, s, st):
        fi = self.p.funcs[id(s)]
        fv = self.make_func(fi, s, st)
        for d in reversed(s.decorator_list):
            nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if nm in ('classmethod', 'staticmethod', 'property', 'abstractmethod', 'cached_property'):
                continue
            dv = self.ev(d, st)
            r = self.call_value(dv, [fv], {}, d)
            if r == BOT:
                return None
            fv = r
        self.bind_name(s.name, fv, st)
        return st

    def make_func(self, fi, node, st):
        for d in fi.args.defaults + [x for x in fi.args.kw_defaults if x is not None]:
            v = self.ev(d, st)
            old = self.defaults.get(id(d), BOT)
            self.defaults[id(d)] = join(old, v)
        fr = self.frame_oid()
        return V(('f', fi.fid, fr))

    def s_ClassDef(self, s, st):
        ci = self.p.classes[id(s)]
        o = self.heap.get(((ci.module.name, s.lineno, s.col_offset, 'class'), ()))
        if o is None:
            o = Obj()
            o.oid, o.kind, o.cls, o.f, o.n = ((ci.module.name, s.lineno, s.col_offset, 'class'), ()), 'classobj', ci.cid, {}, None
            o.site, o.readers, o.imp, o.phase = o.oid[0], {}, True, 0
            self.heap[o.oid] = o
        bases = []
        for b in s.bases:
            v = self.ev(b, st)
            bases.extend(v[0])
        self.class_members[ci.cid] = {'oid': o.oid, 'bases': bases, 'info': ci}
        self.mro_cache.clear()
        inner = st.copy()
        inner.env = dict(st.env) if self.cur.fi is not None else {}
        self.clsbody.append(o.oid)
        for b in s.body:
            if inner is None:
                break
            inner = self.exec_stmt(b, inner)
        self.clsbody.pop()
        self.st = st
        self.bind_name(s.name, V(('c', ci.cid)), st)
        return st


    def s_Import(self, s, st):
        for al in s.names:
            nm = al.name
            if nm in self.p.modules:
                self.modns(nm)
                top = nm if al.asname else nm.split('.')[0]
                v = V(('mod', top)) if top in self.p.modules else V(('e', top))
            else:
                v = V(('e', nm if al.asname else nm.split('.')[0]))
            self.bind_name(al.asname or nm.split('.')[0], v, st)
        return st

    def s_ImportFrom(self, s, st):
        base = self.p.lookup_rel(self.cur.module, s.level, s.module)
        for al in s.names:
            if base in self.p.modules:
                oid = self.modns(base)
                if al.name == '*':
                    for k, v in list(self.heap[oid].f.items()):
                        if isinstance(k, str) and not k.startswith('_'):
                            self.bind_name(k, v, st)
                    continue
                v = self.read(oid, al.name)
                if v == BOT:
                    sub = base + '.' + al.name
                    if sub in self.p.modules:
                        self.modns(sub)
                        v = V(('mod', sub))
                    else:
                        # circular import: resolved lazily
                        v = V(('lazy', base, al.name))
                        self.lazy_imports.append((base, al.name, self.cur.module.rel, s.lineno))
                self.bind_name(al.asname or al.name, v, st)
            else:
                self.bind_name(al.asname or al.name, V(self.lib.ext_symbol(base, al.name)), st)
        return st


    def s_Global(self, s, st):
        return st

    def s_Nonlocal(self, s, st):
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                i = self.ev(t.slice, st)
                if b == BOT or i == BOT:
                    return None
                self.lib.mutate(b, 'delitem', t, st)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.lib.mutate(b, 'delattr', t, st)
        return st

    # ------------------------------------------------------------ binding
    def bind_name(self, name, v, st):
        a = self.cur
        for k in [k for k in st.env if k.startswith(name + '.')]:
            del st.env[k]
        if st.pc:
            v = taint(v, self.control(v, st.pc))
        if self.clsbody and self.cur_in_class_body():
            self.store_field(self.clsbody[-1], name, v)
            st.env[name] = v
            return
        if a.fi is None:
            self.store_field(self.modenv[a.module.name], name, v)
            return
        if name in a.fi.globals:
            oid = self.modns(a.module.name)
            self.global_mutated.add((a.module.name, name))
            self.note('global_store', a.fi.node, key=(a.module.name, name))
            self.store_field(oid, name, v)
            st.must = st.must | {('g', a.module.name, name)}
            return
        if name in a.fi.nonlocals:
            fr = self.find_cell(name)
            if fr is not None:
                self.store_field(fr, name, v)
            return
        st.env[name] = v
        if name in a.fi.captured or self.comp_captured(name):
            self.store_field(self.frame_oid(), name, v)

    def cur_in_class_body(self):
        # class bodies are executed in the activation that defines them
        return self._cb_depth == 0

    _cb_depth = 0

    def comp_captured(self, name):
        return name in self.cap_by_comp.get(self.cur.fi.fid, ())


    def find_cell(self, name):
        a = self.cur
        fr = a.s.frame if a.s is not None else None
        while fr is not None:
            o = self.heap.get(fr)
            if o is None:
                return None
            if name in o.f:
                return fr
            p = o.f.get('$parent')
            fr = next(iter(p[0]))[1] if p else None
        return None

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, st)
            return True
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st)
        if isinstance(t, ast.Starred):
            l = self.alloc(t, 'list', 'star')
            self.store_field(l[1], '$elem', self.elem(v))
            return self.assign(t.value, V(l, t=v[1]), st)
        if isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            if b == BOT:
                return False
            for k in [k for k in st.env if k.endswith('.' + t.attr)]:
                del st.env[k]
            return self.lib.store_attr(b, t.attr, v, t, st)
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            if b == BOT:
                return False
            i = self.ev(t.slice, st) if not isinstance(t.slice, ast.Slice) else V(('slice',))
            if isinstance(t.slice, ast.Slice):
                for x in (t.slice.lower, t.slice.upper, t.slice.step):
                    if x is not None:
                        self.ev(x, st)
            if i == BOT:
                return False
            return self.lib.store_item(b, i, v, t, st, isinstance(t.slice, ast.Slice))
        raise Unsupported('assignment target')

    def unpack(self, t, v, st):
        n = len(t.elts)
        starred = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        vals = [BOT] * n
        for a in v[0]:
            if a[0] == 'o':
                o = self.obj(a)
                if o.n is not None and o.kind in ('tuple', 'list', 'ndarray', 'iter'):
                    if not starred:
                        if o.n != n:
                            self.note('unpack', t, key=(o.n, n))
                            continue
                        for i in range(n):
                            vals[i] = join(vals[i], self.load_from(a, v[1], i))
                        continue
            e = self.elem_atom(a, v[1])
            nd = self.lib.nd_order((frozenset([a]), v[1]))
            if nd:
                e = taint(e, frozenset([('ORD', self.site(t, 'unpack'), 'unpack')]))
            for i in range(n):
                vals[i] = join(vals[i], e)
        if self.final and vals:
            k = (self.cur.module.rel, t.lineno, t.col_offset, t.end_lineno, t.end_col_offset)
            (self.dead if BOT in vals else self.live).setdefault(k, set()).add(self.cur.s.key if self.cur.s else None)
        for i, e in enumerate(t.elts):
            if vals[i] == BOT:
                return False
            if not self.assign(e, vals[i], st):
                return False
        return True

    # ------------------------------------------------------------ truth and refinement
    def truth(self, v):
        ct = cf = False
        for a in v[0]:
            k = a[0]
            if k == 'none':
                cf = True
            elif k == 'n':
                if a[2] is not None and a[2][0] == 'c':
                    if a[2][1]:
                        ct = True
                    else:
                        cf = True
                elif a[1] in ('inf', 'nan'):
                    ct = True
                else:
                    ct = cf = True
            elif k == 's':
                if a[1] is not None and a[1][0] == 'c':
                    if a[1][1]:
                        ct = True
                    else:
                        cf = True
                elif a[1] is not None:
                    ct = True
                else:
                    ct = cf = True
            elif k == 'o':
                o = self.obj(a)
                if o.kind == 'inst':
                    if self.class_lookup(o.cls, '__bool__') is not None or self.class_lookup(o.cls, '__len__') is not None or self.ext_base(o.cls):
                        ct = cf = True
                    else:
                        ct = True
                elif o.n is not None:
                    if o.n:
                        ct = True
                    else:
                        cf = True
                elif o.kind in ('gen', 'rng', 'ns', 'frame', 'classobj', 'argparser'):
                    ct = True
                else:
                    ct = cf = True
            elif k in ('f', 'm', 'c', 'mod', 'e', 'k', 'em'):
                ct = True
            else:
                ct = cf = True
        return ct, cf

    def refine(self, test, st, want):
        """Narrow local names by the outcome of a test."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, st, not want)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And) == want
            if conj:
                for v in test.values:
                    st = self.refine(v, st, want)
                    if st is None:
                        return None
                return st
            out = None
            cur = st
            for v in test.values:
                if cur is None:
                    break
                c = cur.copy()
                saved = self.st
                self.st = c
                val = self.ev_quiet(v, c)
                self.st = saved
                ct, cf = self.truth(val)
                ok = (ct if want else cf)
                nxt = (cf if want else ct)
                if ok:
                    out = join_states(out, self.refine(v, c.copy(), want))
                cur = self.refine(v, c, not want) if nxt else None
            return out
        if isinstance(test, ast.NamedExpr):
            return self.refine(test.target, st, want)
        if isinstance(test, ast.Attribute) and self.narrowable(test, st):
            test = ast.copy_location(ast.Name(id='%s.%s' % (test.value.id, test.attr)), test)
        if isinstance(test, ast.Name):
            v = st.env.get(test.id)
            if v is None:
                return st
            keep = frozenset(a for a in v[0] if self.truth((frozenset([a]), EMPTY))[0 if want else 1])
            if not keep:
                return None
            st.env[test.id] = (keep, v[1])
            return st
        pat = self.lib.filter_pattern(self, test, st)
        if pat is not None:
            name, pred = pat
            v = st.env.get(name)
            if v is None:
                return st
            keep = set()
            for a in v[0]:
                r = pred(a)
                if r is None or r == want:
                    keep.add(a)
            if not keep:
                return None
            st.env[name] = (frozenset(keep), v[1])
        return st

    def narrowable(self, e, st):
        """Field of a plain namespace held by a local: its narrowed value is kept in the state."""
        if not isinstance(e.value, ast.Name):
            return False
        b = st.env.get(e.value.id)
        if b is None or len(b[0]) != 1:
            return False
        a = next(iter(b[0]))
        if a[0] != 'o' or self.heap[a[1]].kind != 'ns':
            return False
        k = '%s.%s' % (e.value.id, e.attr)
        if k not in st.env:
            st.env[k] = self.ev_quiet(e, st)
        return True

    def ev_quiet(self, node, st):
        fin = self.final
        self.final = False
        try:
            return self.ev(node, st)
        finally:
            self.final = fin

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = self._disp.get(type(n))
        if m is None:
            m = getattr(self, 'e_' + type(n).__name__, None)
            if m is None:
                raise Unsupported('expression %s at %s:%d' % (type(n).__name__, self.cur.module.rel, n.lineno))
            m = m.__func__
            self._disp[type(n)] = m
        r = m(self, n, st)
        if self.final and isinstance(n, DEADLY):
            k = (self.cur.module.rel, n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)
            (self.dead if r == BOT else self.live).setdefault(k, set()).add(self.cur.s.key if self.cur.s else None)
        return r

    def e_Constant(self, n, st):
        return V(const_atom(n.value))

    def e_Name(self, n, st):
        name = n.id
        a = self.cur
        fi = a.fi
        v = st.env.get(name)
        if v is not None and not (fi is not None and name in fi.globals):
            if UB in v[0]:
                self.note('maybe_unbound', n, key=name, name=name)
                v = (v[0] - {UB}, v[1])
            if fi is not None and name in fi.captured and self.nonlocal_written(fi, name):
                v = join(v, self.read(self.frame_oid(), name))
            return v
        if fi is not None and name in fi.locals and not fi.is_comp and name not in fi.globals:
            # a local that is not bound on this path
            self.note('unbound', n, key=name, name=name)
            return BOT
        if fi is not None and name not in fi.globals:
            fr = self.find_cell(name)
            if fr is not None:
                v = self.read(fr, name)
                return v
        # module global
        oid = self.modns(a.module.name)
        o = self.heap[oid]
        if a.s is not None:
            self.reads(o, name)
        if name in o.f:
            v = o.f[name]
            for x in v[0]:
                if x[0] == 'lazy':
                    return self.resolve_lazy(x)
            if (a.module.name, name) in self.global_mutated and fi is not None:
                if ('g', a.module.name, name) not in st.must:
                    v = taint(v, frozenset([('HIST', a.module.name + '.' + name)]))
            if fi is not None:
                v = (frozenset(('o', x[1], 0) if x[0] == 'o' and x[2] else x for x in v[0]), v[1])
            return v
        b = self.lib.builtin(name)
        if b is not None:
            return b
        self.note('undefined', n, key=name, name=name)
        return BOT

    def nonlocal_written(self, fi, name):
        return name in self.nonlocal_names


    def resolve_lazy(self, x):
        oid = self.modns(x[1])
        v = self.read(oid, x[2])
        if v == BOT and x[1] + '.' + x[2] in self.p.modules:
            self.modns(x[1] + '.' + x[2])
            return V(('mod', x[1] + '.' + x[2]))
        return v

    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        if b == BOT:
            return BOT
        r = self.lib.attr(b, n.attr, n, st)
        if isinstance(n.value, ast.Name):
            k = st.env.get('%s.%s' % (n.value.id, n.attr))
            if k is not None:
                r = (frozenset(x for x in r[0] if x in k[0]), r[1])
        return r

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        if b == BOT:
            return BOT
        if isinstance(n.slice, ast.Slice):
            parts = []
            for x in (n.slice.lower, n.slice.upper, n.slice.step):
                if x is not None:
                    v = self.ev(x, st)
                    if v == BOT:
                        return BOT
                    parts.append(v)
                else:
                    parts.append(None)
            return self.lib.slice(b, parts, n, st)
        i = self.ev(n.slice, st)
        if i == BOT:
            return BOT
        return self.lib.getitem(b, i, n, st)

    def e_Slice(self, n, st):
        for x in (n.lower, n.upper, n.step):
            if x is not None:
                self.ev(x, st)
        return V(('slice',))

    def e_Tuple(self, n, st):
        return self.seq(n, st, 'tuple')

    def e_List(self, n, st):
        return self.seq(n, st, 'list')

    def seq(self, n, st, kind):
        vals = []
        t = EMPTY
        fixed = True
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                if v == BOT:
                    return BOT
                pos = self.positional(v)
                t |= v[1]
                if pos is not None:
                    vals.extend(pos)
                else:
                    fixed = False
                    x = self.elem(v)
                    if x != BOT:
                        vals.append(x)
                continue
            v = self.ev(e, st)
            if v == BOT:
                return BOT
            vals.append(v)
            t |= v[1]
        if fixed and len(vals) <= 16:
            o = self.alloc(n, kind, n=len(vals))
            if self.heap[o[1]].n is not None:
                for i, v in enumerate(vals):
                    self.store_field(o[1], i, v)
            else:
                for v in vals:
                    self.store_field(o[1], '$elem', v)
        else:
            o = self.alloc(n, kind)
            for v in vals:
                self.store_field(o[1], '$elem', v)
        return V(o, t=t)

    def e_Set(self, n, st):
        o = self.alloc(n, 'set')
        t = EMPTY
        for e in n.elts:
            v = self.ev(e, st)
            if v == BOT:
                return BOT
            t |= v[1]
            self.store_field(o[1], '$elem', v)
        return V(o, t=t)

    def e_Dict(self, n, st):
        o = self.alloc(n, 'dict')
        t = EMPTY
        for k, v in zip(n.keys, n.values):
            vv = self.ev(v, st)
            if vv == BOT:
                return BOT
            t |= vv[1]
            if k is None:
                self.lib.dict_merge(o, vv)
                continue
            kv = self.ev(k, st)
            if kv == BOT:
                return BOT
            t |= kv[1]
            self.lib.dict_put(o, kv, vv)
        return V(o, t=t)

    def e_JoinedStr(self, n, st):
        t = EMPTY
        vals = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, st)
                if x == BOT:
                    return BOT
                self.lib.stringify(x, v)
                t |= x[1]
                vals.append(x)
        if len(vals) == 1 and vals[0][0] and all(a[0] in ('s', 'path') for a in vals[0][0]):
            if len(n.values) == 1:
                return (frozenset(('s', a[1]) for a in vals[0][0]), t)
            return (frozenset(('s', self.lib.mixed(a, a)) for a in vals[0][0]), t)
        return V(('s', None), t=t)

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_Lambda(self, n, st):
        fi = self.p.funcs[id(n)]
        return self.make_func(fi, n, st)

    def e_IfExp(self, n, st):
        c = self.ev(n.test, st)
        if c == BOT:
            return BOT
        self.note_branch(n, c)
        ct, cf = self.truth(c)
        r = BOT
        pct = frozenset(x for x in c[1] if x[0] in ('ORD', 'HIST', 'EL', 'ELV', 'ELK', 'LC', 'FR'))
        if ct:
            s2 = self.refine(n.test, st.copy(), True)
            if s2 is not None:
                self.st = s2
                r = join(r, self.ev(n.body, s2))
        if cf:
            s2 = self.refine(n.test, st.copy(), False)
            if s2 is not None:
                self.st = s2
                r = join(r, self.ev(n.orelse, s2))
        self.st = st
        return taint(r, pct)

    def e_BoolOp(self, n, st):
        r = BOT
        cur = st.copy()
        isand = isinstance(n.op, ast.And)
        t = EMPTY
        for i, e in enumerate(n.values):
            self.st = cur
            v = self.ev(e, cur)
            if v == BOT:
                break
            t |= v[1]
            if i == len(n.values) - 1:
                r = join(r, v)
                break
            ct, cf = self.truth(v)
            stop = cf if isand else ct
            go = ct if isand else cf
            if stop:
                r = join(r, (frozenset(a for a in v[0] if self.truth((frozenset([a]), EMPTY))[1 if isand else 0]), v[1]))
                # constants of undecided booleans
            if not go:
                break
            cur = self.refine(e, cur, isand)
            if cur is None:
                break
        st.must = st.must
        self.st = st
        return taint(r, t)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if v == BOT:
            return BOT
        if isinstance(n.op, ast.Not):
            ct, cf = self.truth(v)
            out = set()
            if ct:
                out.add(('n', 'bool', ('c', False)))
            if cf:
                out.add(('n', 'bool', ('c', True)))
            return (frozenset(out), v[1])
        return self.lib.unop(type(n.op).__name__, v, n)

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        if a == BOT:
            return BOT
        b = self.ev(n.right, st)
        if b == BOT:
            return BOT
        return self.lib.binop(type(n.op).__name__, a, b, n)

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        if left == BOT:
            return BOT
        r = BOT
        t = EMPTY
        out_t, out_f = False, False
        alltrue = True
        arr = False
        vs = [left]
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, st)
            if right == BOT:
                return BOT
            v = self.lib.compare(type(op).__name__, left, right, n)
            if v == BOT:
                return BOT
            r = v if r == BOT else join(r, v)
            vs.append(right)
            if len(n.ops) > 1:
                ct, cf = self.truth(v)
                if cf:
                    out_f = True
                if not ct:
                    alltrue = False
            t |= v[1]
            left = right
        if len(n.ops) == 1:
            return r
        if any(a[0] == 'o' for a in r[0]):
            return r
        o = set()
        if alltrue:
            o.add(('n', 'bool', ('c', True)))
        if out_f:
            o.add(('n', 'bool', ('c', False)))
        return (frozenset(o), t)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        if v == BOT:
            return BOT
        self.bind_name(n.target.id, v, st)
        return v

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Await(self, n, st):
        raise Unsupported('await')

    def e_Yield(self, n, st):
        v = VNONE if n.value is None else self.ev(n.value, st)
        if v == BOT:
            return BOT
        self.do_yield(v, n)
        return V(NONE)

    def do_yield(self, v, n):
        if self.cur.ndloops:
            lids = {l[0] for l in self.cur.ndloops}
            if any(is_loop_taint(x) and x[1] in lids for x in v[1]):
                key = self.cur.s.key
                old = self.gen_nd.get(key, EMPTY)
                new = old | {('NDO', l) for l in lids}
                if new != old:
                    self.gen_nd[key] = new
                    for c in self.cur.s.callers:
                        self.enqueue(c)
            v = strip(v, lambda x: is_loop_taint(x) and x[1] in lids)
        self.cur.yields = join(self.cur.yields, v)

    def e_YieldFrom(self, n, st):
        v = self.ev(n.value, st)
        if v == BOT:
            return BOT
        e = self.elem(v)
        nd = self.lib.nd_order(v)
        if nd and self.cur.s is not None:
            key = self.cur.s.key
            old = self.gen_nd.get(key, EMPTY)
            new = old | frozenset([('NDO', self.site(n, 'yf'))])
            if new != old:
                self.gen_nd[key] = new
                for c in self.cur.s.callers:
                    self.enqueue(c)
        if e != BOT:
            self.do_yield(taint(e, v[1]), n)
        return V(NONE)

    # comprehensions -------------------------------------------------------
    def comp_env(self, n, gens, st, emit, depth=0, nds=None):
        """Evaluate generators; emit(st) at the innermost level."""
        if depth == len(gens):
            emit(st)
            return
        g = gens[depth]
        it = self.ev(g.iter, st)
        if it == BOT:
            return
        nds['t'] |= it[1]
        pos = self.positional(it)
        if pos is not None:
            nds['pos'] = nds['pos'] and not g.ifs
            items = pos
        else:
            nds['pos'] = False
            e = self.elem(it)
            nd = self.lib.nd_order(it)
            if nd:
                lid = self.site(g.iter, 'comp')
                nds['nd'] |= frozenset([lid])
                self.note('ndcomp', n, why=nd)
                e = self.lib.nd_elem(it, e, lid)
            items = [e]
        pushed = pos is None and bool(nd)
        if pushed:
            self.cur.ndloops.append((lid, len(self.cur.loops), (self.cur.module.name, n.lineno, n.end_lineno)))
        for v in items:
            if v == BOT:
                if pos is not None:
                    nds['dead'] = True
                continue
            s2 = st.copy()
            self.st = s2
            if not self.assign(g.target, v, s2):
                continue
            dead = False
            for c in g.ifs:
                cv = self.ev(c, s2)
                if cv == BOT:
                    dead = True
                    break
                self.note_branch(c, cv)
                nds['ct'] |= cv[1]
                ct, cf = self.truth(cv)
                if not ct:
                    dead = True
                    break
                s2 = self.refine(c, s2, True)
                if s2 is None:
                    dead = True
                    break
            if dead:
                continue
            self.st = s2
            self.comp_env(n, gens, s2, emit, depth + 1, nds)
        if pushed:
            self.cur.ndloops.pop()

    def comp_run(self, n, st, elts, fn):
        nds = {'nd': EMPTY, 't': EMPTY, 'pos': True, 'ct': EMPTY, 'dead': False}
        self._cb_depth += 1
        bad = [False]

        def emit(s2):
            vals = []
            for e in elts:
                v = self.ev(e, s2)
                if v == BOT:
                    bad[0] = True
                    return
                vals.append(v)
            fn(vals)
        self.comp_env(n, n.generators, st.copy(), emit, 0, nds)
        self._cb_depth -= 1
        self.st = st
        return nds, bad[0] or nds['dead']

    def e_ListComp(self, n, st, kind='list'):
        vals = []
        nds, bad = self.comp_run(n, st, [n.elt], lambda v: vals.append(v[0]))
        if bad and nds['pos']:
            return BOT
        t = nds['t'] | nds['ct']
        for v in vals:
            t |= v[1]
        if nds['pos'] and len(vals) <= 16 and not nds['nd']:
            o = self.alloc(n, kind, n=len(vals))
            if self.heap[o[1]].n is not None:
                for i, v in enumerate(vals):
                    self.store_field(o[1], i, v)
            else:
                for v in vals:
                    self.store_field(o[1], '$elem', v)
        else:
            o = self.alloc(n, kind)
            for v in vals:
                self.store_field(o[1], '$elem', v)
        return self.comp_result(o, nds, t)

    def comp_result(self, o, nds, t):
        if nds['nd']:
            self.store_field(o[1], '$nd', (frozenset([BOOL]), frozenset(('NDO', l) for l in nds['nd'])))
            t = frozenset(x for x in t if not (is_loop_taint(x) and x[1] in nds['nd']))
        return V(o, t=t)

    def e_GeneratorExp(self, n, st):
        return self.e_ListComp(n, st, 'iter')

    def e_SetComp(self, n, st):
        vals = []
        nds, bad = self.comp_run(n, st, [n.elt], lambda v: vals.append(v[0]))
        o = self.alloc(n, 'set')
        t = nds['t'] | nds['ct']
        for v in vals:
            t |= v[1]
            self.store_field(o[1], '$elem', v)
        return self.comp_result(o, nds, t)

    def e_DictComp(self, n, st):
        vals = []
        nds, bad = self.comp_run(n, st, [n.key, n.value], lambda v: vals.append(v))
        o = self.alloc(n, 'dict')
        t = nds['t'] | nds['ct']
        for k, v in vals:
            t |= k[1] | v[1]
            self.lib.dict_put(o, k, v)
        return self.comp_result(o, nds, t)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st):
        self.st = st
        f = self.ev(n.func, st)
        if f == BOT:
            return BOT
        args = []
        star = dstar = None
        kwargs = {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if v == BOT:
                    return BOT
                pos = self.positional(v)
                if pos is not None and star is None:
                    args.extend(pos)
                else:
                    e = self.elem(v)
                    star = e if star is None else join(star, e)
            else:
                v = self.ev(a, st)
                if v == BOT:
                    return BOT
                if star is not None:
                    star = join(star, v)
                else:
                    args.append(v)
        for k in n.keywords:
            v = self.ev(k.value, st)
            if v == BOT:
                return BOT
            if k.arg is None:
                known = self.lib.const_keys(v)
                if known is not None:
                    kwargs.update(known)
                else:
                    dstar = self.lib.dict_vals(v)
            else:
                kwargs[k.arg] = v
        if star is not None and star == BOT:
            star = None
        self.st = st
        self.curnode = n
        r = self.call_value(f, args, kwargs, n, star, dstar)
        self.st = st
        return r
