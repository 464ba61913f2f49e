"""Engine B: attributes, calls, inlining, object construction."""
import ast
from . import terms as t
from .terms import T, F, NONE, Ite, Rat, Giveup, top, apply, gif, gnot, gand, gor, rc, ra
from .gvg import Env, Inst, St, seq, piece
from .coll import Coll
from .expr import special


class Calls(Coll):
    cur_fi = None

    def __init__(self, *a, **k):
        Coll.__init__(self, *a, **k)
        self.entered = set()

    # ------------------------------------------------------------ classes
    def bases(self, cid):
        """Base classes, as cids or dotted external names."""
        ci = self.p.class_by_cid[cid]
        res = []
        for b in ci.node.bases:
            v = self.classref(ci, b)
            if v is not None:
                res.append(v)
        return res

    def classref(self, ci, b):
        old, self.cur_fi = self.cur_fi, _ClsFi(ci)
        try:
            z = St({('mod',): Env(fi=None)}, ('mod',), {})
            v = self.ev(b, z)
        except Giveup:
            v = None
        finally:
            self.cur_fi = old
        if isinstance(v, tuple) and v[0] in ('cls', 'ext'):
            return v[1]
        return None

    def mro(self, cid):
        res = [cid]
        for b in self.bases(cid):
            if b in self.p.class_by_cid:
                res += [x for x in self.mro(b) if x not in res]
        return res

    def is_record(self, cid):
        return any('PRecord' in str(b) for c in self.mro(cid) for b in self.bases(c))

    def members(self, cid):
        """name -> node of the class body (functions and assignments)."""
        if not hasattr(self, '_mem'):
            self._mem = {}
        if cid not in self._mem:
            d = {}
            for c in reversed(self.mro(cid)):
                ci = self.p.class_by_cid[c]
                for s in ci.node.body:
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        d[s.name] = (c, s)
                    elif isinstance(s, ast.Assign):
                        for tg in s.targets:
                            if isinstance(tg, ast.Name):
                                d[tg.id] = (c, s)
                    elif isinstance(s, ast.AnnAssign) and s.value is not None:
                        d[s.target.id] = (c, s)
            self._mem[cid] = d
        return self._mem[cid]

    def method(self, cid, name):
        m = self.members(cid).get(name)
        if m and isinstance(m[1], ast.FunctionDef):
            return self.fm[id(m[1])]
        return None

    def decos(self, fi):
        return [d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else
                (d.func.id if isinstance(d.func, ast.Name) else getattr(d.func, 'attr', '?')) if isinstance(d, ast.Call) else '?'
                for d in fi.decorators]

    def clsattr(self, cid, name, recv, st):
        """Class member seen through an instance (recv) or the class (recv None)."""
        m = self.members(cid).get(name)
        if m is None:
            return None
        c, s = m
        if isinstance(s, ast.FunctionDef):
            fi = self.fm[id(s)]
            ds = self.decos(fi)
            if 'staticmethod' in ds:
                return ('fn', fi.fid, None)
            if 'classmethod' in ds:
                return ('bm', fi.fid, ('cls', cid))
            if 'property' in ds or 'cached_property' in ds:
                if recv is None:
                    return top('property')
                return self.inline(fi, [recv], {}, st, None)
            if recv is None:
                return ('fn', fi.fid, None)
            return ('bm', fi.fid, recv)
        if isinstance(s, ast.ClassDef):
            return ('cls', self.p.classes[id(s)].cid)
        old, self.cur_fi = self.cur_fi, _ClsFi(self.p.class_by_cid[c])
        try:
            z = St({('mod',): Env(fi=None)}, ('mod',), {})
            v = self.ev(s.value, z)
            return v if not (isinstance(v, tuple) and v[0] == 'ref') else ('sym', ('clsattr', c, name), 'any')
        finally:
            self.cur_fi = old

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, n, st):
        o = self.ev(n.value, st)
        return self.getattr(o, n.attr, st)

    def getattr(self, o, name, st):
        o = self.simp(o, st)
        ls = set(t.leaves(o))
        if len(ls) > 1 and all(isinstance(x, tuple) and x[0] in ('lst', 'geo', 'tup', 'arr', 'map') or isinstance(x, Rat) for x in ls):
            return ('meth', name, o)
        return self.simp(apply(lambda x: self.getattr1(x, name, st), o), st)

    def getattr1(self, x, name, st):
        if t.is_top(x):
            return top('attribute of ' + str(x[1]))
        if isinstance(x, Rat):
            at = self.rat_attr(x, name)
            return at if at is not None else ('meth', name, x)
        k = x[0]
        if k == 'ref':
            c = st.heap.get(x[1])
            if isinstance(c, Inst):
                if name == '__class__':
                    return ('cls', c.cid)
                if name in c:
                    return c[name]
                v = self.clsattr(c.cid, name, x, st)
                if v is not None:
                    return v
                return top('attribute ' + name)
            return ('meth', name, x)
        if k == 'rec':
            d = dict(x[2])
            if name in d:
                return d[name]
            if name == '__class__':
                return ('cls', x[1])
            v = self.clsattr(x[1], name, x, st)
            if v is not None and not (isinstance(v, tuple) and v[0] in ('ext', 'app')):
                return v
            if name in ('set', 'transform', 'get', 'update', 'remove', 'items', 'keys', 'values'):
                return ('meth', name, x)
            return top('field ' + name)
        if k == 'sym' and isinstance(x[2], tuple) and x[2][0] == 'obj':
            cid = x[2][1]
            fs = self.types.get(cid, {})
            if name in fs:
                return self.sym(fs[name], ('attr', x[1], name))
            if name == '__class__':
                return ('cls', cid) if cid in self.p.class_by_cid else ('app', 'attr', x, ('c', name))
            if cid in self.p.class_by_cid:
                v = self.clsattr(cid, name, x, st)
                if v is not None:
                    return v
                return ('meth', name, x)
            return ('meth', name, x)
        if k == 'cls':
            v = self.clsattr(x[1], name, None, st)
            if v is not None:
                return v
            return ('ext', 'class.' + name) if name != '__name__' else ('c', x[1])
        if k == 'mod':
            return self.modattr(x[1], name)
        if k == 'ext':
            if special(x[1] + '.' + name):
                return special(x[1] + '.' + name)
            return ('ext', x[1] + '.' + name)
        if k == 'geo' and name == '__class__':
            return ('ext', 'geoclass%d' % x[1])
        if k == 'arr':
            if name == 'T' and x[1] and all(isinstance(y, tuple) and y[0] == 'arr' for y in x[1]):
                return ('arr', tuple(('arr', z) for z in zip(*[y[1] for y in x[1]])))
            if name == 'shape':
                sh, y = [], x
                while isinstance(y, tuple) and y[0] == 'arr':
                    sh.append(rc(len(y[1])))
                    y = y[1][0] if y[1] else None
                return ('tup', tuple(sh))
            if name == 'size':
                return rc(len(x[1]))
        if k == 'sym' and not t.has_top(x) and x[2] == 'any':
            return ('meth', name, x)
        if k == 'super':
            return self.superattr(x, name, st)
        return ('meth', name, x)

    def rat_attr(self, x, name):
        return None

    def superattr(self, x, name, st):
        _, cid, recv = x
        for b in self.bases(cid):
            if b in self.p.class_by_cid:
                v = self.clsattr(b, name, recv, st)
                if v is not None:
                    return v
        return ('ext', 'object.' + name)

    def modattr(self, mod, name):
        m = self.p.modules[mod]
        if any(self.binds(x, name) for x in m.tree.body):
            return self.glob(m, name)
        if mod + '.' + name in self.p.modules:
            return ('mod', mod + '.' + name)
        return top('module attribute')

    def dunder(self, name, v, args, st):
        """Operator method of an instance; None if the value has none."""
        ls = list(t.leaves(v))

        def find(x):
            if not isinstance(x, tuple):
                return None
            cid = None
            if x[0] == 'rec':
                cid = x[1]
            elif x[0] == 'ref' and isinstance(st.heap.get(x[1]), Inst):
                cid = st.heap[x[1]].cid
            elif x[0] == 'sym' and isinstance(x[2], tuple) and x[2][0] == 'obj':
                cid = x[2][1]
            if cid not in self.p.class_by_cid:
                return None
            return self.method(cid, name)
        fis = [find(x) for x in ls]
        if not fis or any(f is None for f in fis):
            return None
        if len(fis) == 1:
            return self.call(('bm', fis[0].fid, ls[0]), args, {}, st)
        if isinstance(v, Ite):
            return self.choose(Ite(v.atom, T, F), st, lambda z: self.dunder(name, v.a, args, z),
                               lambda z: self.dunder(name, v.b, args, z))
        return None

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            fi = self.cur_fi
            while fi is not None and fi.cls is None:
                fi = fi.parent
            if fi is None:
                return top('super')
            me = self.lookup(fi.node.args.args[0].arg, st)
            return ('super', self.p.classes[id(fi.cls)].cid if not hasattr(fi.cls, 'cid') else fi.cls.cid, me)
        f = self.ev(n.func, st)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                ps = self.pieces(v, st)
                if ps is None or any(p[1] != T or p[2] for p in ps):
                    args.append(('star', v if ps is None else seq(ps)))
                else:
                    args += [p[3] for p in ps]
            else:
                args.append(self.ev(a, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                c = self.content(v, st)
                if isinstance(c, tuple) and c[0] == 'map' and c[1] == ('empty',) and \
                        all(s[0] != 'bulk' and s[2] == T and s[0][0] == 'c' for s in c[2]):
                    for s in c[2]:
                        kw[s[0][1]] = s[1]
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        self.site = n
        return self.call(f, args, kw, st)

    def call(self, f, args, kw, st):
        f = self.simp(f, st)
        if isinstance(f, Ite):
            return self.choose(Ite(f.atom, T, F), st, lambda z: self.call(f.a, args, kw, z),
                               lambda z: self.call(f.b, args, kw, z))
        if t.is_top(f) or not isinstance(f, tuple):
            return self.unknown_call(f, args, kw, st)
        k = f[0]
        if k in ('fn', 'bm'):
            fi = self.p.func_by_fid[f[1]]
            a = list(args)
            if k == 'bm':
                a = [f[2]] + a
            h = self.prims.get(fi.fid)
            if h is not None:
                r = h(self, a, kw, st)
                if r is not NotImplemented:
                    return r
            return self.inline(fi, a, kw, st, f[2] if k == 'fn' else None)
        if k == 'cls':
            h = self.prims.get(f[1])
            if h is not None:
                r = h(self, list(args), kw, st)
                if r is not NotImplemented:
                    return r
            return self.construct(f[1], list(args), kw, st)
        if k == 'ext':
            h = self.prims.get(f[1])
            if h is not None:
                r = h(self, list(args), kw, st)
                if r is not NotImplemented:
                    return r
            return self.ext(f[1], list(args), kw, st)
        if k == 'meth':
            h = self.prims.get('.' + f[1])
            if h is not None:
                r = h(self, [f[2]] + list(args), kw, st)
                if r is not NotImplemented:
                    return r
            return self.meth(f[1], f[2], list(args), kw, st)
        if k == 'part':
            return self.call(f[1], list(f[2]) + list(args), {**dict(f[3]), **kw}, st)
        if k == 'vect':
            return self.vectorized(f[1], list(args), kw, st)
        if k == 'app' and f[1] == 'decorated':
            return self.call(f[2], args, kw, st)
        if k == 'ref' or k == 'sym' and isinstance(f[2], tuple) and f[2][0] == 'obj':
            r = self.dunder('__call__', f, args, st)
            if r is not None:
                return r
        return self.unknown_call(f, args, kw, st)

    def unknown_call(self, f, args, kw, st):
        self.escape(args, kw, st)
        if f[0] == 'sym' and not any(t.has_top(a) for a in args) and not any(t.has_top(a) for a in kw.values()) \
                and not any(x[0] == 'ref' for a in args for x in t.leaves(a) if isinstance(x, tuple)):
            return ('app', 'call', f) + tuple(args) + tuple(('kw', a, b) for a, b in sorted(kw.items()))
        return top('call of an unknown function')

    def escape(self, args, kw, st):
        """Mutable arguments of unknown code may be changed."""
        for a in list(args) + list(kw.values()):
            self.havoc(a, st)

    def inline(self, fi, args, kw, st, frame):
        if fi.fid in self.stack and self.stack.count(fi.fid) >= self.recursion(fi) or len(self.stack) > self.MAXDEPTH:
            self.escape(args, kw, st)
            return top('recursion')
        env = self.bind(fi, args, kw, st, frame)
        if env is None:
            st.pend = T
            return top('arguments')
        fr = self.fresh('f')
        old, oldfr, oldpath = self.cur_fi, st.frame, st.path
        self.stack.append(fi.fid)
        self.entered.add(fi.fid)
        z = St(dict(st.heap), fr, dict(st.path), F)
        e = Env(env, frame, fi)
        z.heap[fr] = e
        if fi.is_gen:
            y = self.fresh()
            z.heap[y] = ('lst', ())
            e['$yield'] = ('ref', y)
        self.cur_fi = fi
        pathmark = dict(z.path)
        try:
            out = self.block(fi.body, z)
        finally:
            self.stack.pop()
            self.cur_fi = old
        m = self.merge_out(out, ('norm', 'ret'))
        bad = self.simp(self.cond_of(out, ('raise',)), st)
        if m is None:
            st.pend = T
            return top('raises')
        v = self.value(out)
        if fi.is_gen:
            v = seq(self.flat(m.heap[y]) or ()) if self.flat(m.heap[y]) is not None else top('generator')
        h = dict(m.heap)
        if not self.keepframe(fr, fi, v, h):
            h.pop(fr, None)
        st.heap, st.frame, st.path = h, oldfr, oldpath
        if m.pend != F:
            bad = gor(bad, m.pend)
        if bad != F:
            st.pend = gor(st.pend, bad)
        return self.simp(v, st)

    def recursion(self, fi):
        return 1

    def keepframe(self, fr, fi, v, h):
        return bool(fi.captured)

    def value(self, out):
        """Gated return value of an outcome (raising parts do not matter)."""
        if isinstance(out, Ite):
            a, b = self.value(out.a), self.value(out.b)
            if a is None:
                return b
            if b is None:
                return a
            return t.ite2(out.atom, a, b)
        if out[0] == 'ret':
            return out[2]
        if out[0] == 'norm':
            return NONE
        return None

    def bind(self, fi, args, kw, st, frame):
        a = fi.args
        env = {}
        pos = a.posonlyargs + a.args
        if any(isinstance(x, tuple) and x[:1] == ('star',) for x in args) or '**' in kw:
            if a.vararg is not None and len(pos) <= len(args) and not kw:
                pass
            else:
                raise Giveup('star arguments')
        for i, p in enumerate(pos):
            if i < len(args):
                if p.arg in kw:
                    return None
                env[p.arg] = args[i]
        rest = args[len(pos):]
        if a.vararg is not None:
            if any(isinstance(x, tuple) and x[:1] == ('star',) for x in rest):
                env[a.vararg.arg] = seq([q for x in rest for q in
                                         ((self.pieces(x[1], st) or _giveup()) if x[0] == 'star' else [piece(x)])])
            else:
                env[a.vararg.arg] = ('tup', tuple(rest))
        elif rest:
            return None
        names = {p.arg for p in pos} | {p.arg for p in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in names:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            m = ('map', ('empty',), ())
            for k, v in sorted(extra.items()):
                m = self.store(m, ('c', k), v)
            env[a.kwarg.arg] = self.new(st, m)
        elif extra:
            return None
        ds = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults))
        ds.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in pos + a.kwonlyargs:
            if p.arg not in env:
                if p.arg not in ds:
                    return None
                old, self.cur_fi = self.cur_fi, fi.parent if fi.parent is not None else _ModFi(fi.module)
                of = st.frame
                try:
                    if frame is not None:
                        st.frame = frame
                        env[p.arg] = self.ev(ds[p.arg], st)
                    else:
                        z = St({('mod',): Env(fi=None)}, ('mod',), {})
                        env[p.arg] = self.ev(ds[p.arg], z)
                        if isinstance(env[p.arg], tuple) and env[p.arg][0] == 'ref':
                            env[p.arg] = self.new(st, z.heap[env[p.arg][1]])
                finally:
                    st.frame = of
                    self.cur_fi = old
        return env

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        y = self.lookup('$yield', st)
        c = st.heap[y[1]]
        st.heap[y[1]] = apply(lambda x: ('lst', x[1] + (piece(v),)) if x[0] == 'lst' else x, c)
        return NONE

    def e_YieldFrom(self, n, st):
        ps = self.pieces(self.ev(n.value, st), st)
        y = self.lookup('$yield', st)
        if ps is None:
            st.heap[y[1]] = top('yield from')
        else:
            c = st.heap[y[1]]
            st.heap[y[1]] = apply(lambda x: ('lst', x[1] + tuple(ps)) if x[0] == 'lst' else x, c)
        return NONE

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Slice(self, n, st):
        return ('slice',) + tuple(self.ev(x, st) if x is not None else NONE for x in (n.lower, n.upper, n.step))

    def e_Starred(self, n, st):
        return top('star')

    # ------------------------------------------------------------ construction
    def construct(self, cid, args, kw, st):
        if self.is_record(cid):
            if args or '**' in kw:
                return top('record arguments')
            d = dict(kw)
            return ('rec', cid, tuple(sorted(d.items())))
        if any('Exception' in str(b) or 'Error' in str(b) for b in self.bases(cid)):
            return ('app', 'exception')
        oid = self.fresh()
        st.heap[oid] = Inst({}, cid)
        me = ('ref', oid)
        init = self.method(cid, '__init__')
        if init is not None:
            self.call(('bm', init.fid, me), args, kw, st)
        elif args or kw:
            return top('constructor')
        return me


def _giveup():
    raise Giveup('star')


class _ModFi:
    cls = parent = None

    def __init__(self, m):
        self.module = m
        self.fid = m.name
        self.globals, self.nonlocals, self.is_comp = set(), set(), False


class _ClsFi(_ModFi):
    def __init__(self, ci):
        _ModFi.__init__(self, ci.module)
