"""Engine B: collections, attributes, subscripts, comprehensions, assignment."""
import ast
from . import terms as t
from .terms import T, F, NONE, Ite, Rat, Giveup, top, apply, gif, gnot, gand, gor, rc, ra
from .gvg import Env, Inst, seq, piece
from .expr import Expr


class Coll(Expr):
    def content(self, v, st):
        if isinstance(v, tuple) and v[0] == 'ref':
            return st.heap.get(v[1], top('heap'))
        return v

    def kind(self, v, st):
        c = self.content(v, st)
        if isinstance(c, Ite):
            ks = {x[0] if isinstance(x, tuple) else '?' for x in t.leaves(c)}
            return ks.pop() if len(ks) == 1 else '?'
        return c[0] if isinstance(c, tuple) else 'inst' if isinstance(c, Inst) else '?'

    def havoc(self, v, st):
        for x in t.leaves(v):
            if isinstance(x, tuple) and x[0] == 'ref':
                c = st.heap.get(x[1])
                if isinstance(c, Inst):
                    st.heap[x[1]] = Inst({k: top('havoc') for k in c}, c.cid)
                else:
                    st.heap[x[1]] = top('havoc')

    def flat(self, c):
        """Pieces of a (possibly gated) list content."""
        if isinstance(c, Ite):
            a, b = self.flat(c.a), self.flat(c.b)
            if a is None or b is None:
                return None
            i = 0
            while i < len(a) and i < len(b) and a[i] == b[i]:
                i += 1
            g = Ite(c.atom, T, F)
            ng = Ite(c.atom, F, T)
            return a[:i] + [('p', gand(g, p[1])) + p[2:] for p in a[i:]] + [('p', gand(ng, p[1])) + p[2:] for p in b[i:]]
        if isinstance(c, tuple) and c[0] in ('lst', 'set', 'seq', 'arrs'):
            return list(c[1])
        if isinstance(c, tuple) and c[0] in ('tup', 'arr'):
            return [piece(x) for x in c[1]]
        return None

    def pieces(self, v, st):
        """What iterating over the value yields, in order; None if unknown."""
        if isinstance(v, Ite):
            a, b = self.pieces(v.a, st), self.pieces(v.b, st)
            if a is None or b is None:
                return None
            g, ng = Ite(v.atom, T, F), Ite(v.atom, F, T)
            if a == b:
                return a
            return [('p', gand(g, p[1])) + p[2:] for p in a] + [('p', gand(ng, p[1])) + p[2:] for p in b]
        c = self.content(v, st)
        if isinstance(c, Ite) or isinstance(c, tuple) and c[0] in ('lst', 'set', 'seq', 'tup', 'arr', 'arrs'):
            return self.flat(c)
        if isinstance(c, tuple) and c[0] == 'map':
            return self.mapiter(c, 'keys')
        if isinstance(c, tuple) and c[0] == 'sym' and isinstance(c[2], tuple) and c[2][0] == 'seq':
            if len(c[2]) > 2:
                # a sequence with the listed properties
                pass
            name, e = self.el(c[1], c[2][1])
            return [('p', T, ((c[1], name),), e)]
        return None

    def mapiter(self, m, what):
        """keys / values / items of a map."""
        if isinstance(m, Ite) or not isinstance(m, tuple) or m[0] != 'map':
            return None
        ps = []
        base = m[1]

        def pick(k, v):
            return k if what == 'keys' else v if what == 'values' else ('tup', (k, v))
        if base[0] == 'base':
            if m[2]:
                # values may have been replaced under existing keys
                name, k = self.el(('keys', base[1]), base[2][1])
                return [('p', T, ((('keys', base[1]), name),), pick(k, self.select(m, k)))]
            name, k = self.el(('keys', base[1]), base[2][1])
            return [('p', T, ((('keys', base[1]), name),), pick(k, self.select(m, k)))]
        if base[0] != 'empty':
            return None
        seen = set()
        for s in m[2]:
            if s[0] == 'bulk':
                _, bb, g, k, v, am = s
                if (bb, k) in seen:
                    continue
                seen.add((bb, k))
                vv = v if what != 'keys' else None
                ps.append(('p', g, bb, pick(k, self.selbulk(m, bb, k) if what != 'keys' else vv)))
            else:
                k, v, g = s
                if k in seen:
                    continue
                seen.add(k)
                ps.append(('p', g, (), pick(k, self.select(m, k))))
        return ps

    def selbulk(self, m, bb, k):
        """Value at key k written by the last bulk store over the same elements."""
        return self.select(m, k)

    def store(self, m, k, v, g=T):
        if isinstance(m, Ite):
            return t.ite2(m.atom, self.store(m.a, k, v, g), self.store(m.b, k, v, g))
        if not isinstance(m, tuple) or m[0] != 'map':
            return top('store')
        return ('map', m[1], m[2] + ((k, v, g),))

    def keyeq(self, a, b):
        """Gated equality of two map keys."""
        r = apply(lambda x, y: self.same(x, y), a, b)
        return t.restrict(r, lambda at: self.facts(at) if self.facts else None)

    def select(self, m, k):
        if isinstance(m, Ite):
            return t.ite2(m.atom, self.select(m.a, k), self.select(m.b, k))
        if isinstance(k, Ite):
            return t.ite2(k.atom, self.select(m, k.a), self.select(m, k.b))
        if not isinstance(m, tuple) or m[0] != 'map':
            return top('select')
        stores = list(m[2])
        if not stores:
            return self.selbase(m[1], k)
        last = stores[-1]
        rest = ('map', m[1], tuple(stores[:-1]))
        if last[0] == 'bulk':
            _, bb, g, kk, v, am = last
            # the elements are unique per key: at the element's own key the new value
            if kk == k:
                v = self.unacc(v, am, rest, k)
                if g == T:
                    return v
                return gif(g, v, self.select(rest, k))
            m1 = self.match(kk, k, bb)
            if m1 is not None:
                v = t.subst(self.unacc(v, am, rest, kk), m1)
                g1 = t.subst(g, m1)
                inside = Ite(('ranges', bb, kk, k), T, F)
                return gif(gand(inside, g1), v, self.select(rest, k))
            return top('bulk')
        kk, v, g = last
        e = self.keyeq(kk, k)
        if t.has_top(e):
            return top('key')
        return gif(gand(e, g), v, self.select(rest, k)) if gand(e, g) != F else self.select(rest, k)

    def match(self, pat, k, bb):
        """k as an instance of the key of a bulk store: substitution for its element."""
        if len(bb) == 1 and pat == ('sym', bb[0][1], pat[2] if isinstance(pat, tuple) and len(pat) > 2 else None):
            return {pat: k, bb[0][1]: k}
        return None

    def unacc(self, v, am, rest, k):
        """Occurrences of the map at the head of the iteration are the map before the loop
        at this key (keys of different elements differ)."""
        if not self.mentions(v, am):
            return v

        def go(x):
            if isinstance(x, Ite):
                a = x.atom
                if a[0] == 'in' and isinstance(a[1], tuple) and a[1][:2] == ('sel', am):
                    base = self.select(rest, a[1][2])
                    if isinstance(base, tuple) and base[0] == 'geo':
                        return gif(base[2], go(x.a), go(x.b))
                    return top('unacc')
                return t.ite2(a, go(x.a), go(x.b))
            if isinstance(x, tuple) and x[0] == 'geo':
                return ('geo', x[1], go(x[2]))
            if x == ('sel', am, k):
                return self.select(rest, k)
            return x
        r = go(v)
        return top('unacc') if self.mentions(r, am) else r

    def selbase(self, base, k):
        if base[0] == 'empty':
            return ('app', 'KeyError')
        if base[0] == 'base':
            return self.sym(base[2][2], ('sel', base[1], k))
        if base[0] == 'accm':
            return self.accsel(base, k)
        return top('map')

    def accsel(self, base, k):
        ty = self.acctypes.get(base[1]) if hasattr(self, 'acctypes') else None
        return self.sym(ty, ('sel', base, k)) if ty else top('map in a loop')

    def acc_like(self, name, v0):
        r = super().acc_like(name, v0)
        if isinstance(r, tuple) and r[0] == 'map':
            ty = self.valtype(v0)
            if ty:
                if not hasattr(self, 'acctypes'):
                    self.acctypes = {}
                self.acctypes[name] = ty
        return r

    def valtype(self, m):
        for x in t.leaves(m):
            if x[0] == 'map':
                if x[1][0] == 'base':
                    return x[1][2][2]
                for s in x[2]:
                    v = s[4] if s[0] == 'bulk' else s[1]
                    for y in t.leaves(v):
                        if isinstance(y, tuple) and y[0] == 'geo':
                            return 'geo%d' % y[1]
                        if isinstance(y, Rat):
                            return 'num'
        return None

    def seqop(self, op, a, b, st):
        if isinstance(a, Ite) or isinstance(b, Ite):
            pa, pb = self.pieces(a, st), self.pieces(b, st)
        else:
            pa = self.pieces(a, st)
            pb = self.pieces(b, st) if not isinstance(b, Rat) else None
        if op == 'Add' and pa is not None and pb is not None:
            return self.new(st, ('lst', tuple(pa + pb)))
        if op == 'Mult' and pa is not None and isinstance(b, Rat) and b.const() is not None and b.const() <= 8:
            return self.new(st, ('lst', tuple(pa * int(b.const()))))
        if op == 'BitOr' and pa is not None and pb is not None:
            return self.new(st, ('set', self.uniq(pa + pb)))
        if op in ('Sub', 'BitAnd') and pa is not None and pb is not None and self.kind(a, st) == 'set':
            r = self.setop(pa, pb, op, st)
            return self.new(st, ('set', r)) if r is not None else top('set operator')
        if isinstance(a, tuple) and a[0] in ('ref', 'seq') or isinstance(b, tuple) and b[0] in ('ref', 'seq'):
            if isinstance(self.content(a, st), Inst):
                return None
            return top('collection operator')
        return None

    def extend_ref(self, a, b, st, op):
        c = st.heap[a[1]]
        pb = self.pieces(b, st)
        if op in ('Add', 'BitOr') and pb is not None:
            st.heap[a[1]] = apply(lambda x: (x[0], x[1] + tuple(pb)) if x[0] == 'lst' else ('set', self.uniq(x[1] + tuple(pb)))
                                  if x[0] == 'set' else top(), c)
        elif op in ('Sub', 'BitAnd') and pb is not None and isinstance(c, tuple) and c[0] == 'set':
            r = self.setop(c[1], pb, op, st)
            st.heap[a[1]] = ('set', r) if r is not None else top('update')
        else:
            st.heap[a[1]] = top('update')

    def uniq(self, ps):
        """Pieces of a set without repetitions of identical elements."""
        out, seen = [], set()
        for z in ps:
            if z[1] == T and not z[2]:
                if z[3] in seen:
                    continue
                seen.add(z[3])
            out.append(z)
        return tuple(out)

    def setop(self, pa, pb, op, st):
        """Difference or intersection of plain sets whose elements are known to be equal or different."""
        if not all(z[1] == T and not z[2] and not t.has_top(z[3]) for z in list(pa) + list(pb)):
            return None
        out = []
        for a in self.uniq(pa):
            hit = False
            for b in pb:
                c = T if a[3] == b[3] else self.simp(self.truth(self.cmp('Eq', a[3], b[3], st), st), st)
                if c == T:
                    hit = True
                elif c != F:
                    return None
            if hit == (op == 'BitAnd'):
                out.append(a)
        return tuple(out)

    # ------------------------------------------------------------ assignment
    def assign(self, tg, v, st):
        if isinstance(tg, ast.Name):
            self.setvar(st, tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            star = next((i for i, x in enumerate(tg.elts) if isinstance(x, ast.Starred)), None)
            if star is None:
                vs = self.unpack(v, len(tg.elts), st)
            else:
                vs = self.unpackstar(v, star, len(tg.elts) - star - 1, st)
            for i, x in enumerate(tg.elts):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.assign(x, vs[i] if vs is not None else top('unpack'), st)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, st)
            self.setattr(o, tg.attr, v, st)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, st)
            self.setitem(o, tg.slice, v, st)

    def unpackstar(self, v, before, after, st):
        ps = self.pieces(v, st)
        if ps is None or any(z[1] != T or z[2] for z in ps) or len(ps) < before + after:
            return None
        vs, m = [z[3] for z in ps], len(ps) - after
        return vs[:before] + [self.new(st, ('lst', tuple(ps[before:m])))] + vs[m:]

    def unpack(self, v, n, st):
        if isinstance(v, Ite):
            ls = [self.unpack(x, n, st) for x in t.leaves(v)]
            if any(x is None for x in ls):
                return None
            return [apply(lambda y: (self.unpack(y, n, st) or [top()] * n)[i], v) for i in range(n)]
        c = self.content(v, st)
        ps = self.flat(c) if isinstance(c, (tuple, Ite)) else None
        if ps is not None and len(ps) == n and all(p[1] == T and not p[2] for p in ps):
            return [p[3] for p in ps]
        if isinstance(c, tuple) and c[0] in ('sym', 'app') and not t.has_top(c) and ps is None:
            return [self.index(c, rc(i), st) for i in range(n)]
        return None

    def setattr(self, o, name, v, st):
        for x in t.leaves(o):
            if isinstance(x, tuple) and x[0] == 'ref' and isinstance(st.heap.get(x[1]), Inst):
                z = st.heap[x[1]].cp()
                z[name] = v if not isinstance(o, Ite) else top('gated attribute')
                st.heap[x[1]] = z

    def arrset(self, x, k, v):
        """Array with one entry replaced."""
        if x[0] == 'arr' and isinstance(k, Rat) and k.const() is not None and k.const().denominator == 1:
            i = int(k.const())
            if -len(x[1]) <= i < len(x[1]) and all((isinstance(y, tuple) and y[0] == 'arr') == (isinstance(v, tuple) and v[0] == 'arr') for y in x[1]):
                xs = list(x[1])
                xs[i] = v
                return ('arr', tuple(xs))
        return top('array update')

    def arrput(self, o, new, st):
        """An array is changed in place: everything holding this very array sees it."""
        hs = [(k, n) for k, h in st.heap.items() if isinstance(h, dict) for n, x in h.items() if x is o]
        ls = [k for k, h in st.heap.items() if isinstance(h, tuple) and h[0] in ('lst', 'set') and any(p[3] is o for p in h[1])]
        if isinstance(o, Ite) and len(hs) + len(ls) > 1:
            new = top('array update')
        for k, n in hs:
            z = st.heap[k].cp()
            z[n] = new
            st.heap[k] = z
        for k in ls:
            c = st.heap[k]
            st.heap[k] = (c[0], tuple(('p', p[1], p[2], new) if p[3] is o else p for p in c[1]))
        # parts of the array held elsewhere (rows, views) are no longer known
        for k, h in list(st.heap.items()):
            if isinstance(h, dict):
                for n, x in h.items():
                    if isinstance(x, tuple) and x and x[0] == 'arr' and any(y is o for y in x[1]):
                        z = st.heap[k].cp()
                        z[n] = top('array update')
                        st.heap[k] = z

    def setitem(self, o, sl, v, st):
        if isinstance(sl, ast.Tuple) and all(isinstance(x, tuple) and x[0] == 'arr' for x in t.leaves(o)):
            ks = self.axes(sl, st)
            self.arrput(o, apply(lambda x, y: self.multiset(x, ks, y), o, apply(lambda y: self.asarr(y, st) if self.kind(y, st) in ('lst', 'tup') else y, v)), st)
            return
        k = self.ev(sl, st) if not isinstance(sl, ast.Slice) else None
        if all(isinstance(x, tuple) and x[0] in ('arr', 'arrs') for x in t.leaves(o)):
            self.arrput(o, apply(lambda x: self.arrset(x, k, v), o) if k is not None else top('array update'), st)
            return
        if isinstance(o, Ite):
            self.havoc(o, st)
            return
        if not (isinstance(o, tuple) and o[0] == 'ref'):
            return
        c = st.heap.get(o[1])
        if k is not None and isinstance(c, tuple) and c[0] == 'map':
            st.heap[o[1]] = self.store(c, k, v)
            return
        if k is not None and isinstance(k, Rat) and k.const() is not None and isinstance(c, tuple) and c[0] in ('lst',) \
                and all(p[1] == T and not p[2] for p in c[1]):
            i = int(k.const())
            if -len(c[1]) <= i < len(c[1]):
                ps = list(c[1])
                ps[i] = piece(v)
                st.heap[o[1]] = ('lst', tuple(ps))
                return
        if isinstance(c, tuple) and c[0] == 'arrh' and k is not None and isinstance(k, Rat) and k.const() is not None:
            xs = list(c[1])
            xs[int(k.const())] = v
            st.heap[o[1]] = ('arrh', tuple(xs))
            return
        if k is not None and isinstance(c, Ite) and self.kind(o, st) == 'map':
            st.heap[o[1]] = self.store(c, k, v)
            return
        self.havoc(o, st)

    # ------------------------------------------------------------ subscripts
    def e_Subscript(self, n, st):
        o = self.ev(n.value, st)
        if isinstance(n.slice, ast.Slice):
            return self.slice(o, n.slice, st)
        if isinstance(n.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in n.slice.elts):
            ks = self.axes(n.slice, st)
            return apply(lambda x: self.multi(self.asarr(x, st), ks), o)
        k = self.ev(n.slice, st)
        return self.index(o, k, st)

    # several axes of an array at once
    def axes(self, tup, st):
        r = []
        for x in tup.elts:
            if isinstance(x, ast.Slice):
                v = [None if y is None else self.ev(y, st) for y in (x.lower, x.upper, x.step)]
                if any(y is not None and not (isinstance(y, Rat) and y.const() is not None) for y in v):
                    return None
                r.append(slice(*[y if y is None else int(y.const()) for y in v]))
            else:
                v = self.ev(x, st)
                if not (isinstance(v, Rat) and v.const() is not None and v.const().denominator == 1):
                    return None
                r.append(int(v.const()))
        return r

    def multi(self, x, ks):
        if ks is None:
            return top('index')
        if not ks:
            return x
        if not (isinstance(x, tuple) and x[0] == 'arr'):
            return top('index')
        if isinstance(ks[0], slice):
            return ('arr', tuple(self.multi(y, ks[1:]) for y in x[1][ks[0]]))
        if not -len(x[1]) <= ks[0] < len(x[1]):
            return top('index out of range')
        return self.multi(x[1][ks[0]], ks[1:])

    def multiset(self, x, ks, v):
        """The array with the selected entries replaced by v (a number, or an array of the selected shape)."""
        if ks is None or not (isinstance(x, tuple) and x[0] == 'arr'):
            return top('array update')
        at = list(range(len(x[1])))[ks[0]]
        many = isinstance(ks[0], slice)
        at = at if many else [at]
        xs = list(x[1])
        whole = isinstance(v, tuple) and v[0] == 'arr'
        if whole and many and len(v[1]) != len(at):
            return top('array update')
        for n, i in enumerate(at):
            w = v[1][n] if whole and many else v
            if ks[1:]:
                xs[i] = self.multiset(xs[i], ks[1:], w)
            elif isinstance(w, tuple) and w[0] == 'arr' or isinstance(xs[i], tuple) and xs[i][0] == 'arr':
                return top('array update')
            else:
                xs[i] = w
        return ('arr', tuple(xs)) if not any(t.has_top(y) for y in xs) else top('array update')

    def index(self, o, k, st):
        return self.simp(apply(lambda x, y: self.index1(x, y, st), o, k), st)

    def index1(self, x, k, st):
        if t.is_top(x) or t.is_top(k):
            return top('index')
        c = self.content(x, st)
        if isinstance(c, tuple) and c[0] == 'arr' and isinstance(k, tuple) and k[0] == 'tup' and k[1]:
            # array axes one after the other
            v = c
            for z in k[1]:
                v = self.index(v, z, st)
            return v
        if isinstance(c, Ite):
            ps = self.flat(c)
            if self.kind(x, st) == 'map':
                return self.select(c, k)
        else:
            if isinstance(c, tuple) and c[0] == 'map':
                return self.select(c, k)
            ps = self.flat(c) if isinstance(c, tuple) else None
        if isinstance(c, tuple) and c[0] == 'arrh':
            ps = [piece(z) for z in c[1]]
        if ps is not None:
            if isinstance(k, Rat) and k.const() is not None and all(p[1] == T and not p[2] for p in ps):
                i = int(k.const())
                if -len(ps) <= i < len(ps):
                    return ps[i][3]
                return top('index out of range')
            if isinstance(k, Rat) and k.const() is not None and ps and k.const() >= 0 and \
                    all(p[1] == T and not p[2] for p in ps[:int(k.const()) + 1]):
                return ps[int(k.const())][3]
            if isinstance(k, Rat) and all(p[1] == T and not p[2] for p in ps) and 0 < len(ps) <= 4:
                r = ps[-1][3]
                for i in range(len(ps) - 1):
                    r = gif(t.sign_eq(t.rsub(k, rc(i))), ps[i][3], r)
                return r
            if len(ps) == 1 and ps[0][2] and isinstance(k, Rat):
                return self.itemof(ps, k)
            return top('index of a symbolic sequence')
        if isinstance(c, tuple) and c[0] == 'rec' and k[0] == 'c':
            return self.getattr1(c, k[1], st)
        if isinstance(c, tuple) and c[0] == 'sym' and isinstance(c[2], tuple) and c[2][0] == 'seq':
            return self.sym(c[2][1], ('ix', c[1], k if not isinstance(k, Rat) or k.const() is None else int(k.const())))
        if isinstance(c, tuple) and c[0] in ('sym', 'app'):
            return ('app', 'item', c, k)
        if isinstance(c, Rat):
            return ra(('app', 'item', c, k))
        return top('index')

    def itemof(self, ps, k):
        """An item of an unknown sequence of which every element contributes one item."""
        if len(ps) == 1 and ps[0][1] == T and len(ps[0][2]) == 1 and k.const() is not None:
            src, name = ps[0][2][0]
            return t.subst(ps[0][3], {name: ('ix', src, int(k.const()))})
        return ('app', 'item', ('seqof', tuple(ps)), k)

    def slice(self, o, s, st):
        def const(x):
            if x is None:
                return None
            v = self.ev(x, st)
            if isinstance(v, Rat) and v.const() is not None:
                return int(v.const())
            return 'sym'
        lo, hi, step = const(s.lower), const(s.upper), const(s.step)

        def f(x):
            c = self.content(x, st)
            ps = self.flat(c) if isinstance(c, (tuple, Ite)) else None
            if 'sym' in (lo, hi, step):
                return top('slice')
            if isinstance(c, tuple) and c[0] == 'c' and isinstance(c[1], str):
                return ('c', c[1][lo:hi:step])
            if ps is None and isinstance(c, tuple) and c[0] == 'sym' and isinstance(c[2], tuple) and c[2][0] == 'seq':
                ps = self.pieces(c, st)
            if isinstance(c, tuple) and c[0] in ('tup', 'arr'):
                return (c[0], tuple(c[1][lo:hi:step]))
            if ps is not None and lo in (None, 0) and hi is None and step in (None, 1):
                return seq(ps)
            if ps is not None and all(p[1] == T and not p[2] for p in ps):
                return seq(ps[lo:hi:step])
            if ps is not None and lo in (None, 0) and hi is not None and hi >= 0 and step in (None, 1):
                if all(p[1] == T and not p[2] for p in ps[:hi]) and len(ps) >= hi:
                    return seq(ps[:hi])
                return seq([piece(self.itemof(ps, rc(i))) for i in range(hi)]) if hi <= 3 else top('slice')
            if ps is not None and lo is None and hi is None and step == -1:
                return seq([('p', g, tuple((('rev', b[0]), b[1]) for b in bb), v) for _, g, bb, v in reversed(ps)])
            if ps is not None and len(ps) == 1 and ps[0][2] and step in (None, 1):
                at = Ite(('b', ('within', ps[0][2], lo, hi)), T, F)
                return seq([('p', gand(ps[0][1], at), ps[0][2], ps[0][3])])
            if isinstance(c, tuple) and c[0] in ('sym', 'app') and ps is None:
                return ('app', 'slice', c, ('c', lo), ('c', hi), ('c', step))
            return top('slice')
        r = self.simp(apply(f, o), st)
        if isinstance(r, tuple) and r[0] == 'seq':
            return self.new(st, ('lst', r[1]))
        return r

    # ------------------------------------------------------------ comprehensions
    def comp(self, n, st, elts):
        """Pieces produced by a comprehension; elts evaluated per element."""
        fi = self.fm[id(n)]
        fr = self.fresh('f')
        outer = st.frame
        st.heap[fr] = Env({}, outer, fi)
        st.frame = fr
        out = []
        old = self.cur_fi
        try:
            self.comp_gen(n, st, 0, T, (), elts, out)
        finally:
            st.frame = outer
            self.cur_fi = old
            st.heap.pop(fr, None)
        return None if any(x is None for x in out) else out

    def comp_gen(self, n, st, i, guard, binders, elts, out):
        if i == len(n.generators):
            vs = [self.ev(e, st) for e in elts]
            out.append(('p', guard, binders, vs[0] if len(vs) == 1 else ('tup', tuple(vs))))
            return
        g = n.generators[i]
        ps = self.pieces(self.ev(g.iter, st), st)
        if ps is None or len(ps) > getattr(self, 'unroll', 60):
            for x in ast.walk(n):
                if isinstance(x, ast.Call):
                    pass
            out.append(None)
            return
        for _, pg, bb, v in ps:
            pend0 = st.pend
            st.pend = F
            self.binders.extend(bb)
            saved = dict(st.path)
            for a, val in self.implied(pg, T) if isinstance(pg, Ite) else ():
                st.path[a] = val
            try:
                self.assign(g.target, v, st)
                gd = T
                for c in g.ifs:
                    cv = self.truth(self.ev(c, st), st)
                    gd = gand(gd, cv)
                    for a, val in self.implied(gd, T) if isinstance(gd, Ite) else ():
                        st.path[a] = val
                if gd == F:
                    st.pend = pend0
                    continue
                self.comp_gen(n, st, i + 1, gand(guard, gand(pg, gd)), binders + bb, elts, out)
                inner = gand(gand(pg, gd), st.pend) if st.pend != F else F
            finally:
                st.path = saved
                del self.binders[len(self.binders) - len(bb):]
            if inner != F:
                st.pend = gor(pend0, self.exists(bb, inner) if bb else inner)
            else:
                st.pend = pend0

    def e_ListComp(self, n, st):
        ps = self.comp(n, st, [n.elt])
        return self.new(st, ('lst', tuple(ps)) if ps is not None else top('comprehension'))

    def e_SetComp(self, n, st):
        ps = self.comp(n, st, [n.elt])
        return self.new(st, ('set', tuple(ps)) if ps is not None else top('comprehension'))

    def e_GeneratorExp(self, n, st):
        ps = self.comp(n, st, [n.elt])
        return seq(ps) if ps is not None else top('comprehension')

    def e_DictComp(self, n, st):
        ps = self.comp(n, st, [n.key, n.value])
        if ps is None:
            return self.new(st, top('comprehension'))
        return self.new(st, self.dictof(ps))

    def dictof(self, ps):
        m = ('map', ('empty',), ())
        for _, g, bb, kv in ps:
            if not (isinstance(kv, tuple) and kv[0] == 'tup' and len(kv[1]) == 2):
                return top('dict')
            k, v = kv[1]
            if bb:
                m = ('map', m[1], m[2] + (('bulk', bb, g, k, v, ('accm', 'none')),))
            else:
                m = self.store(m, k, v, g)
        return m
