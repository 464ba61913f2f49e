"""C16: kerf compensation exactly once, on every written sheet (gated value graph of the command line)."""
import ast
from .bcommon import program, fn, attempt, finish_engine, loc, words, tops
from ..b import terms as t
from ..b.terms import T, F, NONE, Ite, Rat, ra, rc, gnot, gand
from ..b.gvg import St, Env, Inst, seq, piece
from ..b.model import Model, BUILD, PLEX, SB

M = 'plycutter.command_line:main'
W = 'plycutter.writer:write_dxf'
DIL = ra(('attr', ('args',), 'final_dilation'))


class MainEngine(Model):
    """Heuristic steps give new unknown states; the parser gives one unknown value per option."""

    def __init__(self, p):
        Model.__init__(self, p)
        self.types['args'] = {'final_dilation': 'num'}
        self.checked, self.writes, self.made = [], [], []
        for fid, fi in p.func_by_fid.items():
            if fid.startswith('plycutter.heuristics:') and fi.parent is None:
                self.prims[fid] = step(fid)
        self.prims[SB + 'create_sheetbuild'] = MainEngine.p_first
        self.prims[SB + 'SheetBuild.check'] = MainEngine.p_check
        self.prims[W] = MainEngine.p_write
        self.prims['plycutter.create_sheetplex:create_sheetplex'] = MainEngine.p_plex
        self.prims['.parse_args'] = lambda e, a, k, st: ('sym', ('args',), ('obj', 'args'))
        self.prims['builtins.vars'] = lambda e, a, k, st: ('sym', ('vars', a[0]), ('obj', 'vars')) if not t.has_top(a[0]) else t.top()
        self.prims['argparse.ArgumentParser'] = lambda e, a, k, st: ('sym', ('parser',), 'any')
        self.prims['.add_argument'] = lambda e, a, k, st: NONE
        self.prims['argparse.Namespace'] = MainEngine.p_namespace
        self.prims['pathlib.Path'] = lambda e, a, k, st: ('sym', ('path', e.freeze(a[0], st)), 'any')
        self.prims['trimesh.load'] = lambda e, a, k, st: ('sym', ('mesh',), 'any')

    def getattr1(self, x, name, st):
        if isinstance(x, tuple) and x[0] == 'sym' and x[2] == ('obj', 'args') and name != 'final_dilation':
            return ('sym', ('attr', ('args',), name), 'any')
        return Model.getattr1(self, x, name, st)

    def index1(self, x, k, st):
        if isinstance(x, tuple) and x[0] == 'sym' and x[2] == ('obj', 'vars') and k[0] == 'c':
            return self.getattr1(x[1][1], k[1], st)
        return Model.index1(self, x, k, st)

    def p_namespace(self, args, kw, st):
        oid = self.fresh()
        st.heap[oid] = Inst(kw, 'argparse.Namespace')
        return ('ref', oid)

    def p_plex(self, args, kw, st):
        self.made.append([self.freeze(a, st) for a in list(args) + list(kw.values())])
        return ('sym', ('plex',), ('obj', PLEX))

    def p_first(self, args, kw, st):
        self.made.append([self.freeze(a, st) for a in list(args) + list(kw.values())])
        return self.sym(('obj', BUILD), ('state', 0))

    def p_check(self, args, kw, st):
        a = dict(zip(('self', 'force'), args))
        a.update(kw)
        if a.get('force') == T:
            self.checked.append(a['self'])
        # the check reads the state only
        return NONE

    def p_write(self, args, kw, st):
        a = dict(zip(('filename', 'geom2ds'), args))
        a.update(kw)
        self.writes.append((self.content(a.get('geom2ds', t.top('nothing')), st), len(self.binders), dict(st.path)))
        c = self.content(self.calls, st)
        st.heap[self.calls[1]] = t.apply(lambda x: ('lst', x[1] + (piece(rc(len(self.writes) - 1)),)) if x[0] == 'lst' else x, c)
        return NONE


def step(fid):
    def h(e, args, kw, st):
        if args and isinstance(args[0], tuple) and args[0][0] == 'rec' and args[0][1] == BUILD:
            e.made.append([e.freeze(a, st) for a in list(args[1:]) + list(kw.values())])
            e.nstep = getattr(e, 'nstep', 0) + 1
            return e.sym(('obj', BUILD), ('state', e.nstep))
        return NotImplemented
    return h


def run(R):
    R.explain = ('Gated value numbering of the command line with heuristic steps as unknown state transformers: the map given to '
                 'the writer is compared, at an arbitrary sheet, with the chosen area of the last checked state buffered once by the option.')
    R.rule('C16.once', 'what is written for a sheet is the chosen area of that sheet in the final state, buffered exactly once by exactly the final dilation')
    R.rule('C16.all', 'every sheet with chosen area is handed to the writer, under its own name, in exactly one call of the writer')
    R.rule('C16.final', 'the state written is the one that has passed the forced check')
    R.rule('C16.feedback', 'the dilation option is used nowhere else')
    p = program(R)
    fn(R, M)
    fn(R, W)
    attempt(R, 'C16.once', 'command line', lambda: body(R, p), M)
    attempt(R, 'C16.feedback', 'uses of the option', lambda: uses(R, p), M)


def uses(R, p):
    n = 0
    for m in p.modules.values():
        for x in ast.walk(m.tree):
            hit = isinstance(x, ast.Attribute) and x.attr == 'final_dilation' or isinstance(x, ast.Constant) and x.value == 'final_dilation'
            if hit:
                n += 1
                if m.name != 'plycutter.command_line':
                    R.viol('C16.feedback', '%s:%d' % (m.rel, x.lineno), 'the dilation is read in joint generation', '%s:%d' % (m.rel, x.lineno))
    R.count('reads of the dilation option', n)
    if n == 0:
        R.undecided('C16.feedback', 'reads', 'no read of the option found')
    else:
        R.ok('C16.feedback', 'only read by the command line')


def body(R, p):
    e = MainEngine(p)
    st = St({('root',): Env()}, ('root',), {})
    e.calls = e.new(st, ('lst', ()))
    e.eventrefs.add(e.calls[1])
    r, st = e.run(M, [], {'arguments': ('sym', ('argv',), 'any')}, st=st)
    finish_engine(R, e)
    R.count('heuristic steps', getattr(e, 'nstep', 0))
    ws = e.flat(st.heap[e.calls[1]])
    if ws is None:
        R.undecided('C16.all', 'calls of the writer', 'not determined', loc(R, M), M)
        return
    if len(ws) != 1 or ws[0][2]:
        R.decide('C16.all', 'calls of the writer', False if len(ws) != 1 else None, 'the writer is called %d times' % len(ws), loc(R, M), M)
        return
    g = ws[0][1]
    R.decide('C16.all', 'the writer is called whenever the program succeeds', True if g == T else None if words(g) or t.has_top(g) else False,
             'only called when %s' % t.show(g, 150), loc(R, M), M)
    m = e.writes[-1][0]
    if t.has_top(m) or isinstance(m, Ite) or m[0] != 'map':
        R.undecided('C16.once', 'map given to the writer', 'not determined: %s' % (list(tops(m))[:2],), loc(R, M), M)
        return
    if len(e.checked) < 1:
        R.undecided('C16.final', 'final state', 'no forced check found', loc(R, M), M)
        return
    final = e.checked[-1]
    base = dict(final[2])['sheet_chosen']
    last = e.sym(('obj', BUILD), ('state', getattr(e, 'nstep', 0)))
    R.decide('C16.final', 'the forced check is on the last state', dict(last[2])['sheet_chosen'] == base,
             'the state checked is not the last one', loc(R, 'plycutter.canned:canned_1'))
    ps = e.mapiter(m, 'items')
    if ps is None:
        R.undecided('C16.all', 'map given to the writer', 'not determined', loc(R, M), M)
        return
    keysrc = ('keys', base[1][1])
    for _, g, bb, kv in ps:
        k, v = kv[1]
        if len(bb) != 1 or bb[0][0] != keysrc:
            src = bb[0][0] if bb else None
            other = isinstance(src, tuple) and src[0] == 'keys'
            R.decide('C16.all', 'sheets written', False if other else None, 'written per element of %s, not per sheet of the final state' % t.show(src, 120), loc(R, M), M)
            continue
        el = ('sym', bb[0][1], 'any')
        val = Ite(('in', ('sel', base[1][1], el)), T, F)
        dil = e.buffered(2, val, DIL)
        # buffering by zero changes nothing
        v = t.restrict(v, lambda at: False if at == ('eq0', DIL.n) else None)
        bad = None if words(kv) - {'buffer'} or t.has_top(kv) else False
        R.decide('C16.once', 'value written for a sheet', True if v == dil else bad,
                 'written: %s; expected the chosen area buffered once by the option' % t.show(v, 200), loc(R, M), M)
        R.decide('C16.all', 'name a sheet is written under', True if k == el else bad, 'written under %s' % t.show(k, 100), loc(R, M), M)
        okg = [T] + [gnot(Ite(('empty', 2, x), T, F)) for x in (val, dil[2])]
        R.decide('C16.all', 'sheets written', True if g in okg else None if words(g) or t.has_top(g) else False,
                 'a sheet is written only when %s' % t.show(g, 150), loc(R, M), M)
    if len(ps) != 1:
        R.decide('C16.all', 'entries of the map', None if ps else False, '%d kinds of entries are written' % len(ps), loc(R, M), M)
    n = 0
    for args in e.made:
        for a in args:
            n += 1
            if a is not None and not t.has_top(a) and (e.mentions(a, ('attr', ('args',), 'final_dilation'))):
                R.viol('C16.feedback', 'argument of joint generation', 'the dilation is passed to joint generation', loc(R, M), M)
    R.count('arguments of joint generation examined', n)
