"""Engine B: how the sheet model (sheets, joints, joint sides) is represented symbolically."""
from fractions import Fraction as Q
from . import terms as t
from .terms import T, F, NONE, Ite, Rat, top, rc, ra, gand, gor, gnot
from .lib2 import Engine, opaque
from .gvg import St, Env, seq, piece

SP = 'plycutter.sheetplex:'
SB = 'plycutter.sheetbuild:'
SIDE, PLEX, SHEET, INTER = SP + 'InterSide', SP + 'SheetPlex', SP + 'Sheet', SP + 'Intersection'
BUILD = SB + 'SheetBuild'


def opp(i):
    """Id of the opposite side (an involution without fixed points)."""
    return i[1] if isinstance(i, tuple) and i[0] == 'opp' else ('opp', i)


def symid(i):
    return ('sym', i, 'any')


def sheet_of(i):
    return ('sym', ('sheet', i), 'any')


def side(i):
    """The record of the side with id term i."""
    f = {'id': symid(i), 'sheet': sheet_of(i),
         'intersection': ('sym', ('inter', i[1] if i[0] == 'opp' else i), 'any')}
    for k in ('direction', 'normal'):
        f[k] = ('arr', (ra(('ix', (k, i), 0)), ra(('ix', (k, i), 1))))
    for k in ('origin_offset', 'min_normal_offset', 'max_normal_offset'):
        f[k] = ra((k, i))
    f['idx'] = ra(('idx', i))
    return ('rec', SIDE, tuple(sorted(f.items())))


def idterm(v):
    if isinstance(v, tuple) and v[0] == 'sym':
        return v[1]
    return None


def sideterm(r):
    if isinstance(r, tuple) and r[0] == 'rec' and r[1] == SIDE:
        return idterm(dict(r[2])['id'])
    return None


def model_facts(atom):
    """A side differs from its opposite and lies on another sheet."""
    if atom[0] == 'is' and len(atom) == 3:
        a, b = idterm(atom[1]), idterm(atom[2])
        if a is not None and b is not None:
            if a == ('opp', b) or b == ('opp', a):
                return False
            if a[0] == 'sheet' and b[0] == 'sheet' and (a[1] == ('opp', b[1]) or b[1] == ('opp', a[1])):
                return False
    return None


class Model(Engine):
    """prims: sheetplex lookups and fingers as uninterpreted functions."""

    def __init__(self, prog, **kw):
        Engine.__init__(self, prog, facts=kw.pop('facts', model_facts), **kw)
        self.types.setdefault(PLEX, {'sheets': ('map', 'any', ('obj', SHEET)), 'intersections': ('map', 'any', ('obj', INTER))})
        self.types.setdefault(SHEET, {'id': 'any', 'slices_max': 'geo2', 'slices_min': 'geo2', 'both_faces': 'geo2',
                                      'faces': ('tup', 'geo2', 'geo2'), 'outside_slices': 'geo2'})
        self.types.setdefault(BUILD, {'$rec': True, 'sheetplex': ('obj', PLEX), 'sheet_chosen': ('map', 'any', 'geo2'),
                                      'sheet_ok': ('map', 'any', 'geo2'), 'interside_chosen': ('map', 'any', 'geo1'),
                                      'interside_ok': ('map', 'any', 'geo1')})
        self.prims[SP + 'SheetPlex.interside'] = Model.p_interside
        self.prims[SP + 'SheetPlex.intersides'] = Model.p_intersides
        self.prims[SP + 'InterSide.opposite'] = Model.p_opposite
        self.prims[SP + 'InterSide.make_fingers'] = Model.p_fingers
        self.prims[SP + 'InterSide.project_to_1d'] = Model.p_project

    def sym(self, ty, term):
        v = Engine.sym(self, ty, term)
        return v

    def getattr1(self, x, name, st):
        # a sheet is stored under its own id
        if name == 'id' and isinstance(x, tuple) and x[0] == 'sym' and x[2] == ('obj', SHEET) and x[1][0] == 'sel':
            return x[1][2]
        return Engine.getattr1(self, x, name, st)

    def p_interside(self, args, kw, st):
        a = dict(zip(('self', 'id'), args))
        a.update(kw)
        v = a.get('id')
        i = idterm(v)
        return side(i) if i is not None else top('interside')

    def p_intersides(self, args, kw, st):
        a = dict(zip(('self', 'sheet_id'), args))
        a.update(kw)
        src = ('intersides', a['self'][1] if a['self'][0] == 'sym' else '?')
        name = self.el(src, 'any')[0]
        g = T
        sid = a.get('sheet_id', NONE)
        if sid != NONE:
            g = self.same(sheet_of(name), sid)
        return seq([('p', g, ((src, name),), side(name))])

    def p_opposite(self, args, kw, st):
        i = sideterm(args[0])
        return side(opp(i)) if i is not None else top('opposite')

    def p_fingers(self, args, kw, st):
        names = ('self', 'where', 'fract0', 'fract1')
        a = {'fract0': rc(0), 'fract1': rc(1)}
        a.update(zip(names, args))
        a.update(kw)
        i, w = sideterm(a['self']), a['where']
        if i is None or isinstance(w, Ite) or not isinstance(w, tuple) or w[0] != 'geo':
            return top('fingers')
        if w[2] == F:
            return ('geo', 2, F)
        return ('geo', 2, Ite(('in', ('fingers', i, w[2], a['fract0'], a['fract1'])), T, F))

    def p_project(self, args, kw, st):
        i, g = sideterm(args[0]), args[1] if len(args) > 1 else kw.get('geom2d')
        if i is None or isinstance(g, Ite) or not isinstance(g, tuple) or g[0] != 'geo':
            return top('projection')
        if g[2] == F:
            return ('geo', 1, F)
        return ('geo', 1, Ite(('in', ('toaxis', i, g[2])), T, F))

    def build(self, name='sb'):
        return self.sym(('obj', BUILD), (name,))


def fingers(i, w):
    if w == F:
        return F
    return Ite(('in', ('fingers', i, w, rc(0), rc(1))), T, F)


# ---------------------------------------------------------------- scenarios
class Scenario:
    """Truth values of atoms about measures of sets: each listed set is large, others are
    null (if closed) or unknown.  Elements of generic loops stand for the offending one."""

    amount = Q(1, 100)       # what counts as a real overlap (mm, mm^2)

    def __init__(self, large=(), null_rest=True, rename=None, atoms=None):
        self.large = list(large)
        self.null_rest = null_rest
        self.atoms = atoms or {}
        self.rename = rename

    def size(self, d, g):
        """Upper and lower description of a set: 'large', 'null' or None."""
        if g in self.large or any(gand(x, gnot(g)) == F for x in self.large):
            return 'large'
        return 'null' if self.null_rest else None

    def __call__(self, atom):
        if atom in self.atoms:
            return self.atoms[atom]
        k = atom[0]
        if k == 'empty':
            s = self.size(atom[1], atom[2])
            return None if s is None else s == 'null'
        if k in ('lt0', 'eq0'):
            p = atom[1]
            val = 0
            lin = None
            for mono, c in p.t:
                if mono == ():
                    val += c
                    continue
                if len(mono) != 1 or mono[0][1] != 1 or t.atom_of(mono[0][0])[0] != 'meas':
                    return None
                m = t.atom_of(mono[0][0])
                s = self.size(m[1], m[2])
                if s is None or lin is not None and s == 'large':
                    return None
                if s == 'large':
                    lin = True
                    val += c * self.amount
            return val < 0 if k == 'lt0' else val == 0
        if k == 'exists':
            r = self.eval(atom[2])
            return r
        return None

    def eval(self, c):
        r = t.restrict(c, self) if isinstance(c, Ite) else c
        return True if r == T else False if r == F else None
