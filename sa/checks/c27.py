"""C27: the sanity check covers every sheet and both sides of every joint (gated value graph)."""
from .bcommon import program, fn, attempt, verdict, finish_engine, loc, words
from ..b import terms as t
from ..b.terms import T, F, Ite, gand, gnot
from ..b.gvg import St, Env
from ..b.model import Model, Scenario, SB, opp, side, symid, sheet_of, fingers

C = SB + 'SheetBuild.'


def base(field, k):
    return Ite(('in', ('sel', ('attr', ('sb',), field), k)), T, F)


def binders(v, acc=None):
    """(collection, element) pairs of the existentials in a condition."""
    acc = {} if acc is None else acc
    if isinstance(v, Ite):
        if v.atom[0] == 'exists':
            for b in v.atom[1]:
                acc[b[1]] = b[0]
            binders(v.atom[2], acc)
        binders(v.a, acc)
        binders(v.b, acc)
    return acc


def run(R):
    R.explain = ('Gated value numbering of SheetBuild.check(force=True) and _check over a generic sheet and a generic '
                 'side of a joint: the condition under which it raises, as a gated term over the emptiness and measure '
                 'of Boolean combinations of the state maps, is evaluated in the situations where exactly one '
                 'requirement is violated, and in the one where none is.')
    R.rule('C27.covers', 'a state violating the requirement for one (arbitrary) sheet or side fails the check')
    R.rule('C27.quiet', 'a state meeting all requirements passes')
    R.rule('C27.forced', 'a forced check is the full check, whatever ran before')
    p = program(R)
    fn(R, C + 'check')
    full = C + '_check'
    for name, fid, args in (('forced check', C + 'check', [T]), ('full check', full, [])):
        if fid not in p.func_by_fid:
            R.undecided('C27.covers', name, 'no such function')
            continue

        def one():
            e = Model(p)
            r, st = e.run(fid, [e.build()] + args)
            c = st.pend
            bs = binders(c)
            sheets = [x for x, src in bs.items() if src[0] == 'keys' and 'sheets' in str(src)]
            sides = [x for x, src in bs.items() if src[0] == 'intersides']
            R.count(name + ': generic loops over sheets', len(sheets))
            R.count(name + ': generic loops over sides', len(sides))
            other = [x for x in bs if x not in sheets and x not in sides]
            sheets, sides = sheets or [('no sheet',)], sides or [('no side',)]
            reqs = []
            k = [('sym', x, 'any') for x in sheets]
            reqs.append(('chosen area of a sheet is allowed', [gand(base('sheet_chosen', x), gnot(base('sheet_ok', x))) for x in k]))
            reqs.append(('chosen ranges of a side are allowed',
                         [gand(base('interside_chosen', symid(i)), gnot(base('interside_ok', symid(i)))) for i in sides]))
            reqs.append(('chosen ranges are not allowed to the opposite side',
                         [gand(base('interside_chosen', symid(i)), base('interside_ok', symid(opp(i)))) for i in sides]))
            reqs.append(('no area chosen under ranges allowed to the opposite side',
                         [gand(base('sheet_chosen', sheet_of(i)), fingers(i, base('interside_ok', symid(opp(i))))) for i in sides]))
            # chosen ranges allowed to the opposite side, seen from the other side of the joint
            for i in sides:
                reqs[1][1].append(gand(base('interside_chosen', symid(opp(i))), gnot(base('interside_ok', symid(opp(i))))))
                reqs[2][1].append(gand(base('interside_chosen', symid(opp(i))), base('interside_ok', symid(i))))
                reqs[3][1].append(gand(base('sheet_chosen', sheet_of(opp(i))), fingers(opp(i), base('interside_ok', symid(i)))))
            top = t.has_top(c)
            for what, sets in reqs:
                v = t.restrict(c, Scenario(sets)) if isinstance(c, Ite) else c
                if top and v != T:
                    R.undecided('C27.covers', '%s: %s' % (name, what), 'the condition for failing is not determined', loc(R, fid), fid)
                    continue
                if isinstance(v, Ite) and not words(v):
                    v = F if F in set(t.leaves(v)) else T
                if v != T and other:
                    R.undecided('C27.covers', '%s: %s' % (name, what), 'loops over other collections', loc(R, fid), fid)
                    continue
                verdict(R, 'C27.covers', '%s: %s' % (name, what), v, T, fid, 'a violation of "%s" passes' % what)
            v = t.restrict(c, Scenario([])) if isinstance(c, Ite) else c
            if top and v != F:
                R.undecided('C27.quiet', name, 'the condition for failing is not determined', loc(R, fid), fid)
            else:
                verdict(R, 'C27.quiet', name, v, F, fid, 'a state meeting all requirements is rejected')
            finish_engine(R, e)
            return c
        c = attempt(R, 'C27.covers', name, one, fid)
        if name == 'forced check':
            forced = c
        elif c is not None and forced is not None:
            R.decide('C27.forced', 'check(force=True) against the full check', True if c == forced else None if t.has_top(forced) or t.has_top(c) else
                     (forced != F), 'a forced check is not the full check', loc(R, C + 'check'), C + 'check')
