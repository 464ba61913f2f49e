"""C08: choosing and unchoosing (gated value graph of the state transitions)."""
from .bcommon import program, fn, attempt, same, verdict, finish_engine, loc
from ..b import terms as t
from ..b.terms import T, F, Ite, gand, gor, gnot, gif
from ..b.gvg import St, Env
from ..b.model import Model, Scenario, SB, opp, side, symid, sheet_of, fingers, model_facts

FIELDS = ('sheet_chosen', 'sheet_ok', 'interside_chosen', 'interside_ok')
C = SB + 'SheetBuild.'


def base(field, k):
    return Ite(('in', ('sel', ('attr', ('sb',), field), k)), T, F)


def upd(field, key, new):
    """Map that has new at key and is unchanged elsewhere, seen at an arbitrary key k."""
    k = ('sym', 'k', 'any')
    e = Ite(('is',) + tuple(sorted((k, key), key=lambda z: t.aid(('cmp', z)))), T, F)
    return gif(e, new, base(field, k))


def run(R):
    R.explain = ('Gated value numbering of the SheetBuild transitions with the geometry operators as Boolean functions '
                 'of arbitrary sets, fingers and joint lookups as uninterpreted functions: every map of the resulting '
                 'state, seen at an arbitrary key, must be the canonical term of the documented effect; the '
                 'condition under which a transition raises is evaluated for disallowed and for allowed requests.')
    R.rule('C08.effect', 'each map of the new state, at an arbitrary key, equals the documented update of the old state')
    R.rule('C08.refuse', 'a choice not allowed any more (or an unchoice of something chosen) raises')
    R.rule('C08.accept', 'an allowed choice or unchoice does not raise')
    p = program(R)
    for f in ('choose_interside', 'unchoose_interside', 'unchoose_sheet_area', 'choose_intersides', 'unchoose_intersides'):
        fn(R, C + f)
    e = Model(p)
    v, a = ('geo', 1, Ite(('in', ('v',)), T, F)), ('geo', 2, Ite(('in', ('area',)), T, F))
    i = ('i',)
    k = ('sym', 'k', 'any')

    def at(r, f):
        x = dict(r[2]).get(f)
        if x is None:
            return None
        return t.apply(lambda y: y[2] if isinstance(y, tuple) and y[0] == 'geo' else t.top('not a geometry'), e.select(x, k))

    def fields(fid, tag, r, want):
        if not isinstance(r, tuple) or r[0] != 'rec':
            R.undecided('C08.effect', tag, 'no state record returned: ' + t.show(r, 100), loc(R, fid), fid)
            return
        for f in FIELDS:
            if f not in dict(r[2]):
                R.viol('C08.effect', '%s: %s' % (tag, f), 'the new state has no %s' % f, loc(R, fid), fid)
                continue
            same(R, 'C08.effect', '%s: %s' % (tag, f), at(r, f), want[f], fid, 'the new %s at an arbitrary key' % f)
        same(R, 'C08.effect', tag + ': sheetplex', dict(r[2]).get('sheetplex'), dict(e.build()[2])['sheetplex'], fid, 'the model')

    def refuse(fid, tag, n, g, st):
        c = t.restrict(st.pend, Scenario([g], null_rest=False))
        c = t.restrict(c, Scenario([g]))
        verdict(R, 'C08.refuse', '%s, forbidden request %d' % (tag, n), c, T, fid, 'is not refused when this is not empty: ' + t.show(g, 200))

    def short(fid):
        return fid.split('.')[-1]
    old = {f: base(f, k) for f in FIELDS}
    vb, ab = v[2], a[2]
    oi = opp(i)
    want_unchoose = dict(old, interside_ok=upd('interside_ok', symid(i), gand(base('interside_ok', symid(i)), gnot(vb))))
    want_area = dict(old, sheet_ok=upd('sheet_ok', ('sym', 's', 'any'), gand(base('sheet_ok', ('sym', 's', 'any')), gnot(ab))))
    s, os_ = sheet_of(i), sheet_of(oi)

    def want_choose(tent):
        w = dict(old)
        w['sheet_ok'] = upd('sheet_ok', os_, gand(base('sheet_ok', os_), gnot(fingers(oi, vb))))
        w['interside_chosen'] = upd('interside_chosen', symid(i), gor(base('interside_chosen', symid(i)), vb))
        w['interside_ok'] = upd('interside_ok', symid(oi), gand(base('interside_ok', symid(oi)), gnot(vb)))
        if not tent:
            w['sheet_chosen'] = upd('sheet_chosen', s, gor(base('sheet_chosen', s), gand(fingers(i, vb), base('sheet_ok', s))))
        return w
    cases = [
        ('unchoose_interside', [symid(i), v], want_unchoose,
         [gand(base('interside_chosen', symid(i)), vb)]),
        ('unchoose_sheet_area', [('sym', 's', 'any'), a], want_area,
         [gand(base('sheet_chosen', ('sym', 's', 'any')), ab)]),
        ('choose_interside', [symid(i), v], want_choose(False), 'choose'),
        ('choose_interside', [symid(i), v, F], want_choose(False), None),
        ('choose_interside', [symid(i), v, T], want_choose(True), 'choose'),
    ]
    for name, args, want, bad in cases:
        fid = C + name

        def one():
            r, st = e.run(fid, [e.build()] + args)
            tag = short(fid) + (' (tentative=%s)' % args[2][1] if len(args) > 2 else '')
            fields(fid, tag, r, want)
            if bad is None:
                return
            bads = [gand(gnot(base('interside_ok', symid(i))), vb), gand(fingers(oi, vb), base('sheet_chosen', os_))] if bad == 'choose' else bad
            for n, g in enumerate(bads):
                refuse(fid, tag, n, g, st)
            verdict(R, 'C08.accept', tag, t.restrict(st.pend, Scenario([])), F, fid, 'raises although nothing forbids the request')
        attempt(R, 'C08.effect', name + str(len(args)), one, fid)

    # several requests are applied one after the other
    for name, single in (('choose_intersides', 'choose_interside'), ('unchoose_intersides', 'unchoose_interside')):
        for tent in ((F, T) if name[0] == 'c' else (None,)):
            for cnt in (0, 1, 2):
                fid = C + name

                def several():
                    st = St({('root',): Env()}, ('root',), {})
                    sb = e.build()
                    m = ('map', ('empty',), ())
                    reqs = [(('i', n), ('geo', 1, Ite(('in', ('v', n)), T, F))) for n in range(cnt)]
                    for j, w in reqs:
                        m = e.store(m, symid(j), w)
                    e.facts = distinct
                    extra = [] if tent is None else [tent]
                    r, st = e.run(fid, [sb, m] + extra)
                    w = sb
                    st2 = St({('root',): Env()}, ('root',), {})
                    for j, vv in reqs:
                        w, st2 = e.run(C + single, [w, symid(j), vv] + extra, st=st2)
                    key = '%s with %d requests%s' % (name, cnt, '' if tent is None else ', tentative' if tent == T else '')
                    for f in FIELDS:
                        gr, gw = at(r, f), at(w, f)
                        same(R, 'C08.effect', key + ': ' + f, gr, gw, fid, 'the new ' + f)
                    same(R, 'C08.refuse', key, st.pend, st2.pend, fid, 'the condition for refusing')

                attempt(R, 'C08.effect', '%s %d' % (name, cnt), several, fid)
                e.facts = model_facts
    finish_engine(R, e)


def distinct(atom):
    if atom[0] == 'is' and atom[1][0] == 'sym' and atom[2][0] == 'sym' and {atom[1][1], atom[2][1]} == {('i', 0), ('i', 1)}:
        return False
    return model_facts(atom)
