"""C04: the written outlines are a function of the mesh and the options only."""
from .common import analyse, notes, where, place


def run(R):
    R.explain = ('Non-determinism analysis: iteration order of sets and of address-hashed containers, object '
                 'identities, unseeded generators, clocks and the environment are sources; marks follow values, '
                 'container order, loop-carried variables and control dependences; sorting, order-insensitive '
                 'reductions and exact set algebra remove them. No mark may reach an outline given to the DXF '
                 'writer, the order in which outlines are given, or the use of the seeded generator.')
    R.rule('C04.outline', 'coordinates and vertex order handed to the DXF writer carry no order or identity mark')
    R.rule('C04.sequence', 'outlines are not written in an order that depends on hashing or addresses')
    R.rule('C04.draws', 'the seeded generator is not drawn from, or its result used, in an order that depends on hashing or addresses')
    R.rule('C04.seed', 'every random generator is seeded with a value free of such marks')
    I, keys = analyse(R, ['main'], tracked=('ORD', 'EL', 'LC', 'NDO'))
    tt = lambda t: sorted({str(x) for x in t if x[0] == 'ORD'})
    adds = notes(I, 'dxf_add')
    R.require(adds, 'no call that adds an outline to the drawing is reached')
    for k, v in adds:
        m = [x for i in v['all'] for x in tt(i['t'])]
        R.decide('C04.outline', '%s in %s' % (v['key'], place(v)), not m, explain(R, 'outline', m), where(v), v['func'])
        nd = [x for i in v['all'] for x in i['nd']]
        R.decide('C04.sequence', '%s in %s' % (v['key'], place(v)), not nd,
                 'written in the order of an unordered collection: %s' % nd[:2] if nd else None, where(v), v['func'])
    for k, v in notes(I, 'rng_draw'):
        m = [x for i in v['all'] for x in tt(i['t'])]
        nd = [x for i in v['all'] for x in i['nd']]
        bad = m or nd or any(i.get('inloop') for i in v['all'])
        R.decide('C04.draws', '%s in %s' % (v['key'], place(v)), not bad,
                 'drawn in an order that depends on %s' % (nd or m)[:2] if bad else None, where(v), v['func'])
    for k, v in notes(I, 'rng_new'):
        from ..absint import NONE
        s = [i.get('seed') for i in v['all']]
        bad = any(x is None or NONE in x[0] or tt(x[1]) for x in s)
        R.decide('C04.seed', place(v), not bad, 'unseeded or seeded with a varying value' if bad else None, where(v), v['func'])
    R.count('unordered iterations found', len(notes(I, 'ndloop')) + len(notes(I, 'ndcomp')))
    for k, v in notes(I, 'ndloop') + notes(I, 'ndcomp'):
        R.sample('unordered iteration at %s in %s' % (where(v), v['func']))


def explain(R, what, marks):
    if not marks:
        return None
    return 'depends on an order or identity that varies between runs (%s); run with origins for the source' % marks[0]
