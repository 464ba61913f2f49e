"""C05: no operation keeps memory of earlier calls (Engine A, HIST marks)."""
from .common import analyse, notes, where, place, is_driver

DRIVERS = ['main', 'exact', 'api']


def run(R):
    R.explain = ('Abstract interpretation of the whole program from the command line and from a client '
                 'calling every public operation: every read of a module variable, class attribute, default '
                 'argument or other object created at import time that some call changes is marked; the mark '
                 'follows data and control dependences. No returned value, stored field, external call or '
                 'written outline may carry it.')
    R.rule('C05.return', 'no value returned by a function depends on state left by earlier calls')
    R.rule('C05.store', 'nothing stored in an object depends on state left by earlier calls')
    R.rule('C05.output', 'no outline, file name, random seed or random draw depends on state left by earlier calls')
    I, keys = analyse(R, DRIVERS, tracked=('HIST',))
    hist = lambda t: sorted(x[1] for x in t if x[0] == 'HIST')
    for k, s in I.sums.items():
        if is_driver(s.fi.module.rel):
            continue
        what = '%s:%s' % (s.fi.module.rel, s.fi.qualname)
        h = hist(s.ret[1]) + hist(s.yields[1])
        if len(s.ret[0]) == 1 and next(iter(s.ret[0])) == ('none',) and not s.yields[0]:
            h = []                  # the result is None in any case
        if h:
            R.viol('C05.return', what, 'the result depends on %s, which earlier calls change' % ', '.join(h),
                   '%s:%d' % (s.fi.module.rel, s.fi.node.lineno), s.fi.qualname)
        else:
            R.ok('C05.return', what)
    R.count('module variables rebound by calls', len(I.global_mutated))
    for oid, o in I.heap.items():
        for f, v in o.f.items():
            h = hist(v[1])
            if not h:
                continue
            if o.kind == 'module' and all(x == '%s.%s' % (o.site[0], f) for x in h):
                continue            # a counter that only feeds itself
            R.viol('C05.store', '%s.%s' % (I.describe(oid), f), 'stores something that depends on %s' % ', '.join(h),
                   '%s:%s' % (o.site[0], o.site[1]))
    R.ok('C05.store', 'all %s' % 'objects')
    for kind in ('dxf_add', 'rng_draw', 'save'):
        for k, v in notes(I, kind):
            h = sorted({x for i in v.get('all', [v]) for x in hist(i.get('t') or ())})
            R.decide('C05.output', '%s %s' % (kind, place(v)), not h, ', '.join(h) or None, where(v), v['func'])
    for k, v in notes(I, 'rng_new'):
        h = hist(v['seed'][1]) if v.get('seed') else []
        R.decide('C05.output', 'rng_new ' + place(v), not h, ', '.join(h) or None, where(v), v['func'])
    # every branch on remembered state is listed as evidence
    n = 0
    for k, v in notes(I, 'branch'):
        h = hist(v['taints'])
        if h:
            n += 1
            R.sample('branch on %s at %s in %s: only runs or skips work whose results carry no mark' % (h, where(v), v['func']))
    R.count('branches on remembered state', n)
