"""C14: the file is written last, after a forced check, and no failure is swallowed (Engine A)."""
from .common import analyse, notes, where, place
from . import effects


def run(R):
    R.explain = ('Abstract interpretation from the command line: for the place that writes the file, the set of '
                 'calls and guards that have certainly completed before it (must analysis through all calls; '
                 'creating a new build state cancels earlier guards) is compared with the guards a forced sanity '
                 'check of any build state certainly passes; exception handlers that catch everything must not '
                 'complete normally.')
    R.absence = ('C14.pipeline', 'C14.forced', 'C14.empty')
    R.rule('C14.pipeline', 'model creation and joint generation have completed before the file is written')
    R.rule('C14.forced', 'every assertion of a forced sanity check has been passed by the final build state before the file is written')
    R.rule('C14.swallow', 'no handler reached from the command line that catches all errors completes normally')
    R.rule('C14.empty', 'a model without sheets is refused before the file is written')
    I, keys = analyse(R, ['main', 'forced'], tracked=(), must=True)
    fs = I.sums[keys['forced']['forced']]
    req = sorted(x for x in (fs.ret_must or ()) if x[0] == 'guard' and x[1].startswith('plycutter'))
    R.count('assertions a forced check certainly passes', len(req))
    if not fs.returns:
        R.require(False, 'a forced check of an arbitrary state never returns')
    em = I.entry_must()
    writes = effects.file_writes(I)
    R.count('places that write files', len(writes))
    if not writes:
        R.viol('C14.pipeline', 'no write', 'nothing is ever written')
    pipeline = {f for f in I.p.func_by_fid if f.endswith((':canned_1', ':create_sheetplex', ':create_sheetbuild'))}
    for k, v in writes:
        must = None
        for i, c in zip(v['all'], v['allctx']):
            m = (i.get('must') or frozenset()) | em.get(c, frozenset())
            must = m if must is None else must & m
        done = {x[1] for x in must if x[0] == 'call'}
        for f in sorted(pipeline):
            R.decide('C14.pipeline', '%s before %s' % (f, place(v)), f in done,
                     None if f in done else '%s may not have completed when the file is written' % f, where(v), v['func'])
        if not req:
            R.viol('C14.forced', 'forced check', 'a forced sanity check asserts nothing')
        for g in req:
            ok = g in must
            R.decide('C14.forced', 'assertion %s:%d before %s' % (g[1], g[2], place(v)), ok,
                     None if ok else 'the file can be written although the assertion at %s:%d was not evaluated on the final state' % (g[1], g[2]),
                     where(v), v['func'])
        R.sample('before %s: %d calls and guards completed' % (where(v), len(must)))
    n = 0
    for k, v in notes(I, 'handler'):
        n += 1
        bad = v['broad'] and any(i['completes'] for i in v['all'])
        R.decide('C14.swallow', 'handler %s in %s' % (v['key'], place(v)), not bad,
                 'catches every error and goes on' if bad else None, where(v), v['func'])
    R.count('exception handlers reached', n)
    w, returns, n = effects.empty_run(R)
    R.count('contexts analysed for a model without sheets', n)
    for k, v in w:
        R.viol('C14.empty', 'model without sheets: ' + place(v), 'the file is written although the model has no sheets',
               where(v), v['func'])
    if not w:
        R.decide('C14.empty', 'model without sheets', not returns,
                 'a run on a model without sheets ends normally' if returns else None)
