"""C02: inexact numbers are refused where exact geometry is built."""
from .common import analyse, notes

ENTRY = {'convert': 'exact conversion', 'interval': '1D interval end point', 'buffer1': '1D buffer amount',
         'buffer2': '2D buffer amount', 'polygon': 'polygon vertex coordinate', 'fraction': 'across-joint fraction'}
EXACT = {'mpq', 'int', 'mpz', 'frac'}


def run(R):
    R.explain = ('Abstract interpretation of every entry point on an unknown inexact number (float, numpy float, '
                 'nan, infinity, text), calls with numbers of different kinds kept apart: the entry point is '
                 'analysed to have no normal exit, so on every path the number is refused. Exact numbers carry '
                 'an identity that only a value-preserving conversion keeps.')
    R.absence = ('C02.accept',)
    R.rule('C02.refuse', 'no path through the entry point returns normally for an inexact number')
    R.rule('C02.value', 'an exact number is converted to the rational of the same value')
    R.rule('C02.accept', 'exact numbers and permitted infinities are accepted')
    I, keys = analyse(R, ['inexact'], tracked=(), kg=2, km=2, kindctx=True)
    n = 0
    for fn, key in sorted(keys['inexact'].items()):
        if fn.startswith('refuse_'):
            n += 1
            what = ENTRY.get(fn.split('_')[1], fn)
            s = I.sums[key]
            R.decide('C02.refuse', fn, not s.returns,
                     ('%s: refused on every path' if not s.returns else '%s: a path accepts an inexact number') % what + ' (%s)' % fn[7:],
                     None, fn[7:])
        elif fn.startswith('accept_'):
            R.decide('C02.accept', fn, I.sums[key].returns, '%s can return' % fn)
    sinks = 0
    for (kind, rel, line, col, k), v in sorted(I.log.items(), key=str):
        if kind != 'sink':
            continue
        sinks += 1
        for i in v['all']:
            bad = [a for a in i['value'][0] if a[0] != 'n' or
                   (a[1] in EXACT and a[2] != ('in', 'n')) or (a[1] not in EXACT and a[1] != 'inf')]
            R.decide('C02.value', k, not bad, '%s: %s' % (k, 'same value' if not bad else 'may be changed: %s' % (bad[0],)))
    R.count('entry points tried with inexact numbers', n)
    R.require(n >= 12 and sinks >= 3, 'entry points not analysed')
