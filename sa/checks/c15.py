"""C15: exactly the requested output file is written, and nothing else happens outside the process."""
from .common import analyse, where, place
from . import effects

WANTED = {('opt', 'output_file'), ('sfx', ('opt', 'infile'), '.dxf')}


def run(R):
    R.explain = ('Effect analysis: every call of an external function or method that the command line can reach '
                 '(and every call made while the modules are imported) is classified; file-writing calls must '
                 'have as their file name exactly the output option or the input name with suffix .dxf, traced '
                 'by value identity through parsing, pathlib and every intermediate call.')
    R.rule('C15.effect', 'no reachable external call writes another file, starts a process or opens a connection')
    R.rule('C15.target', 'the file written is the output option or the input name with the extension .dxf')
    R.rule('C15.once', 'one place writes the output file, outside any loop')
    I, keys = analyse(R, ['main'], tracked=())
    writes = effects.file_writes(I)
    seen = set()
    for k, v in effects.all_calls(I):
        e = effects.effect(v['name'], v)
        key = '%s in %s' % (v['name'], place(v))
        if e == 'world':
            R.viol('C15.effect', key, 'reaches outside the process', where(v), v['func'])
        else:
            seen.add(v['name'])
            R.ok('C15.effect', key, where=where(v))
    R.count('distinct external functions reached', len(seen))
    R.count('external call sites', len(effects.all_calls(I)))
    got = set()
    for k, v in writes:
        ids = set()
        for i in v['all']:
            a = list(i.get('args') or ()) + [x for n, x in (i.get('kwargs') or {}).items()
                                             if n in ('filename', 'file', 'path', 'fname', 'file_obj')]
            vals = [x for x in a[:1]] or ([] if k[0] == 'save' else [])
            if not vals:
                ids.add(None if k[0] == 'save' else ('no name',))
            for x in vals:
                ids |= {(z[1] if z[0] in ('s', 'path') else ('other',)) for z in x[0]}
        key = '%s in %s' % (v.get('method') or v.get('name'), place(v))
        bad = [x for x in ids if x is not None and x not in WANTED]
        if bad:
            R.viol('C15.target', key, 'writes a file whose name is %s' % ', '.join(map(show, bad)), where(v), v['func'])
        elif None in ids:
            if k[0] == 'save':
                R.undecided('C15.target', key, 'the file name could not be traced', where(v), v['func'])
            else:
                R.viol('C15.effect', key, 'writes or changes a file other than the output', where(v), v['func'])
        else:
            R.ok('C15.target', key, 'name is one of ' + ', '.join(map(show, ids)), where(v))
        got |= {x for x in ids if x in WANTED}
        if k[0] == 'save' and v.get('nd') is not None:
            pass
    R.decide('C15.once', 'writing places', len(writes) == 1, '%d places write files' % len(writes))
    if writes and not any(o['status'] != 'ok' for o in R.obs.values()):
        for w in sorted(WANTED, key=str):
            R.decide('C15.target', 'used: ' + show(w), w in got, None if w in got else 'the output is never written under this name')


def show(x):
    if x[0] == 'opt':
        return 'option ' + x[1]
    if x[0] == 'sfx':
        return 'the %s with suffix %r' % (show(x[1]) if isinstance(x[1], tuple) else x[1], x[2])
    if x[0] == 'c':
        return repr(x[1])
    if x[0] == 'mix':
        return 'an option text combined with something else'
    return str(x)
