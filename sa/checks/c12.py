"""C12: every option reaches the code it configures, unchanged."""
from .common import analyse, notes, where, place, is_driver
from . import effects

NUMERIC = ('thickness', 'min_finger_width', 'max_finger_width', 'support_radius', 'final_dilation', 'random_seed')
EXACT = {'mpq', 'int', 'frac', 'mpz'}
ARITH = {'Add', 'Sub', 'Mult', 'Div', 'FloorDiv', 'Lt', 'LtE', 'Gt', 'GtE'}


def ident(a):
    return a[2] if a[0] == 'n' else a[1] if a[0] in ('s', 'path') else None


def hint(param):
    """The option that a parameter name clearly asks for."""
    p = param.lower()
    if p in NUMERIC:
        return p
    toks = set(p.split('_'))
    if p in ('seed',):
        return 'random_seed'
    if toks & {'mn', 'min', 'minimum'} and not toks - {'mn', 'min', 'minimum', 'w', 'width', 'finger', 'len', 'length'}:
        return 'min_finger_width'
    if toks & {'mx', 'max', 'maximum'} and not toks - {'mx', 'max', 'maximum', 'w', 'width', 'finger', 'len', 'length'}:
        return 'max_finger_width'
    if 'dilation' in toks:
        return 'final_dilation'
    if toks >= {'support', 'radius'}:
        return 'support_radius'
    return None


def run(R):
    R.explain = ('Value-identity analysis: each option is an abstract value carrying its own identity, which '
                 'survives copies, dictionaries, parameters and exact conversions and is lost by any arithmetic; '
                 'the analysis reports with which identity values arrive at the places options configure.')
    R.absence = ('C12.sink', 'C12.file')
    R.rule('C12.parse', 'numeric options are parsed as exact rationals, the seed as an integer')
    R.rule('C12.sink', 'the option arrives unchanged where it is used')
    R.rule('C12.role', 'no parameter that names one option receives another one or a constant')
    R.rule('C12.file', 'the input name reaches the loader and the output name the writer unchanged')
    I, keys = analyse(R, ['main'], tracked=())
    # ---- parsing
    opts = {v['key']: v for k, v in notes(I, 'option')}
    for o in NUMERIC:
        v = opts.get(o)
        if v is None:
            R.viol('C12.parse', o, 'the option is not defined (or stored under another name)')
            continue
        kinds = {a[1] if a[0] == 'n' else a[0] for i in v['all'] for a in i['value'][0]}
        want = {'int'} if o == 'random_seed' else EXACT
        R.decide('C12.parse', o, kinds <= want, 'parsed as %s' % ', '.join(sorted(map(str, kinds))), where(v), v['func'])
    # ---- arithmetic and comparisons that use an option directly
    uses = {o: [] for o in NUMERIC}
    for k, v in notes(I, 'opt_use'):
        op, ia, ib, ca, cb = v['key']
        if op not in ARITH:
            continue
        for ids, otherconst in ((ia, cb), (ib, ca)):
            for o in ids:
                if not otherconst and o in uses:
                    uses[o].append(v)
    for o in ('thickness', 'min_finger_width', 'max_finger_width'):
        if uses[o]:
            R.ok('C12.sink', o, 'used directly at ' + ', '.join(sorted({where(v) for v in uses[o]})))
        else:
            R.viol('C12.sink', o, 'the value of --%s is never used unchanged in a computation' % o)
    # ---- random seed
    news = notes(I, 'rng_new')
    if not news:
        R.viol('C12.sink', 'random_seed', 'no random generator is seeded with --random_seed')
    for k, v in news:
        s = [i.get('seed') for i in v['all']]
        atoms = {a for x in s if x is not None for a in x[0]}
        ids = {ident(a) for a in atoms}
        ok = None not in s and ids == {('opt', 'random_seed')}
        if not ok and None not in s and ('opt', 'random_seed') in ids and all(
                i == ('opt', 'random_seed') or i is None and False for i in ids):
            ok = None
        R.decide('C12.sink', 'random_seed at ' + place(v), ok,
                 None if ok else 'the generator is seeded with %s' % (', '.join(map(str, ids)) or 'nothing'), where(v), v['func'])
    # ---- buffers
    inside = reach(I, ('canned_1', 'create_sheetplex'))
    found = {'support_radius': [], 'final_dilation': []}
    for k, v in notes(I, 'optarg'):
        fid, param, ids, kinds = v['key']
        name = fid.split(':')[-1].split('.')[-1]
        atoms = {a for i in v['all'] for a in i['value'][0]}
        pure = {ident(a) for a in atoms} == {('opt', x) for x in ids}
        if name == 'buffer' and ids:
            within = any(c in inside for c in v['ctxs'])
            outside = any(c not in inside for c in v['ctxs'])
            for o in ids:
                if o == 'support_radius' and within and not outside or o == 'final_dilation' and outside and not within:
                    if pure:
                        found[o].append(v)
                        R.ok('C12.role', 'buffer at %s:%s' % (place(v), o), where=where(v))
                    else:
                        R.undecided('C12.role', 'buffer at %s:%s' % (place(v), o), 'the amount may also be something else', where(v), v['func'])
                        found[o].append(v)
                else:
                    R.viol('C12.role', 'buffer at %s:%s' % (place(v), o), 'the amount of this buffer is the option %s' % o, where(v), v['func'])
        h = hint(param)
        if h is not None and name != 'buffer':
            got = {('opt', x) for x in ids}
            if got != {('opt', h)}:
                R.viol('C12.role', '%s parameter %s of %s' % (place(v), param, fid.split(':')[-1]),
                       'receives %s instead of %s' % (', '.join(ids), h), where(v), v['func'])
            elif not pure:
                R.undecided('C12.role', '%s parameter %s of %s' % (place(v), param, fid.split(':')[-1]),
                            'may also receive something else', where(v), v['func'])
            else:
                R.ok('C12.role', '%s parameter %s of %s' % (place(v), param, fid.split(':')[-1]), where=where(v))
    for o, vs in found.items():
        if vs:
            R.ok('C12.sink', o, 'amount of the buffer at ' + ', '.join(sorted({where(v) for v in vs})))
        else:
            R.viol('C12.sink', o, 'no buffer takes exactly the value of --%s' % o)
    # parameters that ask for an option but get none of its identity
    for key, s in sorted(I.sums.items(), key=lambda x: str(x[0])):
        if is_driver(s.fi.module.rel):
            continue
        for p, val in s.params.items():
            h = hint(p)
            if h is None or not val[0] or key not in inside:
                continue
            ids = {ident(a) for a in val[0] if a[0] == 'n'}
            nums = [a for a in val[0] if a[0] == 'n']
            lbl = 'parameter %s of %s:%s' % (p, s.fi.module.rel, s.fi.qualname)
            if nums and not any(i and i[0] == 'opt' for i in ids) and h in p_known(s):
                R.viol('C12.role', lbl, 'receives a value that is not --%s' % h, '%s:%d' % (s.fi.module.rel, s.fi.node.lineno), s.fi.qualname)
    # ---- files
    loads = [v for k, v in effects.all_calls(I) if v['name'] in ('trimesh.load', 'trimesh.load_mesh')]
    if not loads:
        R.undecided('C12.file', 'infile', 'no call of the mesh loader was recognised')
    for v in loads:
        ids = {ident(a) for i in v.get('all', [v]) for x in i['args'][:1] for a in x[0]}
        ok = ids == {('opt', 'infile')}
        R.decide('C12.file', 'infile at ' + place(v), ok if ok or None not in ids else None, 'loads %s' % ', '.join(map(str, ids)), where(v), v['func'])
    for k, v in notes(I, 'save'):
        ids = {ident(a) for i in v['all'] for x in i['args'][:1] for a in x[0]}
        want = {('opt', 'output_file'), ('sfx', ('opt', 'infile'), '.dxf')}
        ok = ids == want
        R.decide('C12.file', 'output_file at ' + place(v), ok if ok or None not in ids else None,
                 None if ok else 'writes to %s' % ', '.join(map(str, ids)), where(v), v['func'])


def p_known(s):
    """Options a function is known to receive, by its parameter names (two or more make a pattern)."""
    hs = [hint(p) for p in s.params]
    hs = {h for h in hs if h}
    return hs if len(hs) >= 2 or 'thickness' in hs else set()


def reach(I, roots):
    """Activations reachable from the functions with these names."""
    callees = {}
    for k, s in I.sums.items():
        for c in s.callers:
            callees.setdefault(c, set()).add(k)
    work = [k for k, s in I.sums.items() if s.fi.name in roots]
    out = set(work)
    while work:
        for c in callees.get(work.pop(), ()):
            if c not in out:
                out.add(c)
                work.append(c)
    return out
