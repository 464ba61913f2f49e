"""C03: geometries, models, build states and the caller's collections are never changed."""
from .common import analyse, notes, where, place

SINKS = ('g1', 'g1 derived', 'g1 buffer', 'g2', 'g2 derived', 'buffer', 'polygons', 'exterior', 'transformed', 'pieces', 'filter')


def run(R):
    R.explain = ('Ownership analysis: an abstract object is owned by the call that created it until it is stored into '
                 'a model object, read back from one or handed over by an outside caller. A changing operation '
                 '(attribute or item store, list/set/dict/array method, in-place operator) on an object that is not '
                 'owned is a violation if the object is a geometry, a record or a build state, is reachable from '
                 'one, or comes from the caller.')
    R.rule('C03.value', 'no field of an existing geometry, record or build state is assigned')
    R.rule('C03.content', 'nothing reachable from an existing geometry, record or build state is changed')
    R.rule('C03.caller', 'no collection, array or mesh of the caller is changed')
    I, keys = analyse(R, ['main', 'forced', 'exact', 'api'], tracked=(), sweep=True, owned=True)
    values = {}
    seen = set()

    def reach(atoms, why):
        todo = [(a, why) for a in atoms]
        while todo:
            a, w = todo.pop()
            if a[0] != 'o' or a[1] in seen:
                continue
            o = I.heap[a[1]]
            if o.kind in ('frame', 'module', 'classobj'):
                continue
            seen.add(a[1])
            values[a[1]] = w
            for f, v in o.f.items():
                for b in v[0]:
                    todo.append((b, w if o.kind != 'inst' else 'part of ' + o.cls.split(':')[-1]))
    n = 0
    for k, v in I.log.items():
        if k[0] == 'sink' and v['key'] in SINKS:
            for i in v['all']:
                for a in i['value'][0]:
                    reach([a], 'result of a geometry operation')
                    n += 1
    R.require(n, 'no geometry operation returns anything')
    classes = {I.heap[x].cls for x in values if I.heap[x].kind == 'inst'}
    R.require(any('Geom1D' in c for c in classes) and len(classes) >= 3, 'the geometry classes are not found among the results')
    records = {c for c in I.p.class_by_cid if I.record_fields(c) is not None}
    R.require(len(records) >= 4, 'the record classes of the model are not found')
    for oid, o in list(I.heap.items()):
        if o.kind == 'inst' and (o.cls in records or o.cls in classes):
            reach([('o', oid, 0)], o.cls.split(':')[-1])
    for c in sorted(classes | records):
        R.ok('C03.value', c)
    R.count('value classes', len(classes | records))
    R.count('objects that belong to values', len(values))
    total = 0
    for k, v in notes(I, 'mutate'):
        total += 1
        obj, op = v['obj'], v['op']
        if op.startswith('__') and op not in ('__setitem__', '__delitem__', '__iadd__', '__setattr__', '__ior__', '__iand__'):
            continue
        key = '%s %s in %s' % (op, v['name'] or v['okind'], place(v))
        if v['okind'] == 'inst' and (v['cls'] in classes or v['cls'] in records):
            if constructing(I, v):
                R.ok('C03.value', key)
            else:
                R.viol('C03.value', key, 'assigns %s of an existing %s' % (v['name'], v['cls'].split(':')[-1]), where(v), v['func'])
        elif v['okind'] == 'x':
            R.viol('C03.caller', key, 'changes %s' % (obj,), where(v), v['func'])
        elif driver_made(obj) or v['okind'] == 'ns':
            R.viol('C03.caller', key, 'changes a %s handed in by the caller' % v['okind'], where(v), v['func'])
        elif obj in values:
            if constructing(I, v):
                R.ok('C03.content', key)
            else:
                R.viol('C03.content', key, 'changes a %s that is %s' % (v['okind'], values[obj]), where(v), v['func'])
        else:
            R.ok('C03.content', key, 'object of the algorithm itself')
    R.count('changing operations on objects not owned by the current call', total)


def driver_made(oid):
    site = oid[0]
    return isinstance(site, tuple) and str(site[0]).startswith('drv_') and not str(site[-1]).startswith(('new:', 'any:'))


def constructing(I, v):
    """Every activation in which it happens is (a helper of) a constructor."""
    memo = {}

    def ctor(key, depth=0):
        if key is None or depth > 6:
            return False
        if key in memo:
            return memo[key]
        memo[key] = False
        s = I.sums[key]
        if s.fi.name in ('__init__', '__new__', '__post_init__'):
            memo[key] = True
        elif s.callers and s.fi.cls is not None:
            memo[key] = all(ctor(c, depth + 1) for c in s.callers)
        return memo[key]
    return all(ctor(k) for k in v['ctxs'])
