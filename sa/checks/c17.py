"""C17: no name, attribute, field, key or argument list dangles."""
import ast
import builtins
import symtable

from .. import drive
from .common import analyse, notes, where

SURE = {'arity': 'call does not fit the parameters', 'notcallable': 'called, but is no function',
        'badfield': 'no such field in the record', 'unbound': 'read before anything is assigned',
        'missing_attr': 'no such attribute', 'badindex': 'index outside the sequence',
        'unset_field': 'attribute that is never set', 'missing_key': 'key that is never there',
        'record_assign': 'assignment to a field of an immutable record', 'unpack': 'wrong number of values to unpack'}


def run(R):
    R.explain = ('(1) every name read in any function resolves to a local, an enclosing, a module or a built-in name, '
                 'and every attribute of a repository module that is used exists (whole tree, reachable or not); '
                 '(2) every function is analysed with the values that can reach it (or unknown ones if nothing calls '
                 'it): an attribute, record field, key or argument list that fails for every possible value at that '
                 'point is a violation; (3) a variable that some path leaves unbound where it is read.')
    R.rule('C17.name', 'each name read exists in some enclosing scope')
    R.rule('C17.module', 'each attribute of a repository module exists')
    R.rule('C17.use', 'no operation fails for all values that can reach it')
    R.rule('C17.bound', 'no path reaches the read of a variable without binding it')
    I, keys = analyse(R, ['main', 'forced', 'exact', 'api'], tracked=(), sweep=True)
    names(R, I.p)
    fine = 0
    where_dead = []
    for kind, why in SURE.items():
        for k, v in notes(I, kind):
            pos = (k[1], k[2], k[3]) + v['end']
            dead = (I.dead.get(pos, set()) & v['ctxs']) - I.live.get(pos, set())
            key = '%s %s in %s' % (kind, v['key'], v['func'])
            if dead and not guarded(I.p, k[1], v['line'], k[3]):
                R.viol('C17.use', key, '%s: %s' % (why, describe(v)), where(v), v['func'])
                where_dead.append(pos)
            else:
                fine += 1
    R.count('operations that fail for some modelled values only (not counted)', fine)
    R.count('operations evaluated', len(I.live))
    for fid in {k[0] for k in I.sums}:
        R.ok('C17.use', fid)
    for k, v in notes(I, 'maybe_unbound'):
        d = correlated(I.p, k[1], k[2], k[3], v['key'])
        R.decide('C17.bound', '%s in %s' % (v['key'], v['func']), None if d else False,
                 'may be read before it is bound' + (' (%s)' % d if d else ''), where(v), v['func'])


def describe(v):
    return ', '.join('%s=%s' % (x, v[x]) for x in ('name', 'what', 'field', 'cls', 'callee', 'err') if x in v) or str(v['key'])


def tree(p, rel):
    for m in p.modules.values():
        if m.rel == rel:
            return m.tree
    return None


def parents(t):
    par = {}
    for n in ast.walk(t):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    return par


def locate(t, line, col):
    best = None
    for n in ast.walk(t):
        if getattr(n, 'lineno', None) == line and getattr(n, 'col_offset', None) == col and isinstance(n, ast.expr):
            best = best or n
    return best


def guarded(p, rel, line, col):
    """Inside a try whose handlers expect the failure."""
    t = tree(p, rel)
    n = locate(t, line, col)
    par = parents(t)
    while n in par:
        up = par[n]
        if isinstance(up, ast.Try) and n in up.body:
            for h in up.handlers:
                x = ast.unparse(h.type) if h.type is not None else ''
                if h.type is None or any(e in x for e in ('AttributeError', 'KeyError', 'TypeError', 'IndexError', 'NameError', 'LookupError', 'ValueError')):
                    return True
        if isinstance(up, (ast.FunctionDef, ast.Lambda)):
            break
        n = up
    return False


def correlated(p, rel, line, col, name):
    """A reason why path-insensitivity may be to blame, or None."""
    t = tree(p, rel)
    n = next((x for x in ast.walk(t) if isinstance(x, ast.Name) and x.id == name and x.lineno == line and x.col_offset == col), None)
    if n is None:
        return 'not located'
    par = parents(t)

    def chain(x):
        out = []
        while x in par and not isinstance(x, (ast.FunctionDef, ast.Lambda)):
            out.append(x)
            x = par[x]
        return out, x
    use, fn = chain(n)
    for b in ast.walk(fn):
        if isinstance(b, ast.Name) and b.id == name and isinstance(b.ctx, ast.Store):
            bind, fn2 = chain(b)
            if fn2 is not fn:
                continue
            loops = [x for x in bind if isinstance(x, (ast.For, ast.While))]
            if any(x in use for x in loops):
                return 'bound earlier in the same loop'
            vars_b = {v.id for x in bind if isinstance(x, ast.If) for v in ast.walk(x.test) if isinstance(v, ast.Name)}
            vars_u = {v.id for x in use if isinstance(x, (ast.If, ast.IfExp, ast.While)) for v in ast.walk(x.test) if isinstance(v, ast.Name)}
            vars_u |= {v.id for x in use if isinstance(x, ast.BoolOp) for v in ast.walk(x) if isinstance(v, ast.Name)}
            if vars_b & vars_u:
                return 'binding and use depend on the same condition'
            if any(isinstance(x, (ast.While, ast.For, ast.Try, ast.With)) for x in bind):
                return 'bound in a loop or guarded block'
            # a flag set where the variable is bound decides the use
            for x in bind:
                if isinstance(x, ast.If):
                    flags = {t.id for s in ast.walk(x) if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
                    if flags & vars_u:
                        return 'a flag set with the binding decides the use'
    return None


# ------------------------------------------------------------------ names
def names(R, p):
    known = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__class__', '__spec__'}
    mods = [m for m in p.modules.values() if m.rel.startswith('plycutter') and '/tests/' not in m.rel]
    exports = {}
    for m in mods:
        st = symtable.symtable(m.source, m.rel, 'exec')
        top = {s.get_name() for s in st.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                top |= set(n.names)
        star = any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(m.tree))
        exports[m.name] = (top, star)
        bad = {}

        def walk(t):
            for s in t.get_symbols():
                if s.is_referenced() and s.is_global() or t.get_type() == 'module' and s.is_referenced():
                    if s.get_name() not in top and s.get_name() not in known and not star:
                        bad.setdefault(s.get_name(), t.get_name())
            for c in t.get_children():
                walk(c)
        walk(st)
        R.ok('C17.name', m.rel)
        guarded_names = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try) and any(h.type is None or 'NameError' in ast.unparse(h.type) for h in n.handlers):
                guarded_names |= {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name)}
        for name, fn in bad.items():
            if name in guarded_names:
                continue
            line = next((n.lineno for n in ast.walk(m.tree) if isinstance(n, ast.Name) and n.id == name), 0)
            R.viol('C17.name', '%s in %s:%s' % (name, m.rel, fn), 'no such name', '%s:%d' % (m.rel, line), fn)
    for m in mods:
        bound = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = package(m, n)
                for a in n.names:
                    if base is None or a.name == '*':
                        continue
                    full = base + '.' + a.name if base else a.name
                    if full in p.modules:
                        bound[a.asname or a.name] = full
                    elif base in exports:
                        R.decide('C17.module', '%s imports %s from %s' % (m.rel, a.name, base),
                                 a.name in exports[base][0] or exports[base][1], 'no such name in the module',
                                 '%s:%d' % (m.rel, n.lineno))
        stored = {n.id for n in ast.walk(m.tree) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        stored |= {a.arg for a in ast.walk(m.tree) if isinstance(a, ast.arg)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load):
                tgt = bound.get(n.value.id)
                if tgt in exports and n.value.id not in stored:
                    has = n.attr in exports[tgt][0] or exports[tgt][1] or tgt + '.' + n.attr in p.modules or n.attr in known
                    R.decide('C17.module', '%s uses %s.%s' % (m.rel, tgt, n.attr), has, 'no such name in the module',
                             '%s:%d' % (m.rel, n.lineno))


def package(m, n):
    if not n.level:
        return n.module if n.module and n.module.startswith('plycutter') else None
    parts = m.name.split('.')
    if not m.is_pkg:
        parts = parts[:-1]
    parts = parts[:len(parts) - (n.level - 1)]
    return '.'.join(parts + ([n.module] if n.module else []))
