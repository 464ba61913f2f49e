"""Runs Engine A from a set of driver functions."""
import os
from .frontend import Program
from .absint import Interp, Activation, State, EMPTY, BOT

DRV = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'drivers')


def build(names, root='/repo', **config):
    p = Program(root, extra=[('drv_' + n, os.path.join(DRV, n + '.py')) for n in names])
    I = Interp(p, config)
    for n in names:
        I.modns('drv_' + n)
    return I


def activation(I, modname):
    m = I.p.modules[modname]
    a = Activation()
    a.s, a.fi, a.ctx, a.module, a.cls = None, None, ('import',), m, None
    a.ret, a.ret_must, a.yields, a.returns, a.kills = BOT, None, BOT, False, False
    a.collectors, a.loops, a.ndloops = [], [], []
    return a


def start(I, name, funcs=None):
    """Schedule driver functions of module drv_<name>; returns {function: summary key}."""
    mn = 'drv_' + name
    m = I.p.modules[mn]
    saved = I.cur, I.st
    I.cur, I.st = activation(I, mn), State({}, EMPTY, EMPTY)
    out = {}
    for s in m.tree.body:
        if s.__class__.__name__ == 'FunctionDef' and not s.name.startswith('_'):
            if funcs is not None and s.name not in funcs:
                continue
            fi = I.p.funcs[id(s)]
            I.curnode = s
            I.call_func(fi.fid, None, [], {}, s)
            out[s.name] = I.lastcall.key
    I.cur, I.st = saved
    return out


def sweep(I):
    """Analyse every function no driver reaches, on unknown arguments.  Returns their names."""
    from .absint import V, joinall
    from .libnp import VX
    from .frontend import FuncInfo
    I.run()
    done = {k[0] for k in I.sums}
    out = []
    saved = I.cur, I.st
    for fid, fi in sorted(I.p.func_by_fid.items()):
        if fid in done or fi.parent is not None or fi.is_lambda or fi.is_comp or not fi.module.rel.startswith('plycutter'):
            continue
        I.cur, I.st = activation(I, fi.module.name), State({}, EMPTY, EMPTY)
        I.curnode = fi.node
        decs = {getattr(d, 'id', getattr(d, 'attr', '')) for d in fi.node.decorator_list}
        recv = None
        if fi.cls is not None and 'staticmethod' not in decs:
            recv = V(('c', fi.cls.cid))
            if 'classmethod' not in decs:
                # a mixin or base class is met through its subclasses
                subs = [c for c in I.p.class_by_cid if c != fi.cls.cid and fi.cls.cid in I.mro(c)] if not I.instance_fields(fi.cls.cid) else []
                recv = joinall(shared(I.lib.any_instance(c, fi.node)) for c in subs or [fi.cls.cid])
        a = fi.args
        n = len(a.posonlyargs) + len(a.args) - (recv is not None)
        try:
            I.call_func(fid, None, [VX] * n, {x.arg: VX for x in a.kwonlyargs}, fi.node, recv)
        except Exception as e:
            raise
        out.append(fid)
    I.cur, I.st = saved
    return out


def shared(v):
    return (frozenset(('o', x[1], 0) if x[0] == 'o' else x for x in v[0]), v[1])
