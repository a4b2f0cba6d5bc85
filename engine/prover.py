"""Runs the obligations of one contract in the current process (forked from a parent that has loaded the lowered code)."""
import ast
import time
import traceback

import z3

from . import sym, rt, contract as C
from .hlist import AUTO
from .sym import Engine, Undecided, PathEnd


def load(src):
    import collections
    import math
    import os
    import sys
    import warnings
    warnings.simplefilter('ignore')
    from . import loader, loops, hooks, hlist
    cfg = loader.Config(src=src, transform=loops.transform, shims=None, builtins=hlist.install_builtins(),
                        inject={'__eng__': hooks.HOOKS})
    import numpy as np
    import dnutils
    shims = sym.Shims([(np, sym.NpShim()), (math, sym.MathShim()), (dnutils.first, hlist.s_first(dnutils.first)),
                       (collections.deque, hlist.s_deque(collections.deque))])
    cfg.shims = shims
    loader.install(cfg)
    import jpt.base.intervals, jpt.base.functions, jpt.base.cutils  # noqa
    return cfg


def discharge(c, timeout_ms=6000, deadline_s=60, max_paths=4000):
    """all obligations of contract c -> result dict (picklable)"""
    t0 = time.time()
    dropped, spent = set(), [0.0, 0, 0]

    def engine():
        E = Engine(fp_mode=c.mode, timeout_ms=c.opts.get('timeout_ms', timeout_ms),
                   max_paths=c.opts.get('max_paths', max_paths),
                   deadline=t0 + c.opts.get('deadline', deadline_s))
        E.loop_contracts = dict(c.loops)
        E.track_lists = c.track_lists
        E.max_unroll = c.opts.get('max_unroll', 12)
        E.sort_relations = list(c.opts.get('sort', ()))
        E.auto_dropped = dropped
        if c.opts.get('opaque'):
            from .sym import Opaque
            E.opaque = Opaque()
        return E
    E = engine()
    res = {'cid': c.cid, 'target': c.target, 'bounded': c.bounded, 'mode': c.mode, 'uses': list(c.uses)}
    patches = install_stubs(c)
    rt.TRACK = E.touch
    reason = None
    try:
        while True:
            stop = None
            try:
                E.run(lambda: c.symbolic(E))
            except Undecided as e:
                stop = e
            bad = {o.name.split(AUTO, 1)[1].split('|')[0] for o in E.obligations if AUTO in o.name and
                   o.result != 'proved'}
            if not bad:
                if stop is not None:
                    raise stop
                break
            if time.time() > t0 + c.opts.get('deadline', deadline_s):
                raise Undecided('time limit')
            dropped |= {ast.literal_eval(b) for b in bad}      # a candidate invariant is not inductive: without it
            spent = [spent[0] + E.solver_time, spent[1] + E.queries, spent[2] + E.paths]
            sym.ENG = None
            E = engine()
    except Undecided as e:
        reason = str(e)
    except RecursionError:
        reason = 'recursion limit'
    except z3.Z3Exception as e:
        reason = 'solver: %s' % e
    except Exception as e:
        reason = 'engine: %s: %s | %s' % (type(e).__name__, str(e)[:200],
                                          traceback.format_exc().strip().split('\n')[-3].strip())
    finally:
        rt.TRACK = None
        sym.ENG = None
        for o, n, v in patches:
            delattr(o, n) if v is MISSING else setattr(o, n, v)
    if reason is None and E.entered == 0:
        reason = 'vacuous: the precondition is unsatisfiable'
    if reason is None and E.exited == 0:
        reason = 'vacuous: no path reaches the postcondition'
    missing = [k for k in c.loops if k not in E.loop_used]
    if reason is None and missing and not c.opts.get('optional_loops'):
        reason = 'loop contract not matched by the code: %s' % ', '.join(missing)
    obl = {}
    for o in E.obligations:
        d = obl.setdefault(o.name, {'n': 0, 'proved': 0, 'refuted': 0, 'unknown': 0, 'values': [], 'time': 0.0,
                                    'backends': []})
        d['n'] += 1
        d[o.result] += 1
        d['time'] += o.time
        if o.result == 'proved' and o.backend not in d['backends']:
            d['backends'].append(o.backend)
        if o.result == 'refuted' and len(d['values']) < 4:
            d['values'].append(o.values)
    n = sum(d['n'] for d in obl.values())
    pr = sum(d['proved'] for d in obl.values())
    if reason is None and n == 0:
        reason = 'vacuous: no obligations generated'
    if any(d['refuted'] for d in obl.values()):
        status = 'refuted'
    elif reason is None and pr == n:
        status = 'proved'
    else:
        status = 'undecided'
        if reason is None:
            reason = 'unknown: ' + '; '.join(k for k, d in obl.items() if d['unknown'])[:300]
    res.update(status=status, reason=reason, obligations=n, discharged=pr, paths=E.paths + spent[2], queries=E.queries + spent[1],
               solver_time=round(E.solver_time + spent[0], 3), time=round(time.time() - t0, 3), detail=obl,
               loops=sorted(E.loop_used))
    return res


MISSING = object()


def install_stubs(c):
    """replace callees by the stubs derived from their contracts"""
    import importlib
    patches = []
    fn = c.function()      # resolve before patching: the function under proof itself is never replaced
    c.function = lambda fn=fn: fn
    for u in c.uses:
        stub = C.STUBS[u]
        mod, name = u.split('/')[0].split(':')
        o = importlib.import_module(mod)
        parts = name.split('.')
        for p in parts[:-1]:
            o = getattr(o, p)
        raw = o.__dict__.get(parts[-1]) if isinstance(o, type) else getattr(o, parts[-1], MISSING)
        patches.append((o, parts[-1], raw))
        if isinstance(stub, C.Value):
            setattr(o, parts[-1], stub.v)
            continue
        if isinstance(stub, C.Wrap):
            setattr(o, parts[-1], stub.f(raw))
            continue
        rawf = raw.__func__ if isinstance(raw, staticmethod) else raw.fget if isinstance(raw, property) else raw

        def new(*a, _s=stub, _r=rawf, **k):
            return _s(_r, *a, **k)
        stub = new
        if isinstance(raw, property):
            new = property(stub)
        elif isinstance(raw, staticmethod):
            new = staticmethod(stub)
        setattr(o, parts[-1], new)
    return patches
