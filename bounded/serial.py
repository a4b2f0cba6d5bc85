"""Bounded stand-ins for serialisation: JSON text round trip and pickling of everything that offers it."""
import json
import math
import pickle

from engine.bounded import bounded, Skip
from bounded import discrete
from bounded.dist import F, build, gen_dist, gen_sets, grid
from bounded.learn import gen_vars, gen_rows, labels_of, mkvars
from bounded.pwf import gen_pieces, spec, mkset, mkfun, at
from bounded.trees import gen_case, absolute, query_of, internal, setup, Model, frozen, cont, span

INF = math.inf


def text(x):
    return json.loads(json.dumps(x))


def both_ways(bad, what, obj, to, back, same, eq=True):
    """JSON text round trip and pickle; ``same(a, b)`` compares observable behaviour"""
    before = json.dumps(to(obj), default=repr, sort_keys=True)
    for how, f in (('JSON', lambda: back(text(to(obj)))), ('pickle', lambda: pickle.loads(pickle.dumps(obj)))):
        try:
            o = f()
        except Exception as e:
            bad.append('%s: %s fails with %s: %s' % (what, how, type(e).__name__, str(e)[:100]))
            continue
        if eq and not (o == obj and obj == o):
            bad.append('%s: %s does not yield an equal object' % (what, how))
        d = same(obj, o)
        if d:
            bad.append('%s: %s changes %s' % (what, how, d))
        if json.dumps(to(o), default=repr, sort_keys=True) != before:
            bad.append('%s: %s changes the JSON form' % (what, how))
    if json.dumps(to(obj), default=repr, sort_keys=True) != before:
        bad.append('%s: serialising changes the object' % what)


def alike(a, b):
    """equal up to rounding (derived parts are computed again after reading)"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, int)) and isinstance(b, (float, int)):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-12
    return a == b


# ------------------------------------------------------------------------------------------------ sets and functions
@bounded('C04', 'serial.sets', 500, about='intervals and unions (infinite, open, empty, overlapping pieces)')
class _:
    def gen(self, r):
        def one():
            p = [r.choice([None, -2., .1, 1e300, -0., 3.]), r.choice([None, 3., .1, 1e-300, 5.]), r.choice([1, 2]), r.choice([1, 2])]
            l, u = -INF if p[0] is None else p[0], INF if p[1] is None else p[1]
            if l > u:
                p[0], p[1] = p[1], p[0]
            if p[0] is None:
                p[2] = 2
            if p[1] is None:
                p[3] = 2
            return p
        return {'ss': [one() for _ in range(r.choice([1, 1, 2, 3, 5]))], 'op': r.choice(['none', 'simplify', 'complement', 'copy'])}

    def run(self, c):
        from jpt.base.intervals import RealSet, ContinuousSet
        bad = []
        s = mkset(c['ss'][0]) if len(c['ss']) == 1 else RealSet([mkset(p) for p in c['ss']])
        if c['op'] == 'simplify':
            s = s.simplify()
        elif c['op'] == 'complement':
            s = s.complement()
        elif c['op'] == 'copy':
            s = s.copy()
        pts = sorted({x for p in c['ss'] for x in p[:2] if x is not None} | {0., -5., 10., 1e301})

        def same(a, b):
            if [x for x in pts if a.contains_value(x) != b.contains_value(x)]:
                return 'membership'
            if isinstance(a, RealSet) and [repr(i) for i in a.intervals] != [repr(i) for i in b.intervals]:
                return 'the intervals'
            if isinstance(a, ContinuousSet) and (a.lower, a.upper, a.left, a.right) != (b.lower, b.upper, b.left, b.right):
                return 'the ends'
            if hash(a) != hash(b):
                return 'the hash'
        both_ways(bad, type(s).__name__, s, lambda o: o.to_json(), type(s).from_json, same)
        return bad


@bounded('C04', 'serial.functions', 500, about='constant, linear, quadratic, undefined and piecewise functions')
class _:
    def gen(self, r):
        v = lambda: r.choice([0., 1., -2.5, .1, 1e-300, 1e300, r.uniform(-5, 5)])   # noqa
        k = r.choice(['const', 'linear', 'quad', 'plf', 'plf', 'plf'])
        c = {'k': k, 'v': [v(), v(), v()]}
        if k == 'plf':
            c['ps'] = gen_pieces(r, 'cl')
            c['op'] = r.choice(['none', 'mul', 'crop', 'copy', 'integrate', 'undef'])
        return c

    def run(self, c):
        from jpt.base import functions as fn
        from jpt.base.intervals import ContinuousSet
        bad = []
        if c['k'] == 'plf':
            f = fn.PiecewiseFunction()
            for p in c['ps']:
                f.append(mkset(p), mkfun(p[4]))
            if c['op'] == 'mul':
                f = f * 2.5
            elif c['op'] == 'copy':
                f = f.copy()
            elif c['op'] == 'integrate':
                g = fn.PiecewiseFunction()
                for p in c['ps']:
                    g.append(mkset(p), fn.QuadraticFunction(*c['v']))
                f = g
            elif c['op'] == 'undef':
                g = fn.PiecewiseFunction()
                for i, p in enumerate(c['ps']):
                    g.append(mkset(p), fn.Undefined() if i % 2 else mkfun(p[4]))
                f = g
            xs = sorted({x for p in c['ps'] for x in p[:2] if x is not None and math.isfinite(x)})
            xs = xs + [(a + b) / 2 for a, b in zip(xs, xs[1:])] + [-100., 100.]
        else:
            f = {'const': lambda: fn.ConstantFunction(c['v'][0]), 'linear': lambda: fn.LinearFunction(*c['v'][:2]),
                 'quad': lambda: fn.QuadraticFunction(*c['v'])}[c['k']]()
            xs = [0., 1., -2., 1e10]

        def same(a, b):
            for x in xs:
                p, q = at(a, x) if c['k'] == 'plf' else a.eval(x), at(b, x) if c['k'] == 'plf' else b.eval(x)
                if not (p == q or p is not None and q is not None and math.isnan(p) and math.isnan(q)):
                    return 'the value at %r from %r to %r' % (x, p, q)
        back = fn.LinearFunction.from_json if c['k'] == 'const' else type(f).from_json
        both_ways(bad, c['k'] + c.get('op', ''), f, lambda o: o.to_json(), back, same)
        return bad


# ------------------------------------------------------------------------------------------------ distributions
@bounded('C04', 'serial.numeric', 400, about='fitted, merged, restricted and impulse numeric distributions, scaled and unscaled, '
                                             'and their quantile distributions')
class _:
    def gen(self, r):
        return {'d': gen_dist(r), 'scale': r.choice([None, [1., 2., 7.], [5.], [1e5, 3e5]]), 'name': r.choice(['X', 'Höhe [m]']),
                'sets': gen_sets(r)}

    def run(self, c):
        from jpt.distributions.univariate import NumericType, Numeric
        from jpt.distributions.univariate.distribution import Distribution
        from jpt.distributions.quantile.quantiles import QuantileDistribution
        import numpy as np
        bad = []
        cls = None if c['scale'] is None else NumericType(c['name'], np.array(c['scale']))
        d = build(c['d'], cls)
        f = F(d)
        xs = [x for x in grid(f)]

        def same(a, b):
            g = F(b)
            for x in xs:
                if F(a).at(x) != g.at(x):
                    return 'the distribution function at %r' % x
                p, q = a.pdf.eval(x), b.pdf.eval(x)
                if not (math.isnan(p) and math.isnan(q) or alike(p, q)):
                    return 'the density at %r' % x
            for q in (.1, .5, .9, 1.):
                if a.ppf.eval(q) != b.ppf.eval(q):
                    return 'the quantile at %r' % q
        both_ways(bad, 'QuantileDistribution', d._quantile, lambda o: o.to_json(), QuantileDistribution.from_json, same)

        def same2(a, b):
            if a.settings != b.settings:
                return 'the settings'
            for x in xs:
                if a.value2label(x) != b.value2label(x) or a.label2value(x) != b.label2value(x):
                    return 'the conversion of %r' % x
            size = max(abs(a.value2label(x)) for x in xs)
            if abs(a.expectation() - b.expectation()) > 1e-9 * size or abs(a.variance() - b.variance()) > 1e-9 * size * size:
                return 'the moments'      # up to rounding: they are computed from the density, which is derived again
            return same(a, b)
        both_ways(bad, 'Numeric' if cls is None else 'ScaledNumeric', d, lambda o: o.to_json(), type(d).from_json, same2)
        t = type(d)
        t2 = Distribution.from_json(text(t.type_to_json()))
        if not (t.equiv(t2) and t2.equiv(t)) or t.hash() != t2.hash():
            bad.append('the type reads back as an equivalent type')
        both_ways(bad, 'distribution with its type', d, lambda o: o.to_json(), t2.from_json, same2)
        return bad


@bounded('C04', 'serial.discrete', 400, about='symbolic, Boolean and integer distributions of arbitrary domains after operations')
class _:
    def gen(self, r):
        dom = discrete.gen_domain(r)
        n = len(discrete.labels_of(dom))
        return {'dom': dom, 'p': discrete.gen_params(r, n), 'q': discrete.gen_params(r, n), 'op': r.choice(['set', 'merge', 'crop', 'fit']),
                'data': [r.randrange(n) for _ in range(5)]}

    def run(self, c):
        import numpy as np
        from jpt.distributions.univariate.distribution import Distribution
        bad = []
        t = discrete.mktype(c['dom'], 'Ding')
        d = t().set(list(c['p']))
        if c['op'] == 'merge':
            d = t.merge([d, t().set(list(c['q']))], [.25, .75])
        elif c['op'] == 'crop':
            d = d._crop({i for i, p in enumerate(c['p']) if p > 0})
        elif c['op'] == 'fit':
            d = t()._fit(np.array([[float(x)] for x in c['data']]), col=0)
        ls = discrete.labels_of(c['dom'])

        def same(a, b):
            if [float(x) for x in a._params] != [float(x) for x in b._params]:
                return 'the probabilities'
            if a.settings != b.settings:
                return 'the settings'
            for i, l in enumerate(ls):
                if a.p({l}) != b.p({l}) or a.value2label(i) != b.value2label(i) or a.label2value(l) != b.label2value(l):
                    return 'label %r' % (l,)
                if type(b.value2label(i)) is not type(l):
                    return 'the type of label %r' % (l,)
        t2 = Distribution.from_json(text(t.type_to_json()))
        if not (t.equiv(t2) and t2.equiv(t)) or t.hash() != t2.hash():
            bad.append('the type reads back as an equivalent type')
        both_ways(bad, c['dom']['k'], d, lambda o: o.to_json(), t.from_json, same)
        both_ways(bad, c['dom']['k'] + ' with its type', d, lambda o: o.to_json(), t2.from_json, same)
        return bad


# ------------------------------------------------------------------------------------------------ variables and trees
@bounded('C04', 'serial.variables', 300, about='variables of all kinds with non-default settings, and assignments of labels')
class _:
    def gen(self, r):
        vs = gen_vars(r, n=3)
        rows = gen_rows(r, vs, n=6)
        return {'vs': vs, 'rows': rows, 'mii': r.choice([None, .25]), 'blur': r.choice([None, .5]), 'std': r.choice([None, .125]),
                'prec': r.choice([None, 0., .0625]), 'inv': r.choice([None, True, False]),
                'val': [r.choice(['scalar', 'set', 'union']) for _ in vs], 'pick': r.random()}

    def run(self, c):
        import copy
        from jpt.variables import NumericVariable, SymbolicVariable, IntegerVariable, Variable, LabelAssignment
        from jpt.base.intervals import ContinuousSet, RealSet
        bad = []
        vs = []
        for v in mkvars(c['vs'], c['rows']):
            if v.numeric:
                vs.append(NumericVariable(v.name, v.domain, c['mii'], c['blur'], c['std'], c['prec']))
            elif v.symbolic:
                vs.append(SymbolicVariable(v.name, v.domain, c['mii'], c['inv']))
            else:
                vs.append(IntegerVariable(v.name, v.domain, c['mii']))

        def same(a, b):
            if a.settings != b.settings:
                return 'the settings %r to %r' % (a.settings, b.settings)
            if a.name != b.name or hash(a) != hash(b):
                return 'the name or hash'
            if (a.numeric, a.symbolic, a.integer) != (b.numeric, b.symbolic, b.integer):
                return 'the kind'
            if a.distribution().settings != b.distribution().settings:
                return 'the settings of distributions'
        for k, v in enumerate(vs):
            both_ways(bad, type(v).__name__, v, lambda o: o.to_json(), Variable.from_json, same)
            for o in (v.copy(), copy.deepcopy(v)):
                if o != v or same(v, o):
                    bad.append('copying a %s changes %s' % (type(v).__name__, same(v, o)))
        a = LabelAssignment(variables=vs)
        for j, (v, d, k) in enumerate(zip(vs, c['vs'], c['val'])):
            x, y = c['rows'][0][j], c['rows'][-1][j]
            if cont(d):
                a[v] = x if k == 'scalar' else ContinuousSet(min(x, y), max(x, y)) if k == 'set' else RealSet([
                    ContinuousSet(x - 3, x - 2, 1, 2), ContinuousSet(x, -math.log(0.5) + x, 2, 1), ContinuousSet(x + 9, INF, 1, 2)])
            else:
                a[v] = x if k == 'scalar' else {x, y} if k == 'set' else set(labels_of(d))
        before = repr(a)
        b = LabelAssignment.from_json(vs, text(a.to_json()))
        if a != b or repr(a) != before:
            bad.append('an assignment of labels reads back as %r instead of %r' % (b, a))
        elif a.value_assignment() != b.value_assignment():
            bad.append('an assignment of labels reads back with other values')
        return bad


@bounded('C04', 'serial.trees', 250, about='learned and conditioned trees: equality, structure and answers after JSON, pickle, file '
                                           'and copy')
class _:
    def gen(self, r):
        c = gen_case(r)
        c['cond'] = r.random() < .4
        c['keep'] = r.random() < .4
        return c

    def run(self, c):
        import os
        import shutil
        import tempfile
        import numpy as np
        from jpt.trees import JPT
        tree, m = setup(c, keep_samples=c['keep'])
        bad = []
        if c['cond']:
            ie = internal(c, tree, absolute(c, c['e']))
            if m.P(ie) < 1e-6 or any(0 < l.P1(j, x) < 1e-6 for l in m.leaves for j, x in ie.items()):
                raise Skip
            tree = tree.conditional_jpt(tree.bind(query_of(c, tree, absolute(c, c['e']))))
        before = frozen(tree)
        events = [absolute(c, c[k]) for k in ('q', 'q2', 'e')]
        rows = np.array(c['rows'][:5], dtype=object)

        def answers(t):
            out = [t.infer(t.bind(query_of(c, t, e))) for e in events]
            mp, l = t.mpe()
            out += [l, [str(x) for x in mp], list(t.likelihood(rows)), [float(x) for x in t.encode(rows)]]
            out += [sorted((x.name, str(s)) for x, s in leaf.path.items()) for leaf in t.leaves.values()]
            out += [(leaf.idx, leaf.prior, leaf.samples, leaf.parent.idx if leaf.parent else None) for leaf in t.leaves.values()]
            out += [(n.idx, n.samples, n.variable.name, [x.idx for x in n.children], str(n.splits)) for n in t.innernodes.values()]
            out += [dict((v.name, x) for v, x in t.minimal_distances.items()), t.min_samples_leaf, t.max_depth,
                    t.min_impurity_improvement, [v.name for v in t.targets], [v.name for v in t.features], t.root.idx]
            out += [[list(map(int, leaf.s_indices)) for leaf in t.leaves.values()] if c['keep'] else None]
            out += [{v.name: [w.name for w in ws] for v, ws in t.dependencies.items()}]
            return out
        want = answers(tree)
        tmp = tempfile.mkdtemp(prefix='jptserial')
        try:
            path = os.path.join(tmp, 'tree')

            def file():
                tree.save(path)
                return JPT.load(path)
            for how, f in (('JSON', lambda: JPT.from_json(text(tree.to_json()))), ('pickle', lambda: pickle.loads(pickle.dumps(tree))),
                           ('file', file), ('copy', tree.copy)):
                t = f()
                if not (t == tree and tree == t):
                    bad.append('%s: the tree reads back as an equal tree' % how)
                got = answers(t)
                for g, w in zip(got, want):
                    if not alike(g, w):
                        bad.append('%s: %r instead of %r' % (how, g, w))
                        break
                if frozen(t) != before:
                    bad.append('%s: the same JSON form' % how)
            if frozen(tree) != before:
                bad.append('serialising changes the tree')
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return bad
