"""Bounded stand-ins for variables: conversion between labels and internal values, maps keyed by variables, queries."""
import copy
import json
import math

from engine.bounded import bounded, Skip
from bounded.dist import nset
from bounded.learn import gen_vars, gen_rows, labels_of, mkvars
from bounded.pwf import inside, lo, up
from bounded.trees import gen_tree, learn, cont, to_value, span, frozen

INF = math.inf


def scaler(c, j):
    import numpy as np
    col = [row[j] for row in c['rows']]
    return float(np.mean(col)), float(np.std(col)) or 1.


def near(a, b, tol=1e-9):
    return a == b or abs(a - b) <= tol * max(1, abs(a), abs(b))


@bounded('C13', 'vars.convert', 500, about='labels, label sets, intervals and unions of every kind of variable to internal values '
                                           'and back')
class _:
    def gen(self, r):
        vs = gen_vars(r, n=r.choice([1, 2, 3]))
        c = {'vs': vs, 'rows': gen_rows(r, vs), 'ev': []}
        for j, v in enumerate(vs):
            if cont(v):
                a, b = min(x[j] for x in c['rows']), max(x[j] for x in c['rows'])
                d = (b - a) or 1.
                pts = sorted(a + r.uniform(-1, 2) * d for _ in range(2 * r.choice([1, 1, 2, 3])))
                ss = [[pts[2 * i], pts[2 * i + 1], r.choice([1, 2]), r.choice([1, 2])] for i in range(len(pts) // 2)]
                if r.random() < .2:
                    ss[0][0], ss[0][2] = None, 2
                if r.random() < .2:
                    ss[-1][1], ss[-1][3] = None, 2
                c['ev'].append(ss)
            else:
                n = len(labels_of(v))
                c['ev'].append(r.sample(range(n), r.randint(0, n)))
        return c

    def run(self, c):
        from jpt.base.intervals import ContinuousSet, RealSet
        bad = []
        variables = mkvars(c['vs'], c['rows'])
        for j, (v, var, e) in enumerate(zip(c['vs'], variables, c['ev'])):
            dom = var.domain
            if cont(v):
                m, s = scaler(c, j) if v['k'] == 'snum' else (0., 1.)
                xs = sorted({float(row[j]) for row in c['rows']} | {p for i in e for p in i[:2] if p is not None})
                vals = [float(dom.label2value(x)) for x in xs]
                for x, y in zip(xs, vals):
                    if not near(y, (x - m) / s):
                        bad.append('the internal value of %r is %r, not %r' % (x, y, (x - m) / s))
                    if not near(float(dom.value2label(y)), x):
                        bad.append('label %r comes back as %r' % (x, dom.value2label(y)))
                    if float(dom.values[x]) != y or float(dom.labels[y]) != float(dom.value2label(y)):
                        bad.append('mappings and conversions differ at %r' % x)
                if any(a < b and near(a, b, 1e-12) is False and not p < q for (a, p), (b, q) in
                       zip(zip(xs, vals), list(zip(xs, vals))[1:])):
                    bad.append('the order of values')
                for x in (INF, -INF):
                    if dom.label2value(x) != x or dom.value2label(x) != x:
                        bad.append('infinity is converted to %r' % dom.label2value(x))
                s_ = nset(e)
                before = repr(s_)
                t = dom.label2value(s_)
                back = dom.value2label(t)
                if type(t) is not type(s_) or type(back) is not type(s_):
                    bad.append('the kind of set is kept')
                    continue
                ti, bi = ([x] if isinstance(x, ContinuousSet) else list(x.intervals) for x in (t, back))
                if len(ti) != len(e) or len(bi) != len(e):
                    bad.append('the number of intervals is kept')
                    continue
                for p, x, y in zip(e, ti, bi):
                    for k, (want, a) in enumerate(((lo(p), x.lower), (up(p), x.upper))):
                        if not near(a, want if math.isinf(want) else (want - m) / s):
                            bad.append('the end %r is converted to %r' % (want, a))
                    if (x.left, x.right, y.left, y.right) != (p[2], p[3], p[2], p[3]):
                        bad.append('bracket types are kept')
                    if not (near(y.lower, lo(p)) and near(y.upper, up(p))):
                        bad.append('the set %r comes back as %r' % (p, [y.lower, y.upper]))
                if repr(s_) != before:
                    bad.append('the converted set is unchanged')
            else:
                ls = labels_of(v)
                if list(dom.labels.values()) != ls or [type(x) for x in dom.labels.values()] != [type(x) for x in ls]:
                    bad.append('the labels of the domain %r' % list(dom.labels.values()))
                for i, l in enumerate(ls):
                    if dom.label2value(l) != i or dom.value2label(i) != l or type(dom.value2label(i)) is not type(l):
                        bad.append('label %r is converted to %r and back to %r' % (l, dom.label2value(l), dom.value2label(i)))
                    if dom.values[l] != i or dom.labels[i] != l:
                        bad.append('mappings of label %r' % (l,))
                for mk in (set, list, tuple):
                    q = mk([ls[i] for i in e])
                    try:
                        t = dom.label2value(q)
                    except TypeError:
                        continue
                    if type(t) is not mk or sorted(t) != sorted(e) or (mk in (list, tuple) and list(t) != list(e)):
                        bad.append('%r is converted to %r' % (q, t))
                    b = dom.value2label(t)
                    if b != q or type(b) is not mk:
                        bad.append('%r comes back as %r' % (q, b))
                for f, x in ((dom.label2value, 'no such label'), (dom.label2value, {'no such label'}), (dom.value2label, len(ls)),
                             (dom.value2label, {len(ls)}), (dom.value2label, -1)):
                    if x == 'no such label' and v['k'] == 'int':
                        x = 10 ** 6
                    try:
                        bad.append('%r is converted to %r' % (x, f(x)))
                    except (ValueError, KeyError):
                        pass
            one = nset(e[:1]) if cont(v) else {ls[i] for i in e}
            if var.assignment2set(one) != one:
                bad.append('a set stays a set')
            x = c['rows'][0][j]
            w = ContinuousSet(x, x) if cont(v) else {x}
            if var.assignment2set(x) != w:
                bad.append('%r becomes the set %r' % (x, var.assignment2set(x)))
        return bad


@bounded('C13', 'vars.map', 600, about='maps keyed by variables: sequences of up to 25 insertions, deletions, updates and copies '
                                       'against an ordered dictionary')
class _:
    def gen(self, r):
        n = r.randint(1, 5)
        ops = []
        for _ in range(r.randint(1, 25)):
            ops.append([r.choice(['set', 'set', 'set', 'del', 'del', 'get', 'isub1', 'isub', 'iadd', 'update', 'copy', 'deep']),
                        r.randrange(n), r.random() < .5, r.randrange(100), sorted(r.sample(range(n), r.randint(0, n)))])
        return {'n': n, 'ops': ops, 'init': r.choice([None, 'list', 'dict']), 'known': r.random() < .5}

    def run(self, c):
        from jpt.variables import VariableMap, NumericVariable, SymbolicVariable
        from jpt.distributions.univariate.multinomial import SymbolicType
        bad = []
        T = SymbolicType('T', ['a', 'b'])
        vs = [NumericVariable('v%d' % i) if i % 2 else SymbolicVariable('v%d' % i, T) for i in range(c['n'])]
        model = {}
        data = None
        if c['init']:
            model = {'v%d' % i: -i for i in range(0, c['n'], 2)}
            data = [(vs[i], -i) for i in range(0, c['n'], 2)]
            data = dict(data) if c['init'] == 'dict' else data
        m = VariableMap(data, variables=vs if c['known'] else None)
        byname = {v.name: v for v in vs}
        known = set(byname) if c['known'] else set(model)
        for op, i, name, x, some in c['ops']:
            v = vs[i]
            k = v.name if name else v
            if op == 'set':
                if name and v.name not in known:
                    try:
                        m[k] = x
                        bad.append('an unknown name is accepted')
                    except ValueError:
                        continue
                m[k] = [x] if x % 7 == 0 else x
                model[v.name] = [x] if x % 7 == 0 else x
                known.add(v.name)
            elif op in ('del', 'isub1'):
                if v.name in model:
                    if op == 'del':
                        del m[k]
                    else:
                        m -= k
                    del model[v.name]
                    known.discard(v.name)
                else:
                    try:
                        del m[k]
                        bad.append('a missing entry is deleted')
                    except KeyError:
                        pass
            elif op == 'get':
                if m.get(k, 'default') != model.get(v.name, 'default'):
                    bad.append('get yields %r' % m.get(k, 'default'))
                try:
                    if m[k] != model[v.name]:
                        bad.append('%r instead of %r' % (m[k], model[v.name]))
                except KeyError:
                    if v.name in model:
                        bad.append('an entry is missing')
            elif op in ('isub', 'iadd', 'update'):
                other = VariableMap([(vs[j], x + j) for j in some])
                if op == 'isub':
                    m -= other
                    for j in some:
                        if vs[j].name in model:
                            known.discard(vs[j].name)
                        model.pop(vs[j].name, None)
                else:
                    if op == 'iadd':
                        m += other
                    else:
                        m.update(other)
                    for j in some:
                        model[vs[j].name] = x + j
                        known.add(vs[j].name)
                if [(a.name, b) for a, b in other.items()] != [('v%d' % j, x + j) for j in some]:
                    bad.append('the other map is unchanged')
            else:
                m2 = m.copy(deep=op == 'deep')
                if type(m2) is not type(m) or m2 != m:
                    bad.append('a copy is equal')
                old = [(a.name, json.dumps(b)) for a, b in m.items()]
                m2[v] = 'changed'
                if op == 'deep':
                    for a, b in m2.items():
                        if isinstance(b, list):
                            b.append('changed')
                if [(a.name, json.dumps(b)) for a, b in m.items()] != old:
                    bad.append('changing a copy changes the original')
                m = m.copy(deep=op == 'deep')
            want = list(model.items())
            if [(a.name, b) for a, b in m.items()] != want:
                bad.append('after %s: %r instead of %r' % (op, [(a.name, b) for a, b in m.items()], want))
                break
            if [a for a in m] != [byname[k] for k, _ in want] or [a for a in m.keys()] != [byname[k] for k, _ in want] or \
                    list(m.values()) != [b for _, b in want] or len(m) != len(want) or bool(m) != bool(want):
                bad.append('keys, values and length')
            if any((w in m) != (w.name in model) or (w.name in m) != (w.name in model) for w in vs):
                bad.append('membership')
            if any(m[w] != m[w.name] for w in m):
                bad.append('access by name')
        again = VariableMap([(byname[k], b) for k, b in model.items()], variables=[byname[k] for k in known])
        if again != m or not again == m:
            bad.append('maps with the same entries are equal')
        if model:
            k = next(iter(model))
            other = again.copy()
            other[byname[k]] = 'something else'
            if other == m:
                bad.append('maps with different entries differ')
        back = VariableMap.from_json(vs, json.loads(json.dumps(m.to_json())))
        if [(a.name, b) for a, b in back.items()] != list(model.items()):
            bad.append('the map reads back')
        return bad


@bounded('C23', 'tree.bind', 500, about='all forms of queries on learned trees with up to 4 variables: bound sets, probabilities of '
                                        'equivalent forms, binding twice, unknown variables')
class _:
    def gen(self, r):
        c = gen_tree(r)
        c['q'] = []
        for j, v in enumerate(c['vs']):
            if r.random() < .25:
                continue
            form = r.choice(['set', 'list', 'scalar', 'none', 'union', 'open', 'halflist'] if cont(v) else
                            ['set', 'list', 'scalar', 'none', 'one'] + (['list'] if v['k'] == 'int' else []))
            c['q'].append([j, form, sorted([r.uniform(-.2, 1.2), r.uniform(-.2, 1.2)]), r.random(), r.random() < .5])
        c['space'] = r.choice(['labels', 'labels', 'values'])
        c['way'] = r.choice(['dict', 'kwargs'])
        c['single'] = r.random() < .2
        c['unknown'] = r.choice([None, None, 'skip', 'reject'])
        return c

    def run(self, c):
        from jpt.base.intervals import ContinuousSet, RealSet
        from jpt.variables import LabelAssignment, ValueAssignment
        tree = learn(c)
        bad = []
        before = frozen(tree)
        values = c['space'] == 'values'
        q, want = {}, {}
        for j, form, (s, t), x, byname in c['q']:
            v, var = c['vs'][j], tree.variables[j]
            key = var.name if byname or c['way'] == 'kwargs' else var
            if cont(v):
                a, b = span(c, j)
                d = (b - a) or 1.
                l, u = a + s * d, a + t * d
                y = a + x * d
                if form == 'none':
                    q[key] = None
                elif form == 'list':
                    q[key], want[j] = [l, u], [[l, u, 1, 1]]
                elif form == 'halflist':
                    q[key], want[j] = ([None, u], [[None, u, 2, 1]]) if x < .5 else ([l, INF], [[l, None, 1, 2]])
                elif form == 'scalar':
                    q[key], want[j] = y, [[y, y, 1, 1]]
                elif form == 'set':
                    q[key], want[j] = ContinuousSet(l, u), [[l, u, 1, 1]]
                elif form == 'open':
                    q[key], want[j] = ContinuousSet(l, u, 2, 2), [[l, u, 2, 2]]
                else:
                    e = [[l - d, l, 1, 2], [u, u + d, 1, 1]]
                    q[key], want[j] = RealSet([ContinuousSet(*i) for i in e]), e
            else:
                ls = list(range(len(labels_of(v)))) if values else labels_of(v)
                i = min(len(ls) - 1, int(x * len(ls)))
                k = min(len(ls) - 1, max(0, int(t * len(ls))))
                lo_, hi = min(i, k), max(i, k)
                if form == 'none':
                    q[key] = None
                elif form == 'scalar':
                    q[key], want[j] = ls[i], {i}
                elif form == 'one':
                    q[key], want[j] = {ls[i]}, {i}
                elif form == 'set':
                    q[key], want[j] = {ls[i], ls[k]}, {i, k}
                elif v['k'] == 'int':
                    q[key], want[j] = [ls[lo_], ls[hi]], set(range(lo_, hi + 1))
                else:
                    q[key], want[j] = [ls[i], ls[k]], {i, k}
        shown = repr(list(q.items()))
        snap = copy.deepcopy({k if isinstance(k, str) else k.name: x for k, x in q.items()})
        opt = {}
        if values:
            opt['space'] = 'values'
        if c['single']:
            opt['allow_singular_values'] = True
        if c['way'] == 'kwargs' and not opt:
            bound = tree.bind(**q)
        else:
            bound = tree.bind(q, **opt)
        if type(bound) is not (ValueAssignment if values else LabelAssignment):
            bad.append('the kind of assignment is %s' % type(bound).__name__)
        if repr(list(q.items())) != shown or any(q[k] != snap[k if isinstance(k, str) else k.name] for k in q):
            bad.append('the query is unchanged')

        def check(b, what, val=values, single=c['single']):
            if [v.name for v in b.keys()] != [tree.variables[j].name for j in want]:
                bad.append('%s: the variables are %r' % (what, [v.name for v in b.keys()]))
                return
            for j, e in want.items():
                v, var = c['vs'][j], tree.variables[j]
                if not any(var is k for k in b.keys()):
                    bad.append('%s: the variables are those of the tree' % what)
                got = b[var]
                if cont(v):
                    if not isinstance(got, (ContinuousSet, RealSet)):
                        if single and len(e) == 1 and e[0][0] == e[0][1] and got == e[0][0]:
                            continue
                        bad.append('%s: %r for a number set' % (what, got))
                        continue
                    if single and e[0][0] is not None and e[0][0] == e[0][1]:
                        bad.append('%s: a single value became a set' % what)
                    ends = sorted({x for s in e for x in s[:2] if x is not None})
                    d = (ends[-1] - ends[0]) or 1.
                    for x in ends + [(a + b_) / 2 for a, b_ in zip(ends, ends[1:])] + [ends[0] - d, ends[-1] + d]:
                        if bool(got.contains_value(x)) != any(inside(s, x) for s in e):
                            bad.append('%s: %r does not denote %r (at %r)' % (what, got, e, x))
                            break
                else:
                    ls = list(range(len(labels_of(v)))) if val else labels_of(v)
                    if type(got) is not set or got != {ls[i] for i in e}:
                        bad.append('%s: %r for %r' % (what, got, [ls[i] for i in e]))
        check(bound, 'bound')
        if bad:
            return bad
        # binding twice
        twice = tree.bind(dict(bound.items()), **({'space': 'values'} if values else {}))
        check(twice, 'bound twice', single=False)
        if not c['single'] and not twice == bound and {v.name: x for v, x in bound.items()} != {v.name: x for v, x in twice.items()}:
            bad.append('binding twice changes the assignment')
        # the internal values
        if not values:
            val = bound.value_assignment()
            for j, e in want.items():
                v, var = c['vs'][j], tree.variables[j]
                if not cont(v) and val[var] != set(e):
                    bad.append('the internal values of %r are %r' % (e, val[var]))
                if cont(v) and isinstance(val[var], ContinuousSet) and len(e) == 1 and not (
                        near(val[var].lower, -INF if e[0][0] is None else to_value(v, var, e[0][0]))
                        and near(val[var].upper, INF if e[0][1] is None else to_value(v, var, e[0][1]))):
                    bad.append('the internal values of %r are %r' % (e, val[var]))
            back = val.label_assignment()
            for j in want:
                if not cont(c['vs'][j]) and back[tree.variables[j]] != bound[tree.variables[j]]:
                    bad.append('labels come back as %r' % back[tree.variables[j]])
            if not c['single'] and want:
                # equivalent forms have equal probabilities
                canon = {tree.variables[j].name: nset(e) if cont(c['vs'][j]) else {labels_of(c['vs'][j])[i] for i in e}
                         for j, e in want.items()}
                ps = [tree.infer(dict(q)), tree.infer(bound), tree.infer(val), tree.infer(tree.bind(canon))]
                if any(not near(float(p), float(ps[0])) for p in ps):
                    bad.append('equivalent forms have probabilities %r' % ps)
        # unknown variables
        if c['unknown']:
            q2 = dict(q)
            q2['no such variable'] = 1.
            try:
                b = tree._preprocess_query(q2, skip_unknown_variables=c['unknown'] == 'skip', space=c['space'],
                                           allow_singular_values=c['single'])
                if c['unknown'] == 'reject':
                    bad.append('an unknown variable is accepted')
                check(b, 'with an unknown variable')
            except Exception as e:
                if c['unknown'] == 'skip':
                    bad.append('an unknown variable is not skipped: %r' % e)
            try:
                tree.bind(q2)
                bad.append('bind accepts an unknown variable')
            except Exception:
                pass
        if frozen(tree) != before:
            bad.append('the model is unchanged')
        return bad
