"""Bounded stand-ins for sequence models: the fitted factors and the marginals of a sequence against exact recursion."""
import json

from engine.bounded import bounded, Skip

AB = 'abcd'


def gen(r):
    n = r.choice([1, 2, 2, 3])
    kinds = [r.choice(['sym', 'int', 'num']) for _ in range(n)]
    seqs = []
    k = r.choice([2, 3, 4])
    drift = r.choice([[0, 1], [0, 1, 1], [1], [0, 1, 2, 3], [0, 0, 0, 1]])
    for _ in range(r.choice([1, 2, 3])):
        s = r.randrange(k)
        rows = []
        for _ in range(r.choice([3, 8, 20, 40])):
            s = (s + r.choice(drift)) % k
            row = []
            for t in kinds:
                v = s if r.random() < .8 else r.randrange(k)
                row.append(v if t != 'num' else v + round(r.random(), 2))
            rows.append(row)
        seqs.append(rows)
    steps = r.choice([1, 2, 3, 4, 6, 12, 14])
    ev = []
    for _ in range(steps):
        e = {}
        for j, t in enumerate(kinds):
            if r.random() < .3:
                if t == 'num':
                    a = r.uniform(-.5, k)
                    e[str(j)] = [round(a, 2), round(a + r.choice([.5, 1, 2, 3]), 2)]
                else:
                    e[str(j)] = sorted(i for i in range(k) if r.random() < .6) or [r.randrange(k)]
        ev.append(e)
    c = {'kinds': kinds, 'k': k, 'seqs': seqs, 'ev': ev, 'min': r.choice([1, 2, 5, 10, 20]), 'targets': None,
         'form': r.choice(['dict', 'label', 'value'])}
    if n > 1 and r.random() < .2:
        c['targets'] = sorted(r.sample(range(n), r.randint(1, n - 1)))
    return c


def model(c):
    import numpy as np
    from jpt.distributions import IntegerType, SymbolicType
    from jpt.sequential_trees import SequentialJPT
    from jpt.trees import JPT
    from jpt.variables import IntegerVariable, NumericVariable, SymbolicVariable
    vs = []
    for j, t in enumerate(c['kinds']):
        if t == 'sym':
            vs.append(SymbolicVariable('v%d' % j, SymbolicType('S%d' % j, list(AB[:c['k']]))))
        elif t == 'int':
            vs.append(IntegerVariable('v%d' % j, IntegerType('I%d' % j, 0, c['k'] - 1)))
        else:
            vs.append(NumericVariable('v%d' % j))
    t = JPT(vs, targets=None if c['targets'] is None else [vs[i] for i in c['targets']], min_samples_leaf=c['min'])
    m = SequentialJPT(t)
    data = [arrays(c, s) for s in c['seqs']]
    m.fit(data)
    return m, data


def arrays(c, rows):
    import numpy as np
    return np.array([[AB[x] if t == 'sym' else x for t, x in zip(c['kinds'], row)] for row in rows],
                    dtype=object if 'sym' in c['kinds'] else float)


def leaf_of(m, c, row):
    """the leaves whose path admits a row"""
    out = []
    for i, leaf in m.template_tree.leaves.items():
        ok = True
        for var, v in leaf.path.items():
            j = int(var.name[1:])
            x = row[j]
            ok = ok and (v.contains_value(x) if c['kinds'][j] == 'num' else x in v)
        if ok:
            out.append(i)
    return out


def prob(m, c, leaf, e):
    """probability of one step's evidence in a leaf"""
    p = 1.
    for j, v in e.items():
        var = m.template_tree.variables[int(j)]
        d = leaf.distributions[var]
        if c['kinds'][int(j)] == 'num':
            p *= float(d.p(interval(*v)))
        else:
            p *= float(sum(d.p({AB[x] if c['kinds'][int(j)] == 'sym' else x}) for x in v))
    return p


def queries(m, c):
    out = []
    for e in c['ev']:
        q = {}
        for j, v in e.items():
            k = c['kinds'][int(j)]
            q['v' + j] = list(v) if k == 'num' else {AB[x] if k == 'sym' else x for x in v}
        if c['form'] != 'dict':
            q = m.template_tree.bind(q, allow_singular_values=False)
            if c['form'] == 'value':
                q = q.value_assignment()
        out.append(q)
    return out


def expected(m, c):
    """marginals of the chain with the factors 'prior under the evidence' and 'transition', or None"""
    leaves = list(m.template_tree.leaves)
    T = [[float(x) for x in row] for row in m.transition_model]
    n = len(leaves)
    w = []
    for e in c['ev']:
        p = [float(m.template_tree.leaves[i].prior) * prob(m, c, m.template_tree.leaves[i], e) for i in leaves]
        if not sum(p) > 0:
            return None
        w.append([x / sum(p) for x in p])

    def norm(x):
        s = sum(x)
        return [v / s for v in x] if s else x
    f = [norm(w[0])]
    for t in range(1, len(w)):
        f.append(norm([w[t][j] * sum(f[-1][i] * T[i][j] for i in range(n)) for j in range(n)]))
    b = [[1.] * n]
    for t in range(len(w) - 1, 0, -1):
        b.insert(0, norm([sum(T[i][j] * w[t][j] * b[0][j] for j in range(n)) for i in range(n)]))
    out = [[x * y for x, y in zip(p, q)] for p, q in zip(f, b)]
    if not all(sum(p) > 1e-12 for p in out):
        return None
    return [dict(zip(leaves, norm(p))) for p in out], w


def interval(a, b):
    from jpt.base.intervals import ContinuousSet
    return ContinuousSet(a, b)


def close(a, b, tol=1e-5):
    return abs(a - b) <= tol * max(1., abs(a), abs(b))


@bounded('C24', 'seq.fit', 60, about='SequentialJPT.fit: leaves partition the rows, transition frequencies, leaf priors')
class Fit:
    gen = staticmethod(gen)

    def run(self, c):
        import numpy as np
        m, data = model(c)
        bad = []
        leaves = m.template_tree.leaves
        if not close(sum(float(l.prior) for l in leaves.values()), 1.):
            bad.append('the leaf priors sum to 1')
        enc = []
        for s in c['seqs']:
            e = []
            for row in s:
                ls = leaf_of(m, c, row)
                if len(ls) != 1:
                    return ['every observation lies in exactly one leaf: %s' % ls]
                e.append(ls[0])
            enc.append(e)
        got = [list(int(x) for x in m.template_tree.encode(d)) for d in data]
        if got != enc:
            bad.append('observations are encoded by their leaves')
        pairs = [p for e in enc for p in zip(e, e[1:])]
        T = np.asarray(m.transition_model)
        if T.shape != (len(leaves), len(leaves)):
            return bad + ['one row and column per leaf']
        for a, i in enumerate(leaves):
            for b, j in enumerate(leaves):
                if not close(float(T[a][b]), sum(p == (i, j) for p in pairs) / len(pairs)):
                    bad.append('transition frequencies')
        for i, leaf in leaves.items():
            rows = [row for s, e in zip(c['seqs'], enc) for row, x in list(zip(s, e))[:-1] if x == i]
            tot = sum(len(s) - 1 for s in c['seqs'])
            if not close(float(leaf.prior), len(rows) / tot):
                bad.append('the prior of a leaf is its share of the observations')
            if {v.name for v in leaf.distributions.keys()} != {v.name for v in m.template_tree.variables}:
                bad.append('a leaf has one distribution per variable of the template')
                continue
            for j, k in enumerate(c['kinds']):
                d = leaf.distributions[m.template_tree.variables[j]]
                if k == 'num':
                    xs = [row[j] for row in rows]
                    v = m.template_tree.variables[j]
                    if xs and v in leaf.path and not close(float(d.p(leaf.path[v])), 1.):
                        bad.append('a numeric distribution of a leaf lies within its path')
                else:
                    for x in range(c['k']):
                        p = float(d.p({AB[x] if k == 'sym' else x}))
                        if rows and not close(p, sum(row[j] == x for row in rows) / len(rows)):
                            bad.append('label frequencies of a leaf')
        again = model(c)[0]
        m.fit(data)
        if list(m.template_tree.leaves) != list(again.template_tree.leaves) or \
                not np.allclose(np.asarray(m.transition_model), np.asarray(again.transition_model)) or \
                not close(sum(float(l.prior) for l in m.template_tree.leaves.values()), 1.):
            bad.append('fitting again discards the previous fit')
        return bad


@bounded('C24', 'seq.marginals', 60, about='independent_marginals: the trees of all steps against forward-backward recursion')
class Marginals:
    gen = staticmethod(gen)

    def run(self, c):
        m, _ = model(c)
        before = json.dumps(m.to_json(), default=repr)
        exp = expected(m, c)
        from jpt.base.errors import Unsatisfiability
        try:
            got = m.independent_marginals(queries(m, c))
        except (Unsatisfiability, ValueError):
            if exp is not None:
                return ['evidence of positive probability is accepted']
            return []
        if exp is None:
            if not any(sum(l.prior for l in t.leaves.values()) > 0 for t in got):
                raise Skip()
            raise Skip()
        M, w = exp
        if any(0 < x < 1e-9 for p in w for x in p):
            raise Skip()  # rounding decides which leaves are left
        bad = []
        if len(got) != len(c['ev']):
            return ['one tree per step']
        for t, (tree, p, e) in enumerate(zip(got, M, c['ev'])):
            alive = [i for i, x in zip(p, w[t]) if x > 1e-12]
            if not set(alive) <= set(tree.leaves) or any(float(l.prior) > 1e-6 for i, l in tree.leaves.items() if i not in alive):
                bad.append('the leaves of a step are those its evidence admits: step %d %s %s' % (t, sorted(tree.leaves), alive))
                continue
            pri = {i: float(l.prior) for i, l in tree.leaves.items()}
            if not close(sum(pri.values()), 1.):
                bad.append('the priors of a step sum to 1')
            pos = [x for x in p.values() if x > 1e-9]
            zero = [i for i in alive if p[i] <= 1e-9]
            eps = sum(pri[i] for i in zero)
            if eps > .1 * min(pos) * len(p) + 1e-6:
                bad.append('steps that the chain excludes keep only a smoothing weight: step %d' % t)
            for i in alive:
                if i not in zero and not close(pri[i], p[i] * (1 - eps), 1e-4):
                    bad.append('leaf weights are the marginals of the chain: step %d leaf %d: %s %s' % (t, i, pri[i], p[i]))
            for i, leaf in tree.leaves.items():
                if i in alive and not close(prob(m, c, leaf, e), 1., 1e-4):
                    bad.append('the tree of a step satisfies its evidence: step %d' % t)
        if json.dumps(m.to_json(), default=repr) != before:
            bad.append('the model is left as it was')
        return bad


@bounded('C24', 'seq.json', 20, about='a sequence model read back gives the same marginals')
class Json:
    gen = staticmethod(gen)

    def run(self, c):
        from jpt.base.errors import Unsatisfiability
        from jpt.sequential_trees import SequentialJPT
        m, _ = model(c)
        n = SequentialJPT.from_json(json.loads(json.dumps(m.to_json())))

        def show(x):
            c_ = dict(c, form='dict')
            try:
                return [{i: float(l.prior) for i, l in t.leaves.items()} for t in x.independent_marginals(queries(x, c_))]
            except (Unsatisfiability, ValueError):
                return None
        a, b = show(m), show(n)
        if (a is None) != (b is None):
            return ['the model read back accepts the same evidence']
        if a is not None and not (len(a) == len(b) and all(x.keys() == y.keys() and all(close(x[i], y[i]) for i in x)
                                                           for x, y in zip(a, b))):
            return ['the model read back gives the same marginals']
        return []
