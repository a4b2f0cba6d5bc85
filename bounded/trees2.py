"""Bounded stand-ins for trees, second part: the learned structure, densities, most probable explanations and samples."""
import itertools
import math

from engine.bounded import bounded, Skip
from bounded.dist import F, close, no_tiny
from bounded.learn import labels_of, encode, numeric
from bounded.pwf import lo, up, inside, spec
from bounded.trees import (gen_tree, learn, Model, cont, to_value, to_label, span, gen_case, absolute, internal, query_of,
                           frozen, both, setup, assign)

INF = math.inf


def has(j, path, x):
    """the internal value x satisfies the constraint on variable j"""
    if j not in path:
        return True
    s = path[j]
    return int(x) in s if isinstance(s, set) else any(inside(i, x) for i in s)


def values(c, rows):
    return encode(c['vs'], None or [None] * len(c['vs']), rows)


def internal_rows(c, rows):
    """internal values; the scaling comes from the data the variables were made of"""
    import numpy as np
    cols = []
    for j, v in enumerate(c['vs']):
        col = [row[j] for row in rows]
        if v['k'] == 'num':
            cols.append([float(x) for x in col])
        elif v['k'] == 'snum':
            base = [row[j] for row in c['rows']]
            m, s = float(np.mean(base)), float(np.std(base)) or 1.
            cols.append([(x - m) / s for x in col])
        else:
            ls = labels_of(v)
            cols.append([next(i for i, l in enumerate(ls) if l == x and type(l) == type(x)) for x in col])
    return [list(t) for t in zip(*cols)]


def borderline(m, j, x):
    """x is so close to a border of some leaf or piece that the scaling may move it across"""
    e = 1e-9 * max(1, abs(x))
    for l in m.leaves:
        if any(math.isfinite(b) and b != x and abs(b - x) <= e for s in l.path.get(j, []) for b in s[:2]):
            return True
        if any(b != x and abs(b - x) <= e for b in l.dist[j].bounds()):
            return True
    return False


def extra_rows(r, c, k=4):
    out = []
    for _ in range(k):
        row = []
        for j, v in enumerate(c['vs']):
            if cont(v):
                a, b = span(c, j)
                d = (b - a) or 1.
                row.append(r.choice([a + r.uniform(-.3, 1.3) * d, r.choice(c['rows'])[j]]))
            else:
                row.append(r.choice(labels_of(v)))
        out.append(row)
    return out


# ------------------------------------------------------------------------------------------------ C17
@bounded('C17', 'tree.learned', 600, about='learned trees of up to 4 variables and 30 rows: partition of the domain and of the '
                                           'training data, priors, sizes, depth and leaf distributions')
class _:
    def gen(self, r):
        c = gen_tree(r)
        c['how'] = r.choice(['rows', 'columns', 'frame', 'array'])
        c['tight'] = r.random() < .08
        if c['tight']:              # neighbouring doubles: the structure only
            c['close'] = False
            b = r.choice([1., 3., 1e5, -1.])
            for j, v in enumerate(c['vs']):
                if v['k'] == 'num':
                    for row in c['rows']:
                        row[j] = b * (1 + r.randrange(3) * 2. ** -52)
        c['more'] = extra_rows(r, c, 6)
        c['mii'] = r.choice([None, None, .05, .3])
        return c

    def run(self, c):
        import numpy as np
        import pandas as pd
        from jpt.trees import JPT, Leaf
        from bounded.learn import mkvars
        variables = mkvars(c['vs'], c['rows'], c['prec'])
        tree = JPT(variables, targets=None if c['targets'] is None else [variables[i] for i in c['targets']],
                   min_samples_leaf=c['min'], max_depth=c['depth'], min_impurity_improvement=c['mii'])
        rows, n = [list(x) for x in c['rows']], len(c['rows'])
        keep = dict(keep_samples=True, close_convex_gaps=c['close'])
        if c['how'] == 'columns':
            tree.learn(columns=[list(t) for t in zip(*rows)], **keep)
        elif c['how'] == 'frame':
            tree.learn(data=pd.DataFrame(rows, columns=[v.name for v in variables]), **keep)
        elif c['how'] == 'array':
            tree.learn(rows=np.array(rows, dtype=object), **keep)
        else:
            tree.learn(rows=rows, **keep)
        bad = []
        m = Model(tree)
        leaves = list(tree.leaves.values())
        enc = internal_rows(c, rows)
        near = [any(v['k'] == 'snum' and borderline(m, j, x[j]) for j, v in enumerate(c['vs'])) for x in enc]
        # the training data
        owner = {}
        for l in leaves:
            for i in l.s_indices:
                if int(i) in owner:
                    bad.append('a sample belongs to two leaves')
                owner[int(i)] = l.idx
            if l.samples != len(l.s_indices):
                bad.append('leaf %d counts %r of %d samples' % (l.idx, l.samples, len(l.s_indices)))
            if not close(float(l.prior), len(l.s_indices) / n, 1e-12):
                bad.append('the prior of leaf %d is %r, not %r' % (l.idx, l.prior, len(l.s_indices) / n))
        if sorted(owner) != list(range(n)):
            bad.append('every sample belongs to a leaf')
        if not close(sum(float(l.prior) for l in leaves), 1., 1e-12):
            bad.append('the priors sum up to %r' % sum(l.prior for l in leaves))
        least = c['min'] if isinstance(c['min'], int) else max(1, int(c['min'] * n))
        if len(leaves) > 1 and min(len(l.s_indices) for l in leaves) < least:
            bad.append('a leaf with %d samples, %d are required' % (min(len(l.s_indices) for l in leaves), least))
        for i, x in enumerate(enc):
            if near[i]:
                continue
            ins = [l.idx for l in m.leaves if all(has(j, l.path, x[j]) for j in range(len(x)))]
            if ins != [owner.get(i)]:
                bad.append('sample %d of leaf %r lies in the regions of %r' % (i, owner.get(i), ins))
        got = tree.encode(np.array(rows, dtype=object))
        if any(int(g) != owner.get(i) for i, g in enumerate(got) if not near[i]):
            bad.append('encode finds the leaves %r' % [int(g) for g in got])
        # the regions
        for a, b in itertools.combinations(m.leaves, 2):
            if not any(j in b.path and not both(a.path[j], b.path[j]) for j in a.path):
                bad.append('leaves %d and %d overlap' % (a.idx, b.idx))
        for x in internal_rows(c, c['more']):
            ins = [l.idx for l in m.leaves if all(has(j, l.path, x[j]) for j in range(len(x)))]
            if len(ins) != 1:
                bad.append('the point %r lies in %d regions' % (x, len(ins)))
        # the structure
        for node in list(tree.innernodes.values()) + leaves:
            if tree.allnodes[node.idx] is not node:
                bad.append('nodes are found by their index')
            d, p = 0, node
            while p.parent is not None:
                if sum(ch is p for ch in p.parent.children) != 1:
                    bad.append('a node is one child of its parent')
                d, p = d + 1, p.parent
            if p is not tree.root:
                bad.append('every node hangs off the root')
            if node.depth() != d or c['depth'] and d > c['depth']:
                bad.append('depth %r at level %d' % (node.depth(), d))
        for node in tree.innernodes.values():
            if len(node.children) != 2 or node.samples != sum(ch.samples for ch in node.children):
                bad.append('the samples of a node are those of its children')
            if c['targets'] is not None and variables.index(node.variable) in c['targets']:
                bad.append('a split on a target variable')
        # the distributions
        for l, lm in zip(leaves, m.leaves):
            if c['tight']:
                break
            for j, v in enumerate(c['vs']):
                xs = [enc[int(i)][j] for i in l.s_indices]
                if not cont(v):
                    want = [xs.count(i) / len(xs) for i in range(len(labels_of(v)))]
                    if any(abs(a - b) > 1e-12 for a, b in zip(want, lm.dist[j])) or len(want) != len(lm.dist[j]):
                        bad.append('leaf %d: frequencies %r instead of %r' % (l.idx, lm.dist[j], want))
                    continue
                f = lm.dist[j]
                if j in lm.path and not close(f.mass(lm.path[j]), 1., 1e-6):
                    bad.append('leaf %d: %r of the mass of %s lies in its region' % (l.idx, f.mass(lm.path[j]), v['name']))
                if c['close'] and j in lm.path:
                    continue            # gaps to the neighbours are closed
                from jpt.variables import NumericVariable
                ref = variables[j].distribution()._fit(np.array([xs]).T.copy(order='C'), col=0)
                g = F(ref)
                a = max(abs(f.at(x) - g.at(x)) + abs(f.left(x) - g.left(x)) for x in set(xs) | set(g.bounds())
                        if v['k'] == 'num' or not borderline(m, j, x)) if v['k'] == 'num' else \
                    max([abs(f.at(x + 1e-7) - g.at(x + 1e-7)) for x in g.bounds()] + [0.]) if no_tiny(f) and all(
                        abs(p - q) > 1e-5 for p, q in itertools.combinations(sorted(set(g.bounds())), 2)) else 0.
                if a > 1e-5:
                    bad.append('leaf %d: the distribution of %s is not that of its samples (%r)' % (l.idx, v['name'], a))
        for j, var in enumerate(variables):
            xs = [x[j] for x in enc]
            if not cont(c['vs'][j]):
                want = [xs.count(i) / len(xs) for i in range(len(labels_of(c['vs'][j])))]
                if any(abs(a - b) > 1e-12 for a, b in zip(want, tree.priors[var]._params)):
                    bad.append('the prior distribution of %s' % var.name)
            else:
                d = tree.minimal_distances[var]
                u = np.unique(np.array(xs))
                w = min(np.diff(u)) if len(u) > 1 else 2.
                if not abs(float(d) - w) <= 1e-6 * max(1, w) + (1e-6 if c['vs'][j]['k'] == 'snum' else 0):
                    bad.append('the minimal distance of %s is %r, not %r' % (var.name, d, w))
        return bad


# ------------------------------------------------------------------------------------------------ densities
class Dens:
    """densities of the distributions kept in the leaves"""

    def __init__(self, tree):
        self.leaves = []
        for l in tree.leaves.values():
            self.leaves.append([spec(l.distributions[v].pdf) if v.numeric else [float(x) for x in l.distributions[v]._params]
                                for v in tree.variables])

    def at(self, i, j, x):
        d = self.leaves[i][j]
        if not d or not isinstance(d[0], (list, tuple)):
            return d[int(x)]
        for p in d:
            if inside(p, x):
                return float(p[4])
        return math.nan

    def edge(self, j, x):
        e = 1e-9 * max(1, abs(x))
        return any(math.isfinite(b) and abs(b - x) <= e for l in self.leaves for p in l[j] for b in p[:2])


@bounded('C21', 'tree.likelihood', 500, about='densities and likelihoods of training rows and other rows in learned trees')
class _:
    def gen(self, r):
        c = gen_tree(r)
        c['more'] = extra_rows(r, c, 5)
        c['dirac'] = r.choice([None, 1., 3.])
        c['md'] = r.choice([None, None, 'own', 'none'])
        c['perm'] = r.random()
        c['part'] = r.random() < .3
        c['api'] = r.choice(['dict', 'value', 'set'])
        return c

    def run(self, c):
        import random
        import numpy as np
        import pandas as pd
        from jpt.variables import ValueAssignment, VariableMap
        tree, m = setup(c)
        bad = []
        before = frozen(tree)
        rows = [list(x) for x in c['rows']][:6] + c['more']
        enc = internal_rows(c, rows)
        D = Dens(tree)
        kw = {}
        if c['dirac'] is not None:
            kw['dirac_scaling'] = c['dirac']
        md = tree.minimal_distances
        if c['md'] == 'own':
            md = VariableMap([(v, .5 + i) for i, v in enumerate(tree.variables) if v.numeric])
            kw['min_distances'] = md
        elif c['md'] == 'none':
            md = kw['min_distances'] = {}
        got = tree.likelihood(np.array(rows, dtype=object), **kw)
        if len(got) != len(rows):
            bad.append('one likelihood per row')
        want, ok = [], []
        for x in enc:
            t = 0.
            for i, l in enumerate(m.leaves):
                p = l.prior
                for j, v in enumerate(tree.variables):
                    y = D.at(i, j, x[j])
                    if y == INF:
                        y = kw.get('dirac_scaling', 2.) / float(md[v]) if md else 1.
                    p *= y
                t += p
            want.append(t)
            ok.append(not any(v['k'] == 'snum' and D.edge(j, x[j]) for j, v in enumerate(c['vs'])))
        for i, (g, w, o) in enumerate(zip(got, want, ok)):
            if o and not close(float(g), w, 1e-9):
                bad.append('the likelihood of row %d is %r, not %r' % (i, float(g), w))
        # other rows do not matter
        order = list(range(len(rows)))
        random.Random(c['perm']).shuffle(order)
        again = tree.likelihood(pd.DataFrame([rows[i] for i in order], columns=[v.name for v in tree.variables]), **kw)
        if any(float(again[k]) != float(got[i]) for k, i in enumerate(order)):
            bad.append('the likelihood depends on the order of the rows')
        for i in order[:3]:
            one = tree.likelihood(np.array([rows[i]], dtype=object), **kw)
            if len(one) != 1 or float(one[0]) != float(got[i]):
                bad.append('the likelihood of a row depends on the others')
        # one world at a time
        for i, x in enumerate(enc):
            if not ok[i]:
                continue
            js = [j for j in range(len(x)) if not c['part'] or (i + j) % 2]
            w = 0.
            for k, l in enumerate(m.leaves):
                if all(has(j, l.path, x[j]) for j in js):
                    ds = [D.at(k, j, x[j]) for j in js]
                    w += l.prior * math.prod(ds) if all(ds) else 0.
            if c['api'] == 'dict':
                q = tree.bind({tree.variables[j].name: rows[i][j] for j in js})
            elif c['api'] == 'set':
                q = tree.bind({tree.variables[j].name: rows[i][j] for j in js}).value_assignment()
            else:
                q = ValueAssignment([(tree.variables[j], x[j]) for j in js], variables=tree.variables)
            if any(cont(c['vs'][j]) and c['vs'][j]['k'] == 'snum' and borderline(m, j, x[j]) for j in js):
                continue
            g = float(tree.pdf(q))
            if not (g == w or close(g, w, 1e-9)):
                bad.append('the density of row %d (%s) is %r, not %r' % (i, js, g, w))
        if frozen(tree) != before:
            bad.append('the model is unchanged')
        return bad


# ------------------------------------------------------------------------------------------------ C14
def levels(d):
    """the distinct positive densities / probabilities of a distribution, with where they are attained"""
    out = {}
    if d and isinstance(d[0], (list, tuple)):
        for p in d:
            if float(p[4]) > 0:
                out.setdefault(float(p[4]), []).append(p)
    else:
        for i, x in enumerate(d):
            if x > 0:
                out.setdefault(x, []).append(i)
    return out


def state_of(c, tree, a):
    """labels of an assignment -> internal values"""
    out = {}
    for var, s in a.items():
        j = tree.variables.index(var)
        out[j] = var.domain.label2value(s)
    return out


def same_state(st, lv, want, v):
    """the reported internal state of a variable is the set of points of density ``want``"""
    if not cont(v):
        return set(st) == set(lv[want])
    for h, ps in lv.items():
        for p in ps:
            if math.isfinite(p[0]) and math.isfinite(p[1]):
                x = (p[0] + p[1]) / 2
                if not p[0] < x < p[1]:
                    continue
                if v['k'] == 'snum' and p[1] - p[0] < 1e-6 * max(1, abs(x)):
                    continue
                if bool(st.contains_value(x)) != (h == want):
                    return False
    return True


@bounded('C14', 'tree.mpe', 500, about='most probable explanations with and without evidence against all leaves')
class _:
    def gen(self, r):
        c = gen_case(r)
        c['none'] = r.random() < .35
        return c

    def run(self, c):
        from jpt.base.errors import Unsatisfiability
        tree, m = setup(c)
        bad = []
        before = frozen(tree)
        e = {} if c['none'] else absolute(c, c['e'])
        ie = internal(c, tree, e)
        arg = assign(c, tree, e)
        if m.P(ie) == 0:
            try:
                tree.mpe(arg)
                bad.append('impossible evidence is reported')
            except Unsatisfiability:
                pass
            if tree.mpe(arg, fail_on_unsatisfiability=False) is not None:
                bad.append('impossible evidence has no explanation')
            return bad
        if any(0 < l.P1(j, x) < 1e-6 for l in m.leaves for j, x in ie.items()):
            raise Skip
        t2 = tree.conditional_jpt(tree.bind(query_of(c, tree, e)))
        states, like = tree.mpe(arg)
        cand = []
        for l, ds in zip(t2.leaves.values(), Dens(t2).leaves):
            lv = [levels(d) for d in ds]
            p = float(l.prior)
            for var, x in zip(tree.variables, lv):
                h = max(x) if x else INF
                p *= float(tree.minimal_distances[var]) if h == INF else h
            cand.append((p, lv))
        best = max(p for p, _ in cand)
        if not close(float(like), best, 1e-9):
            bad.append('the likelihood is %r, the maximum %r' % (float(like), best))
        top = [lv for p, lv in cand if p >= best * (1 - 1e-9)]
        if all(p == best or p < best * (1 - 1e-9) for p, _ in cand) and len(states) != len(top):
            bad.append('%d explanations instead of %d' % (len(states), len(top)))
        if not states:
            bad.append('there is an explanation')
        for a in states:
            if sorted(v.name for v in a.keys()) != sorted(v.name for v in tree.variables):
                bad.append('an explanation assigns every variable')
                continue
            st = state_of(c, tree, a)
            if not any(all(not lv[j] or same_state(st[j], lv[j], max(lv[j]), v) for j, v in enumerate(c['vs'])) for lv in top):
                bad.append('the explanation is not that of a most probable leaf')
        if frozen(tree) != before:
            bad.append('the model is unchanged')
        return bad


@bounded('C14', 'tree.kmpe', 400, about='the k most probable explanations against the enumeration of all combinations of states')
class _:
    def gen(self, r):
        c = gen_case(r, maxrows=12)
        c['none'] = r.random() < .5
        c['k'] = r.choice([0, 1, 2, 3, 5, 20])
        return c

    def run(self, c):
        tree, m = setup(c)
        bad = []
        before = frozen(tree)
        e = {} if c['none'] else absolute(c, c['e'])
        ie = internal(c, tree, e)
        if m.P(ie) == 0 or any(0 < l.P1(j, x) < 1e-6 for l in m.leaves for j, x in ie.items()):
            raise Skip
        t2 = tree.conditional_jpt(tree.bind(query_of(c, tree, e)))
        cand = []
        for l, ds in zip(t2.leaves.values(), Dens(t2).leaves):
            lv = [levels(d) for d in ds]
            if any(not x or INF in x for x in lv):
                raise Skip                      # impulses have no density
            if math.prod(len(x) for x in lv) > 600:
                raise Skip
            for combo in itertools.product(*lv):
                p = 1.
                for h in combo:
                    p *= h
                cand.append((p * float(l.prior), lv, combo))
        cand.sort(key=lambda t: -t[0])
        arg = assign(c, tree, e)
        if c['none']:
            arg = None
        got = list(tree.kmpe(arg, k=c['k']))
        want = [t[0] for t in cand][:c['k'] or None]
        ps = [float(p) for _, p in got]
        if len(ps) != len(want) or any(not close(a, b, 1e-9) for a, b in zip(ps, want)):
            bad.append('likelihoods %r instead of %r' % (ps[:8], want[:8]))
        if any(b > a * (1 + 1e-9) for a, b in zip(ps, ps[1:])):
            bad.append('likelihoods are not in descending order: %r' % ps[:8])
        used = set()
        for a, p in got:
            st = state_of(c, tree, a)
            fits = [i for i, (w, lv, combo) in enumerate(cand) if i not in used and close(w, float(p), 1e-9)
                    and all(same_state(st[j], lv[j], combo[j], v) for j, v in enumerate(c['vs']))]
            if not fits:
                bad.append('a state that does not belong to its likelihood, or that was listed before (%r)' % p)
                break
            used.add(fits[0])
        if frozen(tree) != before:
            bad.append('the model is unchanged')
        return bad


# ------------------------------------------------------------------------------------------------ C22
@bounded('C22', 'tree.sample', 300, about='samples drawn from learned and conditioned trees')
class _:
    def gen(self, r):
        c = gen_case(r)
        c['none'] = r.random() < .5
        c['n'] = r.choice([0, 1, 7, 40])
        c['seed'] = r.randrange(10 ** 6)
        return c

    def run(self, c):
        import numpy as np
        tree, m = setup(c)
        bad = []
        before = frozen(tree)
        if not c['none']:
            e = absolute(c, c['e'])
            ie = internal(c, tree, e)
            if m.P(ie) < 1e-6 or any(0 < l.P1(j, x) < 1e-6 for l in m.leaves for j, x in ie.items()):
                raise Skip
            t2 = tree.conditional_jpt(tree.bind(query_of(c, tree, e)))
        else:
            e, ie, t2 = {}, {}, tree
        m2 = Model(t2)
        np.random.seed(c['seed'])
        xs = JPT_sample(t2, c['n'])
        if xs.shape != (c['n'], len(c['vs'])):
            bad.append('%r samples instead of %d' % (xs.shape, c['n']))
            return bad
        for row in xs:
            ins = []
            for l in m2.leaves:
                ok = True
                for j, v in enumerate(c['vs']):
                    if not cont(v):
                        ls = labels_of(v)
                        i = [i for i, x in enumerate(ls) if x == row[j]]
                        ok = ok and bool(i) and l.dist[j][i[0]] > 0
                    else:
                        x = to_value(v, tree.variables[j], float(row[j]))
                        f = l.dist[j]
                        b = f.bounds()
                        d = 1e-6 * max(1, abs(x), b[-1] - b[0])
                        ok = ok and f.at(x + d) - f.left(x - d) > 0
                ins.append(ok)
            if not any(ins):
                bad.append('the sample %r lies in the support of no leaf' % (list(row),))
                break
            for j, s in ie.items():
                v = c['vs'][j]
                if cont(v):
                    x = to_value(v, tree.variables[j], float(row[j]))
                    d = 1e-6 * max(1, abs(x))
                    if not any(lo(i) - d <= x <= up(i) + d for i in s):
                        bad.append('the sample %r contradicts the evidence' % (list(row),))
                elif labels_of(v).index(row[j]) not in s:
                    bad.append('the sample %r contradicts the evidence' % (list(row),))
        if frozen(tree) != before:
            bad.append('the model is unchanged')
        return bad


def JPT_sample(t, n):
    return t.sample(n)
