"""Bounded stand-ins for trees: learned (and conditioned) trees against an independent evaluation of their leaves."""
import itertools
import json
import math

from engine.bounded import bounded, Skip
from bounded.dist import F, meet, close, cs, nset, no_tiny
from bounded.learn import gen_vars, gen_rows, mkvars, labels_of, encode, numeric
from bounded.pwf import lo, up, inside

INF = math.inf
cont = lambda v: v['k'] in ('num', 'snum')   # noqa


# ------------------------------------------------------------------------------------------------ generators
def gen_tree(r, maxrows=30, nvars=None, kinds=('num', 'num', 'snum', 'sym', 'int', 'bool')):
    vs = gen_vars(r, n=nvars, kinds=kinds)
    rows = gen_rows(r, vs, n=r.choice([1, 2, 3, 6, 10, 16, maxrows]))
    n = len(vs)
    c = {'vs': vs, 'rows': rows, 'min': r.choice([1, 1, 1, 2, 3, .1, .2]), 'depth': r.choice([None, None, None, 1, 2, 3]),
         'close': r.random() < .6, 'prec': r.choice([None, 0., .01, .1]), 'targets': None}
    if n > 1 and r.random() < .25:
        c['targets'] = sorted(r.sample(range(n), r.randint(1, n - 1)))
    return c


def learn(c, **kw):
    from jpt.trees import JPT
    variables = mkvars(c['vs'], c['rows'], c['prec'])
    tree = JPT(variables, targets=None if c['targets'] is None else [variables[i] for i in c['targets']],
               min_samples_leaf=c['min'], max_depth=c['depth'])
    tree.learn(rows=[list(x) for x in c['rows']], close_convex_gaps=c['close'], **kw)
    return tree


def to_value(v, var, x):
    if v['k'] == 'snum':
        s = var.domain.values.datascaler
        return (x - float(s.mean)) / float(s.scale)
    return x


def to_label(v, var, x):
    if v['k'] == 'snum':
        s = var.domain.values.datascaler
        return x * float(s.scale) + float(s.mean)
    return x


def span(c, j):
    xs = [row[j] for row in c['rows']]
    return min(xs), max(xs)


def gen_event(r, vs, k=None, p_inf=.2, narrow=0.):
    """{variable index: sets relative to the span, or label indices}"""
    n = len(vs)
    out = {}
    for j in sorted(r.sample(range(n), min(n, k or r.choice([1, 1, 2, 3])))):
        v = vs[j]
        if cont(v):
            m = r.choice([1, 1, 1, 2])
            pts = sorted(r.uniform(-.2, 1.2) for _ in range(2 * m))
            if r.random() < narrow:  # an event of small probability
                m, x = 1, r.choice([r.uniform(0, 1), r.choice([0., .5, 1.])])
                pts = sorted([x, x + r.choice([-1, 1]) * 10 ** r.uniform(-6, -1)])
                out[str(j)] = [[pts[0], pts[1], r.choice([1, 1, 2]), r.choice([1, 2])]]
                continue
            ss = [[pts[2 * i], pts[2 * i + 1], r.choice([1, 1, 2]), r.choice([1, 2])] for i in range(m)]
            if r.random() < p_inf:
                ss[0][0], ss[0][2] = None, 2
            if r.random() < p_inf:
                ss[-1][1], ss[-1][3] = None, 2
            out[str(j)] = ss
        else:
            ls = labels_of(v)
            out[str(j)] = sorted(i for i in range(len(ls)) if r.random() < .6) or [r.randrange(len(ls))]
    return out


def absolute(c, ev):
    """{index: label intervals or label indices}"""
    out = {}
    for k, e in ev.items():
        j = int(k)
        if cont(c['vs'][j]):
            a, b = span(c, j)
            d = (b - a) or 1.
            out[j] = [[None if l is None else a + l * d, None if u is None else a + u * d, x, z] for l, u, x, z in e]
        else:
            out[j] = list(e)
    return out


def query_of(c, tree, ev, key='name'):
    """what a user would pass"""
    q = {}
    for j, e in ev.items():
        v = c['vs'][j]
        var = tree.variables[j]
        q[var.name if key == 'name' else var] = nset(e) if cont(v) else {labels_of(v)[i] for i in e}
    return q


def internal(c, tree, ev):
    out = {}
    for j, e in ev.items():
        v, var = c['vs'][j], tree.variables[j]
        out[j] = [[None if l is None else to_value(v, var, l), None if u is None else to_value(v, var, u), a, z]
                  for l, u, a, z in e] if cont(v) else set(e)
    return out


# ------------------------------------------------------------------------------------------------ the oracle
def both(a, b):
    """intersection of two events of a variable"""
    if isinstance(a, set):
        return a & b
    return [m for m in (meet(s, t) for s in a for t in b) if lo(m) < up(m) or lo(m) == up(m) and m[2] == m[3] == 1]


class LeafModel:
    def __init__(self, tree, leaf):
        self.idx = leaf.idx
        self.prior = float(leaf.prior)
        self.path = {}
        for var, s in leaf._path:
            j = tree.variables.index(var)
            e = [[float(s.lower), float(s.upper), int(s.left), int(s.right)]] if var.numeric else set(s)
            self.path[j] = both(self.path[j], e) if j in self.path else e
        self.dist = {}
        for j, var in enumerate(tree.variables):
            d = leaf.distributions[var]
            self.dist[j] = F(d) if var.numeric else [float(x) for x in d._params]

    def P1(self, j, e):
        d = self.dist[j]
        return d.mass(e) if isinstance(d, F) else sum(d[i] for i in e)

    def P(self, ev):
        p = 1.
        for j, e in ev.items():
            p *= self.P1(j, both(e, self.path[j]) if j in self.path else e)
        return p

    def density(self, j, x):
        """(density, is impulse)"""
        d = self.dist[j]
        if not isinstance(d, F):
            return d[int(x)], False
        if any(abs(a - x) <= 1e-12 * max(1, abs(a)) for a, _ in d.atoms()):
            return INF, True
        for p in d.ps:
            if inside(p, x):
                return (p[4][0] if isinstance(p[4], list) else 0.), False
        return math.nan, False


class Model:
    def __init__(self, tree):
        self.leaves = [LeafModel(tree, l) for l in tree.leaves.values()]

    def P(self, ev):
        return sum(l.prior * l.P(ev) for l in self.leaves)

    def ok(self):
        return all(no_tiny(d) for l in self.leaves for d in l.dist.values() if isinstance(d, F))


def conj(a, b):
    out = dict(a)
    for j, e in b.items():
        out[j] = both(out[j], e) if j in out else e
    return out


def rounding(m, ev):
    """the mass of an event in one of the variables is so small that rounding errors of the CDF matter"""
    return any(0 < l.P1(j, both(x, l.path[j]) if j in l.path else x) < 1e-6 for l in m.leaves for j, x in ev.items())


def frozen(tree):
    """everything a model consists of"""
    return json.dumps(tree.to_json(), default=repr, sort_keys=True)


def gen_case(r, **kw):
    c = gen_tree(r, **kw)
    nar = r.choice([0, 0, .3, 1])
    c['e'] = gen_event(r, c['vs'], k=len(c['vs']) if nar == 1 and r.random() < .5 else None, narrow=nar)
    c['q'] = gen_event(r, c['vs'])
    c['q2'] = gen_event(r, c['vs'])
    c['key'] = r.choice(['name', 'var'])
    c['api'] = r.choice(['dict', 'label', 'value'])
    return c


def assign(c, tree, ev):
    q = query_of(c, tree, ev, c['key'])
    if c['api'] == 'dict':
        return q
    q = tree.bind(q)
    return q.value_assignment() if c['api'] == 'value' else q


def setup(c, **kw):
    tree = learn(c, **kw)
    m = Model(tree)
    if not m.ok():
        raise Skip
    return tree, m


# ------------------------------------------------------------------------------------------------ C18
@bounded('C18', 'tree.infer', 500, about='conditional probabilities in learned trees of up to 4 variables of any kind and 30 '
                                         'rows against the prior-weighted sum over the leaves')
class _:
    def gen(self, r):
        c = gen_case(r)
        c['zero'] = r.random() < .3
        c['keep'] = r.random()
        return c

    def run(self, c):
        tree, m = setup(c)
        bad = []
        before = frozen(tree)
        e, q = absolute(c, c['e']), absolute(c, c['q'])
        if c['zero']:
            j = next(iter(e))
            if cont(c['vs'][j]):
                a, b = span(c, j)
                d = (b - a) or 1
                e[j] = [[b + d, b + 2 * d, 1, 1]] if c['keep'] < .5 else [[a - 3 * d, a - 2 * d, 1, 2]]
            else:
                used = {i for i, l in enumerate(labels_of(c['vs'][j])) for row in c['rows'] if row[j] == l}
                e[j] = [i for i in range(len(labels_of(c['vs'][j]))) if i not in used]
                if not e[j]:
                    raise Skip
            for f in (True, False):
                try:
                    got = tree.infer(assign(c, tree, q), assign(c, tree, e), fail_on_unsatisfiability=f)
                    if f or got is not None:
                        bad.append('evidence of probability zero is answered with %r' % got)
                except ValueError:
                    if not f:
                        bad.append('evidence of probability zero raises although asked not to')
            return bad
        ie, iq = internal(c, tree, e), internal(c, tree, q)
        pe = m.P(ie)
        p0 = tree.infer(assign(c, tree, q))
        if not close(float(p0), m.P(iq)):
            bad.append('P(q) is %r, not %r' % (p0, m.P(iq)))
        if pe == 0 or rounding(m, ie):
            raise Skip
        want = m.P(conj(ie, iq)) / pe
        got = tree.infer(assign(c, tree, q), assign(c, tree, e))
        if not close(float(got), want):
            bad.append('P(q|e) is %r, not %r' % (got, want))
        if not -1e-12 <= got <= 1 + 1e-9:
            bad.append('P(q|e) within [0,1]: %r' % got)
        again = {**e, **q} if not set(e) & set(q) else None
        if again is not None:
            g2 = tree.infer(assign(c, tree, again), assign(c, tree, e))
            if not close(float(g2), float(got)):
                bad.append('repeating the evidence in the query changes P from %r to %r' % (got, g2))
        g1 = tree.infer(assign(c, tree, e), assign(c, tree, e))
        if not close(float(g1), 1.):
            bad.append('P(e|e) is %r' % g1)
        # complement of a query on one variable
        j = next(iter(q))
        v = c['vs'][j]
        if cont(v):
            comp, last = [], [None, 2]
            for l, u, a, z in q[j]:
                if l is not None:
                    comp.append([last[0], l, last[1], 3 - a])
                last = [u, 3 - z]
            if last[0] is not None:
                comp.append([last[0], None, last[1], 2])
        else:
            comp = [i for i in range(len(labels_of(v))) if i not in q[j]]
        one = tree.infer(assign(c, tree, {j: q[j]}), assign(c, tree, e))
        if comp:
            two = tree.infer(assign(c, tree, {j: comp}), assign(c, tree, e))
            if not close(float(one + two), 1.):
                bad.append('complementary queries sum up to %r' % (one + two))
        elif not close(float(one), 1.):
            bad.append('the certain query has probability %r' % one)
        if frozen(tree) != before:
            bad.append('the model is unchanged')
        return bad


# ------------------------------------------------------------------------------------------------ C19
def mean_of(c, tree, m, j, ev, pe):
    """expectation and the variance of variable j given the evidence, in label space"""
    v, var = c['vs'][j], tree.variables[j]

    def mom(k, centre):
        r = 0.
        for l in m.leaves:
            w = l.prior * l.P(ev) / pe
            if w <= 0:
                continue
            d = l.dist[j]
            if isinstance(d, F):
                e = ev.get(j, [[None, None, 2, 2]])
                if j in l.path and j in ev:
                    e = both(e, l.path[j])
                z = d.mass(e)
                t = 0.
                for s in e:
                    for x, dd in d.atoms():
                        if inside(s, x):
                            t += (to_label(v, var, x) - centre) ** k * dd
                    for p in d.ps:
                        if isinstance(p[4], list) and math.isfinite(p[0]) and math.isfinite(p[1]):
                            a, b = max(p[0], lo(s)), min(p[1], up(s))
                            if a < b:
                                la, lb = to_label(v, var, a), to_label(v, var, b)
                                t += p[4][0] * (b - a) * (((lb - centre) ** (k + 1) - (la - centre) ** (k + 1)) / (k + 1)
                                                          / (lb - la))
                r += w * t / z
            else:
                ls = labels_of(v)
                e = ev.get(j, set(range(len(ls))))
                if j in l.path and j in ev:
                    e = e & l.path[j]
                z = sum(d[i] for i in e)
                r += w * sum(d[i] / z * (ls[i] - centre) ** k for i in e)
        return r
    return mom


@bounded('C19', 'tree.posterior', 400, about='posterior distributions, expectations and moments of learned trees against '
                                             'conditional probabilities')
class _:
    def gen(self, r):
        c = gen_case(r)
        c['none'] = r.random() < .15
        c['sub'] = r.random() < .3
        c['order'] = r.choice([0, 1, 2, 3])
        c['c'] = r.choice([0, 1.5, -2.])
        c['cs'] = r.choice(['labels', 'values', 'map'])
        return c

    def run(self, c):
        from jpt.base.errors import Unsatisfiability
        tree, m = setup(c)
        bad = []
        before = frozen(tree)
        e = {} if c['none'] else absolute(c, c['e'])
        ie = internal(c, tree, e)
        pe = m.P(ie)
        arg = assign(c, tree, e)
        if pe == 0:
            for f in (True, False):
                try:
                    got = tree.posterior(evidence=arg, fail_on_unsatisfiability=f)
                    if f or got is not None:
                        bad.append('unsatisfiable evidence is answered')
                except Unsatisfiability:
                    if not f:
                        bad.append('unsatisfiable evidence raises although asked not to')
            return bad
        if rounding(m, ie):
            raise Skip
        names = [v.name for v in tree.variables]
        if c['sub']:
            names = names[::2]
        post = tree.posterior(names if c['key'] == 'name' else [tree.varnames[n] for n in names], evidence=arg)
        if sorted(v.name for v in post.keys()) != sorted(names):
            bad.append('a distribution for every requested variable')
        for key in ('q', 'q2', 'e'):
            for j, s in internal(c, tree, absolute(c, c[key])).items():
                name = tree.variables[j].name
                if name not in names:
                    continue
                want = m.P(conj(ie, {j: s})) / pe
                d = post[name]
                got = F(d).mass(s) if cont(c['vs'][j]) else sum(float(d._params[i]) for i in s)
                if not close(got, want, 2e-6):
                    bad.append('the posterior of %s (%s, %s evidence) assigns %r instead of %r' % (
                        name, c['vs'][j]['k'], 'with' if j in e else 'without', got, want))
        nums = [j for j, v in enumerate(c['vs']) if numeric(v)]
        if nums:
            ex = tree.expectation([tree.variables[j] for j in nums], evidence=arg)
            cen = {}
            for j in nums:
                mom = mean_of(c, tree, m, j, ie, pe)
                if not close(float(ex[tree.variables[j]]), mom(1, 0.), 1e-5 * max(1, abs(span(c, j)[0]), abs(span(c, j)[1]))):
                    bad.append('the expectation of a %s variable is %r, not %r' % (
                        c['vs'][j]['k'], float(ex[tree.variables[j]]), mom(1, 0.)))
                cen[j] = c['c'] if c['vs'][j]['k'] != 'int' else c['vs'][j]['lo']
            from jpt.variables import LabelAssignment, VariableMap
            lab = [(tree.variables[j], cen[j]) for j in nums]
            centre = VariableMap(lab) if c['cs'] == 'map' else LabelAssignment(lab)
            if c['cs'] == 'values':
                centre = centre.value_assignment()
            if max(abs(x) for j in nums for x in span(c, j)) < 1e3:
                mo = tree.moment(c['order'], centre, tree.bind(query_of(c, tree, e)) if e else None)
                for j in nums:
                    want = mean_of(c, tree, m, j, ie, pe)(c['order'], cen[j])
                    if not close(float(mo[tree.variables[j]]), want, 1e-5 * 30 ** c['order']):
                        bad.append('moment %d of a %s variable is %r, not %r' % (
                            c['order'], c['vs'][j]['k'], float(mo[tree.variables[j]]), want))
        if frozen(tree) != before:
            bad.append('the model is unchanged')
        return bad


# ------------------------------------------------------------------------------------------------ C20
@bounded('C20', 'tree.condition', 400, about='conditioned trees (once and twice) against the original tree under the evidence')
class _:
    def gen(self, r):
        c = gen_case(r)
        c['e2'] = gen_event(r, c['vs'])
        return c

    def run(self, c):
        from jpt.base.errors import Unsatisfiability
        tree, m = setup(c)
        bad = []
        before = frozen(tree)
        e, q, e2 = (absolute(c, c[k]) for k in ('e', 'q', 'e2'))
        ie, iq, ie2 = (internal(c, tree, x) for x in (e, q, e2))
        pe = m.P(ie)

        def cond(t, ev):
            return t.conditional_jpt(tree.bind(query_of(c, tree, ev)) if c['api'] != 'value' else
                                     tree.bind(query_of(c, tree, ev)).value_assignment())
        if pe == 0:
            try:
                cond(tree, e)
                bad.append('unsatisfiable evidence is reported')
            except Unsatisfiability:
                pass
            return bad
        if any(0 < l.P1(j, x) < 1e-6 for l in m.leaves for j, x in ie.items()):
            raise Skip
        t2 = cond(tree, e)
        self.same(c, bad, m, t2, ie, (iq, ie2, {}), 'conditioned')
        pe2 = m.P(conj(ie, ie2))
        m2 = Model(t2)
        mid = frozen(t2)
        if pe2 > 1e-4 and not any(0 < l.P1(j, x) < 1e-6 for l in m2.leaves for j, x in ie2.items()):
            t3 = cond(t2, e2)
            self.same(c, bad, m, t3, conj(ie, ie2), (iq, {}), 'conditioned twice')
        if frozen(t2) != mid:
            bad.append('conditioning a conditioned tree changes it')
        if frozen(tree) != before:
            bad.append('the original tree is unchanged')
        return bad

    def same(self, c, bad, m, t2, ie, qs, what):
        m2 = Model(t2)
        pe = m.P(ie)
        if abs(sum(l.prior for l in m2.leaves) - 1) > 1e-9:
            bad.append('%s: the leaf priors sum up to %r' % (what, sum(l.prior for l in m2.leaves)))
        want = {l.idx for l in m.leaves if l.prior * l.P(ie) > 0}
        if {l.idx for l in m2.leaves} != want:
            bad.append('%s: leaves %r instead of %r' % (what, sorted(l.idx for l in m2.leaves), sorted(want)))
        for iq in qs:
            w = m.P(conj(ie, iq)) / pe
            g = m2.P(iq)
            if not close(g, w, 2e-6):
                bad.append('%s: the leaves assign %r instead of %r' % (what, g, w))
            for j, s in iq.items():     # the marginals kept with the tree
                d = t2.priors[t2.variables[j]]
                g = F(d).mass(s) if cont(c['vs'][j]) else sum(float(d._params[i]) for i in s)
                w = m.P(conj(ie, {j: s})) / pe
                if not close(g, w, 2e-6):
                    bad.append('%s: the prior distribution assigns %r instead of %r' % (what, g, w))
        for a, b in itertools.combinations(m2.leaves, 2):
            if not any(j in b.path and not both(a.path[j], b.path[j]) for j in a.path):
                bad.append('%s: leaves %d and %d overlap' % (what, a.idx, b.idx))
        # the structure leads to the leaves
        seen, todo = [], [t2.root]
        while todo:
            n = todo.pop()
            if n.__class__.__name__ == 'Leaf':
                seen.append(n.idx)
            else:
                if len(n.children) != len(n.splits) or any(x is None for x in n.children):
                    bad.append('%s: one split per child' % what)
                todo += n.children
        if sorted(seen) != sorted(l.idx for l in m2.leaves) or len(seen) != len(set(seen)):
            bad.append('%s: the nodes lead to the leaves %r' % (what, seen))
