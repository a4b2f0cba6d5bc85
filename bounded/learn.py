"""Bounded stand-ins for learning: the best split against an exhaustive search over all split positions, learned trees
against the partition they describe."""
import math

from engine.bounded import bounded


def gen_vars(r, n=None, kinds=('num', 'num', 'snum', 'sym', 'int', 'bool')):
    out = []
    for i in range(n or r.choice([1, 2, 2, 3, 4])):
        k = r.choice(kinds)
        v = {'k': k, 'name': 'V%d' % i}
        if k == 'sym':
            v['labels'] = r.choice([list('cab'), list('xyzuv'), ['only'], [3, 1, 2, 0], ['b', 'a']])
        if k == 'int':
            v['lo'] = r.choice([0, 1, -2, 7])
            v['hi'] = v['lo'] + r.randint(0, 5)
        out.append(v)
    return out


def gen_rows(r, vs, n=None):
    """rows of labels, correlated through a hidden cluster"""
    n = n or r.choice([1, 2, 3, 5, 8, 12, 20, 30])
    ks = r.randint(1, 4)
    centre = [[r.random() for _ in vs] for _ in range(ks)]
    style = [r.choice(['grid', 'real', 'ties', 'const', 'big']) for _ in vs]
    rows = []
    for _ in range(n):
        c = centre[r.randrange(ks)]
        row = []
        for j, v in enumerate(vs):
            t = min(.999, max(0., c[j] + (r.random() - .5) * r.choice([0, .1, .1, 1])))
            if v['k'] in ('num', 'snum'):
                x = {'grid': lambda: float(round(t * 10)), 'real': lambda: t * 10 - 5 + r.random() * .01,
                     'ties': lambda: float(round(t * 3)) / 2, 'const': lambda: 2.5,
                     'big': lambda: 1e6 + round(t * 50) * 1e3}[style[j]]()
            else:
                ls = labels_of(v)
                x = ls[int(t * len(ls))]
            row.append(x)
        rows.append(row)
    return rows


def labels_of(v):
    if v['k'] == 'bool':
        return [False, True]
    return v['labels'] if v['k'] == 'sym' else list(range(v['lo'], v['hi'] + 1))


def mkvars(vs, rows, precision=None):
    import numpy as np
    from jpt.distributions.univariate import Numeric, NumericType
    from jpt.distributions.univariate.multinomial import Bool, SymbolicType
    from jpt.distributions.univariate.integer import IntegerType
    from jpt.variables import NumericVariable, SymbolicVariable, IntegerVariable
    out = []
    for j, v in enumerate(vs):
        if v['k'] == 'num':
            out.append(NumericVariable(v['name'], Numeric, precision=precision))
        elif v['k'] == 'snum':
            out.append(NumericVariable(v['name'], NumericType(v['name'] + '_T', np.array([row[j] for row in rows])),
                                       precision=precision))
        elif v['k'] == 'sym':
            out.append(SymbolicVariable(v['name'], SymbolicType(v['name'] + '_T', list(v['labels'])),
                                        invert_impurity=v.get('invert') or None))
        elif v['k'] == 'bool':
            out.append(SymbolicVariable(v['name'], Bool))
        else:
            out.append(IntegerVariable(v['name'], IntegerType(v['name'] + '_T', v['lo'], v['hi'])))
    return out


def encode(vs, variables, rows):
    """internal values"""
    import numpy as np
    cols = []
    for j, (v, var) in enumerate(zip(vs, variables)):
        col = [row[j] for row in rows]
        if v['k'] == 'num':
            cols.append([float(x) for x in col])
        elif v['k'] == 'snum':
            m, s = float(np.mean(col)), float(np.std(col)) or 1.
            cols.append([(x - m) / s for x in col])
        else:
            ls = labels_of(v)
            cols.append([float(next(i for i, l in enumerate(ls) if l == x and type(l) == type(x))) for x in col])
    return [list(t) for t in zip(*cols)]


def numeric(v):
    return v['k'] in ('num', 'snum', 'int')


def var_of(xs):
    m = sum(xs) / len(xs)
    return sum((x - m) ** 2 for x in xs) / len(xs)


def gini(xs, n):
    if n == 1:
        return 0.
    p = [xs.count(v) / len(xs) for v in set(xs)]
    return (1 - sum(q * q for q in p)) / (1 - 1 / n)


class Score:
    """the impurity improvement of a split, from first principles"""

    def __init__(self, vs, rows, targets):
        self.vs, self.targets = vs, targets
        self.num = [t for t in targets if numeric(vs[t])]
        self.sym = [t for t in targets if not numeric(vs[t])]
        self.w = len(self.num) / len(targets)
        self.rows = rows
        self.tot = {t: var_of([x[t] for x in rows]) for t in self.num}
        self.g = self.gini_of(rows)

    def gini_of(self, rows):
        if not self.sym:
            return 0.
        out = []
        for t in self.sym:
            n = len(labels_of(self.vs[t]))
            g = gini([x[t] for x in rows], n)
            out.append(1 - g if self.vs[t].get('invert') and n > 1 else g)
        return sum(out) / len(out)

    def improvement(self, f, left, right):
        """modular: the relative reductions of several numeric targets are aggregated by compute_var_improvements, which
        has a check of its own"""
        import numpy as np
        from jpt.learning.impurity import _compute_var_improvements
        n, a, b = len(self.rows), len(left), len(right)
        r = 0.
        ts = [t for t in self.num if t != f and self.tot[t] > 1e-12]
        if len(ts) == 1:
            t = ts[0]
            r += self.w * (1 - (var_of([x[t] for x in left]) * a + var_of([x[t] for x in right]) * b) / n / self.tot[t])
        elif ts:
            r += self.w * _compute_var_improvements(*[
                np.array(v, dtype=np.float64) for v in ([self.tot[t] for t in ts], [var_of([x[t] for x in left]) for t in ts],
                                                        [var_of([x[t] for x in right]) for t in ts])], a, b)
        if self.sym and self.g > 1e-12:
            r += (1 - self.w) * (1 - (self.gini_of(left) * a + self.gini_of(right) * b) / n / self.g)
        return r

    def splits(self, f, min_leaf):
        """(value, left, right) of all admissible splits"""
        vals = sorted({x[f] for x in self.rows})
        if len(vals) < 2:
            return
        for i, v in enumerate(vals):
            if numeric(self.vs[f]):
                if i == len(vals) - 1:
                    break
                left, right = [x for x in self.rows if x[f] <= v], [x for x in self.rows if x[f] > v]
            else:
                left, right = [x for x in self.rows if x[f] == v], [x for x in self.rows if x[f] != v]
            if len(left) >= min_leaf and len(right) >= min_leaf:
                yield v, left, right


def stable(rows, targets, vs):
    """no target whose variance is lost in rounding"""
    for t in targets:
        if numeric(vs[t]):
            xs = [x[t] for x in rows]
            v = var_of(xs)
            if 0 < v < 1e-9 * max(1, max(abs(x) for x in xs)) ** 2 or (v == 0 and xs[0] and abs(xs[0]) not in (
                    1, 2, 2.5, 3, 4, 5, 6, 7, 8, 9)):
                return False
    return True


@bounded('C16', 'impurity.split', 900, about='the selected split of up to 30 rows and 4 variables (any mix of kinds, targets '
                                             'and features, index ranges, minimum sizes) against all admissible splits')
class _:
    def gen(self, r):
        vs = gen_vars(r, n=r.choice([2, 2, 3, 4]))
        for v in vs:
            if v['k'] == 'sym' and r.random() < .15:
                v['invert'] = True
        rows = gen_rows(r, vs, n=r.choice([2, 3, 4, 6, 10, 20, 30]))
        n = len(vs)
        targets = sorted(r.sample(range(n), r.randint(1, n))) if r.random() < .6 else list(range(n))
        rest = [i for i in range(n) if i not in targets]
        features = rest if rest and r.random() < .6 else sorted(r.sample(range(n), r.randint(1, n)))
        perm = list(range(len(rows)))
        r.shuffle(perm)
        a = 0 if r.random() < .6 else r.randrange(len(rows))
        b = len(rows) if r.random() < .6 else r.randint(a + 1, len(rows))
        return {'vs': vs, 'rows': rows, 'targets': targets, 'features': features, 'idx': perm, 'start': a, 'end': b,
                'min': r.choice([1, 1, 1, 2, 3, 5])}

    def run(self, c):
        import numpy as np
        from jpt.trees import JPT
        from jpt.learning.impurity import Impurity
        vs, bad = c['vs'], []
        variables = mkvars(vs, c['rows'])
        enc = encode(vs, variables, c['rows'])
        tree = JPT(variables, targets=[variables[t] for t in c['targets']], features=[variables[f] for f in c['features']],
                   min_samples_leaf=c['min'])
        imp = Impurity.from_tree(tree)
        imp.min_samples_leaf = c['min']
        data = np.array(enc, dtype=np.float64)
        before = data.copy()
        idx = np.array(c['idx'], dtype=np.int64)
        a, b = c['start'], c['end']
        rows = [enc[i] for i in c['idx'][a:b]]
        if not stable(rows, c['targets'], vs):
            return bad
        S = Score(vs, rows, c['targets'])
        imp.setup(data, idx)
        got = float(imp.compute_best_split(a, b))
        best, arg = -math.inf, []
        for f in c['features']:
            for v, left, right in S.splits(f, c['min']):
                s = S.improvement(f, left, right)
                arg.append((s, f, v, left, right))
                best = max(best, s)
        now = idx.tolist()
        if (data != before).any():
            bad.append('the data are unchanged')
        if sorted(now[a:b]) != sorted(c['idx'][a:b]) or now[:a] != c['idx'][:a] or now[b:] != c['idx'][b:]:
            bad.append('the indices of the range are permuted')
            return bad
        if best == -math.inf:
            if got != -math.inf:
                bad.append('without an admissible split the improvement is %r' % got)
            return bad
        if not abs(got - best) <= 1e-7 * max(1, abs(best)):
            bad.append('the reported improvement is %r, the best possible one is %r' % (got, best))
            return bad
        f, p = int(imp.best_var), int(imp.best_split_pos)
        if f not in c['features'] or not 0 <= p < b - a - 1:
            bad.append('the split is one of a feature, within the range: %r at %r' % (f, p))
            return bad
        left, right = [enc[i] for i in now[a:a + p + 1]], [enc[i] for i in now[a + p + 1:b]]
        if len(left) < c['min'] or len(right) < c['min']:
            bad.append('both sides respect the minimum number of samples')
        lv, rv = {x[f] for x in left}, {x[f] for x in right}
        if numeric(vs[f]) and not max(lv) < min(rv) or not numeric(vs[f]) and (len(lv) != 1 or lv & rv):
            bad.append('the samples of each side are on that side')
        elif abs(S.improvement(f, left, right) - best) > 1e-7 * max(1, abs(best)):
            bad.append('the reported split attains %r, not %r' % (S.improvement(f, left, right), best))
        return bad


@bounded('C16', 'impurity.aggregate', 600, about='the aggregated relative variance reduction of up to 6 targets')
class _:
    def gen(self, r):
        n = r.randint(1, 6)
        tot = [r.choice([0, r.random() * 10, 1e-3, 5e6]) for _ in range(n)]
        return {'tot': tot, 'left': [t * r.choice([0, r.random(), 1, 1.5]) for t in tot],
                'right': [t * r.choice([0, r.random(), 1, 1.5]) for t in tot],
                'a': r.randint(1, 40), 'b': r.randint(1, 40), 'skip': r.choice([-1, -1, r.randrange(n)])}

    def run(self, c):
        import numpy as np
        from jpt.learning.impurity import _compute_var_improvements
        arr = [np.array(c[k], dtype=np.float64) for k in ('tot', 'left', 'right')]
        before = [x.tolist() for x in arr]
        got = float(_compute_var_improvements(*arr, c['a'], c['b'], c['skip']))
        n = c['a'] + c['b']
        parts = [(t - (l * c['a'] + r * c['b']) / n) / t
                 for i, (t, l, r) in enumerate(zip(c['tot'], c['left'], c['right'])) if i != c['skip'] and t]
        bad = []
        if [x.tolist() for x in arr] != before:
            bad.append('the variances are unchanged')
        want = sum(parts) / len(parts) if parts else 0.
        if not abs(got - want) <= 1e-9 * max(1, abs(want)):
            acc = 0.
            for k, x in enumerate(parts):
                acc = acc * k + x / (k + 1)
            bad.append('the k-th target is divided by k, but not the mean of those before' if len(parts) > 1 and
                       abs(acc - got) <= 1e-9 * max(1, abs(acc)) else
                       'the improvement is the mean of the relative reductions: %r, not %r' % (got, want))
        return bad
