"""Bounded stand-ins for symbolic, Boolean and integer distributions: frequencies counted independently."""
import itertools

from engine.bounded import bounded

close = lambda a, b, tol=1e-9: abs(a - b) <= tol * max(1, abs(a), abs(b))   # noqa


def gen_domain(r):
    k = r.choice(['sym', 'sym', 'bool', 'int', 'int'])
    if k == 'bool':
        return {'k': 'bool'}
    if k == 'int':
        lo = r.choice([0, 1, -3, 5, -100])
        return {'k': 'int', 'lo': lo, 'hi': lo + r.randint(0, 6)}
    n = r.randint(1, 6)
    labels = r.choice([list('cabfde'), [3, 1, 2, 0, 7, -1], ['x', 1, 'y', 2, True, 'zz'], [5, 4, 3, 2, 1, 0]])
    labels = [l for i, l in enumerate(labels) if l not in labels[:i]]
    return {'k': 'sym', 'labels': labels[:n]}


def labels_of(dom):
    if dom['k'] == 'bool':
        return [False, True]
    return dom['labels'] if dom['k'] == 'sym' else list(range(dom['lo'], dom['hi'] + 1))


def mktype(dom, name='D'):
    from jpt.distributions.univariate.multinomial import Bool, SymbolicType
    from jpt.distributions.univariate.integer import IntegerType
    if dom['k'] == 'bool':
        return Bool
    if dom['k'] == 'sym':
        return SymbolicType(name, list(dom['labels']))
    return IntegerType(name, dom['lo'], dom['hi'])


def gen_params(r, n):
    w = [r.choice([0, 0, 1, 1, 2, 3, 7]) for _ in range(n)]
    if not sum(w):
        w[r.randrange(n)] = 1
    z = r.random()
    if z < .15:         # very improbable values
        w = [x * r.choice([1, 1, 1e-6, 1e-9, 1e-12]) for x in w]
    elif z < .3:        # almost equally probable values
        w = [x * (1 + r.choice([0, 1, -1, 3]) * 10. ** r.choice([-7, -9, -12])) for x in w]
    return [x / sum(w) for x in w]


def gen_weights(r, n):
    return gen_params(r, n)


def make(dom, params):
    return mktype(dom)().set(list(params))


def subset(r, n):
    return [i for i in range(n) if r.random() < .5]


def state(d):
    return [float(x) for x in d._params], dict(d.settings)


@bounded('C12', 'discrete.fit', 600, about='relative frequencies of symbolic, Boolean and integer data (domains of up to 6 '
                                           'values, up to 30 rows, row subsets with repetition, any column)')
class _:
    def gen(self, r):
        dom = gen_domain(r)
        n = len(labels_of(dom))
        N = r.choice([1, 1, 2, 3, 5, 10, 30])
        xs = [r.randrange(n) for _ in range(N)]
        return {'dom': dom, 'xs': xs, 'rows': None if r.random() < .5 else [r.randrange(N) for _ in range(r.randint(1, N))],
                'col': r.choice([None, 0, 1, 2])}

    def run(self, c):
        import numpy as np
        bad, labels = [], labels_of(c['dom'])
        n = len(labels)
        T = mktype(c['dom'])
        col = c['col']
        data = np.full((len(c['xs']), 1 if col is None else 3), (n - 1) / 2)
        data[:, col or 0] = c['xs']
        rows = None if c['rows'] is None else np.array(c['rows'], dtype=np.int64)
        before = data.copy()
        d = T()._fit(data, rows, col) if col is not None else T()._fit(data, rows)
        if (data != before).any() or (rows is not None and rows.tolist() != c['rows']):
            bad.append('the data are unchanged')
        sample = c['xs'] if rows is None else [c['xs'][i] for i in c['rows']]
        want = [sample.count(v) / len(sample) for v in range(n)]
        if not all(close(a, b) for a, b in zip(d.probabilities, want)) or len(d.probabilities) != n:
            bad.append('relative frequencies: %r, not %r' % (list(d.probabilities), want))
        if c['dom']['k'] == 'int':
            ld = np.array([[0., labels[v]] for v in c['xs']])
            lb = ld.copy()
            e = T().fit(ld, rows, 1)
            if (ld != lb).any():
                bad.append('the data are unchanged')
            if not all(close(a, b) for a, b in zip(e.probabilities, want)):
                bad.append('relative frequencies from labels: %r, not %r' % (list(e.probabilities), want))
        # another fit forgets the first one
        d._fit(np.array([[0.]]))
        if list(d.probabilities) != [1.] + [0.] * (n - 1):
            bad.append('a second fit replaces the first: %r' % list(d.probabilities))
        return bad


@bounded('C12', 'discrete.coherence', 600, about='probabilities of label and value sets, moments, modes, ordered states')
class _:
    def gen(self, r):
        dom = gen_domain(r)
        n = len(labels_of(dom))
        return {'dom': dom, 'p': gen_params(r, n), 's': subset(r, n), 'k': r.choice([None, 1, 2, 3]), 'o': r.choice([1, 2, 3]),
                'c': r.choice([0, 1., -2.5]), 'dup': r.random() < .3, 'f': r.choice(['set', 'list', 'tuple'])}

    def run(self, c):
        dom, p, bad = c['dom'], c['p'], []
        labels = labels_of(dom)
        d = make(dom, p)
        st = state(d)
        given = list(p)
        n = len(p)
        if not close(sum(d.probabilities), 1) or min(d.probabilities) < 0 or type(d).n_values != n:
            bad.append('probabilities are non-negative and sum to one')
        F = {'set': set, 'list': list, 'tuple': tuple}[c['f']]
        sub = c['s'] + (c['s'][:1] if c['dup'] else [])
        want = sum(p[i] for i in c['s'])
        ev = F(labels[i] for i in sub)
        rep = repr(ev)
        if not close(float(d.p(ev)), want):
            bad.append('P(%r) is %r, not %r' % (ev, d.p(ev), want))
        iv = F(sub)
        if not close(float(d._p(iv)), want):
            bad.append('P of the values %r is %r, not %r' % (iv, d._p(iv), want))
        if repr(ev) != rep:
            bad.append('the event is unchanged')
        for i in range(n):
            if float(d.p(labels[i])) != p[i] or float(d._p(i)) != p[i] or float(d.pdf(labels[i])) != p[i] or \
                    float(d._pdf(i)) != p[i]:
                bad.append('P of the single value %r' % labels[i])
        if [(float(a), b) for a, b in d.items()] != list(zip(p, labels)):
            bad.append('items() are the probabilities and labels')
        if [(float(a), b) for a, b in d._items()] != [(x, i) for i, x in enumerate(p)]:
            bad.append('_items() are the probabilities and values')
        so = [(float(a), b) for a, b in d.sorted()]
        if [a for a, _ in so] != sorted(p, reverse=True) or any(p[labels.index(b)] != a for a, b in so) or \
                len({repr(b) for _, b in so}) != n:
            bad.append('sorted() lists all labels in descending order of probability: %r' % so)
        pm = max(p)
        for got, conv in ((d._mpe(), lambda i: i), (d.mpe(), lambda i: labels[i]), (d.mode(), lambda i: labels[i]),
                          (d._mode(), lambda i: i)):
            if got[0] != {conv(i) for i in range(n) if p[i] == pm} or got[1] != pm:
                bad.append('the mode: %r' % (got,))
        ws = sorted({x for x in p if x}, reverse=True)[:c['k'] or n]
        for got, conv in ((d._k_mpe(c['k']), lambda i: i), (d.k_mpe(c['k']), lambda i: labels[i])):
            if [x for _, x in got] != ws or any(s != {conv(i) for i in range(n) if p[i] == x} for s, x in got):
                bad.append('the ordered most probable states: %r' % (got,))
        if dom['k'] == 'int':
            m = sum(a * b for a, b in zip(p, labels))
            v = sum(a * (b - m) ** 2 for a, b in zip(p, labels))
            if not close(float(d.expectation()), m):
                bad.append('expectation %r, not %r' % (d.expectation(), m))
            if not close(float(d._expectation()), m - labels[0]):
                bad.append('expectation of the values %r, not %r' % (d._expectation(), m - labels[0]))
            if not close(float(d.variance()), v) or not close(float(d._variance()), v):
                bad.append('variance %r, %r, not %r' % (d.variance(), d._variance(), v))
            w = sum(a * (b - c['c']) ** c['o'] for a, b in zip(p, labels))
            if not close(float(d.moment(c['o'], c['c'])), w):
                bad.append('moment %r, not %r' % (d.moment(c['o'], c['c']), w))
        if bool(d.is_dirac_impulse() if hasattr(d, 'is_dirac_impulse') else 1. in p) != (1. in p):
            bad.append('an impulse has a value of probability 1')
        if state(d) != st or given != c['p']:
            bad.append('the distribution is unchanged')
        e = make(dom, p)
        if not (d == e) or (n > 1 and d == make(dom, p[1:] + p[:1]) and p[1:] + p[:1] != p):
            bad.append('distributions are equal iff the probabilities are')
        f = d.copy()
        if not (f == d) or f._params is d._params:
            bad.append('a copy is equal and independent')
        if dom['k'] == 'bool':
            g = make(dom, p)
            g[True] = .3
            if not (close(g.probabilities[1], .3) and close(g.probabilities[0], .7)):
                bad.append('setting the probability of a Boolean value')
            h = type(d)().set(.8)
            if not (close(h.probabilities[1], .8) and close(h.probabilities[0], .2)):
                bad.append('a single probability is the one of True')
        return bad


@bounded('C12', 'integer.sum', 200, about='sums of independent integer distributions')
class _:
    def gen(self, r):
        ds = []
        for _ in range(2):
            lo = r.randint(-3, 4)
            n = r.randint(1, 4)
            ds.append({'dom': {'k': 'int', 'lo': lo, 'hi': lo + n - 1}, 'p': gen_params(r, n)})
        return {'ds': ds}

    def run(self, c):
        a, b = [make(x['dom'], x['p']) for x in c['ds']]
        la, lb = [labels_of(x['dom']) for x in c['ds']]
        s = a + b
        want = {}
        for (i, x), (j, y) in itertools.product(zip(la, c['ds'][0]['p']), zip(lb, c['ds'][1]['p'])):
            want[i + j] = want.get(i + j, 0) + x * y
        got = {l: float(p) for p, l in s.items()}
        return [] if got.keys() == want.keys() and all(close(got[k], want[k]) for k in want) else [
            'the sum has the convolution of the probabilities: %r, not %r' % (got, want)]


@bounded('C08', 'discrete.crop', 500, about='symbolic and integer distributions restricted to all kinds of subsets')
class _:
    def gen(self, r):
        dom = gen_domain(r)
        n = len(labels_of(dom))
        return {'dom': dom, 'p': gen_params(r, n), 's': subset(r, n), 'f': r.choice(['set', 'list', 'tuple', 'one']),
                'label': r.random() < .5}

    def run(self, c):
        from jpt.base.errors import Unsatisfiability
        bad, p, labels = [], c['p'], labels_of(c['dom'])
        d = make(c['dom'], p)
        st = state(d)
        s = c['s']
        if c['f'] == 'one':
            s = s[:1] or [0]
        conv = (lambda i: labels[i]) if c['label'] else (lambda i: i)
        A = conv(s[0]) if c['f'] == 'one' else {'set': set, 'list': list, 'tuple': tuple}[c['f']](conv(i) for i in s)
        rep = repr(A)
        pa = sum(p[i] for i in s)
        try:
            e = (d.crop if c['label'] else d._crop)(A)
        except Unsatisfiability:
            e = None
        if repr(A) != rep:
            bad.append('the restricting set is unchanged')
        if (e is None) != (pa == 0):
            bad.append('the restriction to a set of probability %r is %s' % (pa, 'rejected' if e is None else 'answered'))
        elif e is not None:
            want = [p[i] / pa if i in s else 0 for i in range(len(p))]
            if not all(close(x, y) for x, y in zip(e.probabilities, want)) or len(e.probabilities) != len(p):
                bad.append('P after the restriction is %r, not %r' % (list(e.probabilities), want))
            if type(e) is not type(d) or e.settings != d.settings:
                bad.append('the restriction keeps type and settings')
        if state(d) != st or e is d or (e is not None and e._params is d._params):
            bad.append('the restricted distribution is unchanged')
        return bad


@bounded('C09', 'discrete.merge', 500, about='weighted merges and updates of up to 4 symbolic or integer distributions')
class _:
    def gen(self, r):
        dom = gen_domain(r)
        n = len(labels_of(dom))
        k = r.randint(1, 4)
        return {'dom': dom, 'ps': [gen_params(r, n) for _ in range(k)], 'w': gen_weights(r, k), 'u': r.choice([0, 1, r.random()])}

    def run(self, c):
        bad = []
        T = mktype(c['dom'])
        ds = [T().set(p) for p in c['ps']]
        st = [state(d) for d in ds]
        w = list(c['w'])
        m = T.merge(ds, w)
        want = [sum(a * p[i] for a, p in zip(w, c['ps'])) for i in range(len(c['ps'][0]))]
        if not all(close(x, y) for x, y in zip(m.probabilities, want)):
            bad.append('the mixture is %r, not %r' % (list(m.probabilities), want))
        if [state(d) for d in ds] != st or w != c['w'] or any(m is d or m._params is d._params for d in ds):
            bad.append('the parts are unchanged')
        if len(ds) > 1:
            e = ds[0].copy()
            e.update(ds[1], c['u'])
            want = [(1 - c['u']) * x + c['u'] * y for x, y in zip(c['ps'][0], c['ps'][1])]
            if not all(close(x, y) for x, y in zip(e.probabilities, want)):
                bad.append('the update is %r, not %r' % (list(e.probabilities), want))
            if [state(d) for d in ds] != st:
                bad.append('the parts are unchanged')
            try:
                T.merge(ds[:2], [.5, .6])
                bad.append('weights that do not sum to one are rejected')
            except ValueError:
                pass
        return bad


@bounded('C22', 'discrete.sample', 300, about='samples of symbolic and integer distributions, weighted choices')
class _:
    def gen(self, r):
        dom = gen_domain(r)
        n = len(labels_of(dom))
        return {'dom': dom, 'p': gen_params(r, n), 'n': r.choice([0, 1, 7, 2000]), 'seed': r.randrange(10 ** 6)}

    def run(self, c):
        import random
        import numpy as np
        from jpt.base.sampling import wsample, wsamplei, wchoice, wchoiced, wchoicei, RouletteWheelSampler
        bad, p, labels = [], c['p'], labels_of(c['dom'])
        d = make(c['dom'], p)
        st = state(d)
        random.seed(c['seed'])
        np.random.seed(c['seed'])
        N = c['n']
        xs, ls = list(d._sample(N)), list(d.sample(N))
        if len(xs) != N or len(ls) != N:
            bad.append('the number of samples is the requested one')
        if any(not p[x] for x in xs) or any(not p[labels.index(x)] for x in ls):
            bad.append('samples have positive probability')
        if not p[d._sample_one()] or not p[labels.index(d.sample_one())]:
            bad.append('a sample has positive probability')
        ws = wsamplei(labels, p, N)
        if len(ws) != N or any(labels[i] != l or not p[i] for l, i in ws):
            bad.append('weighted samples and their indices')
        l, i = wchoicei(labels, p)
        if labels[i] != l or not p[i]:
            bad.append('a weighted choice and its index')
        if not p[labels.index(wchoice(labels, p))] or not p[labels.index(wchoiced(dict(zip(labels, p))))]:
            bad.append('a weighted choice has positive weight')
        if N == 2000:
            for i, q in enumerate(p):
                for s in (xs.count(i), sum(x is labels[i] or x == labels[i] for x in ls),
                          sum(j == i for _, j in ws)):
                    if abs(s / N - q) > .08:
                        bad.append('frequency %r of a value of probability %r' % (s / N, q))
        R = RouletteWheelSampler(labels, p)
        acc = 0.
        for i, q in enumerate(p):
            if q:
                for t in (.25, .5, .75):
                    if R.index(acc + t * q) != i or R[acc + t * q] != labels[i]:
                        bad.append('the field of the roulette wheel')
            acc += q
        if not p[R.index(0)] or not p[R.index(float(R._upperbounds[-1]))]:
            bad.append('the ends of the roulette wheel have positive weight')
        R2 = RouletteWheelSampler(labels, [7 * x for x in p], normalize=True)
        if not close(float(R2._upperbounds[-1]), 1):
            bad.append('normalised weights sum to one')
        if state(d) != st:
            bad.append('the distribution is unchanged')
        return bad
