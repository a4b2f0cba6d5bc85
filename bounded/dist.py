"""Bounded stand-ins for the univariate distributions: compiled/interpreted code against an independent evaluation of
cumulative distribution functions and relative frequencies."""
import math

from engine.bounded import bounded
from bounded.pwf import lo, up, inside, fval, spec

INF = math.inf


# ------------------------------------------------------------------------------------------------ numeric: the oracle
class F:
    """a cumulative distribution function given by the pieces of a PiecewiseFunction"""

    def __init__(self, dist):
        cdf = dist.cdf if hasattr(dist, 'cdf') else dist
        self.ps = [p for p in spec(cdf)]
        self.starts = [p[0] for p in self.ps]

    def at(self, x):
        if x == INF:
            return 1.
        if x == -INF:
            return 0.
        for p in self.ps:
            if inside(p, x):
                return fval(p[4], x)
        return math.nan

    def left(self, x):
        """left limit"""
        if x == INF:
            return 1.
        if x == -INF:
            return 0.
        for p in self.ps:
            if lo(p) < x <= up(p):
                return fval(p[4], x)
        return math.nan

    def P(self, s):
        """probability of [lower, upper, left, right] (1: closed)"""
        l, u = lo(s), up(s)
        if l > u or (l == u and not (s[2] == 1 and s[3] == 1)):
            return 0.
        a = self.left(l) if s[2] == 1 else self.at(l)
        b = self.at(u) if s[3] == 1 else self.left(u)
        return max(0., b - a)

    def mass(self, sets):
        return sum(self.P(s) for s in sets)

    def atoms(self):
        out = []
        for x in sorted({p[0] for p in self.ps} | {p[1] for p in self.ps}):
            if math.isfinite(x):
                d = self.at(x) - self.left(x)
                if d > 1e-8:
                    out.append((x, d))
        return out

    def bounds(self):
        return sorted({float(v) for p in self.ps for v in p[:2] if math.isfinite(v)})

    def moment(self, k, c):
        r = sum((x - c) ** k * d for x, d in self.atoms())
        for p in self.ps:
            if isinstance(p[4], list) and math.isfinite(p[0]) and math.isfinite(p[1]):
                r += p[4][0] * ((p[1] - c) ** (k + 1) - (p[0] - c) ** (k + 1)) / (k + 1)
        return r


def meet(a, b):
    l, u = max(lo(a), lo(b)), min(up(a), up(b))
    left = max(s[2] for s in (a, b) if lo(s) == l)
    right = max(s[3] for s in (a, b) if up(s) == u)
    return [l, u, left, right]


def close(a, b, tol=1e-6):
    return a == b or abs(a - b) <= tol * max(1, abs(a), abs(b))


def cs(s):
    from jpt.base.intervals import ContinuousSet
    return ContinuousSet(lo(s), up(s), s[2], s[3])


def nset(ss):
    from jpt.base.intervals import RealSet
    return cs(ss[0]) if len(ss) == 1 else RealSet([cs(s) for s in ss])


def grid(*fs, extra=()):
    import numpy as np
    b = sorted({x for f in fs for x in f.bounds()} | set(extra))
    out = set(b)
    for v, w in zip(b, b[1:]):
        out |= {(v + w) / 2, v + .25 * (w - v)}
    for v in b:
        out |= {float(np.nextafter(v, INF)), float(np.nextafter(v, -INF))}
    if b:
        d = (b[-1] - b[0]) or 1.
        out |= {b[0] - d, b[-1] + d, b[0] - .1 * d, b[-1] + .1 * d}
    return sorted(out)


def wellformed(bad, label, f, tol=1e-9):
    """0 on the left, non-decreasing, 1 on the right, no gap"""
    ps = f.ps
    if ps[0][0] != -INF or ps[-1][1] != INF:
        bad.append('%s: the domain is the real line' % label)
    for p, q in zip(ps, ps[1:]):
        if p[1] != q[0] or (p[3] == 1) == (q[2] == 1):
            bad.append('%s: the domain has a gap or an overlap at %r' % (label, p[1]))
            return
    if not (isinstance(ps[0][4], (int, float)) and ps[0][4] == 0):
        bad.append('%s: 0 on the left' % label)
    if not (isinstance(ps[-1][4], (int, float)) and abs(ps[-1][4] - 1) <= 1e-9):
        bad.append('%s: 1 on the right' % label)
    last = 0.
    for x in grid(f):
        v = f.at(x)
        if not (v >= last - tol and -tol <= v <= 1 + tol):
            bad.append('%s: non-decreasing within [0,1]: at %r the value is %r after %r' % (label, x, v, last))
            return
        last = max(last, v)


# ------------------------------------------------------------------------------------------------ numeric: generators
def gen_sample(r, maxn=12, wide=True):
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, maxn])
    k = r.choice(['grid', 'grid', 'real', 'ties'])
    if k == 'grid':
        xs = [float(r.randint(-6, 6)) for _ in range(n)]
    elif k == 'ties':
        xs = [float(r.choice([0, 1, 1, 2.5])) for _ in range(n)]
    else:
        xs = [r.uniform(-5, 5) for _ in range(n)]
    s = r.choice([1., 1., 1., .01, 1e3, 1e6] if wide else [1., 1., 2.])
    o = r.choice([0., 0., 10., -3.])
    return [x * s + o for x in xs]


def gen_dist(r, depth=1, wide=True):
    k = r.choice(['fit'] * 5 + ['dirac'] + (['merge', 'crop'] if depth else []))
    if k == 'fit':
        return {'k': 'fit', 'data': gen_sample(r, wide=wide), 'prec': r.choice([0., 0., 0., .01, .05])}
    if k == 'dirac':
        return {'k': 'dirac', 'x': float(r.randint(-4, 4)) / 2}
    if k == 'merge':
        n = r.choice([2, 2, 3])
        return {'k': 'merge', 'of': [gen_dist(r, 0, False) for _ in range(n)], 'w': weights(r, n)}
    return {'k': 'crop', 'of': gen_dist(r, 0, False), 'at': sorted([r.random(), r.random()])}


def weights(r, n):
    w = [r.choice([0, 1, 1, 2, 3, 5]) for _ in range(n)]
    if not sum(w):
        w[0] = 1
    return [x / sum(w) for x in w]


def build(c, cls=None):
    import numpy as np
    from jpt.distributions.univariate import Numeric
    cls = cls or Numeric
    if c['k'] == 'fit':
        return cls(precision=c['prec'])._fit(np.array([[x] for x in c['data']], dtype=np.float64))
    if c['k'] == 'dirac':
        return cls().create_dirac_impulse(c['x'])
    if c['k'] == 'merge':
        return cls.merge([build(d, cls) for d in c['of']], c['w'])
    d = build(c['of'], cls)
    f = F(d)
    b = f.bounds()
    l, u = (b[0] + t * (b[-1] - b[0]) for t in c['at'])
    if l >= u or f.P([l, u, 1, 1]) < .05:
        return d
    from jpt.base.intervals import ContinuousSet
    return d._crop(ContinuousSet(l, u))


def gen_sets(r, n=None):
    """disjoint sets, positions relative to the span of the distribution (0..1), None: infinite"""
    n = n or r.choice([1, 1, 1, 2, 3])
    pts = sorted(r.choice([r.uniform(-.3, 1.3), r.choice([0., 1., .5])]) for _ in range(2 * n))
    out = [[pts[2 * i], pts[2 * i + 1], r.choice([1, 1, 2]), r.choice([1, 2])] for i in range(n)]
    if r.random() < .2:
        out[0][0], out[0][2] = None, 2
    if r.random() < .2:
        out[-1][1], out[-1][3] = None, 2
    return out


def place(sets, f, snap=0):
    """absolute, non-empty, pairwise disjoint sets; positions may snap to a knot of the distribution"""
    b = f.bounds()
    d = (b[-1] - b[0]) or 1.

    def pos(t):
        if t is None:
            return None
        x = b[0] + t * d
        if snap and int(abs(t) * 1e4) % 3 == 0:
            x = min(b, key=lambda v: abs(v - x))
        return x
    out = []
    for l, u, a, z in sets:
        l, u = pos(l), pos(u)
        s = [l, u, a, z]
        if l is not None and u is not None and (u - l) <= 1e-3 * d:
            continue
        if out and (lo(s) <= up(out[-1])):
            continue
        out.append(s)
    return out


def snapshot(d):
    return (spec(d.cdf), dict(d.settings))


def no_tiny(f):
    """skip data whose gaps are too close to the rounding error of slope-intercept pieces"""
    for p in f.ps:
        if isinstance(p[4], list) and abs(p[4][0]) * max(1, abs(p[0]), abs(p[1])) > 1e8:
            return False
    return True


@bounded('C07', 'numeric.fit', 900, about='fitted CDF and PDF for samples of up to 12 values (ties, any order, any column, '
                                          'row subsets) and several precisions, against the empirical distribution')
class _:
    def gen(self, r):
        xs = gen_sample(r)
        n = len(xs)
        rows = None
        if r.random() < .4:
            rows = [r.randrange(n) for _ in range(r.randint(1, n))]
        prec = r.choice([0., 0., 0., .001, .01, .05, .1, .3, 1.])
        if r.random() < .06:        # squares of the values are not representable
            s = r.choice([1e160, 1e-170, 1e155])
            xs, prec = [x * s for x in xs], 0.
        return {'xs': xs, 'prec': prec, 'rows': rows, 'col': r.randrange(3),
                'noise': [[r.random(), r.random()] for _ in xs]}

    def run(self, c):
        import numpy as np
        from jpt.distributions.univariate import Numeric
        xs, bad = c['xs'], []
        data = np.array([[a, b, a] for a, b in c['noise']], dtype=np.float64)
        data[:, c['col']] = xs
        before = data.copy()
        rows = None if c['rows'] is None else np.array(c['rows'], dtype=np.int64)
        d = Numeric(precision=c['prec'])._fit(np.ascontiguousarray(data), rows=rows, col=c['col'])
        if (data != before).any() or (rows is not None and rows.tolist() != c['rows']):
            bad.append('the data are unchanged')
        sample = sorted(xs if rows is None else [xs[i] for i in c['rows']])
        f = F(d)
        wellformed(bad, 'cdf', f)
        if bad:
            return bad
        mn, mx = sample[0], sample[-1]
        if f.at(float(np.nextafter(mn, -INF))) != 0:
            bad.append('0 left of the data')
        if abs(f.at(mx) - 1) > 1e-7 or abs(f.at(float(np.nextafter(mx, INF))) - 1) > 1e-7:
            bad.append('1 from the largest value on: %r' % f.at(mx))
        dist = sorted(set(sample))
        n = len(sample)
        ecdf = [1.] if len(dist) == 1 else [(sum(v <= x for v in sample) - 1) / (n - 1) for x in dist]
        knots = [b for b in f.bounds() if b <= mx]
        for x, y in zip(dist, ecdf):
            if x in knots and abs(f.at(x) - y) > 1e-6:
                bad.append('the CDF meets the empirical distribution at its knots: at %r %r, not %r' % (x, f.at(x), y))
            if c['prec'] == 0 and abs(f.at(x) - y) > 1e-6:
                bad.append('without approximation the CDF meets the empirical distribution: at %r %r, not %r' % (
                    x, f.at(x), y))
        for k in knots:
            if k not in dist:
                bad.append('the knots are data points: %r' % k)
        pdf = d.pdf
        ps = spec(pdf)
        tot = 0.
        for p in ps:
            if isinstance(p[4], list) or not p[4] >= 0:
                bad.append('the density is constant and non-negative on each piece')
            elif p[4] and math.isfinite(p[4]):
                tot += p[4] * (p[1] - p[0])
        if len(dist) > 1 and not close(tot, 1 - sum(m for _, m in f.atoms()), 1e-6):
            bad.append('the density integrates to %r' % tot)
        for x in (dist[0] - abs(dist[0]) * 1e-6 - 1, dist[-1] + abs(dist[-1]) * 1e-6 + 1):
            if d.pdf.eval(x) != 0:
                bad.append('the density is 0 outside of the data')
        return bad


@bounded('C08', 'numeric.crop', 700, about='numeric distributions (fitted, merged, cropped, impulses) restricted to '
                                           'intervals, unions of intervals and points, against P(B and A)/P(A)')
class _:
    def gen(self, r):
        return {'d': gen_dist(r), 'A': gen_sets(r), 'Bs': [gen_sets(r) for _ in range(4)], 'snap': r.random() < .4,
                'pt': r.random()}

    def run(self, c):
        import numpy as np
        from jpt.base.errors import Unsatisfiability
        d, bad = build(c['d']), []
        f = F(d)
        if not no_tiny(f):
            return bad
        A = place(c['A'], f, c['snap'])
        if A:
            before, aset = snapshot(d), nset(A)
            rep = repr(aset)
            pa = f.mass(A)
            try:
                e = d._crop(aset)
            except Unsatisfiability:
                e = None
            if repr(aset) != rep:
                bad.append('the restricting set is unchanged')
            if e is None and pa > 1e-6:
                bad.append('restricting to a set of probability %r is rejected' % pa)
            if e is not None and pa == 0:
                bad.append('restricting to a set of probability 0 is answered')
            if snapshot(d) != before or e is d:
                bad.append('the restricted distribution is unchanged')
            if e is not None and pa > 1e-3:
                g = F(e)
                wellformed(bad, 'cropped', g, 1e-6)
                for x in grid(f, g, extra=[v for s in A for v in s[:2] if v is not None]):
                    near = any(v is not None and abs(v - x) <= 1e-9 * max(1, abs(v)) for s in A for v in s[:2]) or any(
                        abs(b - x) <= 1e-9 * max(1, abs(b)) for b in f.bounds() + g.bounds())
                    B = [None, x, 2, 1]
                    want = f.mass([meet(B, s) for s in A]) / pa
                    if not near and not close(g.at(x), want, 1e-5):
                        bad.append('P(X <= %r) is %r, not %r' % (x, g.at(x), want))
                        break
                for B in [place(b, f, c['snap']) for b in c['Bs']] + [A]:
                    if not B:
                        continue
                    want = f.mass([meet(s, t) for s in B for t in A]) / pa
                    got = e._p(nset(B))
                    if not close(float(got), want, 1e-5):
                        bad.append('P(%s) is %r, not %r' % (nset(B), got, want))
        # a single point
        b = f.bounds()
        for x, inn in ((b[0] + (b[-1] - b[0]) * c['pt'], True), (b[0] - 1, False), (b[-1] + 1, False)):
            before = snapshot(d)
            dens = d.pdf.eval(x) or f.at(x) - f.left(x) > 1e-8
            try:
                e = d._crop(x)
            except Unsatisfiability:
                e = None
            if e is not None and not inn:
                bad.append('restricting to a point outside of the support is answered')
            if e is None and dens:
                bad.append('restricting to a point of positive density is rejected')
            if e is not None:
                g = F(e)
                if not (g.at(x) == 1 and g.left(x) == 0):
                    bad.append('restricting to a point is the impulse at that point')
            if snapshot(d) != before or e is d:
                bad.append('the distribution restricted to a point is unchanged')
        return bad


@bounded('C09', 'numeric.merge', 600, about='weighted merges, incremental updates of up to 4 numeric distributions')
class _:
    def gen(self, r):
        n = r.choice([1, 2, 2, 3, 4])
        return {'of': [gen_dist(r, 0, wide=r.random() < .3) for _ in range(n)], 'w': weights(r, n), 'u': r.random(),
                'B': gen_sets(r)}

    def run(self, c):
        from jpt.distributions.univariate import Numeric
        ds = [build(x) for x in c['of']]
        fs, bad = [F(d) for d in ds], []
        if not all(no_tiny(f) for f in fs):
            return bad
        before = [snapshot(d) for d in ds]
        w = list(c['w'])
        m = Numeric.merge(ds, w)
        if w != c['w'] or [snapshot(d) for d in ds] != before or any(m is d for d in ds):
            bad.append('the parts and weights are unchanged')
        g = F(m)
        wellformed(bad, 'merged', g, 1e-6)
        xs = grid(g, *fs)
        for x in xs:
            near = any(0 < abs(x - b) <= 1e-9 * max(1, abs(b)) for f in fs + [g] for b in f.bounds())
            want = sum(a * f.at(x) for a, f in zip(w, fs))
            if not near and not close(g.at(x), want, 1e-5):
                bad.append('P(X <= %r) is %r, not %r' % (x, g.at(x), want))
                break
        B = place(c['B'], g, 1)
        if B:
            want = sum(a * f.mass(B) for a, f in zip(w, fs))
            if not close(float(m._p(nset(B))), want, 1e-5):
                bad.append('P(%s) is %r, not %r' % (nset(B), m._p(nset(B)), want))
        if len(ds) > 1:
            u = c['u']
            e = ds[0].copy()
            e.update(ds[1], u)
            h = F(e)
            for x in grid(fs[0], fs[1]):
                near = any(0 < abs(x - b) <= 1e-9 * max(1, abs(b)) for f in fs[:2] + [h] for b in f.bounds())
                want = (1 - u) * fs[0].at(x) + u * fs[1].at(x)
                if not near and not close(h.at(x), want, 1e-5):
                    bad.append('after an update P(X <= %r) is %r, not %r' % (x, h.at(x), want))
                    break
            if [snapshot(d) for d in ds] != before:
                bad.append('the parts are unchanged')
        from jpt.distributions.quantile.quantiles import QuantileDistribution as QD
        q = F(QD.merge([d._quantile for d in ds]).cdf)
        for x in xs:
            near = any(0 < abs(x - b) <= 1e-9 * max(1, abs(b)) for f in fs + [q] for b in f.bounds())
            want = sum(f.at(x) for f in fs) / len(fs)
            if not near and not close(q.at(x), want, 1e-5):
                bad.append('the merge with equal weights: P(X <= %r) is %r, not %r' % (x, q.at(x), want))
                break
        return bad


@bounded('C10', 'numeric.quantile', 900, about='quantiles at the levels of all knots, their neighbours and in between')
class _:
    def gen(self, r):
        return {'d': gen_dist(r), 'qs': [r.random() for _ in range(4)]}

    def run(self, c):
        import numpy as np
        d, bad = build(c['d']), []
        f = F(d)
        if not no_tiny(f):
            return bad
        before = spec(d.cdf)
        lv = sorted({v for b in f.bounds() for v in (f.at(b), f.left(b))})
        qs = {1., 1e-6, .5} | set(c['qs'])
        for v, w in zip(lv, lv[1:]):
            qs |= {(v + w) / 2, v + .01 * (w - v)}
        qs |= set(lv)
        b = f.bounds()
        span = max(1e-300, b[-1] - b[0])
        last = -INF
        for q in sorted(x for x in qs if 0 < x <= 1):
            x = float(d.ppf.eval(q))
            if d.quantile(q) != x and x == x:
                bad.append('quantile() is the ppf')
            if x != x:
                bad.append('the quantile at %r is undefined' % q)
                continue
            tol = 1e-6
            if f.at(x + 1e-9 * (abs(x) + span)) < q - tol:
                bad.append('the CDF reaches %r at the quantile %r (%r)' % (q, x, f.at(x)))
            if f.left(x - 1e-9 * (abs(x) + span)) > q + tol:
                bad.append('the CDF exceeds %r before the quantile %r' % (q, x))
            if x < last - 1e-6 * span:
                bad.append('quantiles are non-decreasing: %r after %r' % (x, last))
            last = max(last, x)
            if not (b[0] - 1e-6 * span <= x <= b[-1] + 1e-6 * span):
                bad.append('the quantile %r is outside of the support' % x)
        if spec(d.cdf) != before:
            bad.append('the distribution is unchanged')
        return bad


@bounded('C11', 'numeric.coherence', 700, about='set probabilities, moments and mode of numeric distributions against the CDF')
class _:
    def gen(self, r):
        sc = r.choice([None, None, [r.uniform(-5, 5) for _ in range(4)], [r.uniform(-1, 1) * 1000 for _ in range(3)]])
        return {'d': gen_dist(r), 'sets': [gen_sets(r) for _ in range(5)], 'snap': r.random() < .6, 'scale': sc,
                'k': r.choice([1, 2, 3]), 'c': r.uniform(-3, 3)}

    def run(self, c):
        import numpy as np
        from jpt.distributions.univariate import NumericType
        from jpt.base.intervals import ContinuousSet, RealSet, R, EMPTY
        cls = None if c['scale'] is None else NumericType('X', c['scale'])
        d, bad = build(c['d'], cls), []
        f = F(d)
        if not no_tiny(f):
            return bad
        before = snapshot(d)
        L = (lambda x: x) if cls is None else lambda x: x * float(np.std(c['scale'])) + float(np.mean(c['scale']))
        for S in c['sets']:
            S = place(S, f, c['snap'])
            if not S:
                continue
            want = f.mass(S)
            got = float(d._p(nset(S)))
            if not close(got, want, 1e-6) or not -1e-12 <= got <= 1 + 1e-9:
                bad.append('P(%s) is %r, not %r' % (nset(S), got, want))
            if cls is not None and not any(abs(v - x) < 1e-6 * max(1, abs(x)) for s in S for v in s[:2] if v is not None
                                           for x, _ in f.atoms()):
                out = [[None if v is None else L(v) for v in s[:2]] + s[2:] for s in S]
                got = float(d.p(nset(out)))
                if not close(got, want, 1e-6):
                    bad.append('P in the outer scale is %r, not %r' % (got, want))
        for x in f.bounds() + [f.bounds()[0] - 1, (f.bounds()[0] + f.bounds()[-1]) / 2]:
            if not close(float(d._p(x)), f.at(x) - f.left(x), 1e-6):
                bad.append('P(X = %r) is %r, not %r' % (x, d._p(x), f.at(x) - f.left(x)))
        if not close(float(d._p(R)), 1, 1e-9):
            bad.append('P of the real line is %r' % d._p(R))
        if d._p(EMPTY) != 0:
            bad.append('P of the empty set is %r' % d._p(EMPTY))
        m = f.moment(1, 0)
        v = f.moment(2, m)
        s = max(1, abs(m), v)
        if not close(float(d._expectation()), m, 1e-5):
            bad.append('expectation %r, not %r' % (d._expectation(), m))
        if abs(float(d._variance()) - v) > 1e-5 * max(s, m * m):
            bad.append('variance %r, not %r' % (d._variance(), v))
        k, ctr = c['k'], c['c']
        mk = f.moment(k, ctr)
        if not close(float(d._moment(k, ctr)), mk, 1e-5):
            bad.append('moment %d around %r is %r, not %r' % (k, ctr, d._moment(k, ctr), mk))
        a = 1. if cls is None else float(np.std(c['scale']))
        E = L(m)
        if not abs(float(d.expectation()) - E) <= 1e-5 * max(1, abs(E)):
            bad.append('expectation in the outer scale %r, not %r' % (d.expectation(), E))
        if not abs(float(d.variance()) - v * a * a) <= 1e-5 * max(1, v * a * a, E * E):
            bad.append('variance in the outer scale %r, not %r' % (d.variance(), v * a * a))
        # the mode
        ps = spec(d.pdf)
        dens = [p[4] for p in ps if p[4]]
        st, h = d._mpe()
        if not dens:
            dens = [INF] * len({m for _, m in f.atoms()})
            ps = []
            if not st.contains_value(max(f.atoms(), key=lambda a: a[1])[0]):
                bad.append('the mode contains the most probable impulse')
        if h != max(dens):
            bad.append('the density of the mode is %r, the maximum is %r' % (h, max(dens or [0])))
        for p in ps:
            x = p[0] if math.isfinite(p[0]) else (p[1] - 1 if math.isfinite(p[1]) else 0.)
            mid = (p[0] + p[1]) / 2 if math.isfinite(p[0] + p[1]) else x
            for t in (x, mid):
                if inside(p, t) and st.contains_value(t) != (p[4] == h):
                    bad.append('the mode contains exactly the points of maximal density (%r)' % t)
        ks = d._k_mpe()
        hs = [y for _, y in ks]
        if hs != sorted(hs, reverse=True) or (set(hs) != set(dens)):
            bad.append('the listed modes %r are not the densities %r in descending order' % (hs, dens))
        for st2, y in ks:
            for p in ps:
                mid = (p[0] + p[1]) / 2
                if math.isfinite(mid) and inside(p, mid) and st2.contains_value(mid) != (p[4] == y):
                    bad.append('listed mode of density %r at %r' % (y, mid))
        if snapshot(d) != before:
            bad.append('the distribution is unchanged')
        return bad


@bounded('C22', 'numeric.sample', 300, about='samples of numeric distributions')
class _:
    def gen(self, r):
        return {'d': gen_dist(r), 'n': r.choice([0, 1, 5, 40]), 'seed': r.randrange(10 ** 6),
                'scale': r.choice([None, [1., 2., 7.]])}

    def run(self, c):
        import numpy as np
        from jpt.distributions.univariate import NumericType
        cls = None if c['scale'] is None else NumericType('X', c['scale'])
        d, bad = build(c['d'], cls), []
        f = F(d)
        if not no_tiny(f):
            return bad
        np.random.seed(c['seed'])
        xs = list(d._sample(c['n']))
        if len(xs) != c['n']:
            bad.append('the number of samples is the requested one')
        xs.append(d._sample_one())
        b = f.bounds()
        for x in xs:
            x = float(x)
            e = 1e-7 * max(1, abs(x), b[-1] - b[0])
            if f.at(x + e) - f.left(x - e) <= 0:
                bad.append('the sample %r has no density' % x)
        if c['n']:
            ls = list(d.sample(c['n']))
            if len(ls) != c['n']:
                bad.append('the number of outer samples is the requested one')
            for y in ls:
                x = float(d.label2value(float(y)))
                e = 1e-6 * max(1, abs(x), b[-1] - b[0])
                if f.at(x + e) - f.left(x - e) <= 0:
                    bad.append('the outer sample %r has no density' % y)
        if c['n'] == 40:      # every part of noticeable mass is hit
            big = list(d._sample(2000))
            for p in f.ps:
                if isinstance(p[4], list):
                    m = f.P([p[0], p[1], 2, 2])
                    k = sum(p[0] < x < p[1] for x in big) / 2000
                    if abs(k - m) > .1:
                        bad.append('the frequency of samples in a piece is %r, its probability %r' % (k, m))
        return bad
