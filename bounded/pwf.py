"""Bounded stand-ins for the loops of PiecewiseFunction that are not (yet) under an unbounded contract: the compiled
operations against an independent pointwise evaluation, on a grid around every boundary."""
import math

from engine.bounded import bounded

INF = math.inf
C06 = 'C06'


# ------------------------------------------------------------------------------------------------ independent oracle
def ends(x):
    return x if x is not None else None


def lo(p):
    return -INF if p[0] is None else p[0]


def up(p):
    return INF if p[1] is None else p[1]


def inside(p, x):
    return (x > lo(p) or (x == lo(p) and p[2] == 1)) and (x < up(p) or (x == up(p) and p[3] == 1))


def fval(f, x):
    if f is None:
        return math.nan
    if isinstance(f, (int, float)):
        return float(f)
    return f[0] * x + f[1]


def value(ps, x):
    """None outside of the domain"""
    for p in ps:
        if inside(p, x):
            return fval(p[4], x)
    return None


def mkset(p):
    from jpt.base.intervals import ContinuousSet
    return ContinuousSet(lo(p), up(p), p[2], p[3])


def mkfun(f):
    from jpt.base.functions import ConstantFunction, LinearFunction, Undefined
    return Undefined() if f is None else ConstantFunction(f) if isinstance(f, (int, float)) else LinearFunction(*f)


def mk(ps):
    from jpt.base.functions import PiecewiseFunction
    r = PiecewiseFunction()
    for p in ps:
        r.append(mkset(p), mkfun(p[4]))
    return r


def spec(plf):
    from jpt.base.functions import ConstantFunction, LinearFunction
    out = []
    for i, f in zip(plf.intervals, plf.functions):
        g = f.value if type(f) is ConstantFunction else [f.m, f.c] if type(f) is LinearFunction else \
            None if type(f).__name__ == 'Undefined' else f
        out.append([i.lower, i.upper, i.left, i.right, g])
    return out


def grid(*pss, extra=()):
    import numpy as np
    b = sorted({float(v) for ps in pss for p in ps for v in (p[0], p[1])
                if v is not None and math.isfinite(v)} | set(map(float, extra)))
    out = set()
    for v in b:
        out |= {v, float(np.nextafter(v, INF)), float(np.nextafter(v, -INF))}
    for v, w in zip(b, b[1:]):
        out.add((v + w) / 2)
        out.add(v + (w - v) * .3)
    if b:
        out |= {b[0] - 1, b[-1] + 1, b[0] - 50.5, b[-1] + 50.5}
    else:
        out |= {0., -3., 7.5}
    return sorted(out)


def same(a, b, tol=1e-9):
    if a is None or b is None:
        return a is b
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def at(plf, x):
    f = plf.at(x)
    return None if f is None else float(f.eval(x))


def num(r, lo_=-3, hi_=3):
    return r.randint(lo_ * 4, hi_ * 4) / 4


def gen_fun(r, kinds='cl'):
    k = r.choice(kinds)
    if k == 'u':
        return None
    return num(r) if k == 'c' else [num(r), num(r)]


def gen_pieces(r, kinds='cl', gaps=True, maxn=4, infinite=True, contiguous=False, halfopen=False):
    n = r.randint(1, maxn)
    pts = sorted(r.sample(range(-12, 13), n + 1))
    scale = r.choice([1, .5, .25, 1, 1e-3, 1e3])
    pts = [p * scale for p in pts]
    ps = []
    for i in range(n):
        f = gen_fun(r, kinds)
        if i and not contiguous and r.random() < .2:
            f = ps[-1][4] if ps else f
        ps.append([pts[i], pts[i + 1], 1, 2, f])
    if not halfopen:
        for i in range(n):
            if i and r.random() < .25:      # shift who owns the common end
                ps[i - 1][3], ps[i][2] = 1, 2
        if r.random() < .4:
            ps[-1][3] = 1
        if r.random() < .2:
            ps[0][2] = 2
    if gaps and not contiguous and n > 2 and r.random() < .3:
        del ps[r.randrange(1, n - 1)]
    if infinite and r.random() < .5:
        ps[0][0], ps[0][2] = None, 2
        if infinite != 'linear' and isinstance(ps[0][4], list):
            ps[0][4] = num(r)
    if infinite and r.random() < .5:
        ps[-1][1], ps[-1][3] = None, 2
        if infinite != 'linear' and isinstance(ps[-1][4], list):
            ps[-1][4] = num(r)
    if r.random() < .1 and ps[-1][1] is not None:      # an isolated point
        ps.append([ps[-1][1] + scale, ps[-1][1] + scale, 1, 1, num(r)])
    return ps


def gen_set(r, ps):
    b = [v for p in ps for v in p[:2] if v is not None] or [0.]
    def pick():
        return r.choice(b) + r.choice([0, 0, .5, -.5, 1e-3, 7, -7])
    l, u = sorted((pick(), pick()))
    if l == u:
        u = l + 1
    p = [l, u, r.choice([1, 2]), r.choice([1, 2])]
    if r.random() < .15:
        p[0], p[2] = None, 2
    if r.random() < .15:
        p[1], p[3] = None, 2
    return p


class Base:
    def check(self, c):
        raise NotImplementedError

    def run(self, c):
        fs = [mk(c[k]) for k in ('f', 'g') if k in c]
        before = [spec(f) for f in fs]
        bad = self.check(c, *fs)
        for f, b, k in zip(fs, before, 'fg'):
            if spec(f) != b:
                bad.append('the operand %s is unchanged' % k)
        return bad


def compare(bad, label, plf, want, xs, tol=1e-9):
    for x in xs:
        g, w = at(plf, x), want(x)
        if not same(g, w, tol):
            bad.append('%s: at %r the value is %r, not %r' % (label, x, g, w))
            return


@bounded(C06, 'pwf.evaluation', 600, about='eval/at/idx_at/interval_at/multi_eval, domain, copy, set, ==, hash, drop_undef, '
                                           'from_dict, boundaries, knots')
class _(Base):
    def gen(self, r):
        return {'f': gen_pieces(r, 'clu'), 'g': gen_pieces(r, 'clu')}

    def check(self, c, f, g):
        import numpy as np
        from jpt.base.functions import PiecewiseFunction
        ps, bad = c['f'], []
        xs = grid(ps)
        compare(bad, 'value of the piece that contains x', f, lambda x: value(ps, x), xs)
        for x in xs:
            idx = [k for k, p in enumerate(ps) if inside(p, x)]
            if f.idx_at(x) != (idx[0] if idx else -1):
                bad.append('idx_at(%r)' % x)
            i = f.interval_at(x)
            if (not idx and not i.isempty()) or (idx and not (i == f.intervals[idx[0]])):
                bad.append('interval_at(%r)' % x)
            if (f.domain().contains_value(x)) != bool(idx):
                bad.append('domain at %r' % x)
        dom = [x for x in xs if value(ps, x) is not None]
        arr = np.array(dom)
        for got in (f.multi_eval(arr), f(arr)):
            if not all(same(float(a), value(ps, x)) for a, x in zip(got, dom)) or len(got) != len(dom):
                bad.append('multi_eval')
        for h, lab in ((f.copy(), 'copy'), (mk(c['g']).set(f), 'set')):
            compare(bad, lab, h, lambda x: value(ps, x), xs)
            if not (h == f) or hash(h) != hash(f):
                bad.append('%s is equal and hashes alike' % lab)
            if any(a is b for a, b in zip(h.intervals, f.intervals)) or any(
                    a is b for a, b in zip(h.functions, f.functions)):
                bad.append('%s shares no parts' % lab)
        if f == g and spec(f) != spec(g):
            if any(not same(value(ps, x), value(c['g'], x)) for x in grid(ps, c['g'])):
                bad.append('equal functions have equal values')
        prefix = mk(ps[:-1])
        if prefix == f or f == prefix:
            bad.append('a function with a piece more is different')
        d = f.drop_undef()
        compare(bad, 'drop_undef', d, lambda x: None if value(ps, x) is None or value(ps, x) != value(ps, x)
                else value(ps, x), xs)
        h = PiecewiseFunction.from_dict({mkset(p): (mkfun(p[4]) if not isinstance(p[4], float) else p[4])
                                         for p in reversed(ps)})
        compare(bad, 'from_dict', h, lambda x: value(ps, x), xs)
        b = [float(v) for v in f.boundaries()]
        if b != sorted(b):
            bad.append('boundaries are sorted')
        for p in ps:
            for v, inc in ((p[0], p[2]), (p[1], p[3])):
                if v is not None and not any(abs(v - w) <= abs(v) * 1e-15 + 5e-324 for w in b):
                    bad.append('boundary %r is missing' % v)
        return bad


@bounded(C06, 'pwf.arithmetic', 700, about='sum, difference, product and quotient with numbers, linear and piecewise functions')
class _(Base):
    def gen(self, r):
        return {'f': gen_pieces(r), 'g': gen_pieces(r), 'k': r.choice([2., -1., .5, 0., 3.]), 'l': [num(r), num(r)]}

    def check(self, c, f, g):
        ps, qs, k, l = c['f'], c['g'], c['k'], c['l']
        bad, xs = [], grid(c['f'], c['g'])
        V = lambda x: value(ps, x)      # noqa
        n = lambda w: lambda x: None if V(x) is None else w(V(x), x)     # noqa
        lin = mkfun(l)
        fin = all(p[0] is not None and p[1] is not None for p in ps + qs)
        for lab, got, want in (
                ('f + k', lambda: f + k, n(lambda v, x: v + k)), ('k + f', lambda: k + f, n(lambda v, x: v + k)),
                ('f * k', lambda: f * k, n(lambda v, x: v * k)), ('k * f', lambda: k * f, n(lambda v, x: v * k)),
                ('f / 4', lambda: f / 4, n(lambda v, x: v / 4)), ('f.stretch(k)', lambda: f.stretch(k), n(lambda v, x: v * k)),
                ('f + l', lambda: f.add(lin), n(lambda v, x: v + fval(l, x))),
                ('f - l', lambda: f - lin, n(lambda v, x: v - fval(l, x))),
                ('f * l', lambda: f * lin, n(lambda v, x: v * fval(l, x)))):
            compare(bad, lab, got(), want, xs, 1e-7)

        def both(o):
            def want(x):
                a, b = value(ps, x), value(qs, x)
                return None if a is None and b is None else math.nan if a is None or b is None else o(a, b)
            return want
        compare(bad, 'f + g', f + g, both(lambda a, b: a + b), xs, 1e-7)
        compare(bad, 'f - g', f - g, both(lambda a, b: a - b), xs, 1e-7)
        compare(bad, 'f * g', f * g, both(lambda a, b: a * b), xs, 1e-7)
        return bad


@bounded(C06, 'pwf.restructuring', 700, about='crop, split, overwrite_at, overwrite, simplify, xshift, xmirror, round')
class _(Base):
    def gen(self, r):
        ps = gen_pieces(r, 'clu')
        return {'f': ps, 'i': gen_set(r, ps), 'i2': gen_set(r, ps), 'new': gen_fun(r), 'd': num(r) or .5,
                'at': r.random(), 'digits': r.choice([0, 1, 2, 3])}

    def check(self, c, f):
        import numpy as np
        from jpt.base.functions import PiecewiseFunction
        ps, i, new = c['f'], c['i'], c['new']
        bad, xs = [], grid(ps, [i], [c['i2']])
        V = lambda x: value(ps, x)      # noqa
        iv = mkset(i)
        iv0 = (iv.lower, iv.upper, iv.left, iv.right)
        compare(bad, 'crop', f.crop(iv), lambda x: V(x) if inside(i, x) else None, xs)
        if new is not None:
            over = lambda x: fval(new, x) if inside(i, x) else V(x)     # noqa
            o = f.overwrite_at(iv, mkfun(new))
            compare(bad, 'overwrite_at', o, over, xs)
            # the pieces stay ordered
            for a, b in zip(o.intervals, o.intervals[1:]):
                if a.lower > b.lower:
                    bad.append('overwrite_at: pieces are ordered')
            i2 = c['i2']
            if mkset(i) != mkset(i2):
                w = {mkset(i): mkfun(new), mkset(i2): 2.5}
                order = sorted(((i, new), (i2, 2.5)), key=lambda t: lo(t[0]))

                def want(x):
                    v = V(x)
                    for j, fn in order:
                        if inside(j, x):
                            v = fval(fn, x)
                    return v
                if lo(i) != lo(i2):
                    compare(bad, 'overwrite', f.overwrite(w), want, xs)
        if (iv.lower, iv.upper, iv.left, iv.right) != iv0:
            bad.append('the interval argument is unchanged')
        s = f.simplify()
        compare(bad, 'simplify', s, V, xs)
        for (a, fa), (b, fb) in zip(list(s.iter()), list(s.iter())[1:]):
            if a.contiguous(b) and fa == fb:
                bad.append('simplify leaves no equal neighbours')
        d = c['d']
        h = f.xshift(d)
        mid = [x for x in xs if all(abs(x - v) > 1e-9 * max(1, abs(v)) for p in ps for v in p[:2] if v is not None)]
        mid = [x for x in mid if x - d + d == x] + [v for p in ps for v in p[:2] if v is not None and (v - d) + d == v]
        for x in mid:
            if not same(at(h, x - d), V(x), 1e-7):
                bad.append('xshift: at %r the value is %r, not %r' % (x - d, at(h, x - d), V(x)))
                break
        m = f.xmirror()
        compare(bad, 'xmirror', m, lambda x: V(-x), [-x for x in xs])
        x = [v for v in xs if V(v) is not None]
        x = x[int(c['at'] * len(x))]
        f1, f2 = f.split(x)
        compare(bad, 'split, left part', f1, lambda t: V(t) if t < x else None, xs)
        compare(bad, 'split, right part', f2, lambda t: V(t) if t >= x else None, xs)
        if all(p[4] is not None for p in ps):
            dg = c['digits']
            rr = f.round(dg, include_intervals=False)
            def w(x):
                for p in ps:
                    if inside(p, x):
                        return fval(np.round(p[4], dg).tolist() if isinstance(p[4], list) else float(np.round(p[4], dg)), x)
                return None
            compare(bad, 'round', rr, w, xs, 1e-7)
            r2 = f.round(dg)
            want = [[(float(np.round(v, dg)) if v is not None else s_) for v, s_ in ((p[0], -INF), (p[1], INF))] for p in ps]
            got = [[q.lower, q.upper] for q in r2.intervals]
            if want != got:
                bad.append('round: boundaries %r, not %r' % (got, want))
        return bad


def integral(f, a, b):
    if isinstance(f, (int, float)):
        return 0. if not f else f * (b - a)
    return f[0] * (b * b - a * a) / 2 + f[1] * (b - a)


@bounded(C06, 'pwf.calculus', 600, about='differentiate, integrate, rectify, maximize, convolution')
class _(Base):
    def gen(self, r):
        ps = gen_pieces(r, infinite=False)
        return {'f': ps, 'i': gen_set(r, ps), 'a': gen_conv(r), 'b': gen_conv(r)}

    def check(self, c, f):
        from jpt.base.functions import PiecewiseFunction
        ps, i, bad = c['f'], c['i'], []
        xs = grid(ps)
        V = lambda x: value(ps, x)      # noqa

        def dv(x):
            for p in ps:
                if inside(p, x):
                    return 0. if isinstance(p[4], (int, float)) else p[4][0]
        compare(bad, 'derivative', f.differentiate(), dv, xs)
        tot = sum(integral(p[4], p[0], p[1]) for p in ps)
        if not same(f.integrate(), tot, 1e-7):
            bad.append('integral %r, not %r' % (f.integrate(), tot))
        part = 0.
        for p in ps:
            l, u = max(lo(p), lo(i)), min(up(p), up(i))
            if l < u:
                part += integral(p[4], l, u)
        g = f.integrate(mkset(i))
        if not same(g, part, 1e-6):
            bad.append('integral over the interval %r, not %r' % (g, part))
        r = f.rectify()

        def rv(x):
            for p in ps:
                if inside(p, x):
                    return (fval(p[4], p[0]) + fval(p[4], p[1])) / 2
        compare(bad, 'rectify', r, rv, xs, 1e-6)
        arg, mx = f.maximize()
        vals = [V(x) for x in xs if V(x) is not None]
        if max(vals) > mx + 1e-9 * max(1, abs(mx)):
            bad.append('maximum %r, but a value is %r' % (mx, max(vals)))
        if not any(same(v, mx, 1e-9) for v in vals):
            bad.append('the maximum %r is attained' % mx)
        for x in xs:
            if V(x) is None:
                continue
            if arg.contains_value(x) and not same(V(x), mx, 1e-9):
                bad.append('at the reported argmax %r the value is %r' % (x, V(x)))
            ulp = any(0 < abs(x - v) <= 1e-9 * max(1, abs(v)) for p in ps for v in p[:2])
            if not arg.contains_value(x) and V(x) == mx and not ulp:
                bad.append('argmax misses %r' % x)
        # convolution of two step functions that vanish outside of an interval
        a, b = c['a'], c['b']
        A, B = mk(a), mk(b)
        sa, sb = spec(A), spec(B)
        h = A.convolution(B)
        if spec(A) != sa or spec(B) != sb:
            bad.append('convolution changes its operands')
        zs = sorted({p + q for pa in a for p in pa[:2] if p is not None for pb in b for q in pb[:2] if q is not None})
        zs = [zs[0] - 1] + zs + [(u + v) / 2 for u, v in zip(zs, zs[1:])] + [zs[-1] + 1]
        for z in zs:
            w = 0.
            for pa in a:
                for pb in b:
                    if pa[0] is None or pa[1] is None or pb[0] is None or pb[1] is None:
                        continue
                    l, u = max(pa[0], z - pb[1]), min(pa[1], z - pb[0])
                    if l < u:
                        w += pa[4] * pb[4] * (u - l)
            if not same(at(h, z), w, 1e-6):
                bad.append('convolution at %r: %r, not %r' % (z, at(h, z), w))
                break
        return bad


def gen_conv(r):
    n = r.randint(1, 3)
    pts = sorted(r.sample(range(-8, 9), n + 1))
    return [[None, pts[0], 2, 2, 0.]] + [[pts[i], pts[i + 1], 1, 2, float(r.randint(0, 4)) / 4]
                                         for i in range(n)] + [[pts[-1], None, 1, 2, 0.]]


@bounded(C06, 'pwf.comparison', 700, about='min, max, abs, jaccard similarity, lt, gt, eq')
class _(Base):
    def gen(self, r):
        inf = r.choice([True, 'linear'])
        return {'f': gen_pieces(r, infinite=inf), 'g': gen_pieces(r, infinite=inf), 'y': num(r)}

    def check(self, c, f, g):
        from jpt.base.functions import PiecewiseFunction as PF
        ps, qs, y, bad = c['f'], c['g'], c['y'], []
        V, W = (lambda x: value(ps, x)), (lambda x: value(qs, x))
        xs = grid(ps, qs)
        cross = set()
        for p in ps:
            for q in qs + [[None, None, 2, 2, y], [None, None, 2, 2, 0.]]:
                m = [(h[4] if isinstance(h[4], list) else [0., h[4]]) for h in (p, q)]
                if m[0][0] != m[1][0]:
                    cross.add((m[1][1] - m[0][1]) / (m[0][0] - m[1][0]))
        xs = grid(ps, qs, extra=cross)
        near = lambda x: any(abs(x - t) < 1e-6 for t in cross)   # noqa

        def pick(o):
            return lambda x: None if V(x) is None or W(x) is None else o(V(x), W(x))
        dom = f.domain().intersection(g.domain())
        if not dom.isempty():
            compare(bad, 'min', PF.min(f, g), pick(min), xs, 1e-5)
            compare(bad, 'max', PF.max(f, g), pick(max), xs, 1e-5)
        compare(bad, 'abs', PF.abs(f), lambda x: None if V(x) is None else abs(V(x)), xs, 1e-5)
        lt, gt, eq = f.lt(y), f.gt(y), f.eq(y)
        for x in xs:
            v = V(x)
            close = v is not None and abs(v - y) < 1e-6 * max(1, abs(y)) and v != y
            if close or near(x):
                continue
            if lt.contains_value(x) != (v is not None and v < y):
                bad.append('lt(%r) at %r (value %r)' % (y, x, v))
            if gt.contains_value(x) != (v is not None and v > y):
                bad.append('gt(%r) at %r (value %r)' % (y, x, v))
            if v is not None and v == y and not eq.contains_value(x):
                bad.append('eq(%r) misses %r' % (y, x))
        return bad


@bounded(C06, 'pwf.construction', 500, about='from_points, knots, PLF approximation without error, merge, jaccard, ensure_left/right')
class _(Base):
    def gen(self, r):
        n = r.randint(2, 6)
        pts = [[float(x), num(r)] for x in sorted(r.sample(range(-10, 11), n))]
        ps = [[p[0], q[0], 1, 2, gen_fun(r, 'ccl')] for p, q in zip(pts, pts[1:])]
        for i in range(1, len(ps)):
            if r.random() < .4:
                ps[i][4] = ps[i - 1][4]
        ps = [[None, ps[0][0], 2, 2, 0.]] + ps + [[ps[-1][1], None, 1, 2, r.choice([0., 1.])]]
        return {'f': ps, 'pts': pts, 'by': r.choice(['c', 'l']), 'k': r.randint(3, 6)}

    def check(self, c, f):
        from jpt.base.functions import PiecewiseFunction as PF, ConstantFunction, LinearFunction
        pts, ps, bad = c['pts'], c['f'], []
        h = PF.from_points([tuple(p) for p in pts])
        for x, y in pts[:-1]:
            if not same(at(h, x), y, 1e-7):
                bad.append('from_points: at %r the value is %r, not %r' % (x, at(h, x), y))
        for (x1, y1), (x2, y2) in zip(pts, pts[1:]):
            if not same(at(h, (x1 + x2) / 2), (y1 + y2) / 2, 1e-7):
                bad.append('from_points interpolates')
        for a, b in zip(h.intervals, h.intervals[1:]):
            if not a.contiguous(b):
                bad.append('from_points leaves no gap')
        k = h.knots()
        if [x for x, _ in k[:-1]] != [x for x, _ in pts[:-1]] or not all(same(a[1], b[1], 1e-7) for a, b in zip(k, pts)):
            bad.append('knots are the points')
        by = ConstantFunction if c['by'] == 'c' else LinearFunction
        xs = grid(ps)
        if by is ConstantFunction:
            a = f.approximate(error_max=0, replace_by=by)
            compare(bad, 'approximation without error', a, lambda x: value(ps, x), xs, 1e-7)
        a = f.approximate(n_segments=c['k'], replace_by=by)
        if len(a) > max(3, c['k']) and len(a) > 3:
            bad.append('approximation has %d segments' % len(a))
        for x in xs:
            if at(a, x) is None:
                bad.append('approximation is undefined at %r' % x)
                break
        for p, q in zip(a.intervals, a.intervals[1:]):
            if not p.contiguous(q):
                bad.append('approximation leaves a gap')
        return bad
