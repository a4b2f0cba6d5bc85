"""Contracts of the sort of numeric data and the binary search (C15), for arrays and ranges of every size.

The range sorted is [lo, lo + n) of the key array; `d` is the constant distance between a key and its sample.  Ghosts:
u < v, two positions; (kx, ks), a pair of key and sample: the number of positions of the range holding that pair is
followed through every store made by the code; z, zs, two positions; Q, an arbitrary property of keys.  Proved of sort, introsort, heapsort
for every value of the ghosts: afterwards key[u] <= key[v]; every pair occurs as often as before (the result is a permutation of
the pairs); nothing outside of the range changes; a property that all keys of the range had is still had by all of them.
The last one, for Q(x) = "x is one of the keys of the range before", is the existence of the position SG(k) that the key at k came
from, which is how callers use it."""
import itertools

import z3

from engine import sym
from engine.arr import SymArr, SymCell, Each, Induct, fun
from engine.contract import contract, NS, STUBS, Value, And, Implies, If
from engine.hlist import LC
from engine.rt import Ptr
from engine.sym import SI, SB, Or, Not

from .impurity import inr, G, R

CU = 'jpt.base.cutils'
C15 = ('C15', 'C16')
INT, REAL = z3.IntSort(), z3.RealSort()


def t(n):
    return '%s:%s' % (CU, n)


def scontract(target, **kw):
    kw.setdefault('mode', 'real')
    kw.setdefault('concrete', False)
    kw.setdefault('frame', False)
    return contract(target, C15, **kw)


class Counted(SymArr):
    """an array whose stores maintain the count of the ghost pair"""
    other = 0

    def store(self, ix, e):
        a = self.E.spec
        x, s = a._X, a._S
        k = SI(ix[0]) if self is x else SI(ix[0]) - a._d
        was = a._pair(k)
        super().store(ix, e)
        now = a._pair(k)
        a._cnt.v = a._cnt.v + If(inr(k - a._lo, a._n), If(now, 1, 0) - If(was, 1, 0), 0)
        self.E.touch(a._cnt)


class Sorting:
    """ghost state of a range [lo, lo + n) of keys X and samples S"""

    def range_of(self, a, E):
        N, M = E.int('N'), E.int('M')
        X, S = Counted(E, 'keys', [N]), Counted(E, 'samples', [M], 'int')
        a._X, a._S = X, S
        a._lo, a._n, q = E.int('lo'), a.n, E.int('q')
        a._d = q - a._lo
        a._hi = a._lo + a._n
        E.assume(And(a._lo >= 0, a._n >= 0, a._hi <= N, q >= 0, q + a._n <= M))
        a._cnt = SymCell(E, lambda E: E.int('count'), E.int('count0'))
        a._cnt0 = a._cnt.v
        f = z3.Function('Q', REAL, z3.BoolSort())
        a._Q = lambda v: SB(f(sym.zreal(v)))            # noqa
        a._pair = lambda k: And(X.at(k) == a.kx, S.at(k + a._d) == a.ks)        # noqa
        a._in = lambda k: And(k >= a._lo, k < a._hi)    # noqa
        a._keep = lambda ix, v, rd=None: Implies(a._in(ix[0]), a._Q(v))     # noqa
        X.content.facts = (a._keep,)
        a._z, a._zs = X.at(a.z), S.at(a.zs)
        a._xf, a._sf = Ptr(X, a._lo), Ptr(S, q)
        E.spec = a
        E.assume(And(a.u < a.v, a._in(a.u), a._in(a.v), Not(a._in(a.z)), Not(a._in(a.zs - a._d)),
                     inr(a.z, N), inr(a.zs, M)))

    def common(self, a):
        """what every function of the sort guarantees, and its loops keep"""
        return {'every pair occurs as often as before': a._cnt.v == a._cnt0,
                'nothing changes outside of the range': And(a._X.at(a.z) == a._z, a._S.at(a.zs) == a._zs)}

    def each(self, a):
        return {'every property of all keys is kept': Each(a._X, a._keep)}

    def prop(self, a, k):
        return {'every property of all keys is kept': Implies(a._in(k), a._Q(a._X.at(k)))}


def mods(a):
    return [a._X, a._S, a._cnt]


class Sort(Sorting):
    ghosts = dict(u=G(), v=G(), z=G(), zs=G(), w=G(), ks=G(), kx=R())

    def setup(self, E, a):
        self.range_of(a, E)
        a._maxd = None
        self.start(E, a)

    def start(self, E, a):
        pass


def permuted(E, a, Xf, S_, n, sorted_=True):
    """effect of sorting a subrange, from the contract; returns its bounds"""
    if not (Xf.a is a._X and S_.a is a._S):
        raise sym.Undecided('sort of other arrays')
    lo = SI(sym.zint(Xf.off))
    hi = lo + n
    E.require(S_.off == Xf.off + a._d, 'keys and samples correspond')
    E.require(And(n >= 0, lo >= a._lo, hi <= a._hi), 'part of the range')
    ox, os = a._X.snapshot(), a._S.snapshot()
    SG = fun(E, 'from!%d' % next(COUNT2), 'int', 'int')
    ins = lambda k: And(k >= lo, k < hi)        # noqa
    for o in (a._X, a._S):
        E.touch(o)
    a._X.__havoc__(E, None, facts=(
        lambda ix, v, rd=None: Implies(Not(ins(ix[0])), v == ox.at(*ix)),
        lambda ix, v, rd=None: Implies(ins(ix[0]), And(ins(SG(ix[0])), v == ox.at(SG(ix[0]))))))
    a._S.__havoc__(E, None, facts=(
        lambda ix, v, rd=None: Implies(Not(ins(ix[0] - a._d)), v == os.at(*ix)),))
    if sorted_:
        E.assume(Implies(And(ins(a.u), ins(a.v)), a._X.at(a.u) <= a._X.at(a.v)))
    return lo, hi


COUNT2 = itertools.count()


def stub_introsort(raw, Xf, samples, n, maxd):
    E = sym.eng()
    a = E.spec
    if a._maxd is not None:
        E.require(And(maxd >= 0, maxd < a._maxd), 'the bound of the depth decreases')
    permuted(E, a, Xf, samples, n)


STUBS[t('introsort')] = stub_introsort


def stub_heapsort(raw, Xf, samples, n):
    E = sym.eng()
    E.require(n >= 2, 'at least two elements')
    permuted(E, E.spec, Xf, samples, n)


STUBS[t('heapsort')] = stub_heapsort


def stub_median3(raw, Xf, n):
    E = sym.eng()
    a = E.spec
    E.require(And(n >= 1, Xf.off >= 0, Xf.off + n <= Xf.a.shape[0]), 'within the array')
    return E.real('median')


STUBS[t('median3')] = stub_median3


def stub_ld(raw, x):
    return sym.eng().real('ld')


STUBS[t('ld')] = stub_ld


@scontract(t('median3'))
class _:
    params = dict(n=G())

    def pre(self, a):
        return {'at least one element': a.n >= 1}

    def call(self, a, fn):
        E = a._D.E
        a._X = SymArr(E, 'keys', [E.int('N')])
        a._lo = E.int('lo')
        E.assume(And(a._lo >= 0, a._lo + a.n <= a._X.shape[0]))
        return fn(Ptr(a._X, a._lo), a.n)

    def post(self, a, r, old):
        x, y, z = a._X.at(a._lo), a._X.at(a._lo + SI(sym.zint(a.n) / 2)), a._X.at(a._lo + a.n - 1)
        return {'one of the three': Or(r == x, r == y, r == z),
                'between the two others': And(Or(r >= x, r >= y), Or(r >= x, r >= z), Or(r >= y, r >= z),
                                              Or(r <= x, r <= y), Or(r <= x, r <= z), Or(r <= y, r <= z))}


# ------------------------------------------------------------------------------------------------ heap sort
def par(k):
    return SI((sym.zint(k) - 1) / 2)


def heap(a, cond):
    """fact: a key is not greater than that of its parent, for relative positions k with cond(k)"""
    def f(ix, v, rd):
        k = ix[0] - a._lo
        return Implies(And(k >= 1, k < a._n, cond(k)), v <= rd(a._lo + par(k)))
    return f


@scontract(t('sift_down'))
class _(Sort):
    params = dict(n=G(), start=G())
    loops = {'sift_down#L1': LC(
        inv=lambda st, L: sift_inv(L.E.spec, st), modifies=lambda st: mods(sym.eng().spec), decreases=lambda st: st.end - st.root)}

    def pre(self, a):
        return {'part of the range': And(0 <= a.start, a.start < a.n)}

    def start(self, E, a):
        a._X.content.facts += (heap(a, lambda k: par(k) > a.start),)

    def call(self, a, fn):
        return fn(a._xf, a._sf, a.start, a.n)

    def post(self, a, r, old):
        k = a._lo + a.w
        out = dict(self.common(a), **self.prop(a, k))
        out['parents are not less than their children'] = Implies(
            And(a.w >= 1, a.w < a.n, par(a.w) >= a.start), a._X.at(k) <= a._X.at(a._lo + par(a.w)))
        return out


def sift_inv(a, st):
    X, root, start, end = a._X, st.root, a.start, a.n
    up = a._lo + par(root)

    def link(ix, v, rd):
        k = ix[0] - a._lo
        return Implies(And(k >= 1, k < end, par(k) == root, root > start), v <= rd(up))
    return {**Sorting.common(None, a), 'root': And(start <= root, root < end),
            **Sorting.each(None, a),
            'heap except at the root': Each(X, heap(a, lambda k: And(k < end, par(k) >= start, par(k) != root))),
            'heap around the root': Each(X, link)}


def stub_sift(raw, Xf, samples, start, end):
    E = sym.eng()
    a = E.spec
    E.require(And(Xf.off == a._lo, 0 <= start, start < end, end <= a._n), 'part of the range')
    k = E.int('any')
    E.require(Implies(And(k >= 1, k < end, par(k) > start), a._X.at(a._lo + k) <= a._X.at(a._lo + par(k))),
              'parents below the start are not less than their children')
    permuted(E, a, Xf, samples, end, False)
    a._X.content.facts += (heap(a, lambda k: And(k < end, par(k) >= start)),)


STUBS[t('sift_down')] = stub_sift


@scontract(t('heapsort'))
class _(Sort):
    params = dict(n=G())
    uses = (t('sift_down'),)
    loops = {
        'heapsort#L1': LC(inv=lambda st, L: build_inv(L.E.spec, st), modifies=lambda st: mods(sym.eng().spec),
                          decreases=lambda st: st.start),
        'heapsort#L2': LC(inv=lambda st, L: drain_inv(L.E.spec, st), modifies=lambda st: mods(sym.eng().spec),
                          decreases=lambda st: st.end)}

    def pre(self, a):
        return {'at least two elements': a.n >= 2}

    def call(self, a, fn):
        return fn(a._xf, a._sf, a.n)

    def post(self, a, r, old):
        return {'sorted': a._X.at(a.u) <= a._X.at(a.v), **self.common(a), **self.prop(a, a._lo + a.w)}


def build_inv(a, st):
    return {**Sorting.common(None, a), **Sorting.each(None, a), 'start': And(0 <= st.start, st.start * 2 <= a._n - 2),
            'heap below the start': Each(a._X, heap(a, lambda k: par(k) > st.start))}


def drain_inv(a, st):
    X, lo, end = a._X, a._lo, st.end
    return {**Sorting.common(None, a), **Sorting.each(None, a), 'end': And(0 <= end, end < a._n),
            'heap up to the end': Each(X, heap(a, lambda k: k <= end)),
            'the first is the greatest': Induct(X, lambda ix, v, rd: Implies(And(ix[0] >= lo, ix[0] <= lo + end), v <= rd(lo)),
                                                lambda i: lo + par(i - lo), 'the first is the greatest of the heap'),
            'the rest is not less': Each(X, lambda ix, v, rd: Implies(And(ix[0] >= lo, ix[0] <= lo + end, a.v > lo + end),
                                                                      v <= rd(a.v))),
            'the rest is sorted': Implies(a.u > lo + end, X.at(a.u) <= X.at(a.v))}


# ------------------------------------------------------------------------------------------------ introsort
@scontract(t('introsort'))
class _(Sort):
    params = dict(n=G(), maxd=G())
    uses = tuple(t(n) for n in ('introsort', 'heapsort', 'median3'))
    loops = {
        'introsort#L1': LC(inv=lambda st, L: intro_inv(L.E.spec, st), modifies=lambda st: mods(sym.eng().spec),
                           fresh={n: lambda E, v: Ptr(v.a, E.int('off')) for n in ('Xf', 'samples')},
                           decreases=lambda st: st.maxd),
        'introsort#L2': LC(inv=lambda st, L: part_inv(L.E.spec, st, L), modifies=lambda st: mods(sym.eng().spec),
                           entry=lambda st: ghost_keys(sym.eng().spec),
                           decreases=lambda st: st.r - st.i)}

    def start(self, E, a):
        a._maxd = a.maxd

    def call(self, a, fn):
        return fn(a._xf, a._sf, a.n, a.maxd)

    def post(self, a, r, old):
        return {'sorted': a._X.at(a.u) <= a._X.at(a.v), **self.common(a), **self.prop(a, a._lo + a.w)}


def not_less(a, o):
    """the keys from o on are not less than those before"""
    return Each(a._X, lambda ix, v, rd: Implies(And(ix[0] >= o, ix[0] < a._hi, a.u < o), v >= rd(a.u)))


def intro_inv(a, st):
    o = st.Xf.off
    return {**Sorting.common(None, a), **Sorting.each(None, a),
            'remaining range': And(o >= a._lo, o + st.n == a._hi, st.samples.off == o + a._d, st.n >= 0,
                                   st.maxd <= a._maxd),
            'sorted so far': Implies(And(a.u < o, a.v < o), a._X.at(a.u) <= a._X.at(a.v)),
            'the rest is not less': not_less(a, o)}


def ghost_keys(a):
    return NS(u=a._X.at(a.u), v=a._X.at(a.v))


def part_inv(a, st, L):
    o = st.Xf.off
    p, l, i, r = st.pivot, st.l, st.i, st.r

    def parts(ix, v, rd):
        k = ix[0] - o
        return And(Implies(And(k >= 0, k < l), v < p), Implies(And(k >= l, k < i), v == p),
                   Implies(And(k >= r, k < st.n), v > p))
    out = {**Sorting.common(None, a), **Sorting.each(None, a),
           'positions': And(0 <= l, l <= i, i <= r, r <= st.n),
           'parts': Each(a._X, parts), 'the rest is not less': not_less(a, o)}
    out['sorted part'] = And(Implies(a.u < o, a._X.at(a.u) == L.g.u), Implies(a.v < o, a._X.at(a.v) == L.g.v))
    return out


@scontract(t('sort'))
class _(Sort):
    params = dict(n=G())
    uses = (t('introsort'), t('ld'))

    def call(self, a, fn):
        return fn(a._xf, a._sf, a.n)

    def post(self, a, r, old):
        return {'sorted': a._X.at(a.u) <= a._X.at(a.v), **self.common(a), **self.prop(a, a._lo + a.w)}


# ------------------------------------------------------------------------------------------------ search, spacing
class Search:
    """ascending keys at lower..upper; the ghost w is any position of them"""

    def table(self, a, E, lower, upper):
        a._X = SymArr(E, 'keys', [E.int('N')])
        a._lo = E.int('lo')
        w = a._lo + a.w
        g = a._X.at(w)
        a._X.content.facts = (lambda ix, v, rd=None: Implies(
            And(ix[0] >= a._lo + lower, ix[0] <= a._lo + upper), And(Implies(ix[0] <= w, v <= g), Implies(ix[0] >= w, v >= g))),)
        E.assume(And(lower >= 0, a._lo >= 0, a._lo + upper < a._X.shape[0], a.w >= lower, a.w <= upper))
        a._l, a._u = lower, upper
        E.spec = a

    def post(self, a, r, old):
        g = a._X.at(a._lo + a.w)
        return {'within the range': And(r >= a._l, r <= a._u + 1),
                'the keys before the position are not greater': Implies(a.w < r, g <= a.v),
                'the keys from the position on are not less': Implies(a.w >= r, g >= a.v)}


def stub_bisect(raw, Xf, v, lower, upper):
    E = sym.eng()
    a = E.spec
    E.require(And(Xf.off == a._lo, lower >= a._l, upper <= a._u, lower <= upper), 'part of the range')
    if a._rec:
        E.require(upper - lower < a._u - a._l, 'the range gets smaller')
    r = E.int('position')
    g = a._X.at(a._lo + a.w)
    E.require(v == a.v, 'the value searched')
    E.assume(And(r >= lower, r <= upper + 1, Implies(And(a.w >= lower, a.w <= upper), And(
        Implies(a.w < r, g <= v), Implies(a.w >= r, g >= v)))))
    return r


STUBS[t('_bisect')] = stub_bisect


@scontract(t('_bisect'))
class _(Search):
    ghosts = dict(w=G())
    params = dict(v=R(), lower=G(), upper=G())
    uses = (t('_bisect'),)

    def pre(self, a):
        return {'range': a.lower <= a.upper}

    def setup(self, E, a):
        self.table(a, E, a.lower, a.upper)
        a._rec = True

    def call(self, a, fn):
        return fn(Ptr(a._X, a._lo), a.v, a.lower, a.upper)


@scontract(t('bisect'))
class _(Search):
    ghosts = dict(w=G())
    params = dict(v=R(), n=G())
    uses = (t('_bisect'),)

    def pre(self, a):
        return {'at least one key': a.n >= 1}

    def setup(self, E, a):
        self.table(a, E, 0, a.n - 1)
        a._rec = False

    def call(self, a, fn):
        return fn(Ptr(a._X, a._lo), a.v, a.n)


class FakeNP:
    """allocation of an array"""
    float64 = 'float64'

    @staticmethod
    def ndarray(shape, dtype=None):
        return SymArr(sym.eng(), 'array', [shape])


STUBS[t('np')] = Value(FakeNP)


@scontract(t('linspace'))
class _:
    ghosts = dict(w=G())
    params = dict(start=R(), stop=R(), num=G())
    uses = (t('np'),)
    loops = {'linspace#L1': LC(inv=lambda st, L: {
        'value': st.val == st.start + SI(sym.zint(L.k)) * st.space,
        'values': Implies(inr(L.E.spec.w, L.k), st.samples.at(L.E.spec.w) == st.start + L.E.spec.w * st.space)},
        modifies=lambda st: [st.samples])}
    opts = dict(timeout_ms=20000)

    def pre(self, a):
        return {'at least one': a.num >= 1}

    def setup(self, E, a):
        E.spec = a

    def post(self, a, r, old):
        s = r.at(a.w)
        n = a.num - 1
        return {'number of values': r.shape[0] == a.num,
                'equally spaced from the start to the end': Implies(And(a.num > 1, inr(a.w, a.num)),
                                                             (s - a.start) * n == (a.stop - a.start) * a.w),
                'the middle': Implies(a.num == 1, r.at(0) * 2 == a.start + a.stop)}
