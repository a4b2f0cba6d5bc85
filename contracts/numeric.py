"""Contracts of the numeric distributions (C08, C09, C11, C13, C14) over real arithmetic, for any distribution function.

The distribution function is given by its contract: F, monotone, continuous from the right, 0 below s0 and 1 from s1 on; M(x), its jump
at x; jumps() lists the points with M(x) > 0.  The measure of an interval follows from these.  Intervals may be unbounded."""
import math

import z3

from engine import sym
from engine.arr import fun, Prefix
from engine.contract import contract, NS, STUBS, Value, And, Iff, Implies, If, jpt_class
from engine.hlist import LC, Kind, SymList
from engine.seq import SymSeq, Sum, ssum, extreme_at, within, comprehension
from engine.sym import SB, SI, SR, Or, Not, PathEnd, Undecided

ASSUMES = ('the distribution function is monotone, continuous from the right, 0 before and 1 after its support, and jumps() lists exactly its '
           'discontinuities (bounded: C07, C11); jumps of at most 1e-8 count as none',
           'QuantileDistribution.crop, merge and fit by contract (bounded: C07, C08, C09)',
           'interval methods by the contracts proved for doubles (C01, C02)')
N = 'jpt.distributions.univariate.numeric:'
MOD = 'jpt.base.intervals:'
INC, EXC = 1, 2


def isinf(x):
    return isinstance(x, float) and math.isinf(x)


# ------------------------------------------------------------------------------------------------ intervals
_IV = []


def iv_class():
    if _IV:
        return _IV[0]
    base = jpt_class(MOD + 'ContinuousSet')

    class IV(base):
        """an interval with real ends, or unbounded; the methods are those of the contracts of ContinuousSet (C01, C02)"""
        def __new__(cls, *a, **k):
            return object.__new__(cls)

        def __init__(self, lower, upper, left=INC, right=INC):
            self.__dict__.update(lower=lower, upper=upper, left=left, right=right, none=None, single=None)

        def _empty(self):
            l, u = self.lower, self.upper
            if isinf(l) or isinf(u):
                return SB(z3.BoolVal(l == math.inf or u == -math.inf))
            return Or(l > u, And(l == u, Not(And(self.left == INC, self.right == INC))))

        def isempty(self):
            """no double lies inside"""
            if self.none is None:
                E = sym.eng()
                e = E.bool('empty')
                E.assume(Implies(self._empty(), e))
                E.assume(Implies(And(Or(self.left == INC, self.right == INC), Not(self._empty())), Not(e)))
                self.__dict__['none'] = e
            return self.none

        def _end(self, x, closed, sign):
            """the last double inside"""
            E = sym.eng()
            if isinf(x):
                v = E.real('last')
            else:
                v = E.real('last')
                E.assume(v * sign <= x * sign)
                E.assume(Implies(closed, v == x))
                E.assume(Implies(Not(closed), v * sign < x * sign))
            if self.none is not None:
                E.assume(Implies(Not(self.none), inside(self, v)))
            for d in E.spec._doubles:       # no double lies between the end and the last one inside
                E.assume(Implies(True if isinf(x) else Or(d * sign < x * sign, And(closed, d == x)), d * sign <= v * sign))
            return v

        def uppermost(self):
            return self._end(self.upper, self.right == INC, 1)

        def lowermost(self):
            return self._end(self.lower, self.left == INC, -1)

        def size(self):
            """number of doubles inside: none, one or more (inf)"""
            E = sym.eng()
            if self.isempty():
                return 0
            if isinf(self.lower) or isinf(self.upper):
                return math.inf
            if self.single is None:
                self.__dict__['single'] = E.bool('single')
                E.assume(Implies(self.lower == self.upper, self.single))
            return 1 if self.single else math.inf

        def simplify(self):
            return self
    _IV.append(IV)
    return IV


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, jpt_class(MOD + 'ContinuousSet'))


class Interval(metaclass=_Meta):
    """stands for ContinuousSet"""
    def __new__(cls, lower=-math.inf, upper=math.inf, left=INC, right=INC):
        return iv_class()(lower, upper, left, right)


def interval(E, name='set', ends=True):
    """any interval; finite ends, or one or both missing"""
    l, u = E.real(name + '.lower'), E.real(name + '.upper')
    left, right = E.int(name + '.left'), E.int(name + '.right')
    E.assume(And(Or(left == INC, left == EXC), Or(right == INC, right == EXC)))
    if ends and E.choose(2) == 0:
        l = -math.inf
        E.assume(left == EXC)
    if ends and E.choose(2) == 0:
        u = math.inf
        E.assume(right == EXC)
    return iv_class()(l, u, left, right)


_RS = []


def overlapping(E, simple):
    """a set of intervals that may overlap; simple: the disjoint ones"""
    n, mu = E.int('n_raw'), fun(E, 'raw', 'int', 'real')

    def at(k):
        i = iv_class()(E.real('lower'), E.real('upper'))
        i.__dict__['no'] = mu(k).trunc()
        return i
    return rs_class()(SymSeq(E, n, at, 'raw intervals'), rs_class()(simple))


def rs_class():
    if _RS:
        return _RS[0]
    base = jpt_class(MOD + 'RealSet')

    class RS(base):
        def __new__(cls, *a, **k):
            return object.__new__(cls)

        def __init__(self, seq, simple=None):
            self.__dict__.update(intervals=seq, simple=simple)

        def __str__(self):
            return '<set>'
        __repr__ = __str__

        def simplify(self):
            return self if self.simple is None else self.simple
    _RS.append(RS)
    return RS


class _RMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, jpt_class(MOD + 'RealSet'))


class RSet(metaclass=_RMeta):
    def __new__(cls, intervals=()):
        return rs_class()(intervals)


STUBS[N + 'ContinuousSet'] = Value(Interval)
STUBS[N + 'RealSet'] = Value(RSet)


# ------------------------------------------------------------------------------------------------ the distribution function
class CDF:
    def __init__(self, E, name='F'):
        self.E = E
        self.f, self.m = z3.Function(name, z3.RealSort(), z3.RealSort()), z3.Function('jump', z3.RealSort(), z3.RealSort())
        self.ix = z3.Function('jump_no', z3.RealSort(), z3.IntSort())
        self.s0, self.s1 = E.real('support.first'), E.real('support.last')
        E.assume(self.s0 <= self.s1)
        self.pts = []
        self.nj = E.int('jumps')
        self.jp = z3.Function('jump_at', z3.IntSort(), z3.RealSort())
        self.n_int = E.int('pieces')
        E.assume(And(self.nj >= 0, self.n_int >= 2))

    def point(self, x):
        """the facts about a point, also with respect to all earlier ones"""
        E, x = self.E, SR(sym.zreal(x))
        if any(x.e.eq(y.e) for y in self.pts):
            return x
        F, M, J = SR(self.f(x.e)), SR(self.m(x.e)), SI(self.ix(x.e))
        E.assume(And(F >= 0, F <= 1, M >= 0, M <= F, Implies(x < self.s0, F == 0), Implies(x >= self.s1, F == 1),
                     Implies(x == self.s0, M == F), Implies(Or(x < self.s0, x > self.s1), M == 0),
                     Iff(M > 0, And(within(J, self.nj), SR(self.jp(J.e)) == x))))
        for y in self.pts:
            G, K = SR(self.f(y.e)), SR(self.m(y.e))
            E.assume(And(Implies(x < y, F <= G - K), Implies(y < x, G <= F - M)))
        self.pts.append(x)
        return x

    def F(self, x):
        return 1 if x == math.inf and isinf(x) else 0 if isinf(x) else SR(self.f(self.point(x).e))

    def M(self, x):
        return 0 if isinf(x) else SR(self.m(self.point(x).e))

    def jump(self, k):
        p = SR(self.jp(sym.zint(k)))
        self.E.assume(Implies(within(k, self.nj), And(SI(self.ix(p.e)) == k, SR(self.m(p.e)) > 0)))
        return p, self.M(p)

    def no(self, x):
        """position of x among the jumps"""
        return SI(self.ix(self.point(x).e))

    def measure(self, i):
        up = self.F(i.upper) - (0 if isinf(i.upper) else If(i.right == INC, 0, self.M(i.upper)))
        lo = self.F(i.lower) - (0 if isinf(i.lower) else If(i.left == INC, self.M(i.lower), 0))
        return up - lo

    def object(self):
        """stand-in for the PiecewiseFunction"""
        return CDFObject(self)


class Pieces:
    __symobj__ = True

    def __init__(self, c):
        self.c = c

    def __isa__(self, cls):
        return False

    def __getitem__(self, i):
        c = self.c
        if i == 0:
            return NS(lower=-math.inf, upper=c.s0)
        if i == -1:
            return NS(lower=c.s1, upper=math.inf)
        raise Undecided('pieces of the distribution function')

    def __slen__(self):
        return self.c.n_int


class CDFObject:
    def __init__(self, c):
        self.c, self.intervals = c, Pieces(c)

    def eval(self, x):
        if isinf(x):
            raise Undecided('the distribution function at infinity')
        return self.c.F(x)


class Quantile:
    def __init__(self, c, pdf=None):
        self.c, self.cdf, self.pdf = c, c.object(), pdf

    def jumps(self):
        return SymSeq(self.c.E, self.c.nj, self.c.jump, 'jumps')


class NumericContract:
    mode = 'real'
    concrete = False
    frame = False

    def setup(self, E, a):
        E.spec = a
        a._sums = {}
        a._c = CDF(E)
        a._doubles = [a._c.s0, a._c.s1]
        a._self = jpt_class(N + 'Numeric')()
        a._self._quantile = Quantile(a._c)
        self.start(E, a)

    def start(self, E, a):
        pass


def ncontract(name, props, uses=(), **kw):
    def deco(cls):
        body = {n: v for n, v in cls.__dict__.items() if n not in ('__dict__', '__weakref__')}
        body['loops'] = {'Numeric.%s' % n: v for n, v in getattr(cls, 'lc', {}).items()}
        c = type(cls.__name__, (NumericContract,), body)
        c.assumes = ASSUMES
        contract(N + 'Numeric.' + name, props, uses=(N + 'ContinuousSet', N + 'RealSet') + tuple(uses), mode='real', concrete=False,
                 frame=False, **kw)(c)
        return cls
    return deco


# ------------------------------------------------------------------------------------------------ probability
def jumps_so_far(st, L):
    """the jumps at the ends, as far as they have been seen"""
    a = L.E.spec
    i, c = st.value, a._c
    base = c.F(i.upper) - c.F(i.lower)
    lo = 0 if isinf(i.lower) else If(And(i.left == INC, c.M(i.lower) > 0, c.no(i.lower) < L.k), c.M(i.lower), 0)
    up = 0 if isinf(i.upper) else If(And(i.right == EXC, c.M(i.upper) > 0, c.no(i.upper) < L.k), c.M(i.upper), 0)
    return {'jumps at the ends so far': st.probmass == base + lo - up}


def p_stub(raw, self, value):
    return sym.eng().spec._mu(value)


STUBS[N + 'Numeric._p/rec'] = p_stub


@ncontract('_p', ('C11', 'C18'))
class _:
    lc = {'_p#L1': LC(inv=jumps_so_far)}

    def start(self, E, a):
        a._x = E.real('point') if E.choose(2) == 0 else interval(E)

    def call(self, a, fn):
        return fn(a._self, a._x)

    def post(self, a, r, old):
        if isinstance(a._x, SR):
            return {'the probability of a point is its mass': r == a._c.M(a._x)}
        i = a._x
        return {'probability of an interval': r == If(i.isempty(), 0, a._c.measure(i)), 'it is a probability': And(r >= 0, r <= 1)}


@ncontract('_p', ('C11', 'C18'), variant='set')
class _:
    def start(self, E, a):
        n = E.int('n')
        mu = fun(E, 'measure', 'int', 'real')
        memo = {}

        def at(k):
            key = z3.simplify(k.e).sexpr()
            if key not in memo:
                memo[key] = interval(E)
                memo[key].__dict__['no'] = k
            return memo[key]
        a._mu = lambda i: mu(i.__dict__['no'])     # noqa
        a._x = overlapping(E, SymSeq(E, n, at, 'intervals'))
        a._T = a._sums['measures'] = Sum(E, 'measures', n, lambda k: mu(k))

    def call(self, a, fn):
        import types
        a._self._p = lambda v: a._mu(v)        # the function itself, by its contract for intervals
        return fn(a._self, a._x)

    def post(self, a, r, old):
        return {'the probability of a set is the sum over its disjoint intervals': r == a._T()}


# ------------------------------------------------------------------------------------------------ restriction
class Cropped:
    """the distribution restricted to interval k of a set: mass: its probability, below: that of its part up to x0"""

    def __init__(self, k, mass, below):
        self.k, self.mass, self.below = k, mass, below


def unsat():
    return jpt_class('jpt.base.errors:Unsatisfiability')


def kinds(a):
    E = a._c.E
    if '_kd' not in a.__dict__:
        bad = lambda E: (_ for _ in ()).throw(Undecided('element of an unknown list'))     # noqa
        a._kd = Kind({'mass': ('real', lambda d: d.mass), 'below': ('real', lambda d: d.below)}, bad, None, 'Numeric',
                     accepts=lambda d: isinstance(d, Cropped))
        a._kw = Kind({'w': ('real', lambda w: w)}, bad, None, 'weight', accepts=lambda w: isinstance(w, SR))
    return a._kd, a._kw


def crop_inv(st, L):
    a = L.E.spec
    kd, kw = kinds(a)
    ds, ws = st.distributions, st.weights
    if not isinstance(ds, SymList) or not isinstance(ws, SymList):
        raise Undecided('lists of distributions and weights')
    sd, sw = ds.snapshot(kd), ws.snapshot(kw)
    td, tw = (list(x.tail if x.abstract else list.__iter__(x)) for x in (ds, ws))
    return {'a weight for every distribution': sd['n'] == sw['n'],
            'weights are those of the distributions': And(len(td) == len(tw), *[And(w == d.mass, w > 0) for d, w in zip(td, tw)]),
            'mass so far': And(sw['w'] == a._mass(L.k), sd['mass'] == a._mass(L.k)), 'mass up to x0 so far': sd['below'] == a._below(L.k),
            'weights are positive': Implies(sw['n'] > 0, sw['w'] > 0), 'no mass without a distribution': Implies(sw['n'] == 0, sw['w'] == 0)}


class Normed:
    def __init__(self, of, total):
        self.of, self.total = of, total


def stub_normalized(raw, ws):
    E = sym.eng()
    kd, kw = kinds(E.spec)
    if not isinstance(ws, SymList):
        raise Undecided('normalized')
    t = ws.snapshot(kw)['w']
    E.prove(t > 0, 'precondition of normalized: the weights have a positive sum')
    E.spec._w = ws
    return Normed(ws, t)


STUBS[N + 'normalized'] = stub_normalized


@ncontract('_crop', ('C08', 'C20'), uses=(N + 'normalized',), variant='set')
class _:
    lc = {'_crop#L1': LC(inv=crop_inv, modifies=lambda st: [st.distributions, st.weights],
                         kinds=lambda l: kinds(sym.eng().spec)[0 if l is sym.eng().spec._ds() else 1], local=('weight',))}
    track_lists = True

    def start(self, E, a):
        n = E.int('n')
        E.assume(n >= 0)
        mu, be = fun(E, 'measure', 'int', 'real'), fun(E, 'below', 'int', 'real')

        def at(k):
            i = iv_class()(E.real('lower'), E.real('upper'))
            i.__dict__['no'] = k
            E.assume(And(mu(k) >= 0, be(k) >= 0, be(k) <= mu(k)))
            return i
        a._x = overlapping(E, SymSeq(E, n, at, 'intervals'))
        a._mass, a._below, a._n = Prefix(E, 'mass', lambda k: mu(k), 0), Prefix(E, 'below', lambda k: be(k), 0), n

        def p(i):
            return mu(i.__dict__['no'])

        def crop(i):
            k = i.__dict__['no']
            if mu(k) == 0:
                raise unsat()('no mass')
            return Cropped(k, mu(k), be(k))

        def merge(ds, ws):
            kd, kw = kinds(a)
            if not isinstance(ds, SymList) or not isinstance(ws, Normed):
                raise Undecided('merge')
            # with the weights of the distributions, in their order (invariant of the loop): sum of weight times distribution function
            E.prove(And(ds.snapshot(kd)['n'] == ws.of.snapshot(kw)['n'], ds.snapshot(kd)['mass'] == ws.total),
                    'the weights are those of the distributions')
            a._num, a._den = ds.snapshot(kd)['below'], ws.total
            a._merged = NS()
            return a._merged
        a._self._p, a._self._crop, a._self.merge = p, crop, merge
        import sys

        def ds():
            f = sys._getframe(1)
            while f is not None and not (f.f_code.co_name == '_crop' and 'distributions' in f.f_locals):
                f = f.f_back
            return f.f_locals['distributions'] if f is not None else None
        a._ds = ds

    def call(self, a, fn):
        return fn(a._self, a._x)

    def raises(self, a, exc, old):
        return a._mass(a._n) == 0 if isinstance(exc, unsat()) else None

    def post(self, a, r, old):
        return {'the set has a probability': a._mass(a._n) != 0, 'it is the mixture': r is a._merged,
                'its distribution function is the mass of the set up to x0, divided by that of the set':
                    And(a._num == a._below(a._n), a._den == a._mass(a._n))}


@ncontract('_crop', ('C08', 'C20'), variant='interval')
class _:
    def start(self, E, a):
        a._i = interval(E)
        q = a._self._quantile

        def crop(i):
            a._cropped = i
            a._q = NS()
            return a._q
        q.crop = crop

        def again(x):
            a._point = x
            a._r = NS()
            return a._r
        a._self._crop = again

    def call(self, a, fn):
        return fn(a._self, a._i)

    def post(self, a, r, old):
        if '_point' in a.__dict__:
            return {'only an interval with a single point is a point': And(a._i.single, a._i.lower <= a._point,
                                                                           a._point <= a._i.upper), 'it is the result': r is a._r}
        return {'it is another distribution': r is not a._self and isinstance(r, jpt_class(N + 'Numeric')),
                'the distribution function is restricted to the interval': a._cropped is a._i and r._quantile is a._q}


@ncontract('_crop', ('C08', 'C20'), uses=(N + 'Numeric.create_dirac_impulse/p',), variant='point')
class _:
    def start(self, E, a):
        a._x = E.real('point')
        a._density = E.real('density')
        E.assume(a._density >= 0)
        a._self._quantile.pdf = NS(eval=lambda x: (E.prove(x == a._x, 'density at the point'), a._density)[1])
        a._self._p = lambda x: (E.prove(x == a._x, 'mass of the point'), a._c.M(a._x))[1]

    def call(self, a, fn):
        return fn(a._self, a._x)

    def raises(self, a, exc, old):
        return And(a._density == 0, a._c.M(a._x) == 0) if isinstance(exc, unsat()) else None

    def post(self, a, r, old):
        return {'the point is possible': Or(a._density != 0, a._c.M(a._x) != 0), 'it is another distribution': r is not a._self,
                'all mass is at the point': getattr(r, 'dirac', None) is a._x}


def stub_dirac(raw, self, value):
    self.dirac = value
    return self


STUBS[N + 'Numeric.create_dirac_impulse/p'] = stub_dirac


# ------------------------------------------------------------------------------------------------ modes
def pieces(E, a):
    """the density: piece k has value v(k); none, or a positive number"""
    n = E.int('n')
    V = fun(E, 'density', 'int', 'real')
    E.assume(n >= 1)
    a._V = V
    fs = SymSeq(E, n, lambda k: NS(value=(E.assume(V(k) >= 0), V(k))[1]), 'functions')
    memo = {}

    def at(k):
        key = z3.simplify(k.e).sexpr()
        if key not in memo:
            memo[key] = iv_class()(E.real('lower'), E.real('upper'))
            memo[key].__dict__['no'] = k
        return memo[key]
    ivs = SymSeq(E, n, at, 'intervals')
    return n, NS(functions=fs, intervals=ivs)


@ncontract('_mpe', ('C11', 'C14'))
class _:
    def start(self, E, a):
        a._n, pdf = pieces(E, a)
        a._self._quantile.pdf = pdf
        a._g, a._j = E.int('g'), E.int('j')
        a._impulses = E.choose(2) == 0
        a._extreme = None
        if a._impulses:
            pdf.functions.everywhere(lambda k: a._V(k) == 0)
            E.assume(And(within(a._g, a._c.nj), within(a._j, a._c.nj)))
        else:
            E.assume(And(within(a._g, a._n), within(a._j, a._n), a._V(a._j) > 0))
            pdf.functions.at(a._j)

    def call(self, a, fn):
        return fn(a._self)

    def post(self, a, r, old):
        E = a._c.E
        if a._extreme is not None:
            extreme_at(E, a._g)
            extreme_at(E, a._j)
        if r is None:
            return {'there is a mode': False}
        state, p = r
        q = state.intervals
        if not isinstance(q, SymSeq):
            return {'the mode is a set of intervals': False}
        k, top = a._extreme[1], a._extreme[2]
        if a._impulses:
            i = q.at(a._g)
            x, m = a._c.jump(a._g)
            return {'no density is finite': p == math.inf, 'no impulse has more mass': m <= top,
                    'the mode consists of the impulses with that mass': And(q.n == a._c.nj, i.lower == x, i.upper == x, Iff(q.cond(a._g), m == top))}
        return {'the likelihood is that of a piece': And(within(k, a._n), p == a._V(k)), 'no piece has a greater density': a._V(a._g) <= p,
                'the mode consists of the pieces with that density':
                    And(q.n == a._n, q.at(a._g).__dict__['no'] == a._g, Iff(q.cond(a._g), a._V(a._g) == p))}


# ------------------------------------------------------------------------------------------------ moments
def mk_moment(order):
    @ncontract('_moment', ('C11', 'C19'), variant='order %d' % order)
    class _:
        lc = {'_moment#L1': LC(inv=lambda st, L: {'moment of the pieces so far': st.result == L.E.spec._J() + L.E.spec._P(L.k)},
                               local=('interval_', 'function_value'))}
        opts = dict(opaque=True)

        def start(self, E, a):
            c = a._c
            T, WT = fun(E, 'T', 'real', 'real'), fun(E, 'width of the image', 'int', 'real')
            lo, up, w, V = (fun(E, x, 'int', 'real') for x in ('lower', 'upper', 'width', 'density'))
            a._center = E.real('center')
            n = a._n = E.int('n')
            E.assume(n >= 0)

            def tr(x):
                return T(x) if isinstance(x, SR) else NS(lower=T(lo(x.no)), upper=T(up(x.no)), width=WT(x.no))

            def piece(k):
                return NS(lower=lo(k), upper=up(k), width=w(k), no=k)
            a._tr = tr
            inner = NS(functions=SymSeq(E, n, lambda k: NS(value=V(k)), 'functions'), intervals=SymSeq(E, n, piece, 'intervals'))

            class Inner:
                def __init__(self, s):
                    self.s = s

                def __getitem__(self, i):
                    if i != slice(1, -1):
                        raise Undecided('pieces of the density')
                    return self.s
            a._self._quantile.pdf = NS(functions=Inner(inner.functions), intervals=Inner(inner.intervals))

            def integral(k):
                fv = SR((V(k) * w(k)).e / WT(k).e)        # used only if the width is not zero
                return If(WT(k) == 0, 0, ((T(up(k)) - a._center) ** (order + 1) - (T(lo(k)) - a._center) ** (order + 1)) * fv / (order + 1))
            a._P = Prefix(E, 'integrals', integral, 0)
            a._J = a._sums['jumps'] = Sum(E, 'jumps', c.nj, lambda k: (T(c.jump(k)[0]) - a._center) ** order * c.jump(k)[1])

        def call(self, a, fn):
            return fn(a._self, order, a._center, a._tr)

        def post(self, a, r, old):
            return {'moment: sum over the jumps plus the integrals over the pieces':
                    r == If(a._c.n_int == 2, a._J(), a._J() + a._P(a._n))}


for _o in (1, 2, 3):
    mk_moment(_o)


# ------------------------------------------------------------------------------------------------ conversion
class Scale:
    """an increasing conversion of numbers"""

    def __init__(self, E):
        self.E, self.f, self.seen = E, fun(E, 'scale', 'real', 'real'), []

    def __getitem__(self, x):
        if isinf(x):
            return x
        if not isinstance(x, SR):
            raise Undecided('conversion of %s' % type(x).__name__)
        y = self.f(x)
        for z in self.seen:
            self.E.assume(And(Implies(x < z, y < self.f(z)), Implies(z < x, self.f(z) < y)))
        self.seen.append(x)
        return y


def inside(i, x):
    l = True if isinf(i.lower) else Or(i.lower < x, And(i.left == INC, i.lower == x))
    u = True if isinf(i.upper) else Or(i.upper > x, And(i.right == INC, i.upper == x))
    return And(l, u)


def mk_conversion(name):
    @ncontract(name, ('C13', 'C08', 'C11'))
    class _:
        def start(self, E, a):
            a._t = Scale(E)
            attr = 'labels' if name == 'value2label' else 'values'
            a._cls = type('Scaled', (jpt_class(N + 'Numeric'),), {attr: a._t, 'labels' if attr == 'values' else 'values': None})
            kind = E.choose(3)
            a._g = E.real('g')
            if kind == 0:
                a._x = E.real('x')
            elif kind == 1:
                a._x = interval(E)
            else:
                n = E.int('n')
                memo = {}

                def at(k):
                    key = z3.simplify(k.e).sexpr()
                    if key not in memo:
                        memo[key] = iv_class()(E.real('lower'), E.real('upper'), E.int('left'), E.int('right'))
                    return memo[key]
                a._k = E.int('k')
                a._x = rs_class()(SymSeq(E, n, at, 'intervals'))

        def call(self, a, fn):
            return getattr(a._cls, name)(a._x)

        def post(self, a, r, old):
            x = a._x
            if isinstance(x, SR):
                return {'the number is converted': r == a._t[x]}
            if hasattr(x, 'lower'):
                return {'it contains exactly the conversions of the points of the interval': Iff(inside(x, a._g), inside(r, a._t[a._g]))}
            q = r.intervals
            if not bool(within(a._k, x.intervals.n)):
                return {}
            return {'one interval for every interval of the set': q.n == x.intervals.n,
                    'it contains exactly the conversions of the points of the set':
                        Iff(inside(x.intervals.at(a._k), a._g), inside(q.at(a._k), a._t[a._g]))}


mk_conversion('value2label')
mk_conversion('label2value')


# ------------------------------------------------------------------------------------------------ mixtures
def stub_qmerge(raw, distributions, weights):
    a = sym.eng().spec
    a._args, a._q = (list(distributions), list(weights)), NS()
    return a._q


@ncontract('update', ('C09',), uses=(N + 'QuantileDistribution',))
class _:
    def start(self, E, a):
        a._other = type(a._self)()
        a._w = E.real('weight')

    def call(self, a, fn):
        return fn(a._self, a._other, a._w)

    def raises(self, a, exc, old):
        return Or(a._w < 0, a._w > 1) if isinstance(exc, ValueError) else None

    def post(self, a, r, old):
        d, w = a._args
        return {'it is the distribution itself': r is a._self, 'the weight is one': And(a._w >= 0, a._w <= 1),
                'the distribution and the other one are merged': d[0] is a._self and d[1] is a._other and len(d) == 2,
                'weights': And(w[0] == 1 - a._w, w[1] == a._w), 'the distribution function is the merged one': a._self._quantile is a._q}


STUBS[N + 'QuantileDistribution'] = Value(NS(merge=lambda *a: stub_qmerge(None, *a)))
