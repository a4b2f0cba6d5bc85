"""Contracts of the quantile distributions (C07, C10, C11) over real arithmetic, for a distribution function of any number of pieces.

Piece k >= 1 starts at lo(k), where the next one ends; the pieces are constant or linear and do not decrease, neither at their borders; the
first is 0, the last is 1."""
import math

import z3

from engine import sym
from engine.contract import contract, STUBS, Value, And, Implies, If, jpt_class
from engine.hlist import LC
from engine.seq import SymL, SymSeq, Every, within, seqof
from engine.sym import SB, SI, SR, Or, Not, Undecided
from contracts.numeric import INC, EXC, isinf
from contracts.piecewise import piece_class, fn_class, value, FNM, PW, stub_idx_at, covers, Chosen
from contracts import piecewise

ASSUMES = ('the distribution function is given by constant and linear pieces that do not decrease, the first is 0, the last 1 (bounded: C07)',
           'real arithmetic; the elementary functions by the contracts of C05')
Q = 'jpt.distributions.quantile.quantiles:'
TOL = 1e-12


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, jpt_class('jpt.base.intervals:ContinuousSet'))


class Interval(metaclass=_Meta):
    """stands for ContinuousSet"""
    def __new__(cls, lower=-math.inf, upper=math.inf, left=INC, right=INC):
        return piece_class()(lower, upper, left, right)


STUBS[Q + 'ContinuousSet'] = Value(Interval)
_C = []


def lin_class():
    if _C:
        return _C[0]
    base = jpt_class(FNM + 'LinearFunction')

    class Lin(base):
        """piece k, linear"""
        def __new__(cls, *a, **k):
            return object.__new__(cls)

        def __init__(self, c, k):
            self.__dict__.update(c_=c, k=k, m=SR(c.slope(k.e)))

        def eval(self, x):
            return self.c_.val(self.k, x)
        __call__ = eval

        def copy(self):
            return Lin(self.c_, self.k)

        def invert(self):
            E = sym.eng()
            E.require(Not(self.m == 0), 'precondition of invert: the slope is not zero')
            return fn_class()(lambda p: self.c_.inverse(self.k, p))
    _C.append(Lin)
    return Lin


class Steps:
    """the distribution function"""

    def __init__(self, E):
        self.E = E
        R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
        F = z3.Function
        self.lo_, self.v, self.level, self.const, self.slope, self.inv = (
            F('lo', I, R), F('value', I, R, R), F('level', I, R), F('constant', I, B), F('slope', I, R), F('inverse', I, R, R))
        self.n = E.int('n')
        E.assume(self.n >= 2)
        self.seen, self.pts = [], []
        self.intervals = SymL(E, self.n, self.interval, 'intervals')
        self.functions = SymL(E, self.n, self.function, 'functions')
        self.o = jpt_class(FNM + 'PiecewiseFunction')()
        self.o.intervals, self.o.functions = self.intervals, self.functions

    def isconst(self, k):
        return SB(self.const(sym.zint(k)))

    def lo(self, k):
        return SR(self.lo_(sym.zint(k)))

    def val(self, k, x):
        """the value of function k at x"""
        k = SI(sym.zint(k))
        if isinf(x):
            raise Undecided('value at infinity')
        v, x = SR(self.v(k.e, sym.zreal(x))), SR(sym.zreal(x))
        if not any(k.e.eq(j.e) and x.e.eq(y.e) for j, y in self.pts):
            E, m = self.E, SR(self.slope(k.e))
            E.assume(Implies(self.isconst(k), v == SR(self.level(k.e))))
            E.assume(Implies(Not(self.isconst(k)), m >= 0))
            for j, y in self.pts:
                u = SR(self.v(k.e, y.e))
                E.assume(Implies(And(j == k, m == 0), u == v))
                E.assume(Implies(And(j == k, x <= y), v <= u))
                E.assume(Implies(And(j == k, y <= x), u <= v))
                E.assume(Implies(And(j == k, m > 0, Not(self.isconst(k))), And(Implies(x < y, v < u), Implies(y < x, u < v))))
            self.pts.append((k, x))
        return v

    def start(self, k):
        return self.val(k, self.lo(k))

    def end(self, k):
        """the value that piece k comes to"""
        k = SI(sym.zint(k))
        return If(Or(k == 0, k == self.n - 1), If(k == 0, 0, 1), self.val(k, self.lo(k + 1)))

    def facts(self, k):
        if any(k.e.eq(j.e) for j in self.seen):
            return
        E, n = self.E, self.n
        self.seen.append(k)
        first, last = k == 0, k == n - 1
        E.assume(Implies(within(k, n), And(Implies(Or(first, last), self.isconst(k)), Implies(first, SR(self.level(k.e)) == 0),
                                           Implies(last, SR(self.level(k.e)) == 1))))
        E.assume(Implies(And(k >= 1, k < n - 1), And(self.lo(k) < self.lo(k + 1), self.start(k) <= self.end(k))))
        E.assume(Implies(And(k >= 1, k < n), And(self.end(k - 1) <= self.start(k), self.start(k) >= 0, self.start(k) <= 1,
                                                 self.end(k) >= 0, self.end(k) <= 1)))
        for j in self.seen:
            for p, q in ((j, k), (k, j)):
                E.assume(Implies(And(p >= 1, p < q, q < n), And(self.lo(p) < self.lo(q), self.start(p) <= self.start(q))))

    def inverse(self, k, p):
        x = SR(self.inv(sym.zint(k), sym.zreal(p)))
        self.E.assume(self.val(k, x) == p)
        return x

    def interval(self, k):
        k = SI(sym.zint(k))
        self.facts(k)
        l = -math.inf if bool(k == 0) else self.lo(k)
        u = math.inf if bool(k == self.n - 1) else self.lo(k + 1)
        return piece_class()(l, u, EXC if isinf(l) else INC, EXC, owner=getattr(self, 'intervals', None))

    def function(self, k):
        k = SI(sym.zint(k))
        self.facts(k)
        if bool(self.isconst(k)):
            return jpt_class(FNM + 'ConstantFunction')(SR(self.level(k.e)))
        return lin_class()(self, k)


class QuantileContract:
    mode = 'real'
    concrete = False
    frame = False

    def setup(self, E, a):
        E.spec = a
        a._lists = True
        a._positions, a._wits, a._doubles = [], [], []
        a._pt = E.real('any')
        a._f = Steps(E)
        o = a._self = jpt_class(Q + 'QuantileDistribution')()
        o._cdf = a._f.o
        self.start(E, a)

    def start(self, E, a):
        pass


def qcontract(name, props, uses=(), **kw):
    def deco(cls):
        body = {n: v for n, v in cls.__dict__.items() if n not in ('__dict__', '__weakref__')}
        body['loops'] = {'QuantileDistribution.%s' % n: v for n, v in getattr(cls, 'lc', {}).items()}
        c = type(cls.__name__, (QuantileContract,), body)
        c.assumes = ASSUMES
        contract(Q + 'QuantileDistribution.' + name, props, uses=(Q + 'ContinuousSet',) + tuple(uses), mode='real', concrete=False,
                 frame=False, **kw)(c)
        return cls
    return deco


def pairs(seq):
    """pairwise: each element but the last with its successor"""
    n, at = seqof(seq)
    E = sym.eng()
    return SymSeq(E, If(n > 0, n - 1, 0), lambda k: (at(k), at(k + 1)))


STUBS[Q + 'pairwise'] = Value(pairs)


# ------------------------------------------------------------------------------------------------ jumps
def mass(f, k):
    """the jump between piece k and the next one"""
    return f.start(k + 1) - (f.val(k, f.lo(k + 1)))


def jumps_inv(st, L):
    a = L.E.spec
    r, c, f, j = st.result, a._c, a._f, a._j
    for k in (L.k, L.k - 1, j):
        c.at(k)

    def fact(k, e):
        s = c.nth(k)
        x, m = e
        return And(s >= 0, s < L.k, c.keep(s), c.rank(s) == k, x == f.lo(s + 1), m == mass(f, s))
    return {'one for every jump so far': And(r.n == c.rank(L.k), r.n >= 0),
            'counted before': Implies(j < L.k, And(c.rank(j) >= 0, c.rank(j) + If(c.keep(j), 1, 0) <= c.rank(L.k))),
            'the jumps so far': Every(r, fact)}


@qcontract('jumps', ('C07', 'C10', 'C11'), uses=(Q + 'pairwise',))
class _:
    lc = {'jumps#L1': LC(inv=jumps_inv, modifies=lambda st: [st.result], kinds=lambda l: lambda k: (sym.eng().real('point'), sym.eng().real('mass')))}

    def start(self, E, a):
        f = a._f
        a._j = E.int('j')
        E.assume(within(a._j, f.n - 1))
        a._c = Chosen(E, type('_', (), {'n': f.n - 1}), lambda k: mass(f, k) > 1e-8)

    def call(self, a, fn):
        return fn(a._self)

    def post(self, a, r, old):
        f, c, j = a._f, a._c, a._j
        c.at(j)
        out = {'as many as there are jumps': r.n == c.count()}
        if bool(c.keep(j)):
            x, m = r.at(c.rank(j))
            out['a jump is there, in its place'] = And(c.rank(j) >= 0, c.rank(j) < r.n, x == f.lo(j + 1), m == mass(f, j), m > 1e-8)
        return out


# ------------------------------------------------------------------------------------------------ the quantile function
class Somewhere:
    """invariant: where the guard holds, an element of the list meets the condition"""

    def __init__(self, l, guard, cond):
        self.l, self.guard, self.cond = l, guard, cond

    def goal(self, E):
        l = self.l
        ks = list(E.spec._wits) + [l.n - 1, l.n - 2]
        return Implies(self.guard, Or(False, *[And(within(k, l.n), self.cond(l.at(k))) for k in ks if bool(within(k, l.n))]))

    def assume_in(self, E):
        if bool(self.guard):
            k = E.int('where')
            E.assume(within(k, self.l.n))
            E.assume(self.cond(self.l.at(k)))
            E.spec._wits.append(k)

    fact, alone = None, True


def right(a, p, x):
    """the relation of a probability and its quantile: the distribution function comes to p at x.  It holds (1) where it jumps over p: piece k
    starts at x, with at least p, and the one before ends with at most p; (2) where piece k has the value p at x, between those of its ends.
    (All up to 1e-12.)  known(k): what this says of piece k"""
    return SB(a._rel(sym.zreal(p), sym.zreal(x)))


def known(a, k, p, x):
    f = a._f
    E = sym.eng()
    f.facts(SI(sym.zint(k)))
    E.assume(Implies(And(k >= 1, k < f.n, x == f.lo(k), f.end(k - 1) <= p + TOL, f.start(k) >= p - TOL), right(a, p, x)))
    E.assume(Implies(And(k >= 1, k < f.n - 1, f.val(k, x) == p, f.start(k) <= p + TOL, f.end(k) >= p - TOL), right(a, p, x)))


OPE = math.nextafter(1, 2)


def ppf_inv(st, L):
    a = L.E.spec
    r, y, p, f = st.ppf, st.y_cdf, a._pt, a._f
    I, G, k = r.intervals, r.functions, L.k
    f.facts(SI(sym.zint(k)))
    f.facts(SI(sym.zint(k + 1)))
    f.facts(SI(sym.zint(k - 1)))
    y = SR(sym.zreal(y))

    def iv(s, i):
        if bool(s == 0):
            return And(i.lower == -math.inf, i.upper == 0, i.left == EXC, i.right == EXC)
        if isinf(i.lower) or isinf(i.upper):
            return False
        return And(i.lower < i.upper, i.lower >= 0, i.upper <= y, i.left == INC, i.right == EXC)

    def fn(s, g):
        if bool(s == 0):
            return type(g).__name__ == 'Undefined'
        i = I.at(s)
        if type(g).__name__ == 'Undefined' or isinf(i.lower) or isinf(i.upper):
            return False
        x = value(g, p)
        if st._when == 'post':
            known(a, k, p, x)
        return Implies(And(i.lower <= p, p <= i.upper + TOL), right(a, p, x))
    last = I.at(I.n - 1) if bool(I.n >= 1) else None
    return {'a function for every interval': And(I.n == G.n, I.n >= 1), 'all processed pieces are covered': And(y >= f.end(k) - TOL, y <= f.end(k), y >= 0),
            'up to the value covered so far': last is not None and last.upper == y, 'the intervals so far': Every(I, iv),
            'every probability so far has an interval': Somewhere(I, And(p >= 0, p < y), lambda i: False if isinf(i.lower) else covers(i, p)),
            'the quantiles so far': Every(G, fn)}


def ppf_kinds(l):
    E = sym.eng()
    k = E.spec._kind(l)
    P = piece_class()
    if k == 'intervals':
        return lambda k: P(-math.inf if bool(k == 0) else E.real('lower'), E.real('upper'), E.int('left'), E.int('right'))
    u = piecewise.unknown_function(E)
    return lambda k: jpt_class(FNM + 'Undefined')() if bool(k == 0) else u(k)


def ppf_modifies(st):
    r = st.ppf
    sym.eng().spec._kind = lambda l: 'intervals' if l is r.intervals else 'functions' if l is r.functions else None
    return [r.intervals, r.functions]


@qcontract('ppf', ('C10',), uses=(PW + 'idx_at',), opts=dict(deadline=300))
class _:
    lc = {'ppf#L1': LC(inv=ppf_inv, modifies=ppf_modifies, kinds=ppf_kinds, fresh={'y_cdf': lambda E, v: E.real('y_cdf')})}

    def start(self, E, a):
        a._rel = z3.Function('quantile', z3.RealSort(), z3.RealSort(), z3.BoolSort())
        p, a._look = a._pt, True
        E.assume(And(p >= 0, p <= 1))

    def call(self, a, fn):
        return fn(a._self)

    def post(self, a, r, old):
        p, o = a._pt, a._self
        i = r.idx_at(p)
        for k in a._wits:
            r.intervals.at(k)
        out = {'kept': o._ppf is r, 'the distribution function is unchanged': o._cdf is a._f.o}
        if isinstance(i, int) and i == -1:
            r.intervals.at(r.intervals.n - 2)
            return {**out, 'every probability has a quantile': False}
        g = r.functions.at(i)
        if type(g).__name__ == 'Undefined':
            return {**out, 'every probability has a quantile': False}
        return {**out, 'it is a quantile': right(a, p, value(g, p))}
