"""Contracts of the weighted choice and of the samples of distributions (C22) for weights of any number and every outcome of the random
generator, over real arithmetic.

'chosen' holds of the elements with positive weight; it says nothing of any other element."""
import inspect
import math

import z3

from engine import sym
from engine.arr import SymArr, fun
from engine.contract import CS, IV, EXC, member, empty, contract, NS, STUBS, Value, Wrap, And, Implies, If, jpt_class
from engine.hlist import LC
from engine.hooks import Many
from engine import rt
from engine.seq import SymSeq, SymL, Every, Arrays, Fn, within
from engine.sym import SB, SI, SR, Or, Not, Undecided, PathEnd

import contracts.intervals       # noqa
import contracts.quantiles as Q_
from contracts.numeric import inside, isinf
from contracts.piecewise import piece_class
from contracts.discrete import UNI, domain, dist, dcontract, Distribution

B = 'jpt.base.sampling:'
ASSUMES = ('numpy.cumsum gives the partial sums, which do not decrease if no summand is negative',
           'random.uniform gives a number between its arguments, both included', 'at least one weight is positive, none is negative')


class Wheel:
    """weights w(i) >= 0, of which at least one is positive, and elements e(i)"""

    def __init__(self, E):
        self.E = E
        self.n = E.int('n')
        E.assume(self.n >= 1)
        self.w = SymArr(E, 'weight', (self.n,), 'real', (lambda ix, v, rd=None: v >= 0,))
        e, bound = fun(E, 'element', 'int', 'int'), fun(E, 'bound', 'int', 'real')
        self.pos = lambda x: SB(POS(sym.zint(x)))
        POS = z3.Function('chosen', z3.IntSort(), z3.BoolSort())
        self.seen = []

        def element(i):
            E.assume(Implies(And(within(i, self.n), self.w.at(i) > 0), self.pos(e(i))))
            return e(i)
        self.elements = SymSeq(E, self.n, element)

        def ub(i):
            i = SI(sym.zint(i))
            if not any(i.e.eq(j.e) for j in self.seen):
                E.assume(bound(i) == If0(i, bound) + self.w.at(i))
                E.assume(Implies(within(i, self.n), bound(i) >= 0))
                E.assume(bound(self.n - 1) > 0)
                E.assume(Implies(i >= 1, And(bound(i - 1) >= 0, bound(i) >= bound(i - 1))))
                for j in self.seen:
                    E.assume(Implies(i <= j, bound(i) <= bound(j)))
                    E.assume(Implies(j <= i, bound(j) <= bound(i)))
                self.seen.append(i)
            return bound(i)
        self.bound = ub
        self.bounds = SymSeq(E, self.n, ub)
        self.total = ub(self.n - 1)
        E.assume(self.total > 0)
        self.o = jpt_class(B + 'RouletteWheelSampler').__new__(jpt_class(B + 'RouletteWheelSampler'))
        self.o._elements, self.o._upperbounds = self.elements, self.bounds


def If0(i, f):
    return If(i >= 1, f(i - 1), 0)


class Numpy(Arrays):
    """cumsum of the weights"""

    def cumsum(self, x):
        W = sym.eng().spec._W
        if x is not W.w:
            raise Undecided('cumsum of something else')
        return W.bounds


class Rnd:
    def uniform(self, lo, hi):
        E = sym.eng()
        E.require(lo <= hi, 'precondition of uniform: the limits are in order')
        x = E.real('random')
        E.assume(And(x >= lo, x <= hi))
        return x


STUBS[B + 'np'] = Wrap(Numpy)
STUBS[B + 'random'] = Value(Rnd())


class Sampler:
    mode = 'real'
    concrete = False
    frame = False
    assumes = ASSUMES

    def setup(self, E, a):
        E.spec = a
        a._W = Wheel(E)
        a._k, a._n = E.int('any'), E.int('samples')
        E.assume(a._n >= 0)
        self.start(E, a)

    def start(self, E, a):
        pass


def scontract(name, **kw):
    def deco(cls):
        uses = kw.pop('uses', ()) + (B + 'np', B + 'random')
        body = {n: v for n, v in cls.__dict__.items() if n not in ('__dict__', '__weakref__')}
        c = type(cls.__name__, cls.__bases__ if cls.__bases__ != (object,) else (Sampler,), body)
        contract(B + name, ('C22',), uses=uses, mode='real', concrete=False, frame=False, **kw)(c)
        return cls
    return deco


@scontract('RouletteWheelSampler.__init__')
class _:
    def start(self, E, a):
        a._m = E.int('m')
        e = fun(E, 'given', 'int', 'int')
        a._given = SymSeq(E, a._m, e)

    def call(self, a, fn):
        o = jpt_class(B + 'RouletteWheelSampler').__new__(jpt_class(B + 'RouletteWheelSampler'))
        fn(o, a._given, a._W.w)
        return o

    def raises(self, a, exc, old):
        return a._m != a._W.n if type(exc) is ValueError else None

    def post(self, a, r, old):
        return {'one weight per element': a._m == a._W.n, 'the elements are those given': r._elements is a._given,
                'the bounds are the partial sums of the weights': r._upperbounds is a._W.bounds}


@scontract('RouletteWheelSampler.index')
class _:
    loops = {'RouletteWheelSampler.index#L1': LC(
        inv=lambda st, L: {'no bound so far is reached': Or(L.k == 0, L.E.spec._W.bound(L.k - 1) < L.E.spec._x,
                                                            L.E.spec._W.bound(L.k - 1) <= 0)})}

    def start(self, E, a):
        a._x = E.real('x')

    def call(self, a, fn):
        return fn(a._W.o, a._x)

    def raises(self, a, exc, old):
        return Or(a._x < 0, a._x > a._W.total) if isinstance(exc, IndexError) else None

    def post(self, a, r, old):
        if r is None:
            return {'a field is found': False}
        W = a._W
        return {'it is the position of an element': within(r, W.n), 'the element has a positive weight': W.w.at(r) > 0,
                'the number is within its bounds': And(a._x <= W.bound(r), Or(r == 0, a._x > W.bound(r - 1), W.bound(r - 1) == 0))}


def with_index(W):
    """the contract of index"""
    E = W.E

    def index(x):
        E.require(And(x >= 0, x <= W.total), 'precondition of index: the number is on the wheel')
        i = E.int('index')
        E.assume(And(within(i, W.n), W.w.at(i) > 0))
        return i
    W.o.index = index
    return W.o


@scontract('RouletteWheelSampler.__getitem__')
class _:
    def start(self, E, a):
        a._x = E.real('x')
        E.assume(And(a._x >= 0, a._x <= a._W.total))

    def call(self, a, fn):
        return fn(with_index(a._W), a._x)

    def post(self, a, r, old):
        return {'an element of positive weight': a._W.pos(r)}


def samples(a, r, get=lambda x: x):
    """n elements of positive weight"""
    W = a._W
    if isinstance(r, list) and not isinstance(r, SymL):
        return {'as many samples as requested': a._n == len(r), 'every sample has a positive weight': And(*[W.pos(get(x)) for x in r])}
    n = r.n
    if not bool(within(a._k, n)):
        return {'as many samples as requested': n == a._n}
    return {'as many samples as requested': n == a._n, 'every sample has a positive weight': W.pos(get(r.at(a._k)))}


@scontract('RouletteWheelSampler.sample')
class _:
    def call(self, a, fn):
        return fn(with_index(a._W), a._n)

    def post(self, a, r, old):
        return samples(a, r)


@scontract('RouletteWheelSampler.samplei')
class _:
    def call(self, a, fn):
        return fn(with_index(a._W), a._n)

    def post(self, a, r, old):
        if isinstance(r, SymSeq) and bool(within(a._k, r.n)):
            x, i = r.at(a._k)
            return {'as many samples as requested': r.n == a._n, 'the position has a positive weight': And(within(i, a._W.n), a._W.w.at(i) > 0),
                    'it is the position of the element': x == a._W.elements.at(i)}
        return {'as many samples as requested': r.n == a._n}


# ------------------------------------------------------------------------------------------------ the functions
class Sampled:
    """stands for RouletteWheelSampler(population, weights)"""
    def __init__(self, population, weights):
        E = sym.eng()
        W = E.spec._W
        E.require(population is W.elements and weights is W.w, 'population and weights are those given')
        self.W = W

    def _pick(self, i=False):
        E, W = self.W.E, self.W
        k = E.int('index')
        E.assume(And(within(k, W.n), W.w.at(k) > 0))
        return (W.elements.at(k), k) if i else W.elements.at(k)

    def sample(self, n=1):
        return SymSeq(self.W.E, n, lambda k: self._pick())

    def samplei(self, n=1):
        return SymSeq(self.W.E, n, lambda k: self._pick(True))


STUBS[B + 'RouletteWheelSampler/s'] = Value(Sampled)


def mk_wsample(name, get):
    @scontract(name, uses=(B + 'RouletteWheelSampler/s',))
    class _:
        def call(self, a, fn):
            return fn(a._W.elements, a._W.w, a._n)

        def post(self, a, r, old):
            return samples(a, r, get)


mk_wsample('wsample', lambda x: x)
mk_wsample('wsamplei', lambda x: x[0])


def one(indices):
    def f(raw, population, weights, k):
        if k != 1:
            raise Undecided('a choice of several elements')
        return [Sampled(population, weights)._pick(indices)]
    return f


STUBS[B + 'wsample/1'], STUBS[B + 'wsamplei/1'] = one(False), one(True)


def mk_choice(name, get):
    @scontract(name, uses=(B + 'wsample/1', B + 'wsamplei/1'))
    class _:
        def call(self, a, fn):
            return fn(a._W.elements, a._W.w)

        def post(self, a, r, old):
            return {'an element of positive weight': a._W.pos(get(r))}


mk_choice('wchoice', lambda x: x)
mk_choice('wchoicei', lambda x: x[0])


# ------------------------------------------------------------------------------------------------ discrete distributions
def pairs(x):
    from engine.seq import seqof
    return seqof(x)


def check(population, weights):
    """what the weighted choice requires"""
    E = sym.eng()
    n, at = pairs(population)
    m, w = pairs(weights)
    E.require(SI(sym.zint(n)) == m, 'one weight per element')
    k = E.int('any')
    if E.choose(2) == 0:
        E.assume(within(k, m))
        E.prove(w(k) >= 0, 'precondition of the weighted choice: no weight is negative')
        raise PathEnd()
    E.require(within(E.spec._some, m), 'precondition of the weighted choice: there are elements')
    E.require(w(E.spec._some) > 0, 'precondition of the weighted choice: one weight is positive')

    def pick():
        k = E.int('chosen')
        E.assume(And(within(k, m), w(k) > 0))
        return at(k)
    return pick


def stub_wsample(raw, population, weights, k):
    pick = check(population, weights)
    return SymSeq(sym.eng(), k, lambda i: pick())


def stub_wchoice(raw, population, weights):
    return check(population, weights)()


for _k in ('multinomial', 'integer'):
    STUBS['%s%s:wsample' % (UNI, _k)], STUBS['%s%s:wchoice' % (UNI, _k)] = stub_wsample, stub_wchoice


def mk_sample(name, label, one):
    @dcontract(name, ('C22',), more=('wsample', 'wchoice'))
    class _(Distribution):
        def start(self, E, a):
            a._n, a._k, a._some = E.int('samples'), E.int('k'), E.int('some')
            E.assume(And(a._n >= 0, within(a._some, a._d.n), a._p0.at(a._some) > 0))

        def call(self, a, fn):
            return fn(a._self) if one else fn(a._self, a._n)

        def good(self, a, x):
            d = a._d
            if label:
                return And(d.has(x), a._p0.at(d.val(x)) > 0)
            return And(within(x, d.n), a._p0.at(x) > 0)

        def post(self, a, r, old):
            if one:
                return {'the sample is possible': self.good(a, r), **self.same(a)}
            if inspect.isgenerator(r):
                out = list(r)
                if len(out) != 1 or not isinstance(out[0], Many):
                    raise Undecided('a generator of single samples')
                r = out[0].seq
            n, at = pairs(r)
            if not bool(within(a._k, n)):
                return {'as many samples as requested': SI(sym.zint(n)) == a._n}
            return {'as many samples as requested': SI(sym.zint(n)) == a._n, 'every sample is possible': self.good(a, at(a._k)), **self.same(a)}


for _n in ('_sample', 'sample', '_sample_one', 'sample_one'):
    mk_sample(_n, not _n.startswith('_'), _n.endswith('one'))


# ------------------------------------------------------------------------------------------------ intervals, in exact doubles
class Draws:
    """k numbers, of which x is an arbitrary one"""
    __symobj__ = True

    def __init__(self, n, x):
        self.n, self.x = n, x

    def __slist__(self):
        return self


class Target(Draws):
    """an array of a given length to be written to"""

    def __setitem__(self, i, v):
        E = sym.eng()
        if i is not Ellipsis or not isinstance(v, Draws):
            raise Undecided('assignment of a part of an array')
        E.require(v.n == self.n, 'as many numbers as the array has elements')
        self.x = v.x


class UniformNumpy:
    """numpy.random.uniform(low, high, k): k numbers between low and high, both included"""

    def __init__(self, raw):
        self._raw, self.random = raw, self

    def __getattr__(self, k):
        return getattr(self._raw, k)

    def uniform(self, lo, hi, k):
        E = sym.eng()
        E.require(lo <= hi, 'precondition of uniform: the limits are in order')
        E.require(And(lo > -math.inf, hi < math.inf), 'precondition of uniform: the limits are finite')
        x = E.f64('random')
        E.assume(And(x >= lo, x <= hi))
        return Draws(k, x)


STUBS[IV + ':np/uniform'] = Wrap(UniformNumpy)
BIG = 1.7976931348623157e308


class Drawn:
    concrete = False
    assumes = ('numpy.random.uniform(low, high, k) gives k doubles between low and high, both included',)
    params = dict(self=CS())

    def pre(self, a):
        s = a.self
        return {'the interval is not beyond the doubles': And(s.lower < math.inf, s.upper > -math.inf,
                                                              Implies(s.left == EXC, s.lower < BIG), Implies(s.right == EXC, s.upper > -BIG))}

    def raises(self, a, exc, old):
        return empty(old.self) if isinstance(exc, IndexError) else None


@contract(IV + ':ContinuousSet._sample', ('C22', 'C02'), uses=(IV + ':np/uniform', IV + ':ContinuousSet.isempty'))
class _(Drawn):
    def setup(self, E, a):
        E.spec = a
        a._n = E.int('samples')
        E.assume(a._n >= 1)
        a._into = E.choose(2) == 1

    def call(self, a, fn):
        return fn(a.self, a._n, Target(a._n, None) if a._into else None)

    def post(self, a, r, old):
        return {'as many samples as requested': r.n == a._n, 'every sample is an element': member(old.self, r.x)}


# ------------------------------------------------------------------------------------------------ numeric distributions
class Picked:
    """the choices of numpy.random.choice: c is the one for sample s"""
    __symobj__ = True

    def __init__(self, E, n, c):
        self.E, self.n, self.c = E, n, c

    def __eq__(self, i):
        return Where(self.E, self.n, self.c == i)

    __hash__ = None


class Where:
    """the positions at which the choice is i: one of them is s if `here`"""
    __symobj__ = True

    def __init__(self, E, n, here):
        self.here, self.n = here, E.int('matches')
        E.assume(And(self.n >= 0, self.n <= n, Implies(here, self.n >= 1)))

    def nonzero(self):
        return (self,)

    def __slen__(self):
        return self.n


class Result:
    """the array of samples: what it has at position s"""
    __symobj__ = True
    _restorable = True

    def __init__(self, E, n, v):
        self.E, self.n, self.v, self._serial = E, n, v, next(rt.SERIAL)

    def __setitem__(self, ix, d):
        if not isinstance(ix, Where) or not isinstance(d, Draws):
            raise Undecided('assignment to the samples')
        self.E.require(ix.n == d.n, 'as many samples as positions')
        self.E.touch(self)
        self.v = If(ix.here, d.x, self.v)

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.v = E.real('sample')


class Probs:
    """maximum(l, 0), divided by a positive number"""
    __symobj__ = True

    def __init__(self, E, n, at):
        self.E, self.n, self.at = E, n, at

    def __slen__(self):
        return self.n

    def sum(self):
        E = self.E
        s, k = E.real('total'), E.spec._some()
        E.require(And(within(k, self.n), self.at(k) > 0), 'one part has a positive probability')
        E.assume(s > 0)
        return s

    def __truediv__(self, s):
        self.E.require(s > 0, 'the total is positive')
        at = self.at
        return Probs(self.E, self.n, lambda k: at(k) / s)


class SampleNumpy:
    def __init__(self, raw):
        self._raw, self.random = raw, self

    def __getattr__(self, k):
        return getattr(self._raw, k)

    def full(self, n, v):
        return Result(sym.eng(), n, v)

    def zeros(self, shape):
        return Result(sym.eng(), shape[0], 0)

    def maximum(self, l, z):
        if not isinstance(l, SymL) or z != 0:
            raise Undecided('maximum')
        l = l.clone()
        return Probs(sym.eng(), l.n, lambda k: If(l.at(k) > 0, l.at(k), 0))

    def choice(self, xs, size=None, p=None):
        E = sym.eng()
        n, at = pairs(xs)
        k = E.int('choice')
        E.require(SI(sym.zint(n)) == p.n, 'precondition of choice: one probability per element')
        E.assume(And(within(k, n), p.at(k) > 0))
        return Picked(E, size[0], at(k))

    def where(self, m):
        return (m,)


def draw(self, n=1, result=None):
    """contract of ContinuousSet.sample"""
    E = sym.eng()
    E.require(Not(self.isempty()), 'precondition of sample: the interval is not empty')
    x = E.real('drawn')
    E.assume(inside(self, x))
    return Draws(n, x)


def possible(a, x):
    """there is a positive probability in any neighbourhood of x: it is in a piece that rises or at a jump"""
    return SB(a._pos(sym.zreal(x)))


def known_piece(a, k):
    E, f, x = a._D.E, a._f, a._pt
    k = SI(sym.zint(k))
    f.facts(k)
    E.assume(Implies(And(k >= 1, k < f.n - 1, f.end(k) > f.start(k), x >= f.lo(k), x <= f.lo(k + 1)), possible(a, x)))


def known_jump(a, j):
    f = a._f
    a._D.E.assume(Implies(And(within(j, f.n - 1), Q_.mass(f, j) > 0, x_at(a, f.lo(j + 1))), possible(a, a._pt)))


def x_at(a, x):
    return a._pt == x


def part(a, probs):
    def fact(k, i):
        known_piece(a, k + 1)
        p = probs.at(k)
        if isinf(i.lower) or isinf(i.upper):
            return False
        return And(Not(i.isempty()), Implies(And(p > 0, inside(i, a._pt)), possible(a, a._pt)))
    return fact


def jump_loop(st, L):
    a = L.E.spec
    ps, qs = st.parts, st.interval_probabilities
    return {'a probability for every part': And(ps.n == qs.n, ps.n == a._f.n - 2 + L.k), 'positive parts are possible': Every(ps, part(a, qs)),
            'one is positive if a jump is not': Implies(Or(a._jumpk < 0, L.k > a._jumpk), positive(a, qs))}


def positive(a, qs):
    k = a._some()
    return And(within(k, qs.n), qs.at(k) > 0)


def sample_kinds(l):
    E = sym.eng()
    if E.spec._kind(l) == 'parts':
        return lambda k: piece_class()(E.real('lower'), E.real('upper'), E.int('left'), E.int('right'))
    return lambda k: E.real('probability')


def sample_modifies(st):
    sym.eng().spec._kind = lambda l: 'parts' if l is st.parts else 'probabilities'
    return [st.parts, st.interval_probabilities]


def part_loop(st, L):
    a = L.E.spec
    c, r = st.sample_intervals.c, st.result
    i = st.parts.at(c)
    return {'all samples of the parts so far are in their part': Implies(c < L.k, inside(i, r.v)), 'as many as requested': r.n == a._n}


STUBS[Q_.Q + 'np/sample'] = Wrap(SampleNumpy)


@Q_.qcontract('sample', ('C22',), uses=(Q_.Q + 'np/sample',))
class _:
    lc = {'sample#L1': LC(inv=jump_loop, modifies=sample_modifies, kinds=sample_kinds),
          'sample#L2': LC(inv=part_loop, modifies=lambda st: [st.result])}

    def start(self, E, a):
        f = a._f
        a._D = NS(E=E)
        a._n = E.int('samples')
        E.assume(a._n >= 1)
        a._pos = z3.Function('possible', z3.RealSort(), z3.BoolSort())
        piece_class().sample = draw
        nj, nth = E.int('jumps'), fun(E, 'jump', 'int', 'int')
        E.assume(nj >= 0)

        def jump(k):
            j = nth(k)
            f.facts(j)
            E.assume(Implies(within(k, nj), And(within(j, f.n - 1), Q_.mass(f, j) > 1e-8)))
            known_jump(a, j)
            return f.lo(j + 1), Q_.mass(f, j)
        a._self.jumps = lambda: SymSeq(E, nj, jump)
        # one part has a positive probability
        a._jumpk = E.int('a jump')
        pk = E.int('a piece')
        E.assume(And(a._jumpk >= -1, a._jumpk < nj, pk >= 1))
        E.assume(Implies(And(a._jumpk < 0, f.n > 2), And(pk < f.n - 1, f.end(pk) > f.start(pk))))
        a._some = lambda: If(a._jumpk < 0, pk - 1, f.n - 2 + a._jumpk)
        f.facts(pk)
        f.facts(SI(z3.IntVal(1)))
        known_jump(a, SI(z3.IntVal(0)))

    def call(self, a, fn):
        return fn(a._self, a._n)

    def post(self, a, r, old):
        return {'as many samples as requested': r.n == a._n, 'a sample is possible': Implies(a._pt == r.v, possible(a, a._pt)),
                'the distribution function is unchanged': a._self._cdf is a._f.o}


# ------------------------------------------------------------------------------------------------ leaves and trees
TR = 'jpt.trees:'


class Table(Result):
    """the array of samples of a leaf or tree: what it has in row s, for the variable at position c"""

    def __setitem__(self, ix, d):
        if isinstance(ix, tuple):
            E = self.E
            if len(ix) != 2 or ix[0] != slice(None) or not isinstance(d, Draws):
                raise Undecided('assignment to the samples')
            E.require(d.n == self.n, 'as many samples as rows')
            E.touch(self)
            self.v = If(E.spec._c == ix[1], d.x, self.v)
            return
        Result.__setitem__(self, ix, d)


class TableNumpy(SampleNumpy):
    def empty(self, shape, dtype=None):
        return Table(sym.eng(), shape[0], sym.eng().real('nothing'))

    def array(self, x, dtype=None):
        return Arrays(self._raw).array(x, dtype)

    def choice(self, xs, size=None, p=None):
        E = sym.eng()
        n, at = pairs(xs)
        k = E.int('choice')
        E.require(SI(sym.zint(n)) == p.slen(), 'precondition of choice: one probability per element')
        E.assume(And(within(k, n), p.at(k) > 0))
        E.spec._chosen = k
        return Picked(E, size[0], at(k))


STUBS[TR + 'np/sample'] = Wrap(TableNumpy)


def drawn(E, n, fact):
    x = E.real('drawn')
    E.assume(fact(x))
    return Draws(n, x)


class TableContract:
    mode = 'real'
    concrete = False
    frame = False
    assumes = ('numpy.random.choice chooses elements of positive probability only', 'the distributions and leaves by the contracts of their samples')

    def setup(self, E, a):
        E.spec = a
        a._lists = True
        a._rows = E.int('rows')
        E.assume(a._rows >= 0)
        a._m = E.int('variables')
        E.assume(a._m >= 1)
        a._c = E.int('variable')
        E.assume(within(a._c, a._m))
        a._pos = z3.Function('possible', z3.IntSort(), z3.RealSort(), z3.BoolSort())
        self.start(E, a)

    def items(self, E, n, mk):
        """n keys and their values"""
        key, no = fun(E, 'key', 'int', 'int'), fun(E, 'number', 'int', 'int')

        def at(k):
            E.assume(Implies(within(SI(sym.zint(k)), n), no(key(k)) == k))
            return key(k)
        from engine.seq import SymDict
        return SymDict(E, n, at, mk, lambda v: within(no(v), n), lambda v: mk(no(v)))


@contract(TR + 'Leaf.sample', ('C22',), uses=(TR + 'np/sample',))
class _(TableContract):
    loops = {'Leaf.sample#L1': LC(inv=lambda st, L: {
        'rows': st.result.n == L.E.spec._rows,
        'the samples so far are those of their variables': Implies(L.E.spec._c < L.k, SB(L.E.spec._pos(sym.zint(L.E.spec._c), sym.zreal(st.result.v))))},
        modifies=lambda st: [st.result])}

    def start(self, E, a):
        def dist(k):
            return NS(sample=lambda n: drawn(E, n, lambda x: SB(a._pos(sym.zint(k), x.e))))
        a._leaf = jpt_class(TR + 'Leaf').__new__(jpt_class(TR + 'Leaf'))
        a._leaf.__dict__['distributions'] = self.items(E, a._m, dist)

    def call(self, a, fn):
        return fn(a._leaf, a._rows)

    def post(self, a, r, old):
        return {'as many samples as requested': r.n == a._rows,
                'a sample is possible for the variable': SB(a._pos(sym.zint(a._c), sym.zreal(r.v)))}


@contract(TR + 'JPT.sample', ('C22',), uses=(TR + 'np/sample',))
class _(TableContract):
    loops = {'JPT.sample#L1': LC(inv=lambda st, L: {
        'rows': st.samples.n == L.E.spec._rows,
        'the samples so far are those of their leaves': Implies(L.E.spec._chosen < L.k, L.E.spec._good(L.E.spec._chosen, st.samples.v))},
        modifies=lambda st: [st.samples])}

    def start(self, E, a):
        n = a._n = E.int('leaves')
        E.assume(n >= 1)
        prior = fun(E, 'prior', 'int', 'real')
        a._prior, a._chosen = prior, None
        a._good = lambda k, x: SB(a._pos(sym.zint(k), sym.zreal(x)))

        def leaf(k):
            return NS(prior=prior(k), sample=lambda n: drawn(E, n, lambda x: a._good(k, x)))
        C = jpt_class(TR + 'JPT')
        a._tree = type('Tree', (C,), dict(__init__=lambda s: None, variables=[None] * 3))()
        a._tree.__dict__['leaves'] = self.items(E, n, leaf)

    def call(self, a, fn):
        return fn(a._tree, a._rows)

    def post(self, a, r, old):
        k = a._chosen
        return {'as many samples as requested': r.n == a._rows, 'a sample is one of a leaf of positive prior': And(within(k, a._n), a._prior(k) > 0,
                                                                                                                   a._good(k, r.v))}
