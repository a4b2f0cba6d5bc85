"""Contracts of the discrete distributions (C08, C09, C11, C12) for domains, events and samples of every size, over real
arithmetic.  Both kinds are covered: symbolic (labels are arbitrary distinct symbols) and integer (labels lmin..lmax); value k is
the position of the k-th label."""
import itertools

import z3

from engine import sym
from engine.arr import SymArr, Each, Prefix, fun
from engine.contract import contract, P, NS, STUBS, Value, Wrap, And, Iff, Implies, If, jpt_class
from engine.hlist import LC
from engine.seq import SymSeq, SymSet, SymDict, Sum, Arrays, extreme_at, within, Fn
from engine.sym import SB, SI, SR, Or, Not, PathEnd

from .impurity import inr, G, R

UNI = 'jpt.distributions.univariate.'
KINDS = ('multinomial', 'integer')
CLS = {'multinomial': 'Multinomial', 'integer': 'Integer'}
COUNT = itertools.count()


def ind(c):
    return If(c, 1, 0)


# ------------------------------------------------------------------------------------------------ the domain
def domain(E, kind):
    """a type of distribution over a domain of n values"""
    n = E.int('n')
    E.assume(n >= 1)
    body = {}
    if kind == 'integer':
        lmin = E.int('lmin')
        lab = lambda k: SI(sym.zint(lmin + k))     # noqa
        val = lambda l: SI(sym.zint(l)) - lmin     # noqa
        has = lambda l: inr(SI(sym.zint(l)) - lmin, n)       # noqa
        body = dict(lmin=lmin, lmax=lmin + n - 1, vmin=0, vmax=n - 1)
    else:
        LAB, VAL = fun(E, 'label', 'int', 'int'), fun(E, 'value', 'int', 'int')

        def lab(k):
            l = LAB(k)
            E.assume(Implies(inr(SI(sym.zint(k)), n), VAL(l) == k))
            return l

        def val(l):
            return VAL(l)

        def has(l):
            v = VAL(l)
            return And(inr(v, n), LAB(v) == l)
    ident = lambda k: SI(sym.zint(k))        # noqa
    body['values'] = SymDict(E, n, lab, ident, has, val)
    body['labels'] = SymDict(E, n, ident, lab, lambda v: inr(SI(sym.zint(v)), n), lab)
    base = jpt_class(UNI + kind + ':' + CLS[kind])
    t = type('Domain', (base,), body)
    return NS(n=n, lab=lab, val=val, has=has, type=t, kind=kind)


def dist(E, d, name='p'):
    o = d.type()
    o._params = SymArr(E, name, (d.n,), 'real', (lambda ix, v, rd=None: v >= 0,))
    return o


class FakeInt:
    """int() of a number"""
    def __call__(self, x=0):
        return x.trunc() if getattr(x, '__sym__', False) else int(x)


def tee(x, n=2):
    return (x,) * n if isinstance(x, set) or hasattr(x, '__symobj__') else itertools.tee(x, n)


def normalized(raw, d, **kw):
    """contract of normalized: every value divided by their sum, which must not be zero"""
    E = sym.eng()
    if not isinstance(d, SymSeq) or kw:
        raise sym.Undecided('normalized of %s' % type(d).__name__)
    k = E.int('any')
    if E.choose(2) == 0:
        E.assume(within(k, d.n))
        E.prove(d.at(k) >= 0, 'precondition of normalized: no value is negative')
        raise PathEnd()
    from engine.seq import ssum
    z = ssum(d, 'normalized')
    if z == 0:
        raise ValueError('Not a proper distribution')
    return SymSeq(E, d.n, lambda k: d.at(k) / z)


STUBS[UNI + 'integer:setstr'] = Value(lambda *a, **k: '<text>')
for _k in KINDS:
    _m = UNI + _k
    STUBS[_m + ':np'] = Wrap(Arrays)
    STUBS[_m + ':int'] = Value(FakeInt())
    STUBS[_m + ':tee'] = Value(tee)
    STUBS[_m + ':normalized'] = normalized


class Distribution:
    """setup shared by the contracts: the domain `a._d`, a distribution self, ghost value g"""
    mode = 'real'
    concrete = False
    frame = False

    def setup(self, E, a):
        E.spec = a
        a._sums = {}
        a._d = domain(E, self.kind)
        a._self = dist(E, a._d)
        a._p0 = a._self._params.snapshot()
        E.assume(inr(a.g, a._d.n))
        self.start(E, a)

    def start(self, E, a):
        pass

    def sum(self, a, name, n, term, sort='real'):
        a._sums[name] = Sum(a._D.E, name, n, term, sort)
        return a._sums[name]

    def same(self, a, o=None):
        o = o or a._self
        return {'the original distribution is unchanged': o._params.at(a.g) == a._p0.at(a.g)}


def dcontract(name, props, kinds=KINDS, more=(), **kw):
    """contract for both kinds of distributions"""
    def deco(cls):
        for k in kinds:
            m = UNI + k
            uses = tuple(m + ':' + u for u in more) + tuple(m + ':' + u for u in ('np', 'int', 'tee', 'normalized', 'setstr') if k == 'integer' or u not in ('normalized', 'setstr'))
            body = {n: v for n, v in cls.__dict__.items() if n not in ('__dict__', '__weakref__')}
            body['ghosts'] = dict({'g': G()}, **getattr(cls, 'ghosts', {}))
            body['loops'] = {'%s.%s' % (CLS[k], n): v for n, v in getattr(cls, 'lc', {}).items()}
            c = type(cls.__name__, cls.__bases__ if cls.__bases__ != (object,) else (Distribution,), body)
            c.kind = k
            c.assumes = ('values and labels are inverse maps of a finite domain (type constructors: bounded, C12)',
                         'numpy vector arithmetic, zeros and array act element by element; normalized divides by the sum (bounded, C15)',
                         'a comprehension over a collection of unknown size is the collection of the images of its elements')
            contract('%s:%s.%s' % (m, CLS[k], name), props, uses=uses, mode='real', concrete=False, frame=False, **kw)(c)
        return cls
    return deco


# ------------------------------------------------------------------------------------------------ probability
def event(E, a):
    """a single value or a set of values of the domain"""
    if E.choose(2) == 0:
        v = E.int('event')
        a._ev = v
        E.assume(inr(v, a._d.n))
        return v
    s = SymSet.fresh(E, 'event', lambda v: inr(v, a._d.n))
    a._ev = s
    return s


@dcontract('_p', ('C11', 'C12'))
class _(Distribution):
    def start(self, E, a):
        a._e = event(E, a)
        if isinstance(a._e, SymSet):
            self.sum(a, 'event', a._e.seq.n, lambda i: a._p0.at(a._e.seq.at(i)))

    def call(self, a, fn):
        return fn(a._self, a._e)

    def post(self, a, r, old):
        want = a._sums['event']() if a._sums else a._p0.at(a._e)
        return {'the probability of an event is the sum over its values': r == want, **self.same(a)}


@dcontract('p', ('C11', 'C12'))
class _(Distribution):
    ghosts = dict(l=G())

    def call(self, a, fn):
        return fn(a._self, a.l)

    def raises(self, a, exc, old):
        return Not(a._d.has(a.l)) if isinstance(exc, ValueError) else None

    def post(self, a, r, old):
        return {'the label is one of the domain': a._d.has(a.l),
                'the probability of a label is that of its value': r == a._p0.at(a._d.val(a.l))}


def mk_conversion(name):
    to_label = name == 'value2label'

    @dcontract(name, ('C12', 'C13'))
    class _(Distribution):
        ghosts = dict(x=G(), k=G())

        def start(self, E, a):
            a._x = SymSet.fresh(E, 'given') if E.choose(2) == 0 else a.x
            d = a._d
            a._ok = (lambda v: inr(v, d.n)) if to_label else d.has
            a._to = d.lab if to_label else d.val

        def call(self, a, fn):
            return getattr(a._d.type, name)(a._x)

        def raises(self, a, exc, old):
            if not isinstance(exc, ValueError):
                return None
            if isinstance(a._x, SymSet):
                return Not(a._ok(a._x.seq.at(a._x.seq.witnesses[-1])))
            return Not(a._ok(a._x))

        def post(self, a, r, old):
            if not isinstance(a._x, SymSet):
                return {'it is one of the domain': a._ok(a._x), 'it is converted': r == a._to(a._x)}
            s = a._x.seq
            if not bool(within(a.k, s.n)):
                return {}
            return {'a set is converted element by element': And(r.seq.n == s.n, r.seq.at(a.k) == a._to(s.at(a.k)))}


mk_conversion('value2label')
mk_conversion('label2value')


# ------------------------------------------------------------------------------------------------ changing the parameters
@dcontract('copy', ('C12',))
class _(Distribution):
    def call(self, a, fn):
        return fn(a._self)

    def post(self, a, r, old):
        r._params[a.g] = a._D.E.real('new')
        return {'it has the same type': type(r) is a._d.type, 'changing a copy changes nothing else': a._self._params.at(a.g) == a._p0.at(a.g),
                'it is another object': r is not a._self}


@dcontract('copy', ('C12',), variant='values')
class _(Distribution):
    def call(self, a, fn):
        return fn(a._self)

    def post(self, a, r, old):
        return {'the probabilities are the same': r._params.at(a.g) == a._p0.at(a.g)}


@dcontract('set', ('C12',))
class _(Distribution):
    def start(self, E, a):
        a._m = E.int('m')
        a._new = SymArr(E, 'new', (a._m,))

    def call(self, a, fn):
        return fn(a._self, a._new)

    def raises(self, a, exc, old):
        return a._m != a._d.n if isinstance(exc, ValueError) else None

    def post(self, a, r, old):
        return {'it is the distribution itself': r is a._self, 'one probability per value': a._m == a._d.n,
                'the probabilities are those given': r._params.at(a.g) == a._new.at(a.g)}


@dcontract('create_dirac_impulse', ('C12',), kinds=('multinomial',))
class _(Distribution):
    ghosts = dict(v=G())

    def start(self, E, a):
        E.assume(inr(a.v, a._d.n))

    def call(self, a, fn):
        return fn(a._self, a.v)

    def post(self, a, r, old):
        return {'all of the probability is at the value': r._params.at(a.g) == ind(a.g == a.v), **self.same(a)}


def restriction(E, a):
    if E.choose(2) == 0:
        v = E.int('only')
        a._r = lambda x: x == v         # noqa
        return v
    s = SymSet.fresh(E, 'restriction')
    a._r = s.member
    return s


def cropped(a):
    return lambda k: If(a._r(SI(sym.zint(k))), a._p0.at(k), 0)


CROP = {'_crop#L1': LC(inv=lambda st, L: {'values outside of the restriction': Each(
        st.result._params, lambda ix, v, rd: v == If(And(ix[0] < L.k, Not(L.E.spec._r(ix[0]))), 0, L.E.spec._p0.at(*ix)))},
        modifies=lambda st: [st.result._params])}


@dcontract('_crop', ('C08', 'C12'))
class _(Distribution):
    lc = CROP
    opts = dict(optional_loops=True)

    def start(self, E, a):
        a._rs = restriction(E, a)
        a._Z = self.sum(a, 'mass of the restriction', a._d.n, cropped(a))

    def call(self, a, fn):
        return fn(a._self, a._rs)

    def raises(self, a, exc, old):
        return a._Z() == 0 if type(exc).__name__ == 'Unsatisfiability' else None

    def post(self, a, r, old):
        return {'the restriction is not impossible': a._Z() != 0,
                'probabilities are those within the restriction, divided by their sum':
                    r._params.at(a.g) * a._Z() == cropped(a)(a.g), **self.same(a)}


@dcontract('crop', ('C08', 'C12', 'C13'))
class _(Distribution):
    lc = CROP
    opts = dict(optional_loops=True)

    def start(self, E, a):
        d = a._d
        if self.kind == 'integer' or E.choose(2) == 0:
            l = a._rs = E.int('only')
            a._r, a._bad = (lambda x: d.lab(x) == l), lambda: Not(d.has(l))
        else:
            a._rs = SymSet.fresh(E, 'restriction')
            a._r = lambda x: a._rs.member(d.lab(x))     # noqa
            a._bad = lambda: Not(d.has(a._rs.seq.at(a._rs.seq.witnesses[-1]))) if a._rs.seq.witnesses else False     # noqa
        a._Z = self.sum(a, 'mass of the restriction', a._d.n, cropped(a))

    def call(self, a, fn):
        return fn(a._self, a._rs)

    def raises(self, a, exc, old):
        if type(exc).__name__ == 'Unsatisfiability':
            return a._Z() == 0
        return a._bad() if isinstance(exc, ValueError) else None

    def post(self, a, r, old):
        return {'the restriction is not impossible': a._Z() != 0,
                'probabilities are those of the labels of the restriction, divided by their sum':
                    r._params.at(a.g) * a._Z() == cropped(a)(a.g), **self.same(a)}


@dcontract('update', ('C09', 'C12'))
class _(Distribution):
    def start(self, E, a):
        a._other = dist(E, a._d, 'q')
        a._q0 = a._other._params.snapshot()
        a._none = E.choose(2) == 0
        if a._none:
            a._self._params = None
        a._w = E.real('weight')

    def call(self, a, fn):
        return fn(a._self, a._other, a._w)

    def raises(self, a, exc, old):
        return Or(a._w < 0, a._w > 1) if isinstance(exc, ValueError) else None

    def post(self, a, r, old):
        p = 0 if a._none else a._p0.at(a.g)
        return {'the weight is one': And(a._w >= 0, a._w <= 1), 'it is the distribution itself': r is a._self,
                'the probabilities are the weighted means': r._params.at(a.g) == (1 - a._w) * p + a._w * a._q0.at(a.g),
                'the other distribution is unchanged': a._other._params.at(a.g) == a._q0.at(a.g)}


@dcontract('merge', ('C09', 'C12'))
class _(Distribution):
    lc = {'merge#L1': LC(inv=lambda st, L: {'weighted sum so far': Each(
        st.params, lambda ix, v, rd: v == L.E.spec._mix(ix[0], L.k))}, modifies=lambda st: [st.params],
        fresh={'params': lambda E, v: v})}

    def start(self, E, a):
        m = a._m = E.int('m')
        E.assume(m >= 1)
        a._W = SymArr(E, 'weights', (m,))
        PP = fun(E, 'params', 'int', 'int', 'real')
        memo = {}

        def at(i):
            key = z3.simplify(sym.zint(i)).sexpr()
            if key not in memo:
                o = a._d.type()
                o._params = SymArr(E, 'p', (a._d.n,))
                o._params.content = Fn(lambda ix, i=i: sym.zreal(PP(i, SI(ix[0]))))
                memo[key] = (o, o._params.content)
            return memo[key][0]
        a._memo = memo
        a._ds = SymSeq(E, m, at, 'distributions')
        a._mix = Prefix(E, 'mixture', lambda g, i: a._W.at(i) * PP(i, g), 1)
        a._TW = self.sum(a, 'weights', m, lambda i: a._W.at(i))
        a._TP = self.sum(a, 'mixture', a._d.n, lambda g: a._mix(g, m))

    def call(self, a, fn):
        return fn(a._ds, a._W)

    def raises(self, a, exc, old):
        dev = 1 - a._TW()
        if isinstance(exc, ValueError) and type(exc) is ValueError:
            return Or(dev > 1e-10, dev < -1e-10)
        if type(exc).__name__ == 'Unsatisfiability':
            return And(a._TP() < 1e-10, a._TP() > -1e-10)
        return None

    def post(self, a, r, old):
        return {'it is a distribution over the same domain': type(r) is a._d.type,
                'the probabilities are the weighted sums': r._params.at(a.g) == a._mix(a.g, a._m),
                'the merged distributions are unchanged': all(o._params.content is c for o, c in a._memo.values())}


def two(self, E, a):
    a._other = dist(E, a._d, 'q')
    a._q0 = a._other._params.snapshot()


def weighted_difference(st, L):
    a = L.E.spec
    return {'sum so far': st.result == a._KL(L.k)}


@dcontract('kl_divergence', ('C12',))
class _(Distribution):
    lc = {'kl_divergence#L1': LC(inv=weighted_difference)}
    opts = dict(opaque=True)

    def start(self, E, a):
        two(self, E, a)
        a._KL = self.sum(a, 'divergence', a._d.n, lambda i: a._p0.at(i) * abs(a._p0.at(i) - a._q0.at(i)))

    def call(self, a, fn):
        return fn(a._self, a._other)

    def post(self, a, r, old):
        return {'mean difference of the probabilities, in absolute value': r == a._KL(), **self.same(a)}


def least(x, y):
    return If(x <= y, x, y)


@dcontract('jaccard_similarity', ('C12',))
class _(Distribution):
    def start(self, E, a):
        two(self, E, a)
        a._I = self.sum(a, 'common mass', a._d.n, lambda i: least(a._p0.at(i), a._q0.at(i)))
        a._U = self.sum(a, 'united mass', a._d.n, lambda i: a._p0.at(i) + a._q0.at(i) - least(a._p0.at(i), a._q0.at(i)))
        E.assume(a._U() != 0)

    def call(self, a, fn):
        return fn(a._self, a._other)

    def post(self, a, r, old):
        return {'common mass in relation to the united one': r * a._U() == a._I(), **self.same(a)}


# ------------------------------------------------------------------------------------------------ fitting
def hits(a):
    """number of the first k samples with value g"""
    return Prefix(a._D.E, 'hits', lambda g, i: ind(a._data.at(a._row(i), a._col).trunc() == g), 1, 'int')


def fit_inv(st, L):
    a = L.E.spec
    p = L.E.spec._self._params
    return {'relative frequencies of the samples so far': p.at(a.g) * a._N == a._hits(a.g, L.k)}


@dcontract('_fit', ('C12',))
class _(Distribution):
    lc = {'_fit#L1': LC(inv=fit_inv, modifies=lambda st: [st.self._params])}

    def start(self, E, a):
        d = a._d
        Rr, C = E.int('R'), E.int('C')
        a._data = SymArr(E, 'data', (Rr, C), 'real', (lambda ix, v, rd=None: And(v.trunc() >= 0, v.trunc() < d.n),))
        a._col = E.int('col')
        E.assume(inr(a._col, C))
        if E.choose(2) == 0:
            a._N = E.int('N')
            a._rows = SymArr(E, 'rows', (a._N,), 'int', (lambda ix, v, rd=None: inr(v, Rr),))
            a._row = lambda i: a._rows.at(i)        # noqa
        else:
            a._rows, a._row, a._N = None, (lambda i: SI(sym.zint(i))), Rr
        E.assume(a._N >= 1)
        a._hits = hits(a)

    def call(self, a, fn):
        return fn(a._self, a._data, a._rows, a._col)

    def post(self, a, r, old):
        return {'it is the distribution itself': r is a._self,
                'probabilities are relative frequencies': r._params.at(a.g) * a._N == a._hits(a.g, a._N)}


# ------------------------------------------------------------------------------------------------ modes, moments
@dcontract('_mpe', ('C11', 'C12', 'C14'))
class _(Distribution):
    ghosts = dict(j=G())

    def start(self, E, a):
        E.assume(And(inr(a.j, a._d.n), a._p0.at(a.j) > 0))
        a._extreme = None

    def call(self, a, fn):
        return fn(a._self)

    def post(self, a, r, old):
        E = a._D.E
        extreme_at(E, a.g)
        extreme_at(E, a.j)
        if r is None:
            return {'there is a value with a probability': False}
        state, p = r
        q = state.seq
        k = a._extreme[1]
        return {'the probability is that of a value': And(inr(k, a._d.n), p == a._p0.at(k)),
                'no value is more probable': a._p0.at(a.g) <= p,
                'the state consists of the values with that probability':
                    And(q.n == a._d.n, q.at(a.g) == a.g, Iff(q.cond(a.g), a._p0.at(a.g) == p))}


@dcontract('is_dirac_impulse', ('C12',), kinds=('multinomial',))
class _(Distribution):
    lc = {'is_dirac_impulse#L1': LC(inv=lambda st, L: {'not so far': Implies(
        L.E.spec.g < L.k, L.E.spec._p0.at(L.E.spec.g) != 1)})}

    def call(self, a, fn):
        return fn(a._self)

    def post(self, a, r, old):
        E = a._D.E
        return {'true if a value has probability one': Implies(a._p0.at(a.g) == 1, r)} if r is not True else {}


def mk_moment(name, props, term, label, args=()):
    @dcontract(name, props, kinds=('integer',))
    class _(Distribution):
        lc = {'moment#L1': LC(inv=lambda st, L: {'moment of the values so far': st.result == L.E.spec._T(L.k)})} \
            if name == 'moment' else {}
        opts = dict(opaque=True)

        def start(self, E, a):
            a._args = [x(E) for x in args]
            a._M = self.sum(a, 'mean of the labels', a._d.n, lambda k: a._p0.at(k) * a._d.lab(k))
            a._MV = self.sum(a, 'mean of the values', a._d.n, lambda k: a._p0.at(k) * k)
            a._T = a._sums.get(label) or self.sum(a, label, a._d.n, lambda k: term(a, k))

        def call(self, a, fn):
            return fn(a._self, *a._args)

        def post(self, a, r, old):
            return {'it is the %s' % label: r == a._T(), **self.same(a)}


def sq(x):
    return x * x


M = ('C11', 'C12')
mk_moment('expectation', M, lambda a, k: a._p0.at(k) * a._d.lab(k), 'mean of the labels')
mk_moment('_expectation', M, lambda a, k: a._p0.at(k) * k, 'mean of the values')
mk_moment('variance', M, lambda a, k: sq(a._d.lab(k) - a._M()) * a._p0.at(k), 'variance of the labels')
mk_moment('_variance', M, lambda a, k: sq(k - a._MV()) * a._p0.at(k), 'variance of the values')
for _o in (1, 2, 3):
    mk_moment('moment', M, lambda a, k, o=_o: ((a._d.lab(k) - a._args[1]) ** o) * a._p0.at(k), 'moment of order %d' % _o,
              (lambda E, o=_o: o, lambda E: E.real('center')))
