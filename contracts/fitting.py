"""Contracts of the fitting of distribution functions (C07) over real arithmetic, for any number of samples.

The samples are given as two rows: different values in increasing order and their quantiles.  Looked at are an arbitrary sample and an arbitrary
support point."""
import math

import z3

from engine import sym, rt
from engine.contract import contract, NS, STUBS, Value, Wrap, And, Iff, Implies, If, jpt_class
from engine.hlist import LC
from engine.seq import SymSeq, SymL, Every, within, seqof
from engine.sym import SB, SI, SR, Or, Not, Undecided, PathEnd
from contracts.posterior import fun
from contracts.trees import Abs

CR = 'jpt.distributions.quantile.cdfreg:CDFRegressor'


class Rows(Abs):
    """two rows of n numbers, both increasing"""
    def __init__(self, E):
        self.E, self.n = E, E.int('samples')
        self.x, self.y = fun(E, 'x', 'int', 'real'), fun(E, 'y', 'int', 'real')
        self.seen = []
        E.assume(self.n >= 1)
        self.shape = (2, self.n)

    def see(self, k):
        k = SI(sym.zint(k))
        if any(k.e.eq(j.e) for j in self.seen):
            return k
        for j in self.seen:
            self.E.assume(Implies(And(within(j, self.n), within(k, self.n)), And(
                Implies(j < k, And(self.x(j) < self.x(k), self.y(j) < self.y(k))), Implies(k < j, And(self.x(k) < self.x(j), self.y(k) < self.y(j))))))
        self.seen = self.seen + [k]
        return k

    def __getitem__(self, ix):
        r, k = ix
        if not isinstance(r, int) or isinstance(k, slice):
            raise Undecided('rows')
        self.E.require(within(k, self.n), 'an index within the array')
        k = self.see(k)
        return self.y(k) if r else self.x(k)


class Pushed(Abs):
    """what is added"""
    def __init__(self):
        self.l = []

    def push(self, x):
        self.l.append(x)

    push_back = push


def best(st, L):
    a, s = L.E.spec, st.best_split
    return {'the split lies in the range': Or(s == -1, And(s > a._start, s < a._start + 1 + L.k)),
            'there is a split if there is no error to compare to': Implies(a._mse < 0, If(L.k == 0, st.mse_min == a._mse, s != -1))}


@contract(CR + '._forward', ('C07',))
class _:
    mode = 'real'
    concrete = False
    frame = False
    opts = dict(opaque=True)
    loops = {'CDFRegressor._forward#L1': LC(inv=lambda st, L: {}, fresh={n: (lambda E, v, n=n: E.real(n)) for n in (
                 'sum_x_sq_right', 'sum_y_sq_right', 'sum_xy_right')}, local=('x', 'y')),
             'CDFRegressor._forward#L2': LC(inv=best, fresh=dict({n: (lambda E, v, n=n: E.real(n)) for n in (
                 'sum_x_sq_right', 'sum_y_sq_right', 'sum_xy_right', 'sum_x_sq_left', 'sum_y_sq_left', 'sum_xy_left', 'mse_min', 'best_mse1', 'best_mse2')},
                 best_split=lambda E, v: E.int('best_split')),
                 local=('xl', 'yl', 'xr', 'yr', 'm1', 'm2', 'samples_left', 'samples_right', 'err_left', 'err_right', 'mse_'))}

    def setup(self, E, a):
        E.spec = a
        a._E, a._data = E, Rows(E)
        a._start, a._end, a._mse, a._depth, a._eps, a._max = E.int('start'), E.int('end'), E.real('mse'), E.int('depth'), E.real('eps'), E.int('max_splits')
        E.assume(And(a._start >= 0, a._start < a._end, a._end < a._data.n))
        a._data.see(a._start)
        a._data.see(a._end)
        C = jpt_class(CR)
        a._points, a._queue = Pushed(), Pushed()
        a._self = C.__new__(C)
        a._self.__dict__.update(data=a._data, eps=a._eps, max_splits=a._max, _points=a._points, _queue=a._queue)

    def call(self, a, fn):
        return fn(a._self, a._start, a._end, a._mse, a._depth)

    def post(self, a, r, old):
        p, q = a._points.l, a._queue.l
        stop = Or(a._end - a._start < 2, And(a._max > 0, a._depth >= a._max))
        res = {'at most one point is added': len(p) <= 1 and len(q) <= 2 * len(p),
               'short ranges and those of maximal depth are left': Implies(stop, len(p) == 0),
               'without an error to compare to, a point is added': Implies(And(Not(stop), a._mse < 0), len(p) == 1)}
        full = And(a._eps <= 0, a._mse < 0, Not(stop))
        res['without tolerance, both parts are divided further'] = Implies(full, And(len(q) == 2, *[e[2] < 0 for e in q]))
        if len(p) == 1:
            s = p[0]
            res['the point lies in the range'] = And(s > a._start, s < a._end)
            left = [And(e[0] == a._start, e[1] == s) for e in q]
            right = [And(e[0] == s, e[1] == a._end) for e in q]
            res['the ranges to be divided are those on both sides of the point'] = And(
                *[Or(x, y) for x, y in zip(left, right)], True if len(q) < 2 else Or(And(left[0], right[1]), And(left[1], right[0])))
            res['one level below'] = And(True, *[e[3] == a._depth + 1 for e in q])
        return res


class Bag(Abs):
    """the points: how often g"""
    _restorable = True

    def __init__(self):
        self._serial = next(rt.SERIAL)
        self.g, self.ends = SI(z3.IntVal(0)), True

    def push(self, i):
        E, a = sym.eng(), sym.eng().spec
        E.require(within(i, a._data.n), 'a point is the index of a sample')
        E.touch(self)
        self.g = self.g + If(i == a._g, 1, 0)

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.g = E.int('occurrences')
        E.assume(self.g >= 0)


class Ranges(Abs):
    """the ranges to be divided: how many, and how many have g in between"""
    _restorable = True

    def __init__(self):
        self._serial = next(rt.SERIAL)
        self.n, self.g, self.left, self.first = SI(z3.IntVal(0)), SI(z3.IntVal(0)), SI(z3.IntVal(0)), None

    def inside(self, s, e):
        g = sym.eng().spec._g
        return If(And(s < g, g < e), 1, 0)

    def push_back(self, r):
        E, a = sym.eng(), sym.eng().spec
        s, e, mse, depth = r
        E.require(And(s >= 0, s < e, e < a._data.n), 'a range of samples')
        E.require(Implies(a._eps <= 0, mse < 0), 'without tolerance there is no error to compare to')
        E.touch(self)
        self.n, self.g, self.left = self.n + 1, self.g + self.inside(s, e), self.left + 2 * (e - s) - 1

    def front(self):
        E, a = sym.eng(), sym.eng().spec
        E.touch(self)
        E.require(self.n > 0, 'there is a range')
        s, e, mse, depth = self.first = E.int('start'), E.int('end'), E.real('mse'), E.int('depth')
        E.assume(And(s >= 0, s < e, e < a._data.n, Implies(a._eps <= 0, mse < 0), self.g >= self.inside(s, e), self.g - self.inside(s, e) <= self.n - 1,
                     self.left - 2 * (e - s) + 1 >= self.n - 1))
        return self.first

    def pop_front(self):
        E = sym.eng()
        if self.first is None:
            self.front()
        s, e = self.first[:2]
        E.touch(self)
        self.n, self.g, self.left, self.first = self.n - 1, self.g - self.inside(s, e), self.left - 2 * (e - s) + 1, None

    def size(self):
        return self.n

    def empty(self):
        return self.n == 0

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.n, self.g, self.left, self.first = E.int('ranges'), E.int('ranges with g'), E.int('steps'), None
        E.assume(And(self.n >= 0, self.g >= 0, self.g <= self.n, self.left >= self.n))


def stub_forward(raw, self, start, end, mse, depth):
    E, a = sym.eng(), sym.eng().spec
    stop = Or(end - start < 2, And(a._max > 0, depth >= a._max))
    if bool(stop) or not bool(Or(mse < 0, E.bool('better'))):
        return
    s = E.int('split')
    E.assume(And(s > start, s < end))
    self._points.push(s)
    for lo, hi in ((start, s), (s, end)):
        if bool(Or(And(a._eps <= 0, mse < 0), E.bool('divide further'))):
            m = E.real('mse')
            E.assume(Implies(a._eps <= 0, m < 0))
            self._queue.push_back((lo, hi, m, depth + 1))


STUBS[CR + '._forward'] = stub_forward


def divided(st, L):
    a, p, q = L.E.spec, st.self._points, st.self._queue
    inner = And(a._g > 0, a._g < a._data.n - 1)
    return {'a point is added once': And(p.g + q.g <= 1, Implies(Not(inner), p.g == 1)),
            'without tolerance, all points are or will be added': Implies(And(a._eps <= 0, a._max <= 0), p.g + q.g == 1)}


@contract(CR + '.fit', ('C07',), uses=(CR + '._forward',))
class _:
    mode = 'real'
    concrete = False
    frame = False
    assumes = ('contract of CDFRegressor._forward',)
    loops = {'CDFRegressor.fit#L1': LC(inv=divided, modifies=lambda st: [st.self._points, st.self._queue], local=('args',),
                                       decreases=lambda st: st.self._queue.left)}

    def setup(self, E, a):
        E.spec = a
        a._E, a._data, a._g, a._eps, a._max = E, Rows(E), E.int('g'), E.real('eps'), E.int('max_splits')
        E.assume(And(a._data.n >= 2, within(a._g, a._data.n)))
        C = jpt_class(CR)
        a._calls = []
        a._self = type('R', (C,), dict(_backward=lambda s: a._calls.append((s._points.g, s._queue.n))))()
        a._self.__dict__.update(eps=a._eps, max_splits=a._max, data=None, _points=Bag(), _queue=Ranges())

    def call(self, a, fn):
        return fn(a._self, a._data)

    def post(self, a, r, old):
        if len(a._calls) != 1:
            return {'the points are selected once': False}
        g, n = a._calls[0]
        return {'of these data': a._self.data is a._data, 'no range is left': n == 0, 'no point is added twice': g <= 1,
                'the first and the last sample are points': Implies(Or(a._g == 0, a._g == a._data.n - 1), g == 1),
                'without tolerance, all samples are points': Implies(And(a._eps <= 0, a._max <= 0), g == 1)}


class Heap(Abs):
    """the points, different ones: those of rank less than s are left"""
    _restorable = True

    def __init__(self, E, data):
        self._serial = next(rt.SERIAL)
        self.E, self.data, self.m, self.p, self.ranks = E, data, E.int('points'), fun(E, 'point', 'int', 'int'), []
        self.s = self.m

    def at(self, k):
        k, E = SI(sym.zint(k)), self.E
        if not any(k.e.eq(j.e) for j in self.ranks):
            ok = lambda i: within(i, self.m)            # noqa
            E.assume(Implies(ok(k), within(self.p(k), self.data.n)))
            for j in self.ranks:
                E.assume(Implies(And(ok(j), ok(k)), And(Implies(j < k, self.p(j) < self.p(k)), Implies(k < j, self.p(k) < self.p(j)))))
            self.ranks = self.ranks + [k]
        return self.p(k)

    def top(self):
        self.E.require(self.s >= 1, 'there is a point')
        return self.at(self.s - 1)

    def pop(self):
        self.E.require(self.s >= 1, 'there is a point')
        self.E.touch(self)
        self.s = self.s - 1

    def size(self):
        return self.s

    def empty(self):
        return self.s == 0

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.s = E.int('points left')
        E.assume(And(self.s >= 0, self.s <= self.m))


class Deque(Abs):
    """the points selected: the first of them, and is the point of rank g one of them"""
    _restorable = True

    def __init__(self):
        self._serial = next(rt.SERIAL)
        self.first, self.last, self.has = None, None, SB(z3.BoolVal(False))

    def push_back(self, v):
        if self.first is not None:
            raise Undecided('push_back')
        self.push_front(v)

    def push_front(self, v):
        E, a = sym.eng(), sym.eng().spec
        E.touch(self)
        h = a._heap
        E.require(Or(And(h.s < h.m, v == h.at(h.s)), And(h.s >= 1, v == h.at(h.s - 1))), 'one of the points')
        if self.first is None:
            self.last = v
        else:
            E.require(v < self.first, 'in increasing order')
        self.first, self.has = v, Or(self.has, v == h.at(a._g))

    def front(self):
        if self.first is None:
            raise Undecided('front')
        return self.first

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.first, self.has = E.int('first'), E.bool('has')


def backward(st, L):
    a, h, d = L.E.spec, st.self._points, st.self.points
    t = h.at(h.s - 1)
    return {'points are left': And(h.s >= 1, h.s < h.m), 'the first point selected': And(d.first > t, d.first < a._data.n, st.pos >= t, st.pos <= d.first),
            'the last point': Implies(a._g == h.m - 1, d.has), 'those selected': Implies(d.has, a._g >= h.s),
            'all, without tolerance': Implies(And(a._eps <= 0, a._g >= h.s), d.has)}


def back(st, L):
    h = st.self._points
    return {'position': And(st.pos <= st.start, st.pos >= h.at(h.s - 1) - 1), 'error': st.err >= 0}


@contract(CR + '._backward', ('C07',))
class _:
    mode = 'real'
    concrete = False
    frame = False
    loops = {'CDFRegressor._backward#L1': LC(inv=backward, modifies=lambda st: [st.self._points, st.self.points],
                                             local=('rx', 'ry', 'p', 'lx', 'ly', 'm', 'c', 'start', 'err'), decreases=lambda st: st.self._points.s),
             'CDFRegressor._backward#L2': LC(inv=back, decreases=lambda st: st.pos + 1)}

    def setup(self, E, a):
        E.spec = a
        a._E, a._data, a._eps, a._g = E, Rows(E), E.real('eps'), E.int('g')
        h = a._heap = Heap(E, a._data)
        E.assume(And(a._data.n >= 2, h.m >= 2, within(a._g, h.m), h.at(0) == 0, h.at(h.m - 1) == a._data.n - 1))
        h.at(a._g)
        C = jpt_class(CR)
        a._self = C.__new__(C)
        a._self.__dict__.update(data=a._data, eps=a._eps, _points=h, points=Deque())

    def call(self, a, fn):
        return fn(a._self)

    def post(self, a, r, old):
        d, h = a._self.points, a._heap
        return {'from the first sample': d.first == 0, 'to the last one': d.last == a._data.n - 1, 'without tolerance, all points': Implies(a._eps <= 0, d.has),
                'both ends': Implies(Or(a._g == 0, a._g == h.m - 1), d.has)}


# ------------------------------------------------------------------------------------------------ the distribution function
Q = 'jpt.distributions.quantile.quantiles:'


class Buf(Abs):
    """two rows of numbers; the facts hold for all positions"""
    _restorable = True

    def __init__(self, n):
        E = sym.eng()
        self._serial = next(rt.SERIAL)
        self.E, self.n, self.shape, self.facts, self.known, self.row = E, n, (2, n), [], [], None
        self.row = [self.new(), self.new()]
        E.spec._buf = self
        for k in (E.spec._any, E.spec._any2):
            self.see(k)

    def new(self):
        return z3.Array('row_%d' % next(rt.SERIAL), z3.IntSort(), z3.RealSort())

    def get(self, r, k):
        return SR(z3.Select(self.row[r], sym.zint(k)))

    def see(self, k):
        k = self.E.spec._sorted.see(SI(sym.zint(k)))
        if not any(k.e.eq(j.e) for j in self.known):
            self.known = self.known + [k]
            for f in self.facts:
                self.E.assume(Implies(within(k, self.n), f(k)))
        return k

    def fact(self, f):
        self.facts = self.facts + [f]
        for k in self.known:
            self.E.assume(Implies(within(k, self.n), f(k)))

    def snap(self):
        rows = list(self.row)
        return lambda r, k: SR(z3.Select(rows[r], sym.zint(k)))

    def __getitem__(self, ix):
        r, k = ix
        if isinstance(r, slice):
            if r != slice(None) or not isinstance(k, slice) or k.start is not None or k.step is not None:
                raise Undecided('slice')
            return Final(self, k.stop)
        if isinstance(k, slice):
            if k != slice(None) or r != 0:
                raise Undecided('slice')
            return First(self)
        if self.E.spec._mode == 'pieces':
            return Quot(self.E.real('entry').e)
        self.E.require(within(k, self.n), 'an index within the array')
        v = self.get(r, self.see(k))
        return Quot(v.e) if r == 1 else v

    def __setitem__(self, ix, v):
        r, k = ix
        self.E.touch(self)
        if self.E.spec._mode == 'pieces':
            return
        self.E.require(within(k, self.n), 'an index within the array')
        self.row = list(self.row)
        self.row[r] = z3.Store(self.row[r], sym.zint(self.see(k)), sym.zreal(v))

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.row = [self.new() if r in kind else x for r, x in enumerate(self.row)]


class Quot(SR):
    """a number that may be divided by the number of samples less one: see Sorted.frac; by zero, the result is not known"""
    def __truediv__(self, o):
        E, s = sym.eng(), sym.eng().spec._sorted
        if not bool(o == s.n - 1):
            return SR.__truediv__(self, o)
        return s.frac(SR(self.e))

    def __sub__(self, o):
        return Quot(SR.__sub__(self, o).e)


class First(Abs):
    """the first row"""
    def __init__(self, buf):
        self.buf = buf

    def sort(self):
        E, b, a = sym.eng(), self.buf, sym.eng().spec
        if a._mode == 'pieces':
            return
        E.require(Implies(within(a._any, b.n), b.get(0, a._any) == a._value(a._any)), 'the samples and nothing else are sorted')
        if a._mode == 'samples':
            raise PathEnd()
        E.touch(b)
        b.row = [b.new(), b.row[1]]
        g, s = b.snap(), a._sorted
        b.fact(lambda k: g(0, k) == s.S(k))


class Sorted:
    """the samples in order; cls(k) is the number of different smaller ones, last(c) the last sample of class c"""
    def __init__(self, E, n):
        self.E, self.n, self.known, self.classes = E, n, [], []
        self.S, self.cls, self.last_ = fun(E, 'sorted', 'int', 'real'), fun(E, 'class', 'int', 'int'), fun(E, 'last of class', 'int', 'int')
        self.q, self.args = fun_rr(E, 'quotient'), []
        E.assume(Implies(n > 1, And(self.frac(0) == 0, self.frac(n - 1) == 1)))
        self.see(SI(z3.IntVal(0)))
        self.see(n - 1)
        self.last(self.count() - 1)

    def frac(self, v):
        """v / (n - 1)"""
        E, n, q = self.E, self.n, self.q
        v = SR(sym.zreal(v))
        if not any(v.e.eq(w.e) for w in self.args):
            for w in self.args:
                E.assume(Implies(n > 1, And(Implies(v < w, q(v) < q(w)), Implies(w < v, q(w) < q(v)), Implies(v == w, q(v) == q(w)))))
            self.args.append(v)
        return q(v)

    def count(self):
        return self.cls(self.n - 1) + 1

    def see(self, k):
        E, n, S, c = self.E, self.n, self.S, self.cls
        if any(k.e.eq(j.e) for j in self.known):
            return k
        ok = lambda j: within(j, n)             # noqa
        E.assume(Implies(ok(k), And(c(k) >= 0, c(k) <= k, c(k) <= c(n - 1))))
        E.assume(c(0) == 0)
        E.assume(Implies(And(ok(k), ok(k + 1)), And(S(k) <= S(k + 1), c(k + 1) == c(k) + If(S(k) == S(k + 1), 0, 1))))
        E.assume(Implies(And(ok(k), ok(k - 1)), And(S(k - 1) <= S(k), c(k) == c(k - 1) + If(S(k) == S(k - 1), 0, 1))))
        for j in self.known:
            E.assume(Implies(And(ok(j), ok(k)), And(Implies(j <= k, S(j) <= S(k)), Implies(k <= j, S(k) <= S(j)), Iff(c(j) < c(k), S(j) < S(k)),
                                                    Iff(c(k) < c(j), S(k) < S(j)))))
        self.known.append(k)
        return k

    def last(self, c):
        E, n = self.E, self.n
        c = SI(sym.zint(c))
        k = self.last_(c)
        if any(c.e.eq(d.e) for d in self.classes):
            return k
        m = self.count()
        E.assume(Implies(within(c, m), And(within(k, n), self.cls(k) == c, Or(k == n - 1, self.S(k) != self.S(k + 1)))))
        E.assume(self.last_(m - 1) == n - 1)
        self.see(k)
        for d in self.classes:
            j = self.last_(d)
            E.assume(Implies(And(within(c, m), within(d, m)), And(Implies(c < d, k < j), Implies(d < c, j < k))))
        self.classes.append(c)
        return k


class OfAll:
    """invariant: fact of every position"""
    def __init__(self, b, fact):
        self.b, self.fact = b, fact

    def goal(self, E):
        k = E.spec._any
        return Implies(within(k, self.b.n), self.fact(k))

    def assume_in(self, E):
        self.b.fact(self.fact)


class Final(Abs):
    """the different samples and their quantiles"""
    def __init__(self, buf, n):
        E, a = sym.eng(), sym.eng().spec
        s = a._sorted
        if a._mode == 'data':
            c = a._any
            k = buf.see(s.last(c))
            E.prove(n == s.count(), 'the number of different samples')
            E.prove(Implies(within(c, n), buf.get(0, c) == s.S(k)), 'the different samples')
            E.prove(Implies(And(within(c, n), n > 1), buf.get(1, c) == s.frac(k)), 'their quantiles')
            raise PathEnd()
        E.assume(n == s.count())
        self.n, self.shape = n, (2, n)

    def point(self, c):
        """as proved in the variant "data\""""
        s = sym.eng().spec._sorted
        k = s.last(c)
        return s.S(k), s.frac(k)

    def __getitem__(self, ix):
        r, k = ix
        if isinstance(k, slice) and k == slice(None) and isinstance(r, int):
            return FinalRow(self, r)
        raise Undecided('data')


class FinalRow(Abs):
    def __init__(self, f, r):
        self.f, self.r = f, r

    def __getitem__(self, k):
        sym.eng().require(within(k, self.f.n), 'an index within the array')
        return self.f.point(k)[self.r]


class NaN:
    """no number"""


class NPF(Abs):
    NINF, PINF, float64, int64, nan, inf = -math.inf, math.inf, 'float64', 'int64', math.nan, math.inf

    def __init__(self, raw):
        pass

    def ndarray(self, shape=None, dtype=None, order=None):
        if shape[0] != 2:
            raise Undecided('shape')
        a = sym.eng().spec
        sym.eng().require(shape[1] == a._n, 'room for all samples')
        return Buf(a._n)

    def arange(self, n, dtype=None):
        return Index(n, lambda k: k)

    def asarray(self, x, **k):
        return x

    ascontiguousarray = array = asarray

    def nextafter(self, x, y):
        if y != math.inf:
            raise Undecided('nextafter')
        n = sym.eng().spec._next
        sym.eng().assume(n(x) > x)
        return n(x)


def fun_rr(E, name):
    f = z3.Function(name, z3.RealSort(), z3.RealSort())
    return lambda x: SR(f(sym.zreal(x)))


class Index(Abs):
    """rows: numbers of rows of the data"""
    def __init__(self, n, at):
        self.n, self.at, self.shape = n, at, (n,)

    def __getitem__(self, k):
        E, a = sym.eng(), sym.eng().spec
        E.require(within(k, self.n), 'an index within the array')
        v = self.at(k)
        E.assume(within(v, a._N))
        return v


class Matrix(Abs):
    def __init__(self, a):
        self.a, self.shape = a, (a._N, a._M)

    def __getitem__(self, ix):
        a = self.a
        a._E.require(And(within(ix[0], a._N), within(ix[1], a._M)), 'an index within the data')
        return If(ix[1] == a._col, a._D(ix[0]), a._other(ix[0], ix[1]))


class Regressor(Abs):
    """a fresh regressor; its points are indices p(0) = 0 < ... < p(m - 1), the last of them that of the last sample"""
    def __init__(self, eps=None, max_splits=None):
        if max_splits is not None:
            raise Undecided('depth')
        self.eps, self.data = eps, None

    def fit(self, d):
        E, a = sym.eng(), sym.eng().spec
        if not isinstance(d, Final) or self.data is not None:
            raise Undecided('data of the regressor')
        c, e = a._any, a._any2
        (x, y), (u, v) = d.point(c), d.point(e)
        E.require(Implies(And(c >= 0, c < e, e < d.n), And(x < u, y < v)), 'precondition of the regressor: both rows increase')
        E.require(d.n >= 2, 'precondition of the regressor: two samples')
        self.data = d
        a._regressor = self
        self.m, self.p, self.ranks = E.int('points'), fun(E, 'p', 'int', 'int'), []
        E.assume(And(self.m >= 2, self.p(0) == 0, self.p(self.m - 1) == d.n - 1, Implies(self.eps == 0, self.m == d.n)))
        self.pt(SI(z3.IntVal(0)))
        self.pt(self.m - 1)

    def pt(self, k):
        E, d, p, m = sym.eng(), self.data, self.p, self.m
        k = SI(sym.zint(k))
        if not any(k.e.eq(j.e) for j in self.ranks):
            ok = lambda i: within(i, m)         # noqa
            E.assume(Implies(ok(k), And(within(p(k), d.n), Implies(self.eps == 0, p(k) == k))))
            x = d.point(p(k))
            for j in self.ranks:
                E.assume(Implies(And(ok(j), ok(k)), And(Implies(j < k, p(j) < p(k)), Implies(k < j, p(k) < p(j)))))
            self.ranks.append(k)
        return d.point(p(k))

    @property
    def support_points(self):
        if self.data is None:
            raise Undecided('points')
        return SymSeq(sym.eng(), self.m, self.pt, 'points')


def stub_pairs(raw, seq):
    n, at = seqof(seq)
    return SymSeq(sym.eng(), n - 1, lambda k: (at(k), at(k + 1)))


class Iv(Abs):
    """interval"""
    _restorable = True

    def __init__(self, lower, upper, left=1, right=1):
        self.__dict__.update(_serial=next(rt.SERIAL), lower=lower, upper=upper, left=left, right=right)

    def __setattr__(self, k, v):
        sym.eng().touch(self)
        self.__dict__[k] = v


class Const(Abs):
    def __init__(self, v):
        self.v = v


class Line(Abs):
    """linear function through two points"""
    def __init__(self, l, r):
        self.l, self.r = l, r

    @staticmethod
    def from_points(l, r):
        sym.eng().require(l[0] != r[0], 'precondition of from_points: two points')
        return Line(l, r)


def isv(v, w):
    """equal, perhaps infinite"""
    if isinstance(v, float) or isinstance(w, float):
        return type(v) is type(w) and v == w
    return v == w


for _n, _v in (('np', Wrap(NPF)), ('isnan', Value(lambda x: x is NaN or isinstance(x, float) and x != x)), ('CDFRegressor', Value(Regressor)), ('pairwise', stub_pairs),
               ('PiecewiseFunction', Value(lambda: NS(functions=SymL.of(sym.eng(), []), intervals=SymL.of(sym.eng(), [])))), ('ContinuousSet', Value(Iv)),
               ('ConstantFunction', Value(Const)), ('LinearFunction', Value(Line))):
    STUBS[Q + _n + '/f'] = _v


def copied(st, L):
    a, b = L.E.spec, st.data_buffer
    if a._mode == 'pieces':
        return {}
    g, o = b.snap(), a._off
    return {'samples so far': OfAll(b, lambda k: Implies(Or(And(k >= o, k < o + L.k), And(k == 0, o == 1)), g(0, k) == a._value(k)))}


def merged(st, L):
    a, b = L.E.spec, st.data_buffer
    if a._mode == 'pieces':
        return {}
    s, g, k = a._sorted, b.snap(), L.k
    for j in (k, k - 1):
        b.see(SI(sym.zint(j)))
    return {'different samples so far': st.count == If(k == 0, 0, s.cls(k - 1) + 1), 'samples to come': OfAll(b, lambda j: Implies(j >= k - 1, g(0, j) == s.S(j))),
            'every sample so far is there': OfAll(b, lambda j: Implies(j < k, g(0, s.cls(j)) == s.S(j))),
            'with the number of samples that are not larger': OfAll(b, lambda j: Implies(And(j < k, Or(j == k - 1, s.S(j) != s.S(j + 1))), g(1, s.cls(j)) == j + 1))}


def scaled(st, L):
    a, b = L.E.spec, st.data_buffer
    if a._mode == 'pieces':
        return {}
    s, g, k = a._sorted, b.snap(), L.k
    b.see(s.last(SI(sym.zint(k))))
    b.see(s.last(a._any))

    def fact(c):
        z = s.last_(c)
        return Implies(c < s.count(), If(c < k, g(1, c) == s.frac(z), g(1, c) == z + 1))
    return {'number of different samples': st.count == s.count(), 'quantiles so far': OfAll(b, fact)}


def built(st, L):
    a = L.E.spec
    r, F, I = a._regressor, st.self._cdf.functions, st.self._cdf.intervals
    k = SI(sym.zint(L.k))
    r.pt(k)

    def iv(i, e):
        if bool(i == 0):
            return And(isv(e.lower, -math.inf), e.left == 2, e.right == 2, isv(e.upper, math.inf) if bool(k == 0) else isv(e.upper, r.pt(0)[0]))
        return And(isv(e.lower, r.pt(i - 1)[0]), isv(e.upper, r.pt(i)[0]), e.left == 1, e.right == 2)

    def fn(i, f):
        if bool(i == 0):
            return isinstance(f, Const) and f.v == 0
        (x, y), (u, v) = r.pt(i - 1), r.pt(i)
        return isinstance(f, Line) and And(f.l[0] == x, f.l[1] == y, f.r[0] == u, f.r[1] == v)
    return {'a function and an interval for every pair': And(F.n == k + 1, I.n == k + 1), 'the intervals so far': Every(I, iv), 'the functions so far': Every(F, fn)}


def kinds(l):
    E = sym.eng()
    if l is E.spec._parts[0]:
        return lambda k: Const(E.real('constant')) if bool(k == 0) else Line((E.real('x'), E.real('y')), (E.real('u'), E.real('v')))

    def iv(k):
        if bool(k == 0):
            return Iv(-math.inf, E.real('upper') if E.choose(2) == 0 else math.inf, 2, 2)
        return Iv(E.real('lower'), E.real('upper'), E.int('left'), E.int('right'))
    return iv


def parts(st):
    c = st.self._cdf
    sym.eng().spec._parts = c.functions, c.intervals
    return [c.functions, c.intervals]


FIT_USES = tuple(Q + n + '/f' for n in ('np', 'isnan', 'CDFRegressor', 'pairwise', 'PiecewiseFunction', 'ContinuousSet',
                 'ConstantFunction', 'LinearFunction'))


class Fit:
    mode = 'real'
    concrete = False
    frame = False
    opts = dict(deadline=300, optional_loops=True)
    assumes = ('contracts of CDFRegressor.fit and _backward: the points are samples in increasing order, the first and the last among them, all without tolerance',
               'contract of LinearFunction.from_points (C05)', 'numpy sorts; facts on sorted sequences: the number of different smaller elements grows by one '
               'where neighbours differ', 'real arithmetic')
    F = 'QuantileDistribution.fit#L'
    loops = {F + '1': LC(inv=copied, modifies=lambda st: [(st.data_buffer, (0,))]),
             F + '2': LC(inv=merged, modifies=lambda st: [(st.data_buffer, (0, 1))], fresh={'count': lambda E, v: E.int('count')}),
             F + '3': LC(inv=scaled, modifies=lambda st: [(st.data_buffer, (1,))]),
             F + '4': LC(inv=built, modifies=parts, kinds=kinds, local=('left', 'right'))}

    def setup(self, E, a):
        E.spec = a
        a._E, a._N, a._M, a._R, a._col, a._any, a._any2 = E, E.int('N'), E.int('M'), E.int('rows'), E.int('col'), E.int('any'), E.int('any2')
        a._D, a._other, a._next = fun(E, 'datum', 'int', 'real'), fun(E, 'other', 'int', 'int', 'real'), fun_rr(E, 'next')
        row = fun(E, 'row', 'int', 'int')
        case = self.case(E)
        given, left, right = case
        E.assume(And(within(a._col, a._M), a._N >= 1, a._R >= 1, True if given else a._R == a._N))
        a._rows = Index(a._R, row) if given else None
        a._left, a._right = E.real('leftmost') if left else None, E.real('rightmost') if right else None
        o = a._off = 0 if a._left is None else 1
        n = a._n = a._R + o + (0 if a._right is None else 1)
        at = (lambda k: a._D(row(k))) if given else a._D

        def value(k):
            v = at(k - o)
            if o:
                v = If(k == 0, a._left, v)
            return v if a._right is None else If(k == n - 1, a._right, v)
        a._value, a._sorted, a._regressor = value, Sorted(E, SI(sym.zint(n))), None
        a._sorted.last(a._any)
        a._eps, a._mode = E.real('epsilon'), self.proves
        C = jpt_class(Q + 'QuantileDistribution')
        a._self = type('D', (C,), dict(_assert_consistency=lambda s: None, epsilon=a._eps))
        a._self = C.__new__(a._self)
        a._self.__dict__.update(_cdf='old', _pdf='old', _ppf='old')

    def call(self, a, fn):
        nan = float('nan')
        return fn(a._self, Matrix(a), a._rows, a._col, nan if a._left is None else a._left, nan if a._right is None else a._right)

    def raises(self, a, exc, old):
        return a._left is not None or a._right is not None if isinstance(exc, AssertionError) else None

    def post(self, a, r, old):
        E, o, s = a._E, a._self, a._sorted
        F, I, g, k = o._cdf.functions, o._cdf.intervals, a._regressor, a._any
        out = {'the distribution itself': r is o, 'nothing is left of an earlier one': o._ppf is None and o._pdf is None}
        if g is None:
            if not (isinstance(F.n, int) and F.n == 2 and I.n == 2):
                return {**out, 'one step': False}
            i, j = I.at(0), I.at(1)
            return {**out, 'there is only one value': s.count() == 1, 'one step': And(isinstance(F.at(0), Const) and F.at(0).v == 0, isinstance(F.at(1), Const) and F.at(1).v == 1,
                    isv(i.lower, -math.inf), isv(i.upper, s.S(0)), i.right == 2, isv(j.lower, s.S(0)), j.left == 1, isv(j.upper, math.inf))}
        m = g.m
        out['as many pieces as points, and one more'] = And(F.n == m + 1, I.n == m + 1)
        first, last = I.at(0), I.at(m)
        (x0, y0), (x1, y1) = g.pt(0), g.pt(m - 1)
        out['0 before the first sample'] = And(isv(first.lower, -math.inf), isv(first.upper, s.S(0)), first.right == 2, isinstance(F.at(0), Const) and F.at(0).v == 0, y0 >= 0)
        out['1 from the last sample on'] = And(isv(last.lower, a._next(s.S(a._n - 1))), last.left == 1, isv(last.upper, math.inf), isinstance(F.at(m), Const) and F.at(m).v == 1,
                                               y1 == 1, x1 == s.S(a._n - 1))
        if bool(And(k >= 1, k < m)):
            i, f = I.at(k), F.at(k)
            (x, y), (u, v) = g.pt(k - 1), g.pt(k)
            out['pieces follow one another'] = And(isv(i.lower, x), i.left == 1, isv(i.upper, a._next(u) if bool(k == m - 1) else u), i.right == 2)
            out['they are the lines between the points'] = isinstance(f, Line) and And(f.l[0] == x, f.l[1] == y, f.r[0] == u, f.r[1] == v)
            out['they increase'] = And(x < u, y < v, y >= 0, v <= 1)
        if bool(within(k, s.count())):
            j = s.last(k)
            x, y = g.pt(k)
            out['without tolerance, all samples are points'] = Implies(a._eps == 0, And(k < m, x == s.S(j), y == s.frac(j)))
        return out


@contract(Q + 'QuantileDistribution.fit', ('C07',), uses=FIT_USES, variant='samples')
class _(Fit):
    """up to the sorted samples, for all rows or some, with and without the optional points"""
    proves = 'samples'

    def case(self, E):
        return E.choose(2) == 0, E.choose(2) == 0, E.choose(2) == 0


@contract(Q + 'QuantileDistribution.fit', ('C07',), uses=FIT_USES, variant='data')
class _(Fit):
    """from there to the different samples and their quantiles"""
    proves = 'data'

    def case(self, E):
        c = E.choose(2) == 0
        return True, c, c


@contract(Q + 'QuantileDistribution.fit', ('C07',), uses=FIT_USES)
class _(Fit):
    """from there to the end"""
    proves = 'pieces'

    def case(self, E):
        c = E.choose(2) == 0
        return True, c, c
