"""Contracts of the piecewise functions (C06) over real arithmetic: any number of pieces, any functions on them.

A function of n pieces is given by its lists; piece k is the interval from lo(k) to hi(k), the pieces are disjoint and in order, the function
on piece k has the value val(k, x) at x.  What a method does to the value at a point follows from what it does to piece j, for an arbitrary
j, and the contract of idx_at (the first piece with the point inside); the lemmas at the end of this file put these together."""
import math

import z3

from engine import sym
from engine.arr import fun, Prefix, Each, SymArr
from engine.contract import contract, STUBS, Value, Wrap, And, Iff, Implies, If, jpt_class
from engine.hlist import LC
from engine.seq import SymL, Every, within
from engine.sym import SB, SI, SR, Or, Not, PathEnd, Undecided
from contracts.numeric import INC, EXC, iv_class, inside, isinf, interval as any_interval

FNM = 'jpt.base.functions:'
PW = FNM + 'PiecewiseFunction.'
ASSUMES = ('the elementary functions by the contracts of C05, the intervals by those of C01 and C02; the pieces have real or infinite ends',)


# ------------------------------------------------------------------------------------------------ pieces
_C = {}


def piece_class():
    if 'iv' in _C:
        return _C['iv']
    base = iv_class()

    class Piece(base):
        """interval of a piece; a copy is a new object with the same ends"""
        _restorable = True

        def __init__(self, lower, upper, left=INC, right=INC, no=None, owner=None):
            base.__init__(self, lower, upper, left, right)
            self.__dict__.update(no=no, owner=owner, _serial=next(__import__('engine.rt', fromlist=['rt']).SERIAL), clipped=None)

        def __setattr__(self, name, v):
            if name not in ('lower', 'upper', 'left', 'right'):
                raise Undecided('attribute %s of an interval' % name)
            sym.eng().touch(self)
            if self.owner is not None:
                sym.eng().touch(self.owner)
            self.__dict__.update({name: v, 'none': None, 'single': None, 'no': None})

        def isempty(self):
            if isinf(self.lower) or isinf(self.upper):
                return SB(z3.BoolVal(False))
            return base.isempty(self)

        def __contains__(self, x):
            return False if isinf(x) else bool(inside(self, x))

        def copy(self):
            r = Piece(self.lower, self.upper, self.left, self.right)
            r.__dict__.update(none=self.none, single=self.single, no=self.no)
            return r

        def __bool__(self):
            return not bool(self.isempty())

        def __and__(self, o):
            return meet(self, o)

        def xmirror(self):
            return Piece(-self.upper, -self.lower, self.right, self.left)

        def ends(self, left=-1, right=-1):
            """the same set of doubles, whatever kind of ends is asked for"""
            return self.copy()

        def intersection(self, o, left=None, right=None):
            """the same set of doubles, whatever kind of ends is asked for"""
            return meet(self, o)

        def intersects(self, o):
            return not bool(meet(self, o).isempty())

        def __eq__(self, o):
            return same(self, o)
        __hash__ = None
    _C['iv'] = Piece
    return Piece


def meet(i, o):
    """the intersection; whether a double lies inside that with piece k is a property of the piece"""
    E = sym.eng()
    (l, left), (u, right) = lower_end(i, o), upper_end(i, o)
    r = piece_class()(l, u, left, right)
    k = i.no if getattr(i, 'no', None) is not None else getattr(o, 'no', None)
    if k is not None:
        e = SB(E.spec._f.mt(sym.zint(k)))
        if isinf(l) or isinf(u):
            E.assume(Not(e))
        else:
            E.assume(Implies(r._empty(), e))
            E.assume(Implies(And(left == INC, right == INC, Not(r._empty())), Not(e)))
        r.__dict__['none'] = e
    return r


def lower_end(i, o):
    a, b = (i.lower, i.left), (o.lower, o.left)
    if isinf(a[0]):
        return b
    if isinf(b[0]):
        return a
    return If(a[0] < b[0], b[0], a[0]), If(a[0] < b[0], b[1], If(b[0] < a[0], a[1], If(And(a[1] == INC, b[1] == INC), INC, EXC)))


def upper_end(i, o):
    a, b = (i.upper, i.right), (o.upper, o.right)
    if isinf(a[0]):
        return b
    if isinf(b[0]):
        return a
    return If(a[0] > b[0], b[0], a[0]), If(a[0] > b[0], b[1], If(b[0] > a[0], a[1], If(And(a[1] == INC, b[1] == INC), INC, EXC)))


def same(i, o):
    """the same ends"""
    out = [i.left == o.left, i.right == o.right]
    for a, b in ((i.lower, o.lower), (i.upper, o.upper)):
        out.append(a == b if not isinf(a) and not isinf(b) else isinf(a) and isinf(b) and a == b)
    return And(*out)


def fn_class():
    if 'fn' in _C:
        return _C['fn']
    base = jpt_class(FNM + 'Function')

    class Fn(base):
        """a function by its values (and its derivative and integral, by the contracts of C05)"""
        def __new__(cls, *a, **k):
            return object.__new__(cls)

        def __init__(self, v, what=(), d=None, area=None):
            self.__dict__.update(v=v, what=what, d=d, area=area, _serial=next(__import__('engine.rt', fromlist=['rt']).SERIAL))

        def __setattr__(self, n, v):
            raise Undecided('attribute of an elementary function')

        def eval(self, x):
            return self.v(x)
        __call__ = eval

        def copy(self):
            return Fn(self.v, self.what, self.d, self.area)

        def __add__(self, o):
            return Fn(lambda x: self.v(x) + value(o, x))

        def __mul__(self, o):
            return Fn(lambda x: self.v(x) * value(o, x))

        def add(self, o):
            return self + o

        def mul(self, o):
            return self * o

        def xshift(self, delta):
            return Fn(lambda x: self.v(x + delta))

        def xmirror(self):
            return Fn(lambda x: self.v(-x))

        def differentiate(self):
            if self.d is None:
                raise Undecided('derivative')
            return Fn(self.d)

        def integrate(self, x1, x2):
            if self.area is None:
                raise Undecided('integral')
            return self.area(x1, x2)

        def __eq__(self, o):
            raise Undecided('comparison of functions')
        __hash__ = None
    _C['fn'] = Fn
    return Fn


def value(f, x):
    if isinstance(f, fn_class()):
        return f.v(x)
    n = f.__dict__.get('_type') or type(f).__name__
    if n == 'ConstantFunction':
        return f.value
    if n == 'LinearFunction':
        return f.m * x + f.c
    raise Undecided('value of a %s' % n)


class Pieces:
    """a piecewise function of n pieces"""

    def __init__(self, E, name='', ends=True, kinds=None):
        self.E = E
        R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
        F = lambda nm, *s: z3.Function(name + nm, *s)      # noqa
        self.lo, self.hi, self.cl, self.cr = F('lo', I, R), F('hi', I, R), F('closed_left', I, B), F('closed_right', I, B)
        self.fin = F('from_minus_inf', I, B), F('to_plus_inf', I, B)
        self.val, self.der, self.ar, self.mt = F('val', I, R, R), F('derivative', I, R, R), F('area', I, R, R, R), F('no_double', I, B)
        self.n = E.int(name + 'n')
        E.assume(self.n >= 0)
        self.looked, self.kinds = [], kinds
        self.intervals = SymL(E, self.n, self.interval, 'intervals')
        self.functions = SymL(E, self.n, self.function, 'functions')
        self.o = jpt_class(FNM + 'PiecewiseFunction')()
        self.o.intervals, self.o.functions = self.intervals, self.functions

    def facts(self, k):
        """the pieces are disjoint, in order and not empty"""
        E = self.E
        if any(k.e.eq(j.e) for j in self.looked):
            return
        f = lambda u, k: (SR if u.range() == z3.RealSort() else SB)(u(k.e))      # noqa
        first, last = (lambda k: f(self.fin[0], k)), (lambda k: f(self.fin[1], k))
        E.assume(Implies(And(within(k, self.n), Not(first(k)), Not(last(k))),
                         Or(f(self.lo, k) < f(self.hi, k), And(f(self.lo, k) == f(self.hi, k), f(self.cl, k), f(self.cr, k)))))
        for j in self.looked:
            for p, q in ((j, k), (k, j)):
                E.assume(Implies(And(p >= 0, p < q, q < self.n),
                                 And(Not(last(p)), Not(first(q)),
                                     Or(f(self.hi, p) < f(self.lo, q), And(f(self.hi, p) == f(self.lo, q), Not(And(f(self.cr, p), f(self.cl, q))))))))
        self.looked.append(k)

    def ends(self, k):
        k = SI(sym.zint(k))
        self.facts(k)
        l, u = SR(self.lo(k.e)), SR(self.hi(k.e))
        left, right = If(SB(self.cl(k.e)), INC, EXC), If(SB(self.cr(k.e)), INC, EXC)
        if bool(SB(self.fin[0](k.e))):
            l, left = -math.inf, EXC
        if bool(SB(self.fin[1](k.e))):
            u, right = math.inf, EXC
        return l, u, left, right

    def interval(self, k):
        """piece k as it was given"""
        return piece_class()(*self.ends(k), no=k, owner=getattr(self, 'intervals', None))

    def at(self, k, x):
        return SR(self.val(sym.zint(k), sym.zreal(x)))

    def function(self, k):
        k = SI(sym.zint(k))
        if self.kinds is not None:
            return self.kinds(self, k)
        return self.function_(k)

    def function_(self, k):
        return fn_class()(lambda x: self.at(k, x), (self, k), d=lambda x: SR(self.der(k.e, sym.zreal(x))),
                          area=lambda a, b: SR(self.ar(k.e, z(a), z(b))))


def z(x):
    return z3.Real('minus_infinity' if x < 0 else 'infinity') if isinf(x) else sym.zreal(x)


class PiecewiseContract:
    mode = 'real'
    concrete = False
    frame = False

    def setup(self, E, a):
        E.spec = a
        a._lists = True
        a._positions = []
        a._j, a._pt = E.int('j'), E.real('any_x')
        a._f = Pieces(E, kinds=getattr(self, 'kinds', None))
        E.assume(within(a._j, a._f.n))
        a._positions = [a._j]
        a._self = a._f.o
        self.start(E, a)

    def start(self, E, a):
        pass

    def unchanged(self, a):
        """the function itself is as it was (lists and piece j)"""
        f, o = a._f, a._self
        i, g = f.intervals.at(a._j), f.functions.at(a._j)
        return And(o.intervals is f.intervals, o.functions is f.functions, f.intervals.n == f.n, f.functions.n == f.n,
                   same(i, f.interval(a._j)), isinstance(g, fn_class()) and g.what == (f, g.what[1]) and g.what[1] == a._j)


def pcontract(name, props=('C06',), uses=(), **kw):
    def deco(cls):
        body = {n: v for n, v in cls.__dict__.items() if n not in ('__dict__', '__weakref__')}
        body['loops'] = {'PiecewiseFunction.%s' % n: v for n, v in getattr(cls, 'lc', {}).items()}
        c = type(cls.__name__, (PiecewiseContract,), body)
        c.assumes = ASSUMES + ((cls.extra,) if hasattr(cls, 'extra') else ())
        contract(PW + name, props, uses=tuple(uses), mode='real', concrete=False, frame=False, **kw)(c)
        return cls
    return deco


def a_point(E, a, infinite=True):
    c = E.choose(3) if infinite else 0
    return E.real('x') if c == 0 else math.inf if c == 1 else -math.inf


def covers(i, x):
    """idx_at finds this piece"""
    return (isinf(i.lower) and i.lower == x or isinf(i.upper) and i.upper == x) if isinf(x) else inside(i, x)


def not_before(st, L):
    a = L.E.spec
    return {'no piece so far has the point': Implies(a._j < L.k, Not(covers(a._f.interval(a._j), st.x)))}


@pcontract('idx_at')
class _:
    lc = {'idx_at#L1': LC(inv=not_before)}

    def start(self, E, a):
        a._x = a_point(E, a)

    def call(self, a, fn):
        return fn(a._self, a._x)

    def post(self, a, r, old):
        f = a._f
        here = covers(f.interval(a._j), a._x)
        if isinstance(r, int) and r == -1:
            return {'no piece has the point': Not(here), 'unchanged': self.unchanged(a)}
        return {'a piece': within(r, f.n), 'which has the point': covers(f.interval(r), a._x),
                'the only one': Or(a._j == r, Not(here)) if not isinf(a._x) else Implies(a._j < r, Not(here)),
                'unchanged': self.unchanged(a)}


@pcontract('interval_at')
class _:
    lc = {'interval_at#L1': LC(inv=not_before)}

    def start(self, E, a):
        a._x = E.real('x')

    def call(self, a, fn):
        return fn(a._self, a._x)

    def post(self, a, r, old):
        if not isinstance(r, piece_class()):
            return {'no piece has the point': Not(inside(a._f.interval(a._j), a._x)), 'the empty set': r.isempty()}
        return {'the piece': And(r is a._f.intervals.at(r.no), inside(a._f.interval(r.no), a._x), within(r.no, a._f.n))}


def stub_idx_at(raw, self, x):
    """contract of idx_at"""
    E, l = sym.eng(), self.intervals
    if not isinstance(l, SymL):
        raise Undecided('idx_at')
    if E.choose(2) == 0:
        for k, i in list(l.entries):
            E.assume(Implies(within(k, l.n), Not(covers(i, x))))
        l.facts.append(lambda k, i: Not(covers(i, x)))
        for k in (l.n - 1, l.n - 2) if getattr(E.spec, '_look', False) else ():
            if bool(within(k, l.n)):
                l.at(k)
        return -1
    r = E.int('found')
    E.assume(within(r, l.n))
    E.assume(covers(l.at(r), x))
    for k, i in list(l.entries):
        E.assume(Implies(And(k >= 0, k < r), Not(covers(i, x))))
    l.facts.append(lambda k, i: Implies(k < r, Not(covers(i, x))))
    return r


STUBS[PW + 'idx_at'] = stub_idx_at


@pcontract('at', uses=(PW + 'idx_at',))
class _:
    def start(self, E, a):
        a._x = a_point(E, a)

    def call(self, a, fn):
        return fn(a._self, a._x)

    def post(self, a, r, old):
        here = covers(a._f.intervals.at(a._j), a._x)
        if r is None:
            return {'no piece has the point': Not(here)}
        k = r.what[1]
        out = {'the function of the piece with the point': And(r.what[0] is a._f, r is a._f.functions.at(k), covers(a._f.interval(k), a._x)),
               'unchanged': self.unchanged(a)}
        if not isinf(a._x):
            out['of the only one'] = Implies(here, k == a._j)
        return out


# ------------------------------------------------------------------------------------------------ values
@pcontract('eval', uses=(PW + 'idx_at',))
class _:
    def start(self, E, a):
        a._x = E.real('x')

    def call(self, a, fn):
        return fn(a._self, a._x)

    def raises(self, a, exc, old):
        return Not(inside(a._f.intervals.at(a._j), a._x)) if isinstance(exc, AttributeError) else None

    def post(self, a, r, old):
        return {'the value of the function of the piece with the point': Implies(inside(a._f.interval(a._j), a._x), r == a._f.at(a._j, a._x)),
                'unchanged': self.unchanged(a)}


STUBS[PW + 'eval/value'] = lambda raw, self, x: sym.eng().spec._g(x)


def eval_inv(st, L):
    a = L.E.spec
    return {'values so far': Each(st.result, lambda ix, v, rd=None: Implies(ix[0] < L.k, v == a._g(a._xs.at(ix[0]))))}


@pcontract('multi_eval', uses=(PW + 'eval/value',))
class _:
    lc = {'multi_eval#L1': LC(inv=eval_inv, modifies=lambda st: [st.result])}

    def start(self, E, a):
        a._m = E.int('m')
        a._xs = SymArr(E, 'xs', (a._m,))
        a._g = fun(E, 'value', 'real', 'real')
        a._r = SymArr(E, 'result', (a._m,)) if E.choose(2) == 0 else None

    def call(self, a, fn):
        return fn(a._self, a._xs) if a._r is None else fn(a._self, a._xs, a._r)

    def post(self, a, r, old):
        i = sym.eng().int('any')
        return {'as many values as points': r.shape[0] == a._m, 'every one the value at its point':
                Implies(within(i, a._m), r.at(i) == a._g(a._xs.at(i))), 'in the array given': True if a._r is None else r is a._r}


# ------------------------------------------------------------------------------------------------ new functions, piece by piece
def pieces_of(a, r, val=None, iv=None, n=None):
    """r has the pieces of the function, with the values val(k, x)"""
    j, x = a._j, a._pt
    i, g = r.intervals.at(j), r.functions.at(j)
    val = val or (lambda k, x: a._f.at(k, x))
    iv = iv or a._f.interval
    n = a._f.n if n is None else n
    return {'as many intervals': r.intervals.n == n, 'as many functions': r.functions.n == n, 'the intervals': same(i, iv(j)),
            'the functions': value(g, x) == val(j, x)}


def fresh(a, r):
    """the pieces of r are not those of the function"""
    j = a._j
    return {'the intervals are new objects': r.intervals is not a._f.intervals and r.intervals.at(j) is not a._f.intervals.at(j),
            'the functions are new objects': r.functions is not a._f.functions and r.functions.at(j) is not a._f.functions.at(j)}


@pcontract('copy')
class _:
    def call(self, a, fn):
        return fn(a._self)

    def post(self, a, r, old):
        return {**pieces_of(a, r), **fresh(a, r), 'unchanged': self.unchanged(a), 'new': r is not a._self}


@pcontract('set')
class _:
    def call(self, a, fn):
        a._new = jpt_class(FNM + 'PiecewiseFunction')()
        if sym.eng().choose(2) == 0:
            r = fn(a._new, a._self)
            a._same = r is a._new
            return r
        a._bad = jpt_class(FNM + 'ConstantFunction')(1.)
        return fn(a._self, a._bad)

    def raises(self, a, exc, old):
        return '_bad' in a.__dict__ and isinstance(exc, TypeError)

    def post(self, a, r, old):
        return {**pieces_of(a, r), **fresh(a, r), 'unchanged': self.unchanged(a), 'self': a._same}


def elementary(E):
    """a constant or linear function"""
    if E.choose(2) == 0:
        return jpt_class(FNM + 'ConstantFunction')(E.real('c'))
    return jpt_class(FNM + 'LinearFunction')(E.real('m'), E.real('c'))


def mk_arith(name, op):
    @pcontract(name, variant='elementary')
    class _:
        def start(self, E, a):
            a._g = elementary(E)

        def call(self, a, fn):
            return fn(a._self, a._g)

        def post(self, a, r, old):
            return {**pieces_of(a, r, lambda k, x: op(a._f.at(k, x), value(a._g, x))), **fresh(a, r), 'unchanged': self.unchanged(a)}


mk_arith('add', lambda u, v: u + v)
mk_arith('mul', lambda u, v: u * v)


STUBS[FNM + 'float'] = Value(lambda x: x)


@pcontract('__truediv__', uses=(FNM + 'float',))
class _:
    def start(self, E, a):
        a._d = E.real('divisor')
        E.assume(Not(a._d == 0))

    def call(self, a, fn):
        return fn(a._self, a._d)

    def post(self, a, r, old):
        return {**pieces_of(a, r, lambda k, x: a._f.at(k, x) / a._d), **fresh(a, r), 'unchanged': self.unchanged(a)}


@pcontract('__sub__')
class _:
    def start(self, E, a):
        a._g = elementary(E)

    def call(self, a, fn):
        return fn(a._self, a._g)

    def post(self, a, r, old):
        return {**pieces_of(a, r, lambda k, x: a._f.at(k, x) - value(a._g, x)), **fresh(a, r), 'unchanged': self.unchanged(a)}


# ------------------------------------------------------------------------------------------------ loops over the pieces
def unknown_interval(E):
    def mk(k):
        l, u, *_ = E.spec._f.ends(k)        # infinite ends are those of the piece (part of the invariants)
        return piece_class()(l if isinf(l) else E.real('lower'), u if isinf(u) else E.real('upper'), E.int('left'), E.int('right'))
    return mk


COUNT = [0]


def unknown_function(E):
    COUNT[0] += 1
    u = z3.Function('unknown!%d' % COUNT[0], z3.IntSort(), z3.RealSort(), z3.RealSort())
    return lambda k: fn_class()(lambda x: SR(u(k.e, sym.zreal(x))), ('unknown', k))


def list_kinds(l):
    E = sym.eng()
    k = E.spec._kind(l)
    return unknown_interval(E) if k == 'intervals' else unknown_function(E) if k == 'functions' else None


def both(st):
    """the lists of the new function"""
    r = result(st)
    sym.eng().spec._kind = lambda l: 'intervals' if l is r.intervals else 'functions' if l is r.functions else None
    return [r.intervals, r.functions]


def appended(val, iv=None):
    def inv(st, L):
        a = L.E.spec
        r = result(st)
        if r.intervals is a._f.intervals or r.functions is a._f.functions:
            raise Undecided('the lists of the function itself')
        x = a._pt
        return {'a piece for every one so far': And(r.intervals.n == L.k, r.functions.n == L.k),
                'the intervals so far': Every(r.intervals, lambda k, i: same(i, (iv or a._f.interval)(k))),
                'the functions so far': Every(r.functions, lambda k, g: value(g, x) == val(a, k, x))}
    return inv


def result(st):
    """the new function that the loop makes: the only local one besides the function itself"""
    me = sym.eng().spec._self
    fs = {id(v): v for v in st.__dict__.values() if isinstance(v, jpt_class(FNM + 'PiecewiseFunction')) and v is not me}
    if len(fs) != 1:
        raise Undecided('the result so far')
    return list(fs.values())[0]


@pcontract('differentiate')
class _:
    lc = {'differentiate#L1': LC(inv=appended(lambda a, k, x: SR(a._f.der(k.e, x.e))), modifies=both, kinds=list_kinds)}

    def call(self, a, fn):
        return fn(a._self)

    def post(self, a, r, old):
        return {**pieces_of(a, r, lambda k, x: SR(a._f.der(k.e, x.e))), **fresh(a, r), 'unchanged': self.unchanged(a)}


def area_inv(st, L):
    return {'area so far': st.area == L.E.spec._area(L.k)}


@pcontract('integrate', uses=(FNM + 'R',))
class _:
    lc = {'integrate#L1': LC(inv=area_inv)}

    def start(self, E, a):
        P = piece_class()
        whole = P(-math.inf, math.inf, EXC, EXC)
        i = any_interval(E)
        a._i = None if E.choose(2) == 0 else P(i.lower, i.upper, i.left, i.right)

        def term(k):
            p = meet(whole if a._i is None else a._i, a._f.interval(k))
            return If(p.isempty(), 0, SR(a._f.ar(k.e, z(p.lower), z(p.upper))))
        a._area = Prefix(E, 'area', term, 0)

    def call(self, a, fn):
        return fn(a._self) if a._i is None else fn(a._self, a._i)

    def post(self, a, r, old):
        return {'the sum of the areas under the pieces, each over its part in the interval': r == a._area(a._f.n), 'unchanged': self.unchanged(a)}


STUBS[FNM + 'R'] = Wrap(lambda o: piece_class()(-math.inf, math.inf, EXC, EXC))


# ------------------------------------------------------------------------------------------------ splitting, shifting, scaling
def split_inv(st, L):
    a = L.E.spec
    return {'no piece so far has the point': Implies(a._j < L.k, Not(inside(a._f.interval(a._j), st.splitpoint)))}


@pcontract('split')
class _:
    lc = {'split#L1': LC(inv=split_inv)}

    def start(self, E, a):
        a._x = E.real('splitpoint')

    def call(self, a, fn):
        return fn(a._self, a._x)

    def raises(self, a, exc, old):
        return Not(inside(a._f.interval(a._j), a._x)) if isinstance(exc, ValueError) else None

    def post(self, a, r, old):
        (f1, f2), f, x, j, pt = r, a._f, a._x, a._j, a._pt
        p = f1.intervals.n - 1
        P = piece_class()
        ip = f.interval(p)
        k = j - p
        out = {'the piece with the point': And(within(p, f.n), inside(ip, x)), 'pieces': And(f1.functions.n == p + 1, f2.intervals.n == f.n - p,
                                                                                           f2.functions.n == f.n - p),
               'unchanged': self.unchanged(a)}
        if bool(j < p):
            out['before: as it was'] = And(same(f1.intervals.at(j), f.interval(j)), value(f1.functions.at(j), pt) == f.at(j, pt))
        elif bool(j == p):
            out['up to the point'] = And(same(f1.intervals.at(p), P(ip.lower, x, ip.left, EXC)), value(f1.functions.at(p), pt) == f.at(p, pt))
            out['from the point on'] = And(same(f2.intervals.at(0), P(x, ip.upper, INC, ip.right)), value(f2.functions.at(0), pt) == f.at(p, pt))
            out['distinct objects'] = f1.functions.at(p) is not f2.functions.at(0) and f1.intervals.at(p) is not f2.intervals.at(0)
        else:
            out['after: as it was'] = And(same(f2.intervals.at(k), f.interval(j)), value(f2.functions.at(k), pt) == f.at(j, pt))
        return out


def shifted(f, k, d):
    l, u, left, right = f.ends(k)
    return piece_class()(l if isinf(l) else l - d, u if isinf(u) else u - d, left, right)


def shift_inv(st, L):
    a = L.E.spec
    r, f, d, x = result(st), a._f, a._d, a._pt

    def iv(k, i):
        return And(Implies(k < L.k, same(i, shifted(f, k, d))), Implies(k >= L.k, same(i, f.interval(k))))

    def fn(k, g):
        return And(Implies(k < L.k, value(g, x) == f.at(k, x + d)), Implies(k >= L.k, value(g, x + d) == f.at(k, x + d)))
    if r.intervals is f.intervals or r.functions is f.functions:
        raise Undecided('the lists of the function itself')
    return {'pieces': And(r.intervals.n == f.n, r.functions.n == f.n), 'the intervals so far': Every(r.intervals, iv),
            'the functions so far': Every(r.functions, fn)}


@pcontract('xshift')
class _:
    lc = {'xshift#L1': LC(inv=shift_inv, modifies=both, kinds=list_kinds)}

    def start(self, E, a):
        a._d = E.real('delta')

    def call(self, a, fn):
        return fn(a._self, a._d)

    def post(self, a, r, old):
        return {**pieces_of(a, r, lambda k, x: a._f.at(k, x + a._d), lambda k: shifted(a._f, k, a._d)), **fresh(a, r),
                'unchanged': self.unchanged(a)}


class _Scale:
    """functions of the kinds that stretch knows"""

    def __init__(self, E):
        self.kind = z3.Function('kind', z3.IntSort(), z3.IntSort())
        self.c, self.m = (z3.Function(n, z3.IntSort(), z3.RealSort()) for n in ('const', 'slope'))

    def make(self, p, k, c=None, m=None):
        t = SI(self.kind(k.e))
        c, m = (SR(self.c(k.e)) if c is None else c), (SR(self.m(k.e)) if m is None else m)
        if bool(t == 0):
            return jpt_class(FNM + 'ConstantFunction')(c)
        if bool(t == 1):
            return jpt_class(FNM + 'LinearFunction')(m, c)
        return jpt_class(FNM + 'Undefined')()

    def is_(self, k, g, alpha):
        t = SI(self.kind(k.e))
        n = type(g).__name__
        c, m = SR(self.c(k.e)) * alpha, SR(self.m(k.e)) * alpha
        if n == 'ConstantFunction':
            return And(t == 0, g.value == c)
        if n == 'LinearFunction':
            return And(t == 1, g.m == m, g.c == c)
        return And(Not(t == 0), Not(t == 1), n == 'Undefined')


def stretch_inv(st, L):
    a = L.E.spec
    r, f, s = result(st), a._f, a._s
    if r.functions is f.functions:
        raise Undecided('the lists of the function itself')
    return {'as many functions': r.functions.n == f.n,
            'the functions so far': Every(r.functions, lambda k, g: And(Implies(k < L.k, s.is_(k, g, a._alpha)), Implies(k >= L.k, s.is_(k, g, 1))))}


def stretch_modifies(st):
    sym.eng().spec._kind = None
    return [result(st).functions]


def stretch_kinds(l):
    E = sym.eng()
    a = E.spec
    return lambda k: a._s.make(a._f, k, E.real('c'), E.real('m'))


@pcontract('stretch')
class _:
    lc = {'stretch#L1': LC(inv=stretch_inv, modifies=stretch_modifies, kinds=stretch_kinds)}

    @staticmethod
    def kinds(p, k):
        return p.E.spec._s.make(p, k)

    def start(self, E, a):
        a._s = _Scale(E)
        a._alpha = E.real('alpha')

    def call(self, a, fn):
        return fn(a._self, a._alpha)

    def post(self, a, r, old):
        f, j = a._f, a._j
        return {'every function times alpha': a._s.is_(j, r.functions.at(j), a._alpha), 'the intervals': same(r.intervals.at(j), f.interval(j)),
                'as many pieces': And(r.functions.n == f.n, r.intervals.n == f.n),
                'the function is unchanged': And(a._self.functions is f.functions, a._s.is_(j, f.functions.at(j), 1),
                                                 same(f.intervals.at(j), f.interval(j))), **fresh(a, r)}


# ------------------------------------------------------------------------------------------------ the pieces that meet a condition
class Chosen:
    """the pieces k with keep(k), in their order: number rank(k) among them is piece k, and number r is piece nth(r)"""

    def __init__(self, E, f, keep):
        self.E, self.f, self.keep = E, f, keep
        self.nth_ = z3.Function('nth_kept', z3.IntSort(), z3.IntSort())
        self.rank = Prefix(E, 'kept', lambda k: If(keep(k), 1, 0), 0, 'int')

    def at(self, k):
        """a fact about piece k"""
        self.E.assume(Implies(And(within(k, self.f.n), self.keep(k)), self.nth(self.rank(k)) == k))

    def nth(self, r):
        return SI(self.nth_(sym.zint(r)))

    def count(self):
        return self.rank(self.f.n)


def chosen_inv(image):
    def inv(st, L):
        a = L.E.spec
        r, c, f, j, x = result(st), a._c, a._f, a._j, a._pt
        if r.intervals is f.intervals or r.functions is f.functions:
            raise Undecided('the lists of the function itself')
        c.at(L.k)
        c.at(L.k - 1)
        c.at(j)

        def of(k):
            s = c.nth(k)
            return And(s >= 0, s < L.k, c.keep(s), c.rank(s) == k)
        return {'a piece for every one that is kept so far': And(r.intervals.n == c.rank(L.k), r.functions.n == c.rank(L.k), c.rank(L.k) >= 0),
                'kept before': Implies(j < L.k, And(c.rank(j) >= 0, c.rank(j) + If(c.keep(j), 1, 0) <= c.rank(L.k))),
                'the intervals so far': Every(r.intervals, lambda k, i: And(of(k), same(i, image(a, c.nth(k))))),
                'the functions so far': Every(r.functions, lambda k, g: And(of(k), value(g, x) == f.at(c.nth(k), x)))}
    return inv


def chosen_post(self, a, r, image):
    c, f, j, x = a._c, a._f, a._j, a._pt
    c.at(j)
    k = c.rank(j)
    out = {'as many pieces as are kept': And(r.intervals.n == c.count(), r.functions.n == c.count()), 'unchanged': self.unchanged(a)}
    if bool(c.keep(j)):
        i, g = r.intervals.at(k), r.functions.at(k)
        out.update({'a piece that is kept is there, in its place': And(k >= 0, k < r.intervals.n), 'with its interval': same(i, image(a, j)),
                    'and its function': value(g, x) == f.at(j, x), 'new objects': i is not f.intervals.at(j) and g is not f.functions.at(j)})
    return out


def chosen_kinds(l):
    E = sym.eng()
    a = E.spec
    k = a._kind(l)
    if k == 'intervals':
        def mk(k):
            i = a._image(a, a._c.nth(k))       # ends of the same kind (part of the invariant)
            l, u = i.lower, i.upper
            return piece_class()(l if isinf(l) else E.real('lower'), u if isinf(u) else E.real('upper'), E.int('left'), E.int('right'))
        return mk
    return unknown_function(E) if k == 'functions' else None


def cropped(a, k):
    return meet(a._i, a._f.interval(k))


def bounds(E, lower, upper):
    i = any_interval(E, ends=False)
    return piece_class()(i.lower if lower else -math.inf, i.upper if upper else math.inf, i.left if lower else EXC, i.right if upper else EXC)


for _lower, _upper in ((True, True), (True, False), (False, True), (False, False)):
    @pcontract('crop', ('C06', 'C08'), variant='interval %s' % ('bounded' if _lower and _upper else 'unbounded above' if _lower else 'unbounded below' if _upper else 'R'))
    class _:
        ends = _lower, _upper
        lc = {'crop#L1': LC(inv=chosen_inv(cropped), modifies=both, kinds=chosen_kinds)}

        def start(self, E, a):
            a._i = bounds(E, *self.ends)
            a._image = cropped
            a._c = Chosen(E, a._f, lambda k: Not(SB(a._f.mt(sym.zint(k)))))       # as of cropped(a, k)

        def call(self, a, fn):
            return fn(a._self, a._i)

        def post(self, a, r, old):
            return chosen_post(self, a, r, cropped)


def undef(a, k):
    return SB(z3.Function('undefined', z3.IntSort(), z3.BoolSort())(sym.zint(k)))


@pcontract('drop_undef')
class _:
    lc = {'drop_undef#L1': LC(inv=chosen_inv(lambda a, k: a._f.interval(k)), modifies=both, kinds=chosen_kinds)}

    def kinds(self, p, k):
        if bool(undef(None, k)):
            return jpt_class(FNM + 'Undefined')()
        return Pieces.function_(p, k)

    def unchanged(self, a):
        f, o = a._f, a._self
        return And(o.intervals is f.intervals, o.functions is f.functions, f.intervals.n == f.n, f.functions.n == f.n,
                   same(f.intervals.at(a._j), f.interval(a._j)))

    def start(self, E, a):
        a._image = lambda a, k: a._f.interval(k)
        a._c = Chosen(E, a._f, lambda k: Not(undef(a, k)))

    def call(self, a, fn):
        return fn(a._self)

    def post(self, a, r, old):
        return chosen_post(self, a, r, a._image)


# ------------------------------------------------------------------------------------------------ mirror
@pcontract('xmirror', uses=(FNM + 'RealSet',))
class _:
    def call(self, a, fn):
        E = sym.eng()
        a._positions.append(a._f.n - 1 - a._j)
        return fn(a._self)

    def post(self, a, r, old):
        f, j, x = a._f, a._j, a._pt
        k = f.n - 1 - j
        i, g, o = r.intervals.at(k), r.functions.at(k), f.interval(j)
        return {'as many pieces': And(r.intervals.n == f.n, r.functions.n == f.n), 'unchanged': self.unchanged(a),
                'the intervals, from right to left': same(i, piece_class()(-o.upper, -o.lower, o.right, o.left)),
                'the functions': value(g, x) == f.at(j, -x)}


class Reals:
    """RealSet of a list of intervals: the constructor keeps them, xmirror mirrors each and reverses their order (C02)"""

    def __new__(cls, intervals=()):
        r = object.__new__(Reals)
        r.intervals = intervals
        return r

    def xmirror(self):
        l = self.intervals
        if not isinstance(l, SymL):
            raise Undecided('set of intervals')
        l = l.clone()
        return Reals(SymL(sym.eng(), l.n, lambda k: l.at(l.n - 1 - k).xmirror()))


STUBS[FNM + 'RealSet'] = Value(Reals)


# ------------------------------------------------------------------------------------------------ merge
def stub_split(raw, self, x):
    """contract of split"""
    E = sym.eng()
    f = [p for p in E.spec._all if p.o is self]
    if not f or not isinstance(self.intervals, SymL):
        raise Undecided('split of another function')
    f = f[0]
    if E.choose(2) == 0:
        raise ValueError('not defined there')
    p = E.int('piece')
    E.assume(within(p, f.n))
    ip = f.interval(p)
    E.assume(inside(ip, x))
    P, Q = piece_class(), jpt_class(FNM + 'PiecewiseFunction')
    lower, upper = Q(), Q()
    lower.intervals = SymL(E, p + 1, lambda k: P(ip.lower, x, ip.left, EXC) if bool(k == p) else f.interval(k).copy())
    lower.functions = SymL(E, p + 1, lambda k: f.function(k).copy())
    upper.intervals = SymL(E, f.n - p, lambda k: P(x, ip.upper, INC, ip.right) if bool(k == 0) else f.interval(k + p).copy())
    upper.functions = SymL(E, f.n - p, lambda k: f.function(k + p).copy())
    f.at_, f.iv_ = p, ip
    return lower, upper


def stub_stretch(raw, self, alpha):
    """contract of stretch, for functions of constant and linear pieces"""
    E, Q = sym.eng(), jpt_class(FNM + 'PiecewiseFunction')
    i, g, r = self.intervals.clone(), self.functions.clone(), Q()
    r.intervals = SymL(E, i.n, lambda k: i.at(k).copy())
    r.functions = SymL(E, g.n, lambda k: (lambda h: fn_class()(lambda x: value(h, x) * alpha))(g.at(k)))
    return r


def stub_top(raw, self, x):
    """the value at the left end of the last piece"""
    E = sym.eng()
    a, l = E.spec, self.intervals
    i = l.at(l.n - 1)
    if isinf(i.lower):
        raise AttributeError('no piece there')
    E.prove(x == i.lower, 'the value at the left end of the last piece is asked for')
    a._top = value(self.functions.at(l.n - 1), x)
    E.assume(Not(a._top == 0))
    return a._top


STUBS[PW + 'split/merge'], STUBS[PW + 'stretch/merge'], STUBS[PW + 'eval/merge'] = stub_split, stub_stretch, stub_top


def mk_merge(side):
    @pcontract('merge', ('C06', 'C09'), variant=side, uses=(PW + 'split/merge', PW + 'stretch/merge', PW + 'eval/merge'))
    class _:
        extra = 'the last piece of the merged function starts at a finite point, where its value is not zero'

        def start(self, E, a):
            a._h = Pieces(E, 'second.')
            a._all = (a._f, a._h)
            a._x = E.real('mergepoint')

        def call(self, a, fn):
            a._positions = []
            return fn(a._f.o, a._h.o, a._x)

        def raises(self, a, exc, old):
            return True if isinstance(exc, (ValueError, AttributeError)) else None

        def post(self, a, r, old):
            f, h, x, t, j = a._f, a._h, a._x, a._pt, a._j
            E, p, q, P = sym.eng(), f.at_, h.at_, piece_class()

            def v(n, x):
                return value(r.functions.at(n), x) * a._top
            lift = f.at(p, x) - h.at(q, x)
            if side == 'size':
                return {'as many pieces': And(r.intervals.n == p + 1 + h.n - q, r.functions.n == p + 1 + h.n - q)}
            if side == 'before':
                E.assume(j < p)
                return {'as it was': And(same(r.intervals.at(j), f.interval(j)), v(j, t) == f.at(j, t))}
            if side == 'up to':
                return {'the first function': And(same(r.intervals.at(p), P(f.iv_.lower, x, f.iv_.left, EXC)), v(p, t) == f.at(p, t))}
            if side == 'from':
                n = p + 1
                return {'the second function, lifted': And(same(r.intervals.at(n), P(x, h.iv_.upper, INC, h.iv_.right)),
                                                           v(n, t) == h.at(q, t) + lift),
                        'continuous': value(r.functions.at(p), x) == value(r.functions.at(n), x)}
            k = E.int('k')
            E.assume(And(k > q, k < h.n))
            n = p + 1 + k - q
            return {'the second function, lifted': And(same(r.intervals.at(n), h.interval(k)), v(n, t) == h.at(k, t) + lift)}
    return _


for _side in ('size', 'before', 'up to', 'from', 'after'):
    mk_merge(_side)


# ------------------------------------------------------------------------------------------------ lemmas: the value at a point
def mk_pointwise(name, what, args, val, defined=None):
    """what a method does to the value at a point, from its body and the contract of idx_at on both functions"""
    @pcontract(name, variant='value at a point', uses=(PW + 'idx_at', FNM + 'float'))
    class _:
        def start(self, E, a):
            a._x = E.real('x')
            args(E, a)

        def call(self, a, fn):
            a._positions = []
            a._r = fn(a._self, *a._args)
            y = a._from(a._x) if '_from' in a.__dict__ else a._x
            a._u, a._v = value_at(a._self, y), value_at(a._r, a._x)
            if a._u is not None and a._v is not None:       # the same piece
                a._self.intervals.at(a._v[1]), a._r.intervals.at(a._u[1])
            return a._r

        def post(self, a, r, old):
            u, v = a._u, a._v
            if u is None or v is None:
                # nowhere else defined: look at the piece that the other one has
                for w, o in ((u, r), (v, a._self)):
                    if w is not None:
                        o.intervals.at(w[1])
                return {'defined at the same points': u is None and v is None}
            return {what: v[0] == val(a, u[0])}
    return _


def value_at(o, x):
    i = o.idx_at(x)
    return None if isinstance(i, int) and i == -1 else (value(o.functions.at(i), x), i)


def _args(*names):
    def f(E, a):
        a._args = [elementary(E) if n == 'g' else E.real(n) for n in names]
        if names == ('divisor',):
            E.assume(Not(a._args[0] == 0))
        if names == ('delta',):
            a._from = lambda x: x + a._args[0]
    return f


mk_pointwise('copy', 'the same value', _args(), lambda a, u: u)
mk_pointwise('add', 'the sum of the values', _args('g'), lambda a, u: u + value(a._args[0], a._x))
mk_pointwise('mul', 'the product of the values', _args('g'), lambda a, u: u * value(a._args[0], a._x))
mk_pointwise('__sub__', 'the difference of the values', _args('g'), lambda a, u: u - value(a._args[0], a._x))
mk_pointwise('__truediv__', 'the quotient of the values', _args('divisor'), lambda a, u: u / a._args[0])
