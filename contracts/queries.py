"""Contracts of the reading of queries (C23): queries of any number of entries, whose keys are variables or names and whose values are numbers,
lists, intervals, sets of intervals, labels or sets of labels.  What a query says of a variable is said by its last entry for it.

The result is looked at for an arbitrary variable w and an arbitrary number x or label l."""
import builtins
import importlib
import math

import z3

from engine import sym, rt
from engine.arr import fun
from engine.contract import contract, NS, STUBS, Value, Wrap, And, Iff, Implies, If, jpt_class
from engine.hlist import LC
from engine.seq import SymSeq, SymSet, SymL, within
from engine.sym import SB, SI, SR, Or, Not, Undecided, PathEnd
from contracts.numeric import INC, EXC, inside, isinf
from contracts.piecewise import piece_class
from contracts import quantiles

TR, VM, UT = 'jpt.trees:', 'jpt.variables:', 'jpt.base.utils:'


class _RS(type):
    def __instancecheck__(cls, x):
        return x.__class__ is cls


class RSet(metaclass=_RS):
    """a RealSet; has: is x in it"""
    __symobj__ = True

    def __init__(self, intervals, has=None):
        self.intervals, self.has = intervals, has


def the_type(x):
    m = importlib.import_module(TR[:-1])
    for n in ('set', 'list'):
        b = getattr(builtins, n)
        if isinstance(x, b):
            bs = m.__dict__.get('__builtins__', {})
            return m.__dict__.get(n) or (bs if isinstance(bs, dict) else bs.__dict__).get(n, b)
    return builtins.type(x)


STUBS[TR + 'type/q'] = Value(the_type)
STUBS[TR + 'ContinuousSet/q'] = Value(quantiles.Interval)
STUBS[TR + 'RealSet/q'] = Value(RSet)


def stub_list2interval(raw, l):
    lo, hi = l
    return piece_class()(-math.inf if lo is None or lo is Ellipsis or isinf(lo) else lo,
                         math.inf if hi is None or hi is Ellipsis or isinf(hi) else hi, INC, INC)


def stub_list2intset(raw, l):
    E = sym.eng()
    lo, hi = l
    return int_range(E, lo, hi)


def int_range(E, lo, hi):
    n = If(hi >= lo, hi - lo + 1, 0)
    q = SymSeq(E, SI(sym.zint(n)), lambda k: SI(sym.zint(k + lo)))
    q.at(E.spec._l - lo)
    return SymSet(q, lambda v: And(v >= lo, v <= hi))


def stub_list2set(raw, l):
    q, gen = l.given
    if l.gen is not gen:
        raise Undecided('a list that has been changed')
    return SymSet(q, distinct=False)


STUBS[TR + 'list2interval'], STUBS[TR + 'list2intset'], STUBS[TR + 'list2set'] = stub_list2interval, stub_list2intset, stub_list2set


# ------------------------------------------------------------------------------------------------ the result
class Assigned:
    """the assignment that is built: has an entry for w; says that x (or l) is possible"""
    __symobj__ = True
    _restorable = True

    def __init__(self, E, space):
        self.__dict__.update(E=E, space=space, has=SB(z3.BoolVal(False)), says=SB(z3.BoolVal(False)), _serial=next(rt.SERIAL))

    def __setitem__(self, var, val):
        E = self.E
        a = E.spec
        E.touch(self)
        m = meaning(a, var, val)
        hit = var.no == a._w
        self.__dict__.update(has=Or(hit, self.has), says=SB(sym.zbool(If(hit, m, self.says))))

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.__dict__.update(has=E.bool('has'), says=E.bool('says'))


def meaning(a, var, val):
    """is x (or l) possible, according to a value of an assignment"""
    E = a._E
    if var.numeric:
        if isinstance(val, RSet):
            l = val.intervals
            if val.has is not None:
                return val.has
            o = a._now.arg.intervals
            E.require(l.n == o.n, 'as many intervals as given')
            if E.choose(2) == 0:
                g = E.int('any')
                E.assume(within(g, l.n))
                i, j = l.at(g), o.at(g)
                E.prove(And(i.lower == j.lower, i.upper == j.upper, i.left == j.left, i.right == j.right), 'the intervals are those given')
                raise PathEnd()
            return a._now.arg.has
        if getattr(val, 'lower', None) is None:
            return val == a._x
        return inside(val, a._x)
    if not isinstance(val, set):
        return val == a._l
    return SB(z3.BoolVal(bool(a._l in val)))


def kinds():
    m = importlib.import_module(VM[:-1])

    def mk(base, **kw):
        class V(base):
            def __init__(self, no):
                self.__dict__['no'] = no
            __hash__ = object.__hash__
        for k, v in kw.items():
            setattr(V, k, v)
        return V
    def dom(n):
        return type('domain', (getattr(m, n),), {})
    return (mk(m.NumericVariable, blur=0, domain=dom('Numeric')), mk(m.SymbolicVariable, domain=dom('Multinomial')),
            mk(m.IntegerVariable, domain=dom('Integer')))


class Name:
    """the name of a variable, or of none"""
    def __init__(self, var):
        self.var = var


class Entry:
    """entry k of the query"""

    def __init__(self, E, a, k):
        n, s, i = a._kinds
        what = E.choose(3)
        self.var = (n, s, i)[what](SI(a._var(k.e)))
        form = E.choose(2)
        self.known = True if form == 0 else SB(a._known(k.e))
        self.key = self.var if form == 0 else Name(self)
        x, l = a._x, a._l
        self.none = False
        self.bad = False
        if what == 0:
            c = E.choose(6)
            if c == 0:
                self.arg = E.real('number')
                self.says = x == self.arg
            elif c == 1:
                lo, hi = E.real('lo'), E.real('hi')
                b = E.choose(4)
                lo_, hi_ = (None, lo)[b & 1], (None, hi)[b >> 1]
                self.arg = [lo_, hi_]
                self.says = And(True if lo_ is None else lo <= x, True if hi_ is None else x <= hi)
            elif c == 2:
                self.arg = piece_class()(E.real('lower'), E.real('upper'), E.int('left'), E.int('right'))
                self.says = inside(self.arg, x)
            elif c == 3:
                P = piece_class()
                m = E.int('m')
                E.assume(m >= 0)
                self.arg = RSet(SymL(E, m, lambda g: P(E.real('lower'), E.real('upper'), E.int('left'), E.int('right'))), E.bool('is in the set'))
                self.says = self.arg.has
            elif c == 4:
                self.arg, self.says, self.none = None, False, True
            else:
                self.arg, self.says, self.bad = 'text', False, True
        else:
            c = E.choose(5)
            if c == 0:
                self.arg = E.int('label')
                self.says = l == self.arg
            elif c == 1 and what == 2:
                lo, hi = E.int('lo'), E.int('hi')
                self.arg = [lo, hi]
                self.says = And(lo <= l, l <= hi)
            elif c == 1:
                g = fun(E, 'listed', 'int', 'int')
                m = E.int('m')
                E.assume(m >= 0)
                self.arg = SymL(E, m, g)
                q = SymSeq(E, m, g)
                self.arg.given = q, self.arg.gen
                self.says = SB(z3.BoolVal(bool(l in q)))
            elif c == 2:
                self.arg = SymSet.fresh(E, 'labels')
                self.says = self.arg.member(l)
            elif c == 3:
                self.arg, self.says, self.none = None, False, True
            else:
                self.arg, self.says, self.bad = (1, 2), False, True
        if self.none:
            E.assume(a._drop)


class Entries:
    """the query: n entries.  has(k), says(k): what the first k of them say of w"""
    __symobj__ = True

    def __init__(self, E, a):
        self.E, self.a, self.memo = E, a, []
        self.n = E.int('entries')
        E.assume(self.n >= 0)
        I, B = z3.IntSort(), z3.BoolSort()
        h, s = z3.Function('has', I, B), z3.Function('says', I, B)
        self.h, self.s = lambda k: SB(h(sym.zint(k))), lambda k: SB(s(sym.zint(k)))
        E.assume(And(Not(self.h(0)), Not(self.s(0))))
        a._var, a._known = z3.Function('variable', I, I), z3.Function('known', I, B)

    def entry(self, k):
        k = SI(sym.zint(k))
        for j, e in self.memo:
            if j.e.eq(k.e) or bool(j == k):
                return e
        e, a = Entry(self.E, self.a, k), self.a
        self.memo.append((k, e))
        hit = And(Not(e.none), e.known, e.var.no == a._w)
        self.E.assume(self.h(k + 1) == Or(hit, self.h(k)))
        self.E.assume(Iff(self.s(k + 1), If(hit, e.says, self.s(k))))
        return e

    def items(self):
        def at(k):
            e = self.a._now = self.entry(k)
            return e.key, e.arg
        return SymSeq(self.E, self.n, at)


def stub_assignment(space):
    def make(data=None, variables=None):
        E = sym.eng()
        if data is not None or variables is not E.spec._variables:
            raise Undecided('an assignment of something else')
        return Assigned(E, space)
    return make


STUBS[TR + 'LabelAssignment/q'], STUBS[TR + 'ValueAssignment/q'] = Value(stub_assignment('labels')), Value(stub_assignment('values'))


def query_inv(st, L):
    q, r = L.E.spec._q, st.query_
    return {'an entry for every variable so far': Iff(r.has, q.h(L.k)), 'what the entries so far say': Iff(r.says, q.s(L.k))}


@contract(TR + 'JPT._preprocess_query', ('C23',), uses=tuple(TR + n for n in (
        'type/q', 'ContinuousSet/q', 'RealSet/q', 'list2interval', 'list2intset', 'list2set', 'LabelAssignment/q', 'ValueAssignment/q')))
class _:
    mode = 'real'
    concrete = False
    frame = False
    assumes = ('variables without blur', 'the constructors of assignments check the labels (bounded)')
    loops = {'JPT._preprocess_query#L1': LC(inv=query_inv, modifies=lambda st: [st.query_])}

    def setup(self, E, a):
        E.spec = a
        a._E, a._lists = E, True
        a._w, a._x, a._l = E.int('w'), E.real('x'), E.int('l')
        a._drop, a._skip = E.choose(2) == 0, E.choose(2) == 0
        a._single, a._space = E.choose(2) == 0, ('labels', 'values')[E.choose(2)]
        a._kinds = kinds()
        a._q = Entries(E, a)
        a._variables = [None]
        C = jpt_class(TR + 'JPT')
        a._tree = type('Tree', (C,), dict(__init__=lambda s: None, variables=a._variables, varnames=NS(
            get=lambda n: n.var.var if bool(n.var.known) else None)))()

    def call(self, a, fn):
        return fn(a._tree, a._q, remove_none=a._drop, skip_unknown_variables=a._skip, allow_singular_values=a._single, space=a._space)

    def raises(self, a, exc, old):
        e = a._now
        if type(exc) is Exception:
            return And(Not(a._skip), Not(e.known), Not(e.none))
        return And(e.bad, e.known) if isinstance(exc, TypeError) else None

    def post(self, a, r, old):
        q = a._q
        return {'a variable has an entry if one is given for it': Iff(r.has, q.h(q.n)),
                'its states are those of the last entry for it': Iff(r.says, q.s(q.n)), 'in the space asked for': r.space == a._space}


# ------------------------------------------------------------------------------------------------ the conversions of single values
class Single:
    mode = 'real'
    concrete = False
    frame = False

    def setup(self, E, a):
        E.spec = a
        a._E = E
        self.start(E, a)


STUBS[UT + 'ContinuousSet'] = Value(quantiles.Interval)


class Floats:
    """numpy.float64 of a number is the number"""
    def __init__(self, raw):
        self._raw = raw

    def __getattr__(self, k):
        return getattr(self._raw, k)

    def float64(self, x):
        return x


STUBS[UT + 'np/f'] = Wrap(Floats)


@contract(UT + 'list2interval', ('C23',), uses=(UT + 'ContinuousSet', UT + 'np/f'))
class _(Single):
    def start(self, E, a):
        a._x = E.real('x')
        a._lo = (E.real('lo'), -math.inf, None, Ellipsis)[E.choose(4)]
        a._hi = (E.real('hi'), math.inf, None, Ellipsis)[E.choose(4)]

    def call(self, a, fn):
        return fn([a._lo, a._hi])

    def post(self, a, r, old):
        lo, hi, x = a._lo, a._hi, a._x
        return {'the numbers between both ends, which are included': Iff(inside(r, x), And(
            lo <= x if getattr(lo, '__sym__', False) else True, x <= hi if getattr(hi, '__sym__', False) else True))}


@contract(UT + 'list2set', ('C23',))
class _(Single):
    def start(self, E, a):
        m = E.int('m')
        E.assume(m >= 0)
        a._l = E.int('l')
        a._q = SymSeq(E, m, fun(E, 'listed', 'int', 'int'))

    def call(self, a, fn):
        return fn(a._q)

    def post(self, a, r, old):
        return {'the elements of the list': r.seq is a._q}


@contract(UT + 'list2intset', ('C23',))
class _(Single):
    def start(self, E, a):
        a._lo, a._hi, a._l = E.int('lo'), E.int('hi'), E.int('l')

    def call(self, a, fn):
        return fn([a._lo, a._hi])

    def post(self, a, r, old):
        lo, hi, l = a._lo, a._hi, a._l
        if type(r).__name__ != 'RangeSet' or r.r.step != 1:
            raise Undecided('another way to make the set')
        return {'the integers between both ends, which are included': Iff(And(r.r.a <= l, l < r.r.b), And(lo <= l, l <= hi))}


STUBS[VM + 'ContinuousSet/q'] = Value(quantiles.Interval)


def mk_assignment2set(i, cls):
    @contract(VM + cls + '.assignment2set', ('C23',), uses=(VM + 'ContinuousSet/q',))
    class _(Single):
        def start(self, E, a):
            a._var = kinds()[i](0)
            a._x, a._l = E.real('x'), E.int('l')
            if i == 0:
                c = E.choose(3)
                a._given = (E.real('number') if c == 0 else piece_class()(E.real('lower'), E.real('upper'), E.int('left'), E.int('right')) if c == 1
                            else RSet(None, E.bool('is in the set')))
            else:
                a._given = E.int('label') if E.choose(2) == 0 else SymSet.fresh(E, 'labels')
            a._says = says(a, a._given)

        def call(self, a, fn):
            return fn(a._var, a._given)

        def post(self, a, r, old):
            scalar = getattr(a._given, '__sym__', False)
            return {'a set is left as it is': True if scalar else r is a._given, 'a set': (hasattr(r, 'lower') if i == 0 else isinstance(r, set))
                    if scalar else True, 'the same states': Iff(says(a, r), a._says)}

    def says(a, v):
        if i == 0:
            return v.has if isinstance(v, RSet) else v == a._x if getattr(v, '__sym__', False) else inside(v, a._x)
        return v.member(a._l) if isinstance(v, SymSet) else v == a._l


for _i, _c in enumerate(('NumericVariable', 'SymbolicVariable', 'IntegerVariable')):
    mk_assignment2set(_i, _c)
