"""Contracts of learning (C17).

A step of the learner is looked at for an arbitrary position g of its range of samples and for an arbitrary value x of the domain of the variable
split on: which of the two ranges does the sample at g belong to, and which of the two sets of values does its value (the value x) lie in."""
import importlib
import math

import z3

from engine import sym, rt
from engine.contract import contract, NS, STUBS, Value, Wrap, And, Iff, Implies, If, jpt_class
from engine.hlist import LC
from engine.seq import SymSeq, SymSet, within
from engine.sym import SB, SI, SR, Or, Not, Undecided, PathEnd
from contracts.trees import Abs
from contracts.posterior import fun
from contracts.chain import Silent

TR = 'jpt.trees:'


def const(n):
    return getattr(importlib.import_module('jpt.base.intervals'), n)


class Iv(Abs):
    def __init__(self, lower=-math.inf, upper=math.inf, left=None, right=None):
        inc = const('INC')
        self.lower, self.upper, self.left, self.right = lower, upper, inc if left is None else left, inc if right is None else right

    def has(self, x):
        inc = const('INC')
        lo, hi = self.lower, self.upper

        def below(b, incl):     # b is not a symbol if it is infinite
            return b < 0 if isinstance(b, float) else b <= x if incl else b < x

        def above(b, incl):
            return b > 0 if isinstance(b, float) else x <= b if incl else x < b
        return And(below(lo, self.left == inc), above(hi, self.right == inc))


STUBS[TR + 'Interval/l'] = Value(Iv)
STUBS[TR + 'int/l'] = Value(lambda x: x if isinstance(x, SI) else int(x))
STUBS[TR + 'ContinuousSet/l'] = Value(Iv)


class Part:
    """the values at positions a to b of the domain, or all but some"""
    __symobj__ = True

    def __init__(self, dom, a, b, but=()):
        self.dom, self.a, self.b, self.but = dom, a, b, but

    def __symset__(self):
        return self

    def __slist__(self):
        return self

    def __symlen__(self):
        return self.b - self.a

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step is None and not self.but:
            return Part(self.dom, self.a if i.start is None else self.a + i.start, self.b if i.stop is None else self.a + i.stop)
        raise Undecided('element of the domain')

    def index(self, v):
        if self.but:
            raise Undecided('index')
        p = self.dom.position(v)
        if not bool(And(p >= self.a, p < self.b)):
            raise ValueError('not in the list')
        return p - self.a

    def __sub__(self, o):
        return Part(self.dom, self.a, self.b, self.but + (o,))

    difference = __sub__

    def has(self, v):
        p = self.dom.position(v)
        return And(p >= self.a, p < self.b, *[Not(has(o, v)) for o in self.but])


def has(s, v):
    if isinstance(s, (Part, Iv)):
        return s.has(v)
    if isinstance(s, SymSet):
        return s.member(v)
    raise Undecided('set of values %s' % type(s).__name__)


class Domain(Abs):
    """the values of a discrete domain, in ascending order"""
    def __init__(self, E):
        self.E, self.n, self.known = E, E.int('domain size'), []
        E.assume(self.n >= 1)

    def position(self, v):
        """where a value of the domain is"""
        for u, p in self.known:
            if u.e.eq(v.e):
                return p
        E, q = self.E, self.E.int('position')
        E.assume(within(q, self.n))
        for u, p in self.known:
            E.assume(And(Iff(p < q, u < v), Iff(p == q, u == v)))
        self.known.append((v, q))
        return q

    def values(self):
        return Part(self, 0, self.n)


class SplitVar(Abs):
    def __init__(self, a, kind):
        self.a, self.kind, self.name = a, kind, 'split variable'
        self.numeric, self.symbolic, self.integer = (kind == k for k in ('numeric', 'symbolic', 'integer'))
        if kind != 'numeric':
            self.dom = Domain(a._E)
            self.domain = NS(values=self.dom)


class Row(Abs):
    def __init__(self, pos):
        self.pos = pos


class Rows(Abs):
    def __init__(self, start, end):
        self.start, self.end = start, end


class Indices(Abs):
    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step is not None:
                raise Undecided('step')
            return Rows(k.start, k.stop)
        a = sym.eng().spec
        sym.eng().require(And(k >= a._start, k < a._end), 'a position within the range of the node')
        return Row(k)


class Data(Abs):
    """the data; val: the value of the split variable at a position"""
    def __init__(self, a):
        self.a, self.seen = a, []
        self.shape = (a._N, a._V)

    def __slen__(self):
        return self.a._N

    def __getitem__(self, ix):
        if not isinstance(ix, tuple) or len(ix) != 2 or not isinstance(ix[0], Row):
            raise Undecided('data')
        row, col = ix
        self.a._E.require(And(self.a._split, col == self.a._col), 'the values of the split variable')
        return self.val(row.pos)

    def val(self, k):
        E, a = self.a._E, self.a
        for j, x in self.seen:
            if j.e.eq(k.e):
                return x
        x = a._E.num('value') if a._kind == 'numeric' else E.int('value')
        if a._kind == 'numeric':
            E.assume(And(x > -math.inf, x < math.inf))
        for j, y in self.seen:
            E.assume(Implies(j == k, x == y))
        self.seen.append((k, x))
        return x


class Recorded(Abs):
    """a container that is added to: what was added"""
    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)

    def __setitem__(self, k, v):
        self.items.append((k, v))


class Parent(Abs):
    def __init__(self, path):
        self.calls, self._path = [], path
        self.path = NS()

    def set_child(self, idx, node):
        self.calls.append((idx, node))


class Fits(Abs):
    """the distributions of a leaf: that of variable w"""
    _restorable = True

    def __init__(self, *a, **k):
        if a or k:
            raise Undecided('a map of something else')
        self._serial = next(rt.SERIAL)
        self.some, self.right = SB(z3.BoolVal(False)), SB(z3.BoolVal(False))

    def __setitem__(self, v, d):
        E, a = sym.eng(), sym.eng().spec
        E.touch(self)
        if not isinstance(v, FitVar) or not isinstance(d, tuple):
            raise Undecided('distribution')
        if bool(v.no == a._w):
            self.some, self.right = SB(z3.BoolVal(True)), And(d[0] == v.no, d[1])

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.some, self.right = E.bool('fitted'), E.bool('right')


STUBS[TR + 'VariableMap/l'] = Value(Fits)


for _c in ('DecisionNode', 'Leaf'):
    STUBS[TR + _c + '.__str__'] = lambda raw, self: 'node'


class FitVar(Abs):
    def __init__(self, no):
        self.no = no

    def distribution(self):
        return self

    def _fit(self, data=None, rows=None, col=None):
        a = sym.eng().spec
        if data is not a._data or not isinstance(rows, Rows):
            raise Undecided('data')
        return self.no, And(col == self.no, rows.start == a._start, rows.end == a._end)


class Vars(Abs):
    def __getitem__(self, k):
        a = sym.eng().spec
        a._E.require(And(a._split, k == a._col), 'the variable of the best split')
        return a._var

    def __symseq__(self):
        a = sym.eng().spec
        return a._V, FitVar

    def __symenum__(self, start):
        a = sym.eng().spec
        return SymSeq(a._E, a._V, lambda k: (k + start, FitVar(k)))


def fitted(st, L):
    a, d = L.E.spec, st.leaf.distributions
    return {'a distribution of every variable so far': Iff(d.some, L.k > a._w), 'it is that of the samples': Implies(d.some, d.right)}


class Impurity(Abs):
    """the search for a split (C16): the samples of the range are in the order of the split variable"""
    def __init__(self, a):
        self.a = a

    def compute_best_split(self, start, end):
        a, E = self.a, self.a._E
        E.require(And(start == a._start, end == a._end), 'the split is searched for in the range of the node')
        a._gain = E.num('gain')
        E.assume(And(a._gain >= -1, a._gain < math.inf))
        a._pos, a._col = E.int('split position'), E.int('split variable')
        self.best_split_pos, self.best_var = a._pos, a._col
        a._searched = True
        return a._gain


@contract(TR + 'JPT.c45', ('C17',), uses=tuple(TR + n for n in ('Interval/l', 'ContinuousSet/l', 'VariableMap/l', 'int/l', 'DecisionNode.__str__', 'Leaf.__str__')))
class _:
    concrete = False
    frame = False
    assumes = ('contract of compute_best_split (C16): with a gain that is not negative the samples up to the split position have smaller (symbolic: the '
               'same) values than (as) the others', 'a required improvement is not negative', 'values of the data are finite and in the domain',
               'fitting of distributions (C07, C12)')
    loops = {'JPT.c45#L1': LC(inv=fitted, modifies=lambda st: [st.leaf.distributions])}

    def setup(self, E, a):
        E.spec = a
        a._E = E
        a._N, a._V, a._start, a._end = E.int('samples'), E.int('variables'), E.int('start'), E.int('end')
        E.assume(And(a._start >= 0, a._start < a._end, a._end <= a._N, a._V >= 1))
        a._w, a._g = E.int('w'), E.int('g')
        E.assume(And(within(a._w, a._V), a._g >= a._start, a._g < a._end))
        a._kind = ('numeric', 'symbolic', 'integer')[E.choose(3)]
        a._data, a._var = Data(a), SplitVar(a, a._kind)
        a._depth, a._maxdepth, a._count = E.int('depth'), E.int('max depth'), E.int('nodes')
        a._child = E.int('child index')
        a._min = None if E.choose(2) == 0 else E.num('required gain')
        if a._min is not None:
            E.assume(And(a._min >= 0, a._min < math.inf))
        a._parent = None if E.choose(2) == 0 else Parent([])
        a._searched = False
        self.impurity = Impurity(a)
        C = jpt_class(TR + 'JPT')
        a._inner, a._leaves, a._queue = Recorded(), Recorded(), Recorded()
        keep = E.choose(2) == 0
        a._others = NS()
        a._tree = type('Tree', (C,), dict(
            __init__=lambda s: None, impurity=self.impurity, min_impurity_improvement=a._min, logger=Silent(), max_depth=a._maxdepth,
            variables=Vars(), allnodes=Counted(a), innernodes=a._inner, leaves=a._leaves, indices=Indices(), c45queue=a._queue, _keep_samples=keep,
            root=None if a._parent is None else a._others))()
        a._split = SB(z3.BoolVal(False))
        search = self.impurity.compute_best_split

        def then(start, end):
            gain = search(start, end)
            a._split = gain >= (0 if a._min is None else a._min)
            p, v = a._pos, a._data.val
            E.assume(Implies(a._split, And(p >= 0, p < a._end - a._start - 1, within(a._col, a._V))))
            a._mid = a._start + p
            lo, hi, x = v(a._mid), v(a._mid + 1), v(a._g)
            left = a._g <= a._mid
            if a._kind == 'symbolic':
                E.assume(Implies(a._split, And(Iff(x == lo, left), lo != hi)))
            else:
                E.assume(Implies(a._split, And(lo < hi, Implies(left, x <= lo), Implies(Not(left), x >= hi))))
            a._x = E.num('x') if a._kind == 'numeric' else E.int('x')
            if a._kind == 'numeric':
                E.assume(And(a._x > -math.inf, a._x < math.inf))
            return gain
        self.impurity.compute_best_split = then

    def call(self, a, fn):
        return fn(a._tree, a._data, a._start, a._end, a._parent, a._child, a._depth)

    def post(self, a, r, old):
        T = a._tree
        splits = a._inner.items != []
        node = (a._inner.items or a._leaves.items)[0][1] if a._inner.items or a._leaves.items else None
        p = a._parent
        res = {'one node is made': len(a._inner.items) + len(a._leaves.items) == 1 and (a._inner.items + a._leaves.items)[0][0] is node.idx,
               'it gets the next number': node.idx == a._count,
               'it is split if the split is good enough and the tree is not too deep': Iff(And(a._split, a._depth < a._maxdepth), splits),
               'it is the root, or the child of its parent': T.root is node if p is None else T.root is a._others and bool(p.calls) and And(
                   *[And(i == a._child, n is node) for i, n in p.calls]),
               'its parent': node.parent is p, 'its number of samples': node.samples == a._end - a._start}
        if not splits:
            d = node.distributions
            res.update({'its prior is the share of its samples': node.prior == (a._end - a._start) / a._N, 'every variable has the distribution of the samples of the leaf': And(d.some, d.right),
                        'nothing is left to do': len(a._queue.items) == 0})
            return res
        q, s, g, mid = a._queue.items, list(node.splits), a._g, a._mid
        if len(q) != 2 or len(s) != 2:
            return dict(res, **{'two children are to be made': False})
        res['the variable of the best split'] = node.variable is a._var
        for i, (d, lo, hi, n, c, depth) in enumerate(q):
            k = 'left' if i == 0 else 'right'
            res['%s: the child of the node, one level deeper, over the same data' % k] = And(d is a._data, n is node, c == i, depth == a._depth + 1)
            res['%s: a range that is not empty' % k] = And(lo >= a._start, lo < hi, hi <= a._end)
            res['%s: its samples are those with values in the set of the child' % k] = Iff(And(g >= lo, g < hi), has(s[i], a._data.val(g)))
        res['every value belongs to exactly one child'] = Iff(has(s[0], a._x), Not(has(s[1], a._x)))
        res['every sample belongs to exactly one child'] = Iff(And(g >= q[0][1], g < q[0][2]), Not(And(g >= q[1][1], g < q[1][2])))
        return res


class Counted(Abs):
    def __init__(self, a):
        self.a = a

    def __slen__(self):
        return self.a._count


# ------------------------------------------------------------------------------------------------ the whole tree
class Todo(Abs):
    """the queue: number of entries, of entries whose range contains position g, and a bound on the steps left"""
    _restorable = True

    def __init__(self):
        self._serial = next(rt.SERIAL)
        self.n, self.at, self.left = SI(z3.IntVal(0)), SI(z3.IntVal(0)), SI(z3.IntVal(0))

    def clear(self):
        sym.eng().touch(self)
        self.n, self.at, self.left = SI(z3.IntVal(0)), SI(z3.IntVal(0)), SI(z3.IntVal(0))

    def append(self, e):
        E, a = sym.eng(), sym.eng().spec
        E.touch(self)
        data, lo, hi, parent, child, depth = e
        if data is not a._data:
            raise Undecided('other data')
        E.require(And(lo >= 0, lo < hi, hi <= a._N), 'a range that is not empty')
        a._first = (parent, depth)
        self.add(lo, hi)

    def add(self, lo, hi):
        g = sym.eng().spec._g
        self.n, self.at, self.left = self.n + 1, self.at + If(And(g >= lo, g < hi), 1, 0), self.left + 2 * (hi - lo) - 1

    def popleft(self):
        E, a = sym.eng(), sym.eng().spec
        E.touch(self)
        if not bool(self.n > 0):
            raise IndexError('pop from an empty deque')
        lo, hi = E.int('start'), E.int('end')
        c = If(And(a._g >= lo, a._g < hi), 1, 0)
        E.assume(And(lo >= 0, lo < hi, hi <= a._N))
        self.n, self.at, self.left = self.n - 1, self.at - c, self.left - 2 * (hi - lo) + 1
        E.assume(And(self.at >= 0, self.at <= self.n, self.left >= self.n))
        return a._data, lo, hi, 'parent', 'child', 'depth'

    pop = popleft

    def __bool__(self):
        return bool(self.n > 0)

    def __slen__(self):
        return self.n

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.n, self.at, self.left = E.int('entries'), E.int('entries with g'), E.int('steps')
        E.assume(And(self.n >= 0, self.at >= 0, self.at <= self.n, self.left >= self.n))


class Counts(Abs):
    """the leaves: number of those whose range contains position g"""
    _restorable = True

    def __init__(self):
        self._serial = next(rt.SERIAL)
        self.at = SI(z3.IntVal(0))
        self.fresh = False

    def clear(self):
        sym.eng().touch(self)
        self.at, self.fresh = SI(z3.IntVal(0)), True

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.at = E.int('leaves with g')
        E.assume(self.at >= 0)


class ForW(Abs):
    """a map from variables: the entry of w"""
    _restorable = True

    def __init__(self, *a, **k):
        self._serial = next(rt.SERIAL)
        self.some, self.right = SB(z3.BoolVal(False)), SB(z3.BoolVal(False))

    def __setitem__(self, v, d):
        E, a = sym.eng(), sym.eng().spec
        E.touch(self)
        if bool(v.no == a._w):
            self.some, self.right = SB(z3.BoolVal(True)), d.right(v) if hasattr(type(d), 'right') else And(a._gaps == 0, d == 2)

    def __slen__(self):
        return sym.eng().spec._V

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.some, self.right = E.bool('entry'), E.bool('right')


class Dist(Abs):
    def __init__(self, ok, no):
        self.ok, self.no = ok, no

    def right(self, v):
        return And(self.ok, self.no == v.no)


class LVar(Abs):
    def __init__(self, no):
        self.no = no
        self.numeric = sym.eng().spec._numeric(no)

    def distribution(self):
        return self

    def _fit(self, data=None, rows=None, col=None):
        a = sym.eng().spec
        return Dist(SB(z3.BoolVal(data is a._data and rows is None)), col)


class LVars(Abs):
    def __init__(self, a):
        self.a = a

    def __symseq__(self):
        return self.a._V, LVar

    def items(self):
        return SymSeq(self.a._E, self.a._V, lambda k: ('name', LVar(k)))

    def __symenum__(self, start):
        return SymSeq(self.a._E, self.a._V, lambda k: (k + start, LVar(k)))

    def __slen__(self):
        return self.a._V

    def __symset__(self):
        return self

    def __sub__(self, o):
        return self

    def __eq__(self, o):
        return self is o or self.a._E.choose(2) == 0

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class Column(Abs):
    def __init__(self, no, ops=()):
        self.no, self.ops = no, ops

    def __slen__(self):
        n = sym.eng().spec._gaps
        return n

    def right(self, v):
        return And(self.no == v.no, SB(z3.BoolVal(self.ops == ('unique', 'diff', 'min'))), sym.eng().spec._gaps > 0)


class All(Abs):
    def __init__(self, a):
        self.a, self.shape = a, (a._N, a._V)

    def __slen__(self):
        return self.a._N

    def __getitem__(self, ix):
        if not isinstance(ix, tuple) or ix[0] != slice(None):
            raise Undecided('data')
        return Column(ix[1])


class Order(Abs):
    """an array of positions: kind 'ones' / 'zero, one, one' / 'identity'"""
    def __init__(self, n, kind):
        self.n, self.kind = n, kind

    def __setitem__(self, k, v):
        self.kind = 'zero, one, one' if k == 0 and v == 0 and self.kind == 'ones' else None

    def __slen__(self):
        return self.n


class LNP(Abs):
    int64 = int

    def __init__(self, raw):
        pass

    def unique(self, c):
        return Column(c.no, c.ops + ('unique',))

    def diff(self, c):
        return Column(c.no, c.ops + ('diff',))

    def ones(self, shape=None, dtype=None):
        return Order(shape[0], 'ones')

    def arange(self, n, dtype=None):
        return Order(n, 'identity')

    def cumsum(self, x, out=None):
        r = out if out is not None else Order(x.n, None)
        r.kind = 'identity' if x.kind == 'zero, one, one' else None
        return r


STUBS[TR + 'np/t'] = Wrap(LNP)
STUBS[TR + 'min/t'] = Value(lambda c: Column(c.no, c.ops + ('min',)))
STUBS[TR + 'VariableMap/t'] = Value(ForW)
STUBS[TR + 'mapstr/t'] = lambda raw, x: ['']


class TheImpurity(Abs):
    def from_tree(self, tree):
        a = sym.eng().spec
        a._impurity = NS(setup=lambda data, indices: setattr(a, '_set', (data, indices)))
        return a._impurity


STUBS[TR + 'JPT.logger/t'] = Value(Silent())
STUBS[TR + 'Impurity/t'] = Value(TheImpurity())


def mindist(st, L):
    a, d = L.E.spec, st.self.minimal_distances
    return {'distances of the numeric variables so far': Implies(And(L.k > a._w, a._numeric(a._w)), And(d.some, d.right))}


def priors(st, L):
    a, d = L.E.spec, st.self.priors
    return {'the distribution of every variable so far': Implies(L.k > a._w, And(d.some, d.right))}


def partition(st, L):
    t = st.self
    return {'every sample is in one leaf or in one range that is left': t.c45queue.at + t.leaves.at == 1}


@contract(TR + 'JPT.learn', ('C17',), uses=tuple(TR + n for n in ('np/t', 'min/t', 'VariableMap/t', 'mapstr/t', 'Impurity/t', 'JPT.logger/t')))
class _:
    mode = 'real'
    concrete = False
    frame = False
    assumes = ('contract of c45 (C17): it makes a leaf of the samples of the range, or divides them into two ranges that are not empty; positions are '
               'reordered within the range only (C16)', 'contracts of _preprocess_data (C13) and of the fitting of distributions (C07, C12)')
    loops = {'JPT.learn#L1': LC(inv=mindist, modifies=lambda st: [st.self.minimal_distances], local=('samples', 'distances')),
             'JPT.learn#L2': LC(inv=priors, modifies=lambda st: [st.self.priors]),
             'JPT.learn#L3': LC(inv=partition, modifies=lambda st: [st.self.c45queue, st.self.leaves], decreases=lambda st: st.self.c45queue.left)}

    def setup(self, E, a):
        E.spec = a
        a._E = E
        a._N, a._V, a._g, a._w, a._gaps = E.int('samples'), E.int('variables'), E.int('g'), E.int('w'), E.int('gaps')
        E.assume(And(a._N >= 0, a._V >= 1, within(a._w, a._V), a._gaps >= 0, Implies(a._N > 0, within(a._g, a._N))))
        a._numeric = fun(E, 'numeric', 'int', 'bool')
        a._data, a._set, a._closed = All(a), None, 0
        C = jpt_class(TR + 'JPT')
        a._given, a._close, a._keep = NS(), E.choose(2) == 0, NS()

        def c45(data, lo, hi, parent, child, depth):
            if (parent, child, depth) != ('parent', 'child', 'depth'):
                raise Undecided('a range of the queue')
            E.require(a._set is not None and a._set[0] is a._data, 'the search for splits is set up')
            E.touch(T.c45queue)
            E.touch(T.leaves)
            if E.choose(2) == 0:
                m = E.int('middle')
                E.assume(And(lo < m, m < hi))
                T.c45queue.add(lo, m)
                T.c45queue.add(m, hi)
            else:
                T.leaves.at = T.leaves.at + If(And(a._g >= lo, a._g < hi), 1, 0)

        def prepare(data=None, rows=None, columns=None):
            E.require(data is a._given and rows is None and columns is None, 'the data are those given')
            return a._data

        def close():
            E.require(T.c45queue.n == 0, 'gaps are closed in the end')
            a._closed += 1
        vs = LVars(a)
        T = a._tree = type('Tree', (C,), dict(
            __init__=lambda s: None, __str__=lambda s: 'tree', variables=vs, targets=vs if E.choose(2) == 0 else LVars(a), varnames=vs, logger=Silent(), _min_samples_leaf=7,
            innernodes=Counts(), leaves=Counts(), c45queue=Todo(), minimal_distances=ForW(), root=NS(), c45=lambda s, *x: c45(*x),
            _preprocess_data=lambda s, **k: prepare(**k), postprocess_leaves=lambda s: close()))()
        T.leaves.at, T.c45queue.n, T.c45queue.at = E.int('old'), E.int('old'), E.int('old')

    def call(self, a, fn):
        return fn(a._tree, a._given, keep_samples=a._keep, close_convex_gaps=a._close)

    def raises(self, a, exc, old):
        return a._N == 0 if isinstance(exc, ValueError) else None

    def post(self, a, r, old):
        T = a._tree
        d, i = T.minimal_distances, a._set[1]
        return {'the model itself': r is T, 'there are samples': a._N > 0, 'every sample is in exactly one leaf': And(T.c45queue.n == 0, T.leaves.at == 1),
                'nothing is left of an earlier model': T.innernodes.fresh and T.root is None,
                'the distribution of every variable over all samples': And(T.priors.some, T.priors.right),
                'the smallest distance of the values of numeric variables': Implies(a._numeric(a._w), And(d.some, d.right)),
                'the splits are searched for among all samples': a._set[0] is a._data and i is T.indices and i.kind == 'identity' and bool(i.n == a._N),
                'with the number of samples required': T.impurity is a._impurity and a._impurity.min_samples_leaf == 7,
                'samples are kept if wanted': T._keep_samples is a._keep, 'gaps are closed if wanted': a._closed == (1 if a._close else 0)}


# ------------------------------------------------------------------------------------------------ nodes
@contract(TR + 'DecisionNode.set_child', ('C17', 'C20'))
class _:
    mode = 'real'
    concrete = False
    frame = False

    def setup(self, E, a):
        from engine.seq import SymL
        E.spec = a
        a._E, a._lists = E, True
        n, a._c, a._i, a._j = E.int('path length'), E.int('children'), E.int('i'), E.int('j')
        E.assume(And(n >= 0, within(a._i, a._c), within(a._j, a._c)))
        step = fun(E, 'step', 'int', 'int')
        a._n, a._step, a._q = n, step, E.int('any step')
        C = jpt_class(TR + 'DecisionNode')
        a._path = SymL(E, n, step, 'path')
        a._split, a._var, a._node = fun(E, 'split', 'int', 'int'), NS(), NS(_path=None)
        child = fun(E, 'child', 'int', 'int')
        a._child = child
        a._self = C.__new__(C)
        a._self.__dict__.update(_path=a._path, children=SymL(E, a._c, child, 'children'), variable=a._var, _splits=SymL(E, a._c, a._split, 'splits'))

    def call(self, a, fn):
        return fn(a._self, a._i, a._node)

    def post(self, a, r, old):
        p, c, own = a._node._path, a._self.children, a._self._path
        res = {'it is the child': c.at(a._i) is a._node, 'no child is added': c.n == a._c,
               'other children stay': True if bool(a._j == a._i) else c.at(a._j) == a._child(a._j),
               'the path is longer by one step': p.n == a._n + 1, 'the path of the node itself is not changed': And(own.n == a._n, p is not own)}
        last = p.at(a._n)
        res['the last step is the split of the child'] = And(last[0] is a._var, last[1] == a._split(a._i))
        if bool(within(a._q, a._n)):
            res['the other steps are those of the node'] = And(p.at(a._q) == a._step(a._q), own.at(a._q) == a._step(a._q))
        return res


class Vec:
    """an array over the samples: its entry for an arbitrary sample"""
    __symobj__ = True

    def __init__(self, x):
        self.x = x

    @staticmethod
    def of(o):
        return o.x if isinstance(o, Vec) else o

    def _b(self, v):
        return v if isinstance(v, SB) else SB(z3.BoolVal(bool(v)))

    def __lt__(self, o): return Vec(self._cmp(Vec.of(o), '<'))
    def __le__(self, o): return Vec(self._cmp(Vec.of(o), '<='))
    def __gt__(self, o): return Vec(self._cmp(Vec.of(o), '>'))
    def __ge__(self, o): return Vec(self._cmp(Vec.of(o), '>='))

    def _cmp(self, o, op):
        x = self.x
        return self._b(x < o if op == '<' else x <= o if op == '<=' else x > o if op == '>' else x >= o)

    def __eq__(self, o):
        return Vec(self._b(self.x == Vec.of(o)))

    __hash__ = None

    def __and__(self, o):
        return Vec(And(self.x, Vec.of(o)))

    def __or__(self, o):
        return Vec(Or(self.x, Vec.of(o)))

    def __invert__(self):
        return Vec(Not(self.x))

    def __mul__(self, o):
        y = Vec.of(o)
        return Vec(If(y, self.x, 0) if isinstance(y, SB) else self.x * y)

    __rmul__ = __mul__

    def __bool__(self):
        raise Undecided('truth of an array')

    def astype(self, t):
        return self

    def __setitem__(self, mask, v):
        if not isinstance(mask, Vec) or not isinstance(mask.x, SB):
            raise Undecided('assignment to some samples')
        sym.eng().touch(self)
        self.x = If(mask.x, v, self.x)

    _restorable = True
    _serial = 0

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.x = E.real('entry')


class VNP(Abs):
    def __init__(self, raw):
        self.__dict__['raw'] = raw

    def ones(self, n, dtype=None):
        return Vec(SR(z3.RealVal(1)))

    def zeros(self, n, dtype=None):
        v = Vec(SR(z3.RealVal(0)))
        v._serial = next(rt.SERIAL)
        return v

    def isin(self, v, values):
        return Vec(values.has(v.x))


class Restriction(Abs):
    """the values a path allows a variable: is the sample's among them"""
    def __init__(self, yes):
        self.yes = yes

    def __slist__(self):
        return self

    def has(self, x):
        return self.yes


class Samples(Abs):
    def __slen__(self):
        return sym.eng().int('samples')

    def __getitem__(self, ix):
        if not isinstance(ix, tuple) or ix[0] != slice(None):
            raise Undecided('samples')
        a = sym.eng().spec
        return Vec(a._value(ix[1]))


STUBS[TR + 'np/c'] = Wrap(VNP)


def inside(st, L):
    a = L.E.spec
    return {'one if the values are allowed so far, zero otherwise': st.result.x == If(a._in(L.k), 1, 0)}


@contract(TR + 'Node.contains', ('C17', 'C24'), uses=(TR + 'np/c',))
class _:
    mode = 'real'
    concrete = False
    frame = False
    loops = {'Node.contains#L1': LC(inv=inside, modifies=lambda st: [], shapes=None, local=('values', 'index'),
                                    fresh={'result': lambda E, *x: Vec(E.real('result'))})}

    def setup(self, E, a):
        E.spec = a
        a._E = E
        a._n, a._in = E.int('steps'), fun(E, 'within', 'int', 'bool')
        E.assume(And(a._n >= 0, a._in(0)))
        a._value = fun(E, 'value', 'int', 'real')
        a._kinds, a._col = fun(E, 'kind', 'int', 'int'), fun(E, 'column', 'int', 'int')
        inc, exc = const('INC'), const('EXC')

        def at(k):
            v = NS(no=k)
            kind = E.choose(3)
            v.numeric, v.symbolic, v.integer = (kind == i for i in range(3))
            x = a._value(a._col(k))
            if kind == 0:
                r = Iv(E.real('lower') if E.choose(2) == 0 else -math.inf, E.real('upper') if E.choose(2) == 0 else math.inf,
                       (inc, exc)[E.choose(2)], (inc, exc)[E.choose(2)])
            else:
                r = Restriction(E.bool('allowed'))
            E.assume(Iff(a._in(k + 1), And(a._in(k), r.has(x))))
            return v, r
        a._path = NS(items=lambda: SymSeq(E, a._n, at))
        C = jpt_class(TR + 'Node')
        a._node = type('TheNode', (C,), dict(__init__=lambda s: None, path=a._path))()

        class Index(Abs):
            def __getitem__(self, v):
                return a._col(v.no)
        a._index = Index()

    def call(self, a, fn):
        return fn(a._node, Samples(), a._index)

    def post(self, a, r, old):
        return {'one for samples whose values are allowed by every step of the path, zero for others': r.x == If(a._in(a._n), 1, 0)}


STUBS[TR + 'VariableMap/e'] = Value(lambda pairs: pairs)


@contract(TR + 'JPT.encode', ('C17', 'C24'), uses=(TR + 'np/c', TR + 'VariableMap/e'))
class _:
    mode = 'real'
    concrete = False
    frame = False
    assumes = ('a sample lies in exactly one leaf (C17)', 'contract of _preprocess_data (C13)')
    loops = {'JPT.encode#L1': LC(inv=lambda st, L: {'the leaf of the sample, once it has been met': st.result.x == If(
        L.k > L.E.spec._u, L.E.spec._key(L.E.spec._u), 0)}, modifies=lambda st: [st.result], local=('contains',))}

    def setup(self, E, a):
        E.spec = a
        a._E = E
        n, a._u, v = E.int('leaves'), E.int('leaf of the sample'), E.int('variables')
        E.assume(And(within(a._u, n), v >= 1))
        a._key, a._j = fun(E, 'key', 'int', 'int'), E.int('any')
        C = jpt_class(TR + 'JPT')
        a._given, a._data = Samples(), Samples()

        def contains(k, samples, index):
            E.require(samples is a._data, 'the samples as the model reads them')
            m, at = index.__symseq__()
            E.require(m == v, 'the columns of the variables')
            if bool(within(a._j, m)):
                p = at(a._j)
                E.require(And(p[0].no == p[1], p[1] == a._j), 'in the order of the variables')
            one = If(k == a._u, 1, 0)
            return Vec(one)

        def prepare(x):
            E.require(x is a._given, 'the samples given')
            return a._data
        leaves = NS(items=lambda: SymSeq(E, n, lambda k: (a._key(k), NS(contains=lambda s, i: contains(k, s, i)))))
        a._tree = type('Tree', (C,), dict(__init__=lambda s: None, leaves=leaves, variables=SymSeq(E, v, lambda k: NS(no=k)),
                                          _preprocess_data=lambda s, x: prepare(x)))()

    def call(self, a, fn):
        return fn(a._tree, a._given)

    def post(self, a, r, old):
        return {'the key of the leaf of the sample': r.x == a._key(a._u)}


# ------------------------------------------------------------------------------------------------ conditioned leaves
class DMap(Abs):
    """the distributions of a leaf: how that of w has been restricted"""
    _restorable = True

    def __init__(self):
        self._serial = next(rt.SERIAL)
        self.crops, self.right = SI(z3.IntVal(0)), SB(z3.BoolVal(True))

    def __getitem__(self, v):
        return NS(var=v, _crop=lambda s: NS(var=v, set=s))

    def __setitem__(self, v, d):
        a = sym.eng().spec
        sym.eng().touch(self)
        if bool(v.no == a._w):
            self.crops, self.right = self.crops + 1, And(d.var.no == a._w, d.set.no == a._w)

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.crops, self.right = E.int('crops'), E.bool('right')


@contract(TR + 'Leaf.conditional_leaf', ('C20',))
class _:
    mode = 'real'
    concrete = False
    frame = False
    assumes = ('contract of copy (bounded): distributions of its own', 'contract of _crop (C08)')
    loops = {'Leaf.conditional_leaf#L1': LC(inv=lambda st, L: {'restricted to the evidence so far': And(
        st.result.distributions.crops == If(L.k > L.E.spec._w, 1, 0), st.result.distributions.right)}, modifies=lambda st: [st.result.distributions])}

    def setup(self, E, a):
        E.spec = a
        a._E = E
        n, a._w = E.int('evidence'), E.int('w')
        E.assume(And(n >= 0, a._w >= 0))
        a._n = n
        ev = NS(items=lambda: SymSeq(E, n, lambda k: (NS(no=k), NS(no=k))))
        m = importlib.import_module('jpt.variables')

        class Label(m.LabelAssignment):
            def __init__(self):
                pass

            def value_assignment(self):
                return ev
        a._ev = Label() if E.choose(2) == 0 else ev
        a._copy = NS(distributions=DMap())
        C = jpt_class(TR + 'Leaf')
        a._leaf = type('TheLeaf', (C,), dict(__init__=lambda s: None, copy=lambda s: a._copy))()

    def call(self, a, fn):
        return fn(a._leaf, a._ev)

    def post(self, a, r, old):
        d = a._copy.distributions
        return {'it is the copy': r is a._copy, 'the distribution of a variable is restricted to the evidence for it, if there is any':
                And(d.crops == If(a._w < a._n, 1, 0), d.right)}
