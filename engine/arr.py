"""Symbolic arrays of any size.

The contents of an array are a function from index tuples to values: an uninterpreted function, with the stores, fills
and copies made since layered on top of it.  Every access carries the obligation that its indices lie within the array
(the compiled code runs with boundscheck and wraparound off).  `facts` of a content are universally valid statements
about its elements within bounds; they are instantiated at every element that is read.

Prefix(name, term) is the sum  S(p..., k) = term(p..., 0) + ... + term(p..., k - 1), defined by primitive recursion over k;
its defining equation is instantiated wherever it is mentioned."""
import itertools

import z3

from . import rt, sym
from .sym import SB, SI, SR, Undecided, And, Implies

COUNT = itertools.count()
CLOCK = itertools.count()        # order of changes to arrays


def wrap(sort, e):
    return SR(e) if sort == 'real' else SI(e)


def unwrap(sort, v):
    return sym.zreal(v) if sort == 'real' else sym.zint(v)


def zix(i):
    if isinstance(i, (SI, int)) or hasattr(i, '__index__'):
        return sym.zint(i)
    raise Undecided('array index %r' % (i,))


DEPTH = [0]
LIMIT = 2            # facts are instantiated at elements that the program or a specification reads, and at those that
                     # the instances mention


def instantiate(E, facts, seen, shape, sort, ix, v, rd):
    if not facts or DEPTH[0] >= LIMIT:
        return
    key = tuple(z3.simplify(i).sexpr() for i in ix)
    if key in seen:
        return
    seen.add(key)
    inb = And(True, *[And(SI(i) >= 0, SI(i) < n) for i, n in zip(ix, shape)])
    DEPTH[0] += 1
    try:
        for f in list(facts):
            E.assume(Implies(inb, f([SI(i) for i in ix], wrap(sort, v), rd)))
    finally:
        DEPTH[0] -= 1


class Known:
    """contents with further facts"""

    def __init__(self, E, old, sort, shape, facts):
        self.E, self.old, self.sort, self.shape, self.facts, self.seen = E, old, sort, shape, facts, set()

    def __call__(self, ix):
        v = self.old(ix)
        instantiate(self.E, self.facts, self.seen, self.shape, self.sort, ix, v,
                    lambda *i: wrap(self.sort, self([sym.zint(x) for x in i])))
        return v


class Each:
    """loop invariant: fact(indices, value, read) holds of every element of the array"""

    def __init__(self, arr, fact):
        self.arr, self.fact = arr, fact

    def goal(self, E):
        a = self.arr
        ix = [E.int('any') for _ in a.shape]
        return Implies(And(True, *[And(i >= 0, i < n) for i, n in zip(ix, a.shape)]), self.fact(ix, a.at(*ix), a.at))

    def assume_in(self, E):
        a = self.arr
        a.content = Known(E, a.content, a.sort, a.shape, [self.fact])


class Induct(Each):
    """lemma by induction over the position: from(i) is an earlier position; proved where the invariant is assumed"""

    def __init__(self, arr, fact, before, label):
        self.arr, self.fact, self.before, self.label = arr, fact, before, label

    def goal(self, E):
        return True

    def assume_in(self, E):
        a = self.arr
        i = E.int('any')
        b = self.before(i)
        hyp = Implies(And(b >= 0, b < i), self.fact([b], a.at(b), a.at))
        E.require(Implies(And(i >= 0, i < a.shape[0], hyp), self.fact([i], a.at(i), a.at)), 'lemma by induction: ' + self.label)
        super().assume_in(E)


class Base:
    """unknown contents"""

    def __init__(self, E, name, dim, sort, shape, facts=()):
        self.E, self.sort, self.dim, self.shape, self.facts = E, sort, dim, shape, tuple(facts)
        rng = z3.RealSort() if sort == 'real' else z3.IntSort()
        self.f = z3.Function('%s!%d' % (name, next(COUNT)), *([z3.IntSort()] * dim + [rng]))
        self.seen = set()

    def __call__(self, ix):
        v = self.f(*ix)
        instantiate(self.E, self.facts, self.seen, self.shape, self.sort, ix, v,
                    lambda *i: wrap(self.sort, self([sym.zint(x) for x in i])))
        return v


class Const:
    def __init__(self, e):
        self.e = e

    def __call__(self, ix):
        return self.e


class Store:
    def __init__(self, old, ix, e):
        self.old, self.ix, self.e = old, ix, e

    def __call__(self, ix):
        c = z3.simplify(z3.And(*[a == b for a, b in zip(ix, self.ix)]))
        if z3.is_true(c):
            return self.e
        if z3.is_false(c):
            return self.old(ix)
        return z3.If(c, self.e, self.old(ix))


class Region:
    """the elements of a view are replaced, the others kept"""

    def __init__(self, old, inside, new):
        self.old, self.inside, self.new = old, inside, new

    def __call__(self, ix):
        c = z3.simplify(self.inside(ix))
        if z3.is_true(c):
            return self.new(ix)
        if z3.is_false(c):
            return self.old(ix)
        return z3.If(c, self.new(ix), self.old(ix))


class SymArr:
    __symobj__ = True
    __sym__ = False

    def __init__(self, E, name, shape, sort='real', facts=()):
        self.E, self.name, self.shape, self.sort = E, name, tuple(shape), sort
        self.content = Base(E, name, len(self.shape), sort, self.shape, facts)
        self._serial = next(rt.SERIAL)
        for n in self.shape:
            E.assume(n >= 0)

    @property
    def content(self):
        log = getattr(self.E, 'rlog', None)
        if log is not None:
            log.append(self)
        return self._content

    @content.setter
    def content(self, c):
        self._content = c
        self._changed = next(CLOCK)

    def __isa__(self, cls):
        return False

    def __deepcopy__(self, memo):
        raise Undecided('copy of a symbolic array')

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        if len(self.shape) != 1:
            raise Undecided('size of a matrix')
        return self.shape[0]

    def slen(self):
        return self.shape[0]

    def __len__(self):
        raise Undecided('len() of a symbolic array')

    def __bool__(self):
        raise Undecided('truth value of a symbolic array')

    def __iter__(self):
        raise Undecided('iteration over a symbolic array')

    def __contains__(self, v):
        m = getattr(self.content, 'member', None)
        if m is None:
            raise Undecided('membership in a symbolic array')
        return bool(m(v))

    def __symseq__(self):
        n = self.shape[0]
        return SI(sym.zint(n)), (lambda k: self.at(k))

    def __havoc__(self, E, c, facts=()):
        self.content = Base(E, self.name, len(self.shape), self.sort, self.shape, facts)

    def snapshot(self):
        s = object.__new__(SymArr)
        s.__dict__.update(self.__dict__)
        s._serial = next(rt.SERIAL)
        return s

    # -- specification access: no obligations
    def at(self, *ix):
        return wrap(self.sort, self.content([sym.zint(i) for i in ix]))

    # -- program access
    def _keys(self, key):
        key = list(key) if isinstance(key, tuple) else [key]
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            key[i:i + 1] = [slice(None)] * (len(self.shape) - len(key) + 1)
        while len(key) < len(self.shape):
            key.append(slice(None))
        if len(key) != len(self.shape):
            raise Undecided('number of indices')
        return key

    def _bound(self, i, d):
        i = zix(i)
        self.E.require(And(SI(i) >= 0, SI(i) < self.shape[d]), 'index %d of %s is within its bounds' % (d, self.name))
        return i

    def _view(self, key):
        m, shape = [], []
        for d, k in enumerate(key):
            if isinstance(k, slice):
                if k.step is not None and k.step != 1:
                    raise Undecided('slice step')
                n = self.shape[d]
                lo = 0 if k.start is None else k.start
                hi = n if k.stop is None else k.stop
                if not (k.start is None and k.stop is None):
                    self.E.require(And(lo >= 0, hi <= n, lo <= hi), 'slice of %s is within its bounds' % self.name)
                m.append(('rng', sym.zint(lo)))
                shape.append(hi if k.start is None else SI(sym.zint(hi) - sym.zint(lo)))
            else:
                m.append(('fix', self._bound(k, d)))
        return View(self, m, shape)

    def __getitem__(self, key):
        key = self._keys(key)
        if any(isinstance(k, slice) for k in key):
            return self._view(key)
        ix = [self._bound(k, d) for d, k in enumerate(key)]
        return wrap(self.sort, self.content(ix))

    def __setitem__(self, key, v):
        key = self._keys(key)
        if any(isinstance(k, slice) for k in key):
            return self._view(key)._fill(v)
        ix = [self._bound(k, d) for d, k in enumerate(key)]
        self.store(ix, unwrap(self.sort, v))

    def store(self, ix, e):
        self.E.touch(self)
        self.content = Store(self.content, ix, e)

    def _root(self):
        return self

    def _fill_src(self, v, shape):
        """source of an assignment to a view of that shape: a function of the view's indices"""
        if isinstance(v, (SymArr, View)):
            if len(v.shape) != len(shape):
                raise Undecided('assignment of an array of another dimension')
            for a, b in zip(v.shape, shape):
                self.E.require(SI(sym.zint(a)) == b, 'shapes of both sides of the assignment agree')
            if v.sort != self.sort:
                raise Undecided('assignment between arrays of different type')
            return v.frozen()
        if hasattr(v, '__len__'):
            raise Undecided('assignment of %s' % type(v).__name__)
        e = unwrap(self.sort, v)
        return lambda ix: e

    def frozen(self):
        c = self.content
        return lambda ix: c(ix)


class View:
    """a[lo:hi], a[i, :] ... - shares the elements of its array"""
    __symobj__ = True
    __sym__ = False

    def __init__(self, arr, m, shape):
        self.arr, self.m, self.shape = arr, m, tuple(shape)
        self.E, self.sort, self.name = arr.E, arr.sort, arr.name
        self._serial = next(rt.SERIAL)

    def __isa__(self, cls):
        return False

    ndim, size = SymArr.ndim, SymArr.size
    __len__, __bool__, __iter__ = SymArr.__len__, SymArr.__bool__, SymArr.__iter__
    _keys, _bound, _view, __getitem__, __setitem__ = (SymArr._keys, SymArr._bound, SymArr._view, SymArr.__getitem__,
                                                      SymArr.__setitem__)
    _fill_src, __symseq__, slen = SymArr._fill_src, SymArr.__symseq__, SymArr.slen

    def _root(self):
        return self.arr._root()

    def _ix(self, ix):
        it = iter(ix)
        return [e if k == 'fix' else e + next(it) for k, e in self.m]

    def _inv(self, ix):
        """condition that an element of the array lies in the view, its indices there"""
        cs, out, s = [], [], iter(self.shape)
        for (k, e), i in zip(self.m, ix):
            if k == 'fix':
                cs.append(i == e)
            else:
                n = sym.zint(next(s))
                cs.append(z3.And(i >= e, i < e + n))
                out.append(i - e)
        return (z3.And(*cs) if cs else z3.BoolVal(True)), out

    @property
    def content(self):
        a = self.arr.content
        return lambda ix: a(self._ix(ix))

    def frozen(self):
        a = self.arr.frozen()
        return lambda ix: a(self._ix(ix))

    def at(self, *ix):
        return wrap(self.sort, self.content([sym.zint(i) for i in ix]))

    def store(self, ix, e):
        self.arr.store(self._ix(ix), e)

    def _region(self, inside, new):
        self.arr._region(lambda ix: z3.And(self._inv(ix)[0], inside(self._inv(ix)[1])),
                         lambda ix: new(self._inv(ix)[1]))

    def _fill(self, v):
        src = self._fill_src(v, self.shape)
        self._region(lambda ix: z3.BoolVal(True), src)

    def __havoc__(self, E, c, facts=()):
        raise Undecided('havoc of a view')


def _region(self, inside, new):
    self.E.touch(self)
    # every element within the bounds belongs to the array: those conditions need not be stated
    self.content = Region(self.content, inside, new)


SymArr._region = _region


class Prefix:
    """sum of term(p..., i) over i < k, from the last i with reset(i) on"""

    def __init__(self, E, name, term, dim=1, sort='real', reset=None):
        self.E, self.term, self.sort, self.reset = E, term, sort, reset
        rng = z3.RealSort() if sort == 'real' else z3.IntSort()
        self.f = z3.Function('%s!%d' % (name, next(COUNT)), *([z3.IntSort()] * (dim + 1) + [rng]))
        self.seen = set()

    def __call__(self, *a):
        *p, k = [sym.zint(x) for x in a]
        key = tuple(z3.simplify(x).sexpr() for x in p + [k])
        v = self.f(*p, k)
        if key not in self.seen:
            self.seen.add(key)
            t = unwrap(self.sort, self.term(*[SI(x) for x in p], SI(k - 1)))
            zero = z3.RealVal(0) if self.sort == 'real' else z3.IntVal(0)
            before = self.f(*p, k - 1)
            if self.reset is not None:
                before = z3.If(sym.zbool(self.reset(SI(k - 1))), zero, before)
            self.E.assume(SB(z3.If(k <= 0, v == zero, v == before + t)))
        return wrap(self.sort, v)


def fun(E, name, *sorts):
    """an uninterpreted function; sorts: 'int' / 'real', the last one of the result"""
    S = {'int': z3.IntSort(), 'real': z3.RealSort()}
    f = z3.Function(name, *[S[s] for s in sorts])
    return lambda *a: wrap(sorts[-1], f(*[unwrap(s, x) for s, x in zip(sorts, a)]))


class SymCell:
    """a C variable passed by its address"""
    __symobj__ = True

    def __init__(self, E, mk, v=None):
        self.E, self.mk, self.v = E, mk, v
        self._serial = next(rt.SERIAL)

    def __isa__(self, cls):
        return False

    def __getitem__(self, i):
        if i != 0:
            raise Undecided('pointer arithmetic')
        return self.v

    def __setitem__(self, i, v):
        if i != 0:
            raise Undecided('pointer arithmetic')
        self.E.touch(self)
        self.v = v

    def __havoc__(self, E, c):
        self.v = self.mk(E)
