"""Sequences, sets and maps of symbolic size, given by their elements: element k is at(k).

A comprehension over such a sequence without a contract of its own is the sequence of its images, evaluated when an element
is looked at (the exceptions it may raise are explored at an arbitrary element when it is built).  Sums: the sums
that a specification declares (E.spec._sums: name -> Sum) are tried; a sum whose summand equals that of the program at an
arbitrary position is that sum (induction over the number of summands), otherwise the result is an unknown number."""
import builtins as _b
import os
import sys

import z3

from . import rt, sym
from .arr import SymArr, View, Prefix, CLOCK
from .hlist import AUTO
from .sym import SB, SI, SR, Undecided, PathEnd, And, Or, Not, Implies, If


HERE = os.path.dirname(os.path.abspath(__file__))


def within(k, n):
    return And(k >= 0, k < n)


class Sum:
    """the sum of term(i) over i < n"""

    def __init__(self, E, name, n, term, sort='real'):
        self.P, self.n, self.term, self.sort = Prefix(E, name, term, 0, sort), n, term, sort

    def __call__(self, k=None):
        return self.P(self.n if k is None else k)


class SymSeq:
    __symobj__ = True
    __sym__ = False

    def __init__(self, E, n, at, key='seq', cond=None):
        self.E, self.n, self._at, self.key, self.cond = E, n, at, key, cond
        self.base, self.facts, self.witnesses, self.looked = None, [], [], []
        self._serial = next(rt.SERIAL)

    def __isa__(self, cls):
        return False

    def at(self, k):
        k = SI(sym.zint(k))
        if not any(k.e.eq(j.e) for j in self.looked):
            self.looked.append(k)
        fs, self.facts = self.facts, []
        try:
            for f in fs:        # what is known of every element
                f(k)
        finally:
            self.facts = fs
        return self._at(k)

    def _no(self, *a):
        raise Undecided('a sequence of symbolic length')

    __len__ = __bool__ = __iter__ = _no

    def __contains__(self, v):
        E = self.E
        if E.choose(2) == 0:
            k = E.int('where')
            E.assume(within(k, self.n))
            if self.cond is not None and not self.cond(k):
                raise PathEnd()
            E.assume(self.at(k) == v)
            return True
        self.everywhere(lambda k: Not(self.at(k) == v))
        return False

    def none(self):
        """no element meets the condition"""
        c, plain = self.cond, SymSeq(self.E, self.n, self._at)
        plain.base = self.base if self.base is not None else self
        plain.everywhere(lambda k: not c(k))

    def everywhere(self, fact):
        """a fact about every position; it is used at the positions of the underlying sequence that are looked at"""
        E = self.E
        base = self.base if self.base is not None else self
        state = State(E)

        def use(k):
            ok, c = state.run(lambda: fact(k) if bool(within(k, self.n)) and (self.cond is None or self.cond(k)) else True)
            if ok:
                E.assume(c)
        base.facts.append(use)
        for k in base.looked:
            use(k)

    def __slen__(self):
        if self.cond is not None:
            n = self.E.int('length')
            self.E.assume(And(n >= 0, n <= self.n))
            return n
        return self.n

    def __symseq__(self):
        if self.cond is not None:
            raise Undecided('loop over a filtered sequence')
        return SI(sym.zint(self.n)), self.at

    def __getitem__(self, i):
        if isinstance(i, slice) or self.cond is not None:
            raise Undecided('slice of a sequence of symbolic length')
        if isinstance(i, int) and i < 0:
            i = self.n + i
        if not bool(within(i, self.n)):
            raise IndexError('list index out of range')
        return self.at(i)

    def __symzip__(self, args):
        return zipped(self.E, args)

    def __symenum__(self, start):
        if self.cond is not None:
            raise Undecided('enumeration of a filtered sequence')
        return SymSeq(self.E, self.n, lambda k: (k + start, self.at(k)))

    def __ssum__(self):
        return ssum(self)

    def __symset__(self):
        return SymSet(self)

    def __slist__(self):
        if self.cond is not None:
            raise Undecided('list of a filtered sequence')
        return SymL(self.E, self.n, self.at)

    def example(self):
        E = self.E
        if E.choose(2) == 0:
            for k in self.base.witnesses if self.base is not None else ():
                if bool(within(k, self.n)) and (self.cond is None or self.cond(k)):
                    raise PathEnd()
            raise StopIteration()
        k = E.int('first')
        E.assume(within(k, self.n))
        if self.cond is not None and not self.cond(k):
            raise PathEnd()
        return self.at(k)

    def quant(self, which):
        """any / all"""
        E, want = self.E, which == 'any'
        if E.choose(2) == 0:            # an element with that value exists
            k = E.int('some')
            E.assume(within(k, self.n))
            if self.cond is not None and not self.cond(k):
                raise PathEnd()
            if bool(self.at(k)) is not want:
                raise PathEnd()
            for q in (self, self.base):
                if q is not None:
                    q.witnesses.append(k)
            return want
        self.everywhere(lambda k: bool(self.at(k)) is not want)
        return not want


def seqof(x):
    if isinstance(x, SymSeq):
        if x.cond is not None:
            raise Undecided('zip of a filtered sequence')
        return x.n, x.at
    f = getattr(x, '__symseq__', None)
    if f is not None:
        return f()
    r = getattr(x, '__symrange__', None)
    if r is not None:
        return r()
    raise Undecided('zip with %s' % type(x).__name__)


def zipped(E, args):
    xs = [seqof(a) for a in args]
    n = xs[0][0]
    for m, _ in xs[1:]:
        n = n if n is m else If(m < n, m, n)
    return SymSeq(E, n, lambda k: tuple(at(k) for _, at in xs))


def site():
    """where the program under proof is"""
    f = sys._getframe(1)
    while f is not None and os.path.dirname(f.f_code.co_filename) == HERE:
        f = f.f_back
    return '' if f is None else '@%s:%d' % (f.f_code.co_name, f.f_lineno)


def ssum(s, key=None):
    E = sym.eng()
    n, at = (s.n, s.at) if isinstance(s, SymSeq) else s.__symseq__()
    cond = getattr(s, 'cond', None)
    key = key or getattr(s, 'key', 'array')
    if key in ('array', 'seq'):
        key += site()
    for nm, S in getattr(E.spec, '_sums', {}).items():
        cid = ('sum', key, nm)
        if cid in E.auto_dropped:
            continue
        if E.choose(2) == 0:
            k = E.int('any')
            E.assume(within(k, n))
            y = at(k) if cond is None or cond(k) else 0
            E.prove(y == S.term(k), '%s%r|sum is "%s"' % (AUTO, cid, nm))
            E.prove(n == S.n, '%s%r|sum is "%s"' % (AUTO, cid, nm))
            raise PathEnd()
        return S(n)
    return E.real('unspecified_sum')


def comprehension(E, key, kind, it, fn, cond):
    items = getattr(it, 'items_', None)
    if items is not None:
        r = [fn(x) for x in items if cond is None or bool(cond(x))]
        return r if kind != 'set' else mkset(r)
    n, at = seqof(it)
    run = frozen(E, fn, cond) if kind != 'gen' else lambda f: f()

    def elem(k):
        return run(lambda: fn(at(k)))

    def keep(k):
        return run(lambda: bool(cond(at(k))))
    image = SymSeq(E, n, elem, key, None if cond is None else keep)
    image.base = it if isinstance(it, SymSeq) else it.seq if isinstance(it, SymSet) else None
    if E.choose(2) == 0:        # exceptions of an arbitrary element
        k = E.int('any')
        E.assume(within(k, n))
        if cond is None or bool(cond(at(k))):
            fn(at(k))
        raise PathEnd()
    if kind == 'list' and cond is None and getattr(E.spec, '_lists', False):
        return SymL(E, n, image.at)
    return SymSet(image, distinct=False) if kind == 'set' else image


def frozen(E, *fns):
    """elements are evaluated when they are looked at; check that nothing they depend on has changed since"""
    cells = [(c, c.cell_contents) for f in fns if f is not None for c in f.__closure__ or () if _full(c)]
    state = State(E)

    def run(f):
        if any(c.cell_contents is not v for c, v in cells):
            raise Undecided('a variable has changed since a comprehension was built')
        ok, r = state.run(f)
        if not ok:
            raise Undecided('state has changed since a comprehension was built')
        return r
    return run


class State:
    """what the program's state was at this moment"""

    def __init__(self, E):
        self.E, self.version, self.clock, self.serial = E, len(E.wlog), next(CLOCK), next(rt.SERIAL)

    def run(self, f):
        """(whether nothing has changed that f looks at, f()); objects whose former attributes are known have them for the time being"""
        E = self.E
        outer, E.rlog = getattr(E, 'rlog', None), []
        now, ok = [], True
        for o, d in zip(E.wlog[self.version:], E.undo[self.version:]):
            if isinstance(o, (SymArr, View)) or any(o is p for p, _ in now) or o.__dict__.get('_serial', -1) > self.serial:
                continue
            if d is None:
                ok = False
                continue
            now.append((o, dict(o.__dict__)))
            _restore(o, d)
        size = len(E.wlog)
        try:
            r = f()
        finally:
            for o in E.wlog[size:]:
                ok = ok and not any(o is p for p, _ in now)
            for o, d in now:
                _restore(o, d)
            log, E.rlog = E.rlog, outer
            if outer is not None:
                outer.extend(log)
        return ok and all(a._changed < self.clock for a in log), r


def _restore(o, d):
    o.__dict__.clear()
    o.__dict__.update(d)


def _full(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


class SymL(list):
    """a list of n elements; element k is gen(k), made when it is first looked at and kept from then on"""
    _restorable = True
    __symobj__ = True
    __sym__ = False
    __hash__ = None

    def __new__(cls, *a, **k):
        return list.__new__(cls)

    def __init__(self, E, n, gen, name='list'):
        list.__init__(self)
        self.E, self.n, self.gen, self.name, self.entries, self.facts = E, n, gen, name, [], []
        self._serial = next(rt.SERIAL)
        for j in getattr(E.spec, '_positions', ()):        # while the state is as it is now
            if bool(within(j, n)):
                self.at(j)

    @staticmethod
    def of(E, l):
        r = SymL(E, 0, _nothing)
        r.n, r.entries = len(l), [(SI(z3.IntVal(i)), x) for i, x in enumerate(l)]
        return r

    def __isa__(self, cls):
        return False

    def at(self, k):
        k = SI(sym.zint(k))
        for i, x in self.entries:
            if i.e.eq(k.e):
                return x
        for i, x in self.entries:
            if bool(i == k):
                return x
        x = self.gen(k)
        fs, self.facts = self.facts, []
        self.entries.append((k, x))
        try:
            for f in fs:
                self.E.assume(Implies(within(k, self.n), f(k, x)))
        finally:
            self.facts = fs
        return x

    def clone(self):
        r = list.__new__(SymL)
        r.__dict__.update(self.__dict__)        # also what is found out about the elements later on
        r._serial = next(rt.SERIAL)
        return r

    def _touch(self):
        self.E.touch(self)

    def _become(self, n, gen):
        self._touch()
        self.n, self.gen, self.entries, self.facts = n, gen, [], []

    def _index(self, i):
        if isinstance(i, int) and i < 0:
            i = self.n + i
        if not bool(within(i, self.n)):
            raise IndexError('list index out of range')
        return SI(sym.zint(i))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        return self.at(self._index(i))

    def _slice(self, s):
        if s.step not in (None, 1):
            raise Undecided('slice step')
        old, n = self.clone(), self.n
        lo, hi = (d if x is None else n + x if isinstance(x, int) and x < 0 else x for x, d in ((s.start, 0), (s.stop, n)))
        if not bool(And(lo >= 0, lo <= hi, hi <= n)):
            raise Undecided('slice beyond the list %r %r %r' % (lo, hi, n))
        return SymL(self.E, hi - lo, lambda k: old.at(k + lo), self.name)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Undecided('slice assignment')
        i = self._index(i)
        old = self.clone()
        self._become(self.n, old.at)
        self.entries = [(i, v)]

    def append(self, v):
        old, n = self.clone(), self.n
        self._become(n + 1, lambda k: v if bool(k == n) else old.at(k))

    def insert(self, i, v):
        old, n = self.clone(), self.n
        if not bool(And(i >= 0, i <= n)):
            raise Undecided('insertion beyond the list')
        self._become(n + 1, lambda k: v if bool(k == i) else old.at(k) if bool(k < i) else old.at(k - 1))

    def pop(self, i=-1):
        i = self._index(i)
        old, v = self.clone(), self.at(i)
        self._become(self.n - 1, lambda k: old.at(k) if bool(k < i) else old.at(k + 1))
        return v

    def __delitem__(self, i):
        self.pop(i)

    def __add__(self, o):
        a, b = self.clone(), o.clone() if isinstance(o, SymL) else SymL.of(self.E, o)
        return SymL(self.E, a.n + b.n, lambda k: a.at(k) if bool(k < a.n) else b.at(k - a.n), self.name)

    def extend(self, o):
        r = self + o
        self._become(r.n, r.at)

    def __slen__(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def _no(self, *a, **k):
        raise Undecided('operation on a list of symbolic length')

    def __reversed__(self):
        old = self.clone()
        return SymL(self.E, self.n, lambda k: old.at(old.n - 1 - k), self.name)

    def __slist__(self):
        return self.clone()

    def __radd__(self, o):
        return SymL.of(self.E, o) + self

    __len__ = __iter__ = __contains__ = __eq__ = __ne__ = __lt__ = __iadd__ = __mul__ = __rmul__ = __imul__ = _no
    remove = index = count = sort = reverse = clear = _no

    def copy(self):
        return self.clone()

    def __symseq__(self):
        return SI(sym.zint(self.n)), self.at

    def __symzip__(self, args):
        return zipped(self.E, args)

    def __symenum__(self, start):
        return SymSeq(self.E, self.n, lambda k: (k + start, self.at(k)))

    def __havoc__(self, E, c, kind=None):
        mk = c.kinds(self) if c and c.kinds else None
        if mk is None:
            raise Undecided('havoc of a list without a declared kind of elements')
        n = E.int(self.name + '.n')
        E.assume(n >= 0)
        self._touch()
        self.n, self.gen, self.entries, self.facts = n, mk, [], []


def _nothing(k):
    raise PathEnd()


class Every:
    """loop invariant: fact(position, element) of every element of a list"""
    frozen = alone = True

    def __init__(self, l, fact):
        self.l, self.fact = l, fact

    def goal(self, E):
        k = E.int('any')
        if not bool(within(k, self.l.n)):
            return True
        return self.fact(k, self.l.at(k))

    def assume_in(self, E):
        l, f = self.l, self.fact
        l.facts.append(f)
        for k, x in list(l.entries):
            E.assume(Implies(within(k, l.n), f(k, x)))


def mkset(l):
    if any(getattr(x, '__sym__', False) for x in l):
        if len(l) != 1:
            raise Undecided('set of several symbolic values')
        return SymSet.single(sym.eng(), l[0])
    return set(l)


class SymSet(set):
    """the set of the elements of a sequence; member: membership, if known in closed form"""
    __symobj__ = True
    __sym__ = False

    def __new__(cls, *a, **k):
        return set.__new__(cls)

    def __init__(self, seq, member=None, distinct=None):
        set.__init__(self)
        if not isinstance(seq, SymSeq):
            raise Undecided('set of %s' % type(seq).__name__)
        self.seq, self.member, self.E = seq, member, seq.E
        self.distinct = member is not None if distinct is None else distinct
        self._serial = next(rt.SERIAL)

    @staticmethod
    def single(E, x):
        s = SymSet(SymSeq(E, 1, lambda k: x), lambda v: v == x)
        s.items_ = [x]
        return s

    @staticmethod
    def fresh(E, name, fact=None):
        """any set of integers"""
        m = E.int(name + '.size')
        E.assume(m >= 0)
        mem = z3.Function(name + '.member', z3.IntSort(), z3.BoolSort())
        el = z3.Function(name + '.element', z3.IntSort(), z3.IntSort())

        def at(k):
            v = SI(el(sym.zint(k)))
            E.assume(Implies(within(k, m), And(SB(mem(v.e)), True if fact is None else fact(v))))
            return v
        q, idx = SymSeq(E, m, at, name), z3.Function(name + '.index', z3.IntSort(), z3.IntSort())

        def member(v):
            c = SB(mem(sym.zint(v)))
            k = SI(idx(sym.zint(v)))
            E.assume(Implies(c, And(within(k, m), q.at(k) == v)))
            return c
        return SymSet(q, member)

    def _no(self, *a):
        raise Undecided('operation on a symbolic set')

    __len__ = __iter__ = __or__ = __and__ = __sub__ = __xor__ = _no
    __eq__ = object.__eq__
    __ne__ = object.__ne__
    __hash__ = object.__hash__

    def __bool__(self):
        q = self.seq
        if q.cond is None:
            return bool(q.n > 0)
        if self.E.choose(2) == 0:
            k = self.E.int('some')
            self.E.assume(within(k, q.n))
            if not q.cond(k):
                raise PathEnd()
            return True
        q.none()
        return False

    def __slen__(self):
        n = self.seq.__slen__()
        if not self.distinct:
            m = self.E.int('size')
            self.E.assume(And(m >= If(n > 0, 1, 0), m <= n))
            return m
        return n

    def __contains__(self, v):
        if self.member is None:
            return v in self.seq
        return bool(self.member(v))

    def __symseq__(self):
        return self.seq.__symseq__()

    def __ssum__(self):
        if not self.distinct:
            raise Undecided('sum over a set of images')
        return self.seq.__ssum__()

    def __symset__(self):
        return self

    def __symsorted__(self, key, reverse):
        if key is not None:
            raise Undecided('sorting of a symbolic set')
        return Ranked(self, reverse)


class Ranked:
    """the elements of a set of numbers in ascending / descending order: its first element is the extreme one"""
    __symobj__ = True

    def __init__(self, s, reverse):
        self.s, self.reverse, self.E = s, reverse, s.E

    def __getitem__(self, i):
        if not (isinstance(i, slice) and i.start is None and i.step is None and i.stop == 1):
            raise Undecided('slice of a sorted set')
        E, q = self.E, self.s.seq
        if E.choose(2) == 0:
            E.spec._extreme = (q, None, None, None)
            return []
        k = E.int('extreme')
        E.assume(within(k, q.n))
        if q.cond is not None and not q.cond(k):
            raise PathEnd()
        m = q.at(k)
        E.spec._extreme = (q, k, m, self.reverse)
        return [m]


def extreme_at(E, j):
    """what the choice of the extreme element says of the element at j: it is not beyond it (or not in the set)"""
    q, k, m, reverse = E.spec._extreme
    if not bool(within(j, q.n)) or q.cond is not None and not q.cond(j):
        return
    E.assume(False if m is None else q.at(j) <= m if reverse else q.at(j) >= m)


class SymDict:
    """ordered map: n entries, entry k is key(k): val(k); has and get in closed form"""
    __symobj__ = True
    __sym__ = False

    def __init__(self, E, n, key, val, has, get):
        self.E, self.n, self.key_at, self.val_at, self.has, self.lookup = E, n, key, val, has, get

    def __isa__(self, cls):
        return False

    def values(self):
        return SymSeq(self.E, self.n, self.val_at)

    def keys(self):
        return SymSeq(self.E, self.n, self.key_at)

    def items(self):
        return SymSeq(self.E, self.n, lambda k: (self.key_at(k), self.val_at(k)))

    def __symseq__(self):
        return self.keys().__symseq__()

    def __symzip__(self, args):
        return zipped(self.E, args)

    def __symenum__(self, start):
        return self.keys().__symenum__(start)

    def __symset__(self):
        return SymSet(self.keys(), self.has)

    def __slen__(self):
        return self.n

    def __len__(self):
        raise Undecided('len() of a symbolic map')

    def __iter__(self):
        raise Undecided('iteration over a symbolic map')

    def __contains__(self, k):
        return bool(self.has(k))

    def __getitem__(self, k):
        if not self.has(k):
            raise KeyError(k)
        return self.lookup(k)

    __call__ = __getitem__

    def get(self, k, default=None):
        return self.lookup(k) if self.has(k) else default

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self        # noqa


# ------------------------------------------------------------------------------------------------ vector arithmetic
class Fn:
    def __init__(self, f):
        self.f = f

    def __call__(self, ix):
        return self.f(ix)


def elementwise(a, o, f):
    """content of f(a, o), element by element"""
    x = a.frozen()
    if isinstance(o, (SymArr, View)):
        if len(o.shape) != len(a.shape):
            raise Undecided('arithmetic of arrays of different dimension')
        for m, n in zip(o.shape, a.shape):
            a.E.require(SI(sym.zint(m)) == n, 'shapes of both operands agree')
        y = o.frozen()
    elif isinstance(o, (SI, SR, int, float)) or hasattr(o, '__float__') and not hasattr(o, '__len__'):
        e = sym.zreal(o)
        y = lambda ix: e        # noqa
    else:
        raise Undecided('arithmetic of an array and %s' % type(o).__name__)
    if a.sort != 'real':
        raise Undecided('arithmetic of an integer array')
    r = lambda e: e if z3.is_real(e) else z3.ToReal(e)      # noqa
    return Fn(lambda ix: f(r(x(ix)), r(y(ix))))


def fresh(a, content):
    r = SymArr(a.E, 'array', a.shape, a.sort)
    r.content = content
    return r


def nonzero(o):
    if isinstance(o, (SymArr, View)):
        raise Undecided('division by an array')
    sym.eng().require(Not(o == 0), 'divisor is not zero')


def _op(f, div=False):
    def op(self, o):
        if div:
            nonzero(o)
        return fresh(self, elementwise(self, o, f))

    def iop(self, o):
        if div:
            nonzero(o)
        self.E.touch(self)
        self.content = elementwise(self, o, f)
        return self
    return op, iop


SymArr.__add__, SymArr.__iadd__ = _op(lambda x, y: x + y)
SymArr.__sub__, SymArr.__isub__ = _op(lambda x, y: x - y)
SymArr.__mul__, SymArr.__imul__ = _op(lambda x, y: x * y)
SymArr.__truediv__, SymArr.__itruediv__ = _op(lambda x, y: x / y, True)
SymArr.__radd__, SymArr.__rmul__ = SymArr.__add__, SymArr.__mul__
for _C in (SymArr, View):
    _C.__symzip__ = lambda self, args: zipped(self.E, args)
    _C.__symenum__ = lambda self, start: SymSeq(self.E, self.shape[0], lambda k: (k + start, self.at(k)))
    _C.__ssum__ = ssum
    _C.__slen__ = SymArr.slen


class Arrays:
    """numpy's constructors of arrays, for symbolic shapes"""
    def __init__(self, raw):
        self._raw = raw

    def __getattr__(self, k):
        return getattr(self._raw, k)

    @staticmethod
    def _sym(shape):
        return any(getattr(s, '__sym__', False) for s in (shape if isinstance(shape, tuple) else (shape,)))

    def zeros(self, shape, dtype=None):
        if not self._sym(shape):
            return self._raw.zeros(shape)
        a = SymArr(sym.eng(), 'zeros', shape if isinstance(shape, tuple) else (shape,))
        a.content = Fn(lambda ix: z3.RealVal(0))
        return a

    def array(self, x, dtype=None):
        if isinstance(x, (SymArr, View)):
            return fresh(x, Fn(x.frozen()))
        if isinstance(x, SymL):
            c = x.clone()
            x = SymSeq(x.E, c.n, c.at)
        if isinstance(x, SymSeq):
            if x.cond is not None:
                raise Undecided('array of a filtered sequence')
            a = SymArr(x.E, 'array', (x.n,))
            a.content = Fn(lambda ix: sym.zreal(x.at(SI(ix[0]))))
            return a
        return self._raw.array(x, dtype=dtype) if dtype is not None else self._raw.array(x)
