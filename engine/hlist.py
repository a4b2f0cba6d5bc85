"""Symbolic lists abstracted by monoid homomorphisms.

An abstract list knows its length n and, for every declared measure m, the sum over its elements of m(element)
(Int or Real valued).  Iterating splits  whole = prefix + [element] + suffix  with all measures additive; appending,
concatenating, popping and inserting add up accordingly.  Element facts (`facts`) hold for every element: they are
assumed of an element that is read and are an obligation for an element that is added.  A list may carry a sort key:
consecutive elements are then ordered by it.  These rules are the only list theory the proofs trust."""
import z3

from . import sym
from .sym import SB, SI, SR, SF, Undecided, And, Or, Not, Implies, Iff, If


class NS:
    def __init__(self, d):
        self.__dict__.update(d)

    def __getitem__(self, k):
        return self.__dict__[k]


class Poison:
    """value of a variable the invariant says nothing about"""

    def __init__(self, name='?'):
        self.__dict__['_n'] = name

    def _bad(self, *a, **k):
        raise Undecided('use of %s, about which the loop invariant says nothing' % self.__dict__['_n'])

    __bool__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __add__ = __radd__ = __sub__ = __rsub__ = _bad
    __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __neg__ = __truediv__ = _bad
    __hash__ = None

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        self._bad()


AUTO = 'auto-invariant '


class LC:
    """contract of a loop or comprehension"""

    def __init__(self, inv=None, modifies=None, fresh=None, local=(), decreases=None, kinds=None, shapes=None, entry=None,
                 map=None, kind=None, measure=None, comp=None):
        self.inv, self.modifies, self.fresh, self.local, self.decreases = inv, modifies, fresh, local, decreases
        self.kinds, self.shapes, self.entry = kinds, shapes, entry
        self.map, self.kind, self.measure, self.comp = map, kind, measure, comp


class Kind:
    """what the elements are: measures {name: (sort, fn)}, fresh(E) -> element, facts(E, elem) -> [(label, cond)]"""

    auto = ()

    def __init__(self, measures, fresh, facts=None, name='elem', relations=(), owned=False, auto=(), accepts=None,
                 images=()):
        # relations: pairs (a, b) of measures with a(elem) <= b(elem) for every element (proved where declared)
        self.measures, self.fresh, self.facts, self.name = measures, fresh, facts, name
        self.relations = relations
        # auto: loops over such lists without a loop contract get inferred invariants in these measures
        self.auto = tuple(auto)
        # images: kinds a comprehension may map the elements to; accepts(x): is x an element of this kind
        self.accepts, self.images = accepts, tuple(images)
        # owned: the list is the only holder of its elements, which may therefore be modified through it
        self.owned = owned


def comb(sort, a, b):
    """the monoid operation of a measure"""
    return a * b if sort == 'prod' else a + b


class Snap:
    """the homomorphic image of a list"""

    def __init__(self, kind, n, mu):
        self.kind, self.n, self.mu = kind, n, mu

    def __getitem__(self, m):
        return self.n if m == 'n' else self.mu[m]

    def plus(self, elem):
        return Snap(self.kind, self.n + 1, {m: comb(s, self.mu[m], f(elem))
                                            for m, (s, f) in self.kind.measures.items()})

    def join(self, o):
        return Snap(self.kind, self.n + o.n, {m: comb(s, self.mu[m], o.mu[m])
                                              for m, (s, f) in self.kind.measures.items()})


def unit(kind):
    return Snap(kind, 0, {m: 1 if s == 'prod' else 0 for m, (s, f) in kind.measures.items()})


def fresh_snap(E, kind, base):
    n = E.int(base + '.n')
    E.assume(n >= 0)
    mu = {}
    for m, (s, f) in kind.measures.items():
        if s == 'count':      # natural number valued, 0/1 per element
            v = E.int('%s.%s' % (base, m))
            E.assume(And(v >= 0, v <= n))
        elif s == 'nonneg':
            v = E.real('%s.%s' % (base, m))
            E.assume(And(v >= 0, Implies(n == 0, v == 0)))
        elif s == 'real':
            v = E.real('%s.%s' % (base, m))
            E.assume(Implies(n == 0, v == 0))
        elif s == 'prod':     # product of non-negative numbers
            v = E.real('%s.%s' % (base, m))
            E.assume(And(v >= 0, Implies(n == 0, v == 1)))
        elif s == 'int':
            v = E.int('%s.%s' % (base, m))
            E.assume(Implies(n == 0, v == 0))
        else:
            raise AssertionError(s)
        mu[m] = v
    for a, b in kind.relations:
        E.assume(mu[a] <= mu[b])
    return Snap(kind, n, mu)


class SymList(list):
    """list; concrete until havocked / created abstract.  Abstract shape:  head (Snap) ++ tail (concrete elements)"""
    abstract = False
    kind = None
    sortkey = None
    before = None
    __hash__ = None

    def __init__(self, *a):
        from . import rt
        list.__init__(self, *a)
        self._serial = next(rt.SERIAL)

    @classmethod
    def of(cls, xs):
        # a literal containing an abstract list element by * is not supported
        l = cls(xs)
        return l

    @classmethod
    def symbolic(cls, E, kind, base='L', sortkey=None, nonempty=False, maxlen=None):
        l = cls()
        l.abstract = True
        l.kind = kind
        l.head = fresh_snap(E, kind, base)
        l.tail = []
        l.sortkey = sortkey
        if nonempty:
            E.assume(l.head.n >= 1)
        return l

    # -------------------------------------------------------------- abstract view
    def _need_kind(self, kind):
        if not self.abstract:
            return [x for x in list.__iter__(self)]
        return None

    def snapshot(self, kind=None):
        """measures of the whole list"""
        if not self.abstract:
            k = kind or self.kind
            s = unit(k)
            for x in list.__iter__(self):
                s = s.plus(x)
            return s
        s = self.head
        for x in self.tail:
            s = s.plus(x)
        return s

    def measure(self, m, kind=None):
        return self.snapshot(kind)[m]

    def zero(self):
        return unit(self.kind)

    @property
    def n(self):
        return self.snapshot().n if self.abstract else list.__len__(self)

    def new_elem(self, E, base=None):
        x = self.kind.fresh(E)
        d = getattr(x, '__dict__', None)
        if d is not None:
            d['_elem'] = 'owned' if self.kind.owned else 'shared'
        if self.kind.facts:
            for lab, c in self.kind.facts(E, x):
                E.assume(c)
        return x

    def split(self, E):
        whole = self.snapshot()
        pre = fresh_snap(E, self.kind, 'pre')
        suf = fresh_snap(E, self.kind, 'suf')
        x = self.new_elem(E)
        prev = None
        mid = pre.plus(x)
        E.assume(whole.n == mid.n + suf.n)
        for m, (s, _) in self.kind.measures.items():
            E.assume(whole[m] == comb(s, mid[m], suf[m]))
        if self.sortkey is not None:
            # prev is the element before x if there is one (self.before: popped from the front earlier)
            if self.before is not None:
                E.assume(self.sortkey(self.before, x))
                if E.branch(sym.zbool(pre.n == 0)):
                    return pre, x, suf, self.before
            prev = self.new_elem(E)
            E.assume(Implies(pre.n >= 1, self.sortkey(prev, x)))
            if self.before is not None:
                E.assume(self.sortkey(self.before, prev))
            for m, (s, f) in self.kind.measures.items():
                if s in ('count', 'nonneg'):
                    E.assume(Implies(pre.n >= 1, pre[m] >= f(prev)))
        return pre, x, suf, prev

    def last_elem(self, E):
        if self.sortkey is None:
            return None
        if self.before is not None and E.branch(sym.zbool(self.n == 0)):
            return self.before
        return self.new_elem(E)

    def _check_add(self, x):
        E = sym.eng()
        if self.kind is not None and self.kind.owned and getattr(x, '__dict__', {}).get('_elem') == 'shared':
            raise Undecided('an element that may be shared is added to a list whose elements are modified')
        if self.kind is not None and self.kind.facts:
            for lab, c in self.kind.facts(E, x):
                E.prove(c, 'element added to a list satisfies "%s"' % lab)

    def _touch(self):
        if sym.ENG is not None:
            sym.ENG.touch(self)

    def __havoc__(self, E, c, kind=None):
        kind = kind or (c.kinds(self) if c and c.kinds else self.kind)
        if kind is None:
            raise Undecided('havoc of a list without a declared element kind')
        for x in self.tail if self.abstract else ():
            self._check_add(x)
        if self.abstract is False:
            for x in list.__iter__(self):
                if kind.owned and getattr(x, '__dict__', {}).get('_elem') == 'shared':
                    raise Undecided('an element that may be shared is in a list whose elements are modified')
                if kind.facts:
                    for lab, cc in kind.facts(E, x):
                        E.prove(cc, 'element of a list satisfies "%s" when a loop is entered' % lab)
            list.clear(self)
        self.abstract = True
        self.kind = kind
        self.head = fresh_snap(E, kind, 'hv')
        self.tail = []
        shape = c.shapes(self) if c and c.shapes else None
        if shape == 'last':      # nonempty: the last element is explicit
            self.tail = [self.new_elem(E)]

    # -------------------------------------------------------------- list protocol
    def __iter__(self):
        if self.abstract:
            if z3.is_int_value(z3.simplify(sym.zint(self.head.n))) and \
                    z3.simplify(sym.zint(self.head.n)).as_long() == 0:
                return iter(list(self.tail))
            raise Undecided('iteration over an abstract list outside of a loop statement')
        return list.__iter__(self)

    def __len__(self):
        if self.abstract:
            raise Undecided('len() of an abstract list')
        return list.__len__(self)

    def slen(self):
        return self.n

    def __bool__(self):
        if self.abstract:
            if self.tail:
                return True
            return bool(SI(sym.zint(self.head.n)) > 0)
        return list.__len__(self) > 0

    def append(self, x):
        self._touch()
        if self.abstract:
            self._check_add(x)
            self.head = self.snapshot_but_last(x)
        else:
            list.append(self, x)

    def snapshot_but_last(self, x):
        """push x as the explicit last element, older explicit elements are absorbed in the head"""
        for y in self.tail:
            self._check_add(y)
        s = self.snapshot()
        self.tail = [x]
        return s

    def extend(self, xs):
        self._touch()
        if isinstance(xs, MapList):
            xs = xs.as_list()
        f = getattr(xs, '__symlist__', None)
        if f is not None:
            xs = f()
        if isinstance(xs, SymList) and xs.abstract:
            self._to_abstract(xs.kind)
            s, t = self.snapshot(), xs.snapshot(self.kind)
            self.head = s.join(t)
            self.tail = []
            return
        for x in xs:
            self.append(x)

    def _to_abstract(self, kind):
        if not self.abstract:
            s = self.snapshot(kind)
            list.clear(self)
            self.abstract, self.kind, self.head, self.tail = True, kind, s, []

    def __add__(self, o):
        if (isinstance(o, SymList) and o.abstract) or self.abstract:
            kind = self.kind or o.kind
            s = self.snapshot(kind)
            t = o.snapshot(kind) if isinstance(o, SymList) else SymList.of(o).snapshot(kind)
            r = SymList()
            r.abstract, r.kind = True, kind
            r.head = s.join(t)
            r.tail = []
            return r
        return SymList(list.__add__(self, o))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __getitem__(self, i):
        if self.abstract:
            if isinstance(i, int) and i < 0 and -i <= len(self.tail):
                return self.tail[i]
            E = sym.eng()
            if isinstance(i, int) and i == -1 and not self.tail:
                E.require(SI(sym.zint(self.head.n)) >= 1, 'list is not empty')
                x = self.new_elem(E)
                rest = fresh_snap(E, self.kind, 'rest')
                p = rest.plus(x)
                E.assume(p.n == self.head.n)
                for m in self.kind.measures:
                    E.assume(p[m] == self.head[m])
                self.head, self.tail = rest, [x]
                return x
            raise Undecided('indexing an abstract list')
        r = list.__getitem__(self, i)
        return SymList(r) if isinstance(i, slice) else r

    def __setitem__(self, i, v):
        self._touch()
        if self.abstract:
            if isinstance(i, int) and i < 0 and -i <= len(self.tail):
                self._check_add(v)
                self.tail[i] = v
                return
            raise Undecided('assignment into an abstract list')
        list.__setitem__(self, i, v)

    def __delitem__(self, i):
        self._touch()
        if self.abstract:
            raise Undecided('del in an abstract list')
        list.__delitem__(self, i)

    def pop(self, i=-1):
        self._touch()
        if self.abstract:
            E = sym.eng()
            if i == 0:
                if self.tail:
                    for y in self.tail:
                        self._check_add(y)
                    self.head, self.tail = self.snapshot(), []
                E.require(SI(sym.zint(self.head.n)) >= 1, 'pop from a non-empty list')
                x = self.new_elem(E)
                rest = fresh_snap(E, self.kind, 'rest')
                p = rest.plus(x)
                E.assume(p.n == self.head.n)
                for m in self.kind.measures:
                    E.assume(p[m] == self.head[m])
                self.head = rest
                if self.sortkey is not None:
                    self.before = x
                return x
            if i == -1:
                if not self.tail:
                    self[-1]
                return self.tail.pop()
            raise Undecided('pop from an abstract list')
        return list.pop(self, i)

    def insert(self, i, x):
        self._touch()
        if self.abstract:
            if i == 0:
                self._check_add(x)
                if self.tail:
                    raise Undecided('insert')
                self.head = self.head.plus(x)
                return
            raise Undecided('insert into an abstract list')
        list.insert(self, i, x)

    def copy(self):
        if self.abstract:
            r = SymList()
            r.abstract, r.kind, r.head, r.tail, r.sortkey, r.before = (
                True, self.kind, self.head, list(self.tail), self.sortkey, self.before)
            return r
        return SymList(list.copy(self))

    def sorted(self, key, leq):
        r = self.copy()
        if r.tail:
            s = r.snapshot()
            r.head, r.tail = s, []
        r.sortkey = leq
        return r

    # -------------------------------------------------------------- comprehension
    def comprehend(self, E, key, kind, fn, cond, cc, locs=None):
        """map/filter of an abstract list.  Without a contract every measure must be preserved element-wise (a
        filtered-out element must have measure 0)."""
        m = MapList(self, E, key, fn, cond, cc, locs)
        m.how = kind
        return m


class SymDeque(SymList):
    """deque; the contracts over abstract queues do not depend on the order"""

    def appendleft(self, x):
        self.insert(0, x) if not self.abstract else self.append(x)

    def popleft(self):
        return self.pop(0)

    def extendleft(self, xs):
        if isinstance(xs, MapList):
            xs = xs.as_list()
        if self.abstract or getattr(xs, 'abstract', False):
            self.extend(xs)
        else:
            for x in xs:
                self.appendleft(x)


def s_deque(raw):
    def deque(it=(), maxlen=None):
        if sym.ENG is not None and sym.ENG.track_lists and maxlen is None:
            return SymDeque(it)
        return raw(it, maxlen)
    return deque


class MapList:
    """unevaluated comprehension over an abstract list"""
    __symobj__ = True

    def __init__(self, base, E, key, fn, cond, cc, locs=None):
        self.base, self.E, self.key, self.fn, self.cond, self.cc = base, E, key, fn, cond, cc
        self.locs = dict(locs or {})

    how = 'list'
    used = False

    def use(self):
        """a generator can be walked once only"""
        if self.how != 'list':
            if self.used:
                raise Undecided('a generator that is walked twice')
            self.used = True

    def __bool__(self):
        if self.how != 'list':
            return True
        if self.cond is not None:
            raise Undecided('comprehension %s: is it empty' % self.key)
        return bool(self.base.n > 0)

    def _no(self, *a, **k):
        raise Undecided('comprehension %s: unknown use' % self.key)

    __iter__ = __len__ = __getitem__ = __contains__ = __add__ = __radd__ = __mul__ = __eq__ = _no
    __hash__ = None

    def __isa__(self, cls):
        return cls is list and self.how == 'list'

    def _elem(self):
        return self.base.new_elem(self.E)

    def _probe(self, goal):
        """prove, for an arbitrary element, goal(elem, included, image)"""
        E = self.E
        if E.choose(2) == 0:
            x = self._elem()
            whole = self.base.snapshot()
            E.assume(whole.n >= 1)
            rest = fresh_snap(E, self.base.kind, 'rest')
            p = rest.plus(x)
            E.assume(p.n == whole.n)
            for m in self.base.kind.measures:
                E.assume(p[m] == whole[m])
            inc = True if self.cond is None else bool(self.cond(x))
            y = self.fn(x) if inc else None
            for lab, g in goal(x, inc, y):
                E.prove(g, 'comprehension %s: %s' % (self.key, lab))
            raise sym.PathEnd()

    def cid(self, *a):
        """a candidate of the inference, per case of the input"""
        c = getattr(self.E.world, 'ctx', None)
        return (self.key,) + a + ((c(),) if c else ())

    def image_kind(self):
        base = self.base.kind
        if self.cc and self.cc.kind:
            return self.cc.kind
        if not base.images:
            return base
        i = self.E.img_kinds.get(self.key)
        if i is None:           # not yet known: an arbitrary element tells
            if self.E.choose(2) == 0:
                x = self._elem()
                if self.cond is None or self.cond(x):
                    y = self.fn(x)
                    ks = [base] + list(base.images)
                    for i, k in enumerate(ks):
                        if k.accepts is not None and k.accepts(y):
                            self.E.img_kinds[self.key] = i
                            break
                    else:
                        raise Undecided('comprehension %s: unknown kind of elements' % self.key)
                raise sym.PathEnd()
            i = self.E.img_kinds.get(self.key)
            if i is None:
                i = 0
        return ([base] + list(base.images))[i]

    def as_list(self):
        self.use()
        kind = self.image_kind()
        auto, le = {}, {}
        if self.cc and self.cc.map:
            mm = self.cc.map
        else:               # every measure is preserved, or (filtered) at most shrinks
            mm = {}
            for m in kind.measures:
                if m not in self.base.kind.measures:
                    mm[m] = None
                    continue
                for how in ('same', 'le') if kind.auto else ('same',):
                    cid = self.cid(how, m)
                    if cid not in self.E.auto_dropped and (how == 'same' or kind.measures[m][0] in ('nonneg', 'count')):
                        if kind.auto:
                            auto[m] = AUTO + repr(cid) + '|'
                        mm[m] = m if how == 'same' else None
                        if how == 'le':
                            le[m] = True
                        break
                else:
                    mm[m] = None
        if callable(mm):
            mm = mm(NS(self.locs))
        # the measures of the image as linear combinations of the measures of the list: {m: {source: coefficient}}
        mm = {m: s if s is None or isinstance(s, dict) else {s: 1} for m, s in mm.items()}      # None: unknown
        assert set(mm) == set(kind.measures), (self.key, 'map')
        if any(k.measures[m][0] == 'prod' for k in (kind, self.base.kind) for m in k.measures):
            raise Undecided('comprehension %s: image of a list with a multiplicative measure' % self.key)
        bm = self.base.kind.measures

        def lin(src, val):
            t = 0
            for s, k in src.items():
                t = t + val(s) * k
            return t

        def goal(x, inc, y):
            out = []
            if inc and kind.accepts is not None and not kind.accepts(y):
                raise Undecided('comprehension %s: elements of several kinds' % self.key)
            if inc and kind.facts:
                out += [('element satisfies "%s"' % l, c) for l, c in kind.facts(self.E, y)]
            for m, src in mm.items():
                if src is None and m not in le:
                    continue
                s = kind.measures[m][1](y) if inc else 0
                if m in le:
                    out.append((auto.get(m, '') + 'measure %s of the image does not grow' % m, s <= bm[m][1](x)))
                    continue
                out.append((auto.get(m, '') + 'measure %s of the image' % m,
                            s == lin(src, lambda q: 1 if q == 'n' else bm[q][1](x))))
            return out
        self._probe(goal)
        b = self.base.snapshot()
        r = SymList()
        r.abstract, r.kind, r.tail = True, kind, []
        n = b.n
        if self.cond is not None:
            n = self.E.int('n')
            self.E.assume(And(n >= 0, n <= b.n))
        r.head = fresh_snap(self.E, kind, 'img')
        self.E.assume(r.head.n == n)
        for m, src in mm.items():
            if src is not None:
                self.E.assume(r.head[m] == lin(src, lambda q: b[q]))
            elif m in le:
                self.E.assume(r.head[m] <= b[m])
        return r

    def quant(self, which):
        self.use()
        m = self.cc.measure if self.cc else None
        auto = ''
        if m is None:
            for m in self.base.kind.auto:
                cid = self.cid(which, m)
                if self.base.kind.measures[m][0] == 'count' and cid not in self.E.auto_dropped:
                    auto = '%s%r|' % (AUTO, cid)
                    break
            else:
                raise Undecided('no contract for the comprehension %s' % self.key)
        f = self.base.kind.measures[m][1]

        def tr(y):      # numbers are true unless zero
            return y != 0 if isinstance(y, sym.Sym) and not isinstance(y, sym.SB) else y
        if which == 'any':
            self._probe(lambda x, inc, y: [(auto + 'is true exactly for the elements counted by "%s"' % m,
                                            Iff(And(inc, tr(y)), f(x) == 1))])
            return self.base.measure(m) >= 1
        self._probe(lambda x, inc, y: [(auto + 'is false exactly for the elements counted by "%s"' % m,
                                        Iff(And(inc, Not(tr(y))), f(x) == 1))])
        return self.base.measure(m) == 0

    def fold(self, sort, start=None):
        """sum or product of the image: inferred to be one of the measures of the list"""
        self.use()
        for m in self.base.kind.auto:
            s, f = self.base.kind.measures[m]
            if (s == 'prod') != (sort == 'prod'):
                continue
            cid = self.cid(sort, m)
            if cid in self.E.auto_dropped:
                continue
            u = 1 if sort == 'prod' else 0
            self._probe(lambda x, inc, y: [('%s|auto %s is "%s"' % (AUTO + repr(cid), sort, m),
                                            (y if inc else u) == f(x))])
            v = self.base.measure(m)
            return v if start is None else comb(sort, start, v)
        raise Undecided('no contract for the comprehension %s' % self.key)

    def maximum(self):
        """the largest image: inferred to be one of the declared extremes of the list"""
        if self.cond is not None:
            raise Undecided('comprehension %s: maximum' % self.key)
        self.use()
        for nm, (f, top) in getattr(self.base.kind, 'extremes', {}).items():
            cid = self.cid('max', nm)
            if cid in self.E.auto_dropped:
                continue
            self.E.require(self.base.n >= 1, 'the maximum of a non-empty list')
            self._probe(lambda x, inc, y: [('%s|auto max is "%s"' % (AUTO + repr(cid), nm), y == f(x))])
            return top
        raise Undecided('no contract for the comprehension %s' % self.key)

    def sum(self):
        m = self.cc.measure if self.cc else None
        if m is None:
            return self.fold('sum')
        self.use()
        f = self.base.kind.measures[m][1]
        self._probe(lambda x, inc, y: [('summand is "%s"' % m, (y if inc else 0) == f(x))])
        return self.base.measure(m)


# ---------------------------------------------------------------------------------------- builtins for loaded modules
import builtins as _b


def b_len(x):
    if isinstance(x, SymList) and x.abstract:
        return x.n
    if isinstance(x, MapList):
        return x.as_list().n
    f = getattr(type(x), '__slen__', None)
    if f is not None:
        return f(x)
    return _b.len(x)


def b_sum(x, start=0):
    if isinstance(x, MapList):
        return x.sum() + start
    if isinstance(x, SymList) and x.abstract:
        raise Undecided('sum of an abstract list')
    f = getattr(x, '__ssum__', None)
    if f is not None:
        return f()
    return _b.sum(x, start)


def b_any(x):
    f = getattr(x, 'quant', None)
    if f is not None:
        return f('any')
    return x.quant('any') if isinstance(x, MapList) else _b.any(x)


def b_min(*a, **k):
    if len(a) > 1 and any(getattr(x, '__sym__', False) for x in a):
        return sym_minmax(a, True)
    return _b.min(*a, **k)


def b_max(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], MapList):
        return a[0].maximum()
    if len(a) > 1 and any(getattr(x, '__sym__', False) for x in a):
        return sym_minmax(a, False)
    return _b.max(*a, **k)


def sym_minmax(a, mn):
    # python's min/max: the first of equal candidates wins, comparison `x < best` / `x > best`
    best = a[0]
    for x in a[1:]:
        c = (x < best) if mn else (x > best)
        best = If(c, x, best)
    return best


def b_all(x):
    f = getattr(x, 'quant', None)
    if f is not None:
        return f('all')
    return x.quant('all') if isinstance(x, MapList) else _b.all(x)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _b.list)

    def __eq__(cls, o):
        return o is cls or o is _b.list or o is SymList

    def __hash__(cls):
        return hash(_b.list)


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _b.set)

    def __eq__(cls, o):
        return o is cls or o is _b.set

    def __hash__(cls):
        return hash(_b.set)


class b_set(_b.set, metaclass=_SetMeta):
    def __new__(cls, x=()):
        f = getattr(x, '__symset__', None)
        if f is not None:
            return f()
        return _b.set(x)


class _DictMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _b.dict) if cls is b_dict else type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        return issubclass(c, _b.dict) if cls is b_dict else type.__subclasscheck__(cls, c)

    def __eq__(cls, o):
        return o is cls or o is _b.dict

    def __hash__(cls):
        return hash(_b.dict)


class b_dict(_b.dict, metaclass=_DictMeta):
    def __new__(cls, *a, **k):
        mk = getattr(sym.ENG.world, 'new_map', None) if sym.ENG is not None else None
        if mk is not None and not a and not k:
            return mk()
        return _b.dict(*a, **k)


def b_enumerate(x, start=0):
    f = getattr(x, '__symenum__', None)
    if f is not None:
        return f(start)
    return _b.enumerate(x, start)


def b_zip(*a, **k):
    for x in a:
        f = getattr(x, '__symzip__', None)
        if f is not None:
            return f(a)
    for x in a:
        if isinstance(x, MapList) or isinstance(x, SymList) and x.abstract:
            raise Undecided('zip of an abstract list')
    return _b.zip(*a, **k)


class b_list(_b.list, metaclass=_ListMeta):
    def __new__(cls, x=()):
        if isinstance(x, MapList):
            return x.as_list()
        if isinstance(x, SymList):
            return x.copy()
        if hasattr(x, '__slist__'):
            return x.__slist__()
        if sym.ENG is not None and sym.ENG.track_lists:
            return SymList(x)
        return _b.list(x)


def lex_relation(key):
    """sorted(l, key): every element is lexicographically <= its successor"""
    def leq(p, q):
        a, b = (key(p), key(q)) if key is not None else (p, q)
        if not isinstance(a, tuple):
            return a <= b
        r = True
        for x, y in reversed(_b.list(zip(a, b))):
            r = Or(x < y, And(x == y, r))
        return r
    return leq


def s_first(raw):
    def first(it, *a, **k):
        if isinstance(it, SymList) and it.abstract:
            E = sym.eng()
            return it.copy().pop(0)
        if hasattr(it, '__symseq__'):
            if a or k:
                raise Undecided('first of a symbolic sequence, with options')
            try:
                return it.example()
            except StopIteration:
                return None
        return raw(it, *a, **k)
    return first


def b_sorted(x, key=None, reverse=False):
    if isinstance(x, MapList):
        x = x.as_list()
    f = getattr(x, '__symsorted__', None)
    if f is not None:
        return f(key, reverse)
    if isinstance(x, SymList) and x.abstract:
        if reverse:
            raise Undecided('reverse sort of an abstract list')
        return x.sorted(key, lex_relation(key))
    r = _b.sorted(x, key=key, reverse=reverse)
    if sym.ENG is not None and sym.ENG.track_lists:
        return SymList(r)
    return r


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _b.float)

    def __eq__(cls, o):
        return o is cls or o is _b.float

    def __hash__(cls):
        return hash(_b.float)


class b_float(_b.float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if getattr(x, '__sym__', False):
            return x.to_float()
        return _b.float(x)


def install_builtins():
    from .hooks import srange
    return {'len': b_len, 'sum': b_sum, 'any': b_any, 'all': b_all, 'range': srange, 'sorted': b_sorted,
            'min': b_min, 'max': b_max, 'list': b_list, 'set': b_set, 'dict': b_dict, 'zip': b_zip, 'enumerate': b_enumerate}
