"""Contract of the posterior (C19): any number of leaves, evidence variables and query variables.

For leaf k and evidence variable j, l(k, j) is what the distribution of the variable in that leaf gives to the evidence within the path of the leaf
(its density if the evidence is a single number).  A leaf is kept if no l(k, j) is zero; its likelihood is the product of the l(k, j).  The ranks of
the kept leaves are the positions in the lists of likelihoods, priors and distributions: src(r) is the leaf of rank r.  Looked at is an arbitrary
query variable w, an arbitrary rank and an arbitrary leaf g."""
import importlib

import z3

from engine import sym, rt
from engine.contract import contract, NS, STUBS, Value, Wrap, And, Iff, Implies, If, jpt_class
from engine.hlist import LC
from engine.seq import SymSeq, SymSet, SymL, Every, within, seqof
from engine.sym import SB, SI, SR, Or, Not, Undecided, PathEnd
from contracts.trees import Abs

TR = 'jpt.trees:'


def fun(E, name, *sorts):
    S = {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}
    f = z3.Function(name, *[S[s] for s in sorts])
    wrap = {'real': SR, 'bool': SB}[sorts[-1]] if sorts[-1] != 'int' else SI
    return lambda *a: wrap(f(*[sym.zint(x) for x in a]))


class Q:
    """the ghost state"""
    def __init__(self, E, a):
        self.E = E
        self.N, self.M, self.V = E.int('leaves'), E.int('evidence variables'), E.int('query variables')
        E.assume(And(self.N >= 0, self.M >= 0, self.V >= 1))
        f = lambda n, *s: fun(E, n, *s)          # noqa
        self.l, self.P, self.C = f('l', 'int', 'int', 'real'), f('product', 'int', 'int', 'real'), f('conflict', 'int', 'int', 'bool')
        self.prior, self.R, self.src = f('prior', 'int', 'real'), f('rank', 'int', 'int'), f('src', 'int', 'int')
        self.inpath = f('in path', 'int', 'int', 'bool')
        self.point = f('single number', 'int', 'bool')
        self.qpath, self.qev = f('query variable in path', 'int', 'int', 'bool'), f('evidence for query variable', 'int', 'bool')
        self.gq, self.g, self.r = E.int('gq'), E.int('g'), E.int('r')
        E.assume(And(within(self.gq, self.V), within(self.g, self.N), self.R(0) == 0))
        self.leaf(self.g)
        self.leaves = SymSeq(E, self.N, self.leaf_at, 'leaves')

    def keep(self, k):
        return Not(self.C(k, self.M))

    def lik(self, k):
        return self.P(k, self.M)

    def leaf(self, k):
        E = self.E
        E.assume(And(self.prior(k) >= 0, self.P(k, 0) == 1, Not(self.C(k, 0)), self.R(k) >= 0, self.P(k, self.M) >= 0))
        E.assume(self.R(k + 1) == If(self.keep(k), self.R(k) + 1, self.R(k)))
        E.assume(Implies(self.keep(k), self.src(self.R(k)) == k))

    def leaf_at(self, k):
        self.leaf(k)
        return Leaf(self, k)

    def step(self, k, j):
        """evidence variable j of leaf k"""
        E, l = self.E, self.l(k, j)
        E.assume(And(l >= 0, self.P(k, j) >= 0))
        E.assume(self.P(k, j + 1) == self.P(k, j) * l)
        E.assume(Iff(self.C(k, j + 1), Or(self.C(k, j), l == 0)))
        E.assume(Implies(self.C(k, j + 1), self.C(k, self.M)))


class PVar(Abs):
    """query variable or evidence variable number no"""
    __bool__ = lambda s: True               # noqa

    def __init__(self, q, no, side):
        self.__dict__.update(q=q, no=no, side=side, kind=None, domain=NS(value2label=lambda v: 'labels'))

    def w(self):
        return self.side == 'query' and bool(self.no == self.q.gq)

    def __eq__(self, o):
        return self is o or isinstance(o, PVar) and o.side == self.side and bool(o.no == self.no)

    def __hash__(self):
        return 0

    def _kind(self):
        if self.kind is None:
            a = self.q.E.spec
            k = self.q.E.choose(3)
            if self.w():
                if a._wkind is None:
                    a._wkind = k
                elif a._wkind != k:
                    raise PathEnd()
            self.__dict__['kind'] = ('numeric', 'symbolic', 'integer')[k]
        return self.kind

    numeric = property(lambda s: s._kind() == 'numeric')
    symbolic = property(lambda s: s._kind() == 'symbolic')
    integer = property(lambda s: s._kind() == 'integer')


class PSet(Abs):
    """evidence for a variable, perhaps cut with the path of a leaf"""
    def __init__(self, var, leaf=None):
        self.var, self.leaf = var, leaf

    def intersection(self, o):
        if not isinstance(o, PPath):
            raise Undecided('intersection')
        sym.eng().prove(o.var == self.var, 'sets of the same variable are intersected')
        return PSet(self.var, o.leaf)

    __and__ = intersection

    def size(self):
        if self.leaf is not None:
            raise Undecided('size within a path')
        return 1 if bool(self.q.point(self.var.no)) else 2

    q = property(lambda s: s.var.q)

    @property
    def lower(self):
        return Lower(self)

    def proper(self, leaf):
        """it is the evidence within the path of the leaf"""
        inp = leaf.q.inpath(leaf.k, self.var.no) if self.var.side == 'evidence' else leaf.q.qpath(leaf.k, self.var.no)
        return Not(inp) if self.leaf is None else And(inp, self.leaf.k == leaf.k)


class Lower(Abs):
    def __init__(self, s):
        self.s = s


class Interval(PSet):
    """evidence that is an interval"""


class PPath(Abs):
    def __init__(self, var, leaf):
        self.var, self.leaf = var, leaf


class Path(Abs):
    def __init__(self, leaf):
        self.leaf = leaf

    def __contains__(self, v):
        q = self.leaf.q
        return bool(q.inpath(self.leaf.k, v.no) if v.side == 'evidence' else q.qpath(self.leaf.k, v.no))

    def __getitem__(self, v):
        if v not in self:
            raise KeyError(v)
        return PPath(v, self.leaf)

    def get(self, v, default=None):
        return PPath(v, self.leaf) if v in self else default


class PDist(Abs):
    def __init__(self, leaf, var, crop=None):
        self.leaf, self.var, self.crop = leaf, var, crop

    def _said(self, s, point):
        q, E = self.leaf.q, sym.eng()
        E.require(And(s.var == self.var, s.proper(self.leaf)), 'a distribution is asked for the evidence of its variable within the path of its leaf')
        if point != bool(q.point(s.var.no)):
            E.require(False, 'the density is taken for single numbers, the probability otherwise')
        return q.l(self.leaf.k, s.var.no)

    def _p(self, s):
        if not isinstance(s, PSet):
            raise Undecided('probability of something else')
        return self._said(s, False)

    def pdf(self, x):
        if not isinstance(x, Lower):
            raise Undecided('density at something else')
        if self.leaf.q.E.choose(2) == 0:         # l is 1 for a point with infinite density
            v = self._said(x.s, True)
            sym.eng().assume(v == 1)
            return Infinite()
        return self._said(x.s, True)

    def _crop(self, s):
        if not isinstance(s, PSet) or self.crop is not None:
            raise Undecided('crop')
        return PDist(self.leaf, self.var, s)

    crop_ = None

    @property
    def no(self):
        return self.leaf.k

    @property
    def ok(self):
        """it is that of w, restricted to the evidence within the path of its leaf if there is evidence for w"""
        if not self.var.w():
            return SB(z3.BoolVal(False))
        ev = self.leaf.q.qev(self.leaf.q.gq)
        if self.crop is None:
            return Not(ev)
        return And(ev, self.crop.proper(self.leaf))


class Infinite(Abs):
    __bool__ = lambda s: True               # noqa


class GDist:
    """an element of the list of distributions of w"""
    def __init__(self, E):
        self.no, self.ok = E.int('leaf of'), E.bool('right')


class Leaf(Abs):
    def __init__(self, q, k):
        self.q, self.k = q, k
        self.prior = q.prior(k)
        self.path = Path(self)
        self.distributions = self

    def __getitem__(self, var):
        if not isinstance(var, PVar):
            raise Undecided('distribution of something else')
        return PDist(self, var)


class Evidence(Abs):
    def __init__(self, q, leafs):
        self.q = q

    def keys(self):
        q = self.q
        return SymSet(SymSeq(q.E, q.M, lambda j: PVar(q, j, 'evidence')))

    def __symset__(self):
        return self.keys()

    def __getitem__(self, v):
        if v.side == 'query':
            if v not in self:
                raise KeyError(v)
            return PSet(v)
        q = self.q
        k = q.E.spec._now
        if k is not None:
            q.step(k, v.no)
        if bool(q.point(v.no)) or q.E.choose(2) == 0:
            return Interval(v)
        return PSet(v)

    def __contains__(self, v):
        if v.side == 'evidence':
            return True
        return bool(q_ev(v))

    def get(self, v, default=None):
        return self[v] if v in self else default

    def items(self):
        return SymSeq(self.q.E, self.q.M, lambda j: (PVar(self.q, j, 'evidence'), self[PVar(self.q, j, 'evidence')]))


def q_ev(v):
    return v.q.qev(v.no)


class VMap(Abs):
    """a VariableMap: is it empty; the entry of w"""
    _restorable = True

    def __init__(self, *a, **k):
        if a or k:
            raise Undecided('a map of something else')
        self._serial = next(rt.SERIAL)
        self.some, self.entry = SB(z3.BoolVal(False)), None

    def __hash__(self):
        return 0

    def __setitem__(self, v, x):
        sym.eng().touch(self)
        self.some = SB(z3.BoolVal(True))
        if v.w():
            self.entry = x

    def __bool__(self):
        return bool(self.some)

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.some = E.bool('entries')


class Bag(dict):
    """what is reported of the conflicts"""
    _ghost = True

    def get(self, k, default=None):
        return default

    def __setitem__(self, k, v):
        pass


class DMap(Abs):
    """the lists of distributions: that of w"""
    def __init__(self, E):
        self.E, self.list = E, SymL.of(E, [])
        self.list.name = 'distributions of w'
        self.looked = False

    def __getitem__(self, v):
        if v.w():
            return self.list
        return NS(append=lambda x: None)

    def items(self):
        q = self.E.spec._q
        o = [PVar(q, q.gq + 1, 'query'), PVar(q, q.gq, 'query')]
        return [(o[0], 'others'), (o[1], self.list)]

    def keys(self):
        return [v for v, _ in self.items()]


class Normed:
    def __init__(self, seq, total):
        self.seq, self.total = seq, total


def stub_normalized(raw, ws):
    E = sym.eng()
    a, q = E.spec, E.spec._q
    n, at = seqof(ws)
    if E.choose(2) == 0:                # all are zero
        a._zero = True
        E.require(n == q.R(q.N), 'one weight for every leaf that is kept')
        if bool(And(q.keep(q.g), within(q.R(q.g), n))):
            E.assume(at(q.R(q.g)) == 0)
        raise ValueError('Cannot normalize: all values are zero.')
    j = E.int('any')
    if E.choose(2) == 0:
        E.assume(within(j, n))
        E.prove(at(j) >= 0, 'precondition of normalized: no weight is negative')
        raise PathEnd()
    t = E.real('sum of the weights')
    E.assume(t > 0)
    a._normed = Normed(ws, t)
    return a._normed


def stub_merge(kind):
    def merge(raw, dists, weights=None):
        E = sym.eng()
        a, q = E.spec, E.spec._q
        if dists == 'others' if isinstance(dists, str) else False:
            return NS()
        if weights is not a._normed:
            raise Undecided('weights')
        E.prove(a._wkind == kind, 'distributions are merged by their own class')
        n, at = seqof(dists)
        m, w = seqof(weights.seq)
        E.require(n == m, 'a weight for every distribution')
        if bool(within(q.r, n)):
            d, x = at(q.r), w(q.r)
            k = q.src(q.r)
            E.require(And(d.no == k, d.ok), 'merged are the distributions of the variable in the leaves, within the evidence')
            E.require(x == q.lik(k) * q.prior(k), 'a distribution is weighted with prior times likelihood of its leaf')
            E.require(And(within(k, q.N), q.keep(k), q.R(k) == q.r), 'of a leaf that is kept, once')
        E.require(Implies(q.keep(q.g), And(within(q.R(q.g), n), q.src(q.R(q.g)) == q.g)), 'every leaf that is kept is merged')
        a._merged = NS()
        return a._merged
    return merge


class NP:
    def __init__(self, raw):
        self._raw = raw

    def __getattr__(self, k):
        return getattr(self._raw, k)

    def isinf(self, x):
        return isinstance(x, Infinite)


def mk_dd(factory=None):
    E = sym.eng()
    if not (isinstance(factory, type) and issubclass(factory, list)) and getattr(factory, '__name__', '') not in ('list', 'List'):
        raise Undecided('defaultdict %r' % factory)
    E.spec._d = DMap(E)
    return E.spec._d


for _i, _k in enumerate(('Numeric', 'Multinomial', 'Integer')):
    STUBS[TR + _k + '.merge/x'] = stub_merge(_i)
STUBS[TR + 'normalized/x'] = stub_normalized
STUBS[TR + 'defaultdict/x'] = Value(mk_dd)
STUBS[TR + 'VariableMap/x'] = Value(VMap)
STUBS[TR + 'ContinuousSet/x'] = Value(Interval)
STUBS[TR + 'np/x'] = Wrap(NP)
STUBS[TR + 'format_path'] = lambda raw, *a, **k: ''


def L1(st, L):
    a = L.E.spec
    q, k = a._q, L.k
    q.E.assume(Implies(k < q.N, q.R(k) <= q.R(k + 1)))

    def pos(i):
        s = q.src(i)
        return And(s >= 0, s < k, q.keep(s), q.R(s) == i)
    d = st.distributions.list
    return {'every leaf that is kept has a rank': Implies(And(q.g < k, q.keep(q.g)), And(q.R(q.g) < q.R(k), q.src(q.R(q.g)) == q.g)),
            'a likelihood, a prior and a distribution of the leaves that are kept': And(
                st.likelihoods.n == q.R(k), st.priors.n == q.R(k), d.n == q.R(k)),
            'likelihoods': Every(st.likelihoods, lambda i, x: And(pos(i), x >= 0, x == q.lik(q.src(i)))),
            'priors': Every(st.priors, lambda i, x: And(pos(i), x >= 0, x == q.prior(q.src(i)))),
            'distributions': Every(d, lambda i, x: And(pos(i), x.no == q.src(i), x.ok))}


def L2(st, L):
    a = L.E.spec
    q, j, k = a._q, L.k, st.leaf.k
    a._now = k
    return {'the product so far': Implies(Not(q.C(k, j)), st.likelihood == q.P(k, j)),
            'conflicts so far': Iff(st.conflicting_assignment.some, q.C(k, j))}


def L3(st, L):
    a = L.E.spec
    q, i, k = a._q, L.k, st.leaf.k
    d = st.distributions.list

    def pos(i):
        s = q.src(i)
        return And(s >= 0, s <= k, q.keep(s), q.R(s) == i)
    return {'one more distribution once the variable has been met': d.n == q.R(k) + If(i > q.gq, 1, 0),
            'distributions': Every(d, lambda i, x: And(pos(i), x.no == q.src(i), x.ok))}


def num(l):
    E = sym.eng()
    return (lambda r: GDist(E)) if l is E.spec._d.list else (lambda r: E.real('element'))


@contract(TR + 'JPT.posterior', ('C19',), uses=tuple(TR + n for n in (
        'Numeric.merge/x', 'Multinomial.merge/x', 'Integer.merge/x', 'normalized/x', 'defaultdict/x', 'VariableMap/x', 'ContinuousSet/x', 'np/x',
        'format_path')))
class _:
    mode = 'real'
    concrete = False
    frame = False
    assumes = ('the query variables are different', 'a leaf that apply does not list has likelihood zero (C17)',
               'contracts of apply (C18), merge (C09), crop (C08), probability and density (C11, C12), normalized (bounded, C15)')
    loops = {'JPT.posterior#L1': LC(inv=L1, modifies=lambda st: [st.likelihoods, st.priors, st.distributions.list], kinds=num,
                                    local=('likelihood', 'conflicting_assignment', 'var', 'evidence_set', 'l_var', 'distribution')),
             'JPT.posterior#L2': LC(inv=L2, modifies=lambda st: [st.conflicting_assignment], local=('evidence_set', 'l_var')),
             'JPT.posterior#L3': LC(inv=L3, modifies=lambda st: [st.distributions.list], kinds=num, local=('evidence_set', 'distribution'))}

    def setup(self, E, a):
        E.spec = a
        a._E, a._lists, a._now, a._zero, a._merged = E, True, None, False, None
        E.world = NS(new_map=Bag)
        a._wkind = None
        q = a._q = Q(E, a)
        ev = a._ev = Evidence(q, None)
        m = importlib.import_module('jpt.variables')

        class Label(m.LabelAssignment):
            def __init__(self):
                pass

            def value_assignment(self):
                return ev
        lab, form = Label(), E.choose(4)
        d = dict()
        if form == 3:
            E.assume(q.M == 0)
            q.qev = lambda no: SB(z3.BoolVal(False))
        a._given = (ev, lab, d, None)[form]
        names, which = {}, E.choose(3)

        def var(k):
            v = PVar(q, k, 'query')
            if which == 1:
                n = 'name%d' % len(names)
                names[n] = v
                return n
            return v
        vs = SymSeq(E, q.V, var)
        a._variables = vs if which else None
        a._fail, a._report = E.bool('fail'), E.bool('report')

        def bind(e):
            if e is d or isinstance(e, Bag):
                return lab
            raise Undecided('bind')

        def apply(e):
            E.require(e is ev, 'the leaves are those of the evidence')
            return q.leaves
        C = jpt_class(TR + 'JPT')
        a._tree = type('Tree', (C,), dict(__init__=lambda s: None, bind=lambda s, e: bind(e), apply=lambda s, e: apply(e), varnames=names,
                                          variables=SymSeq(E, q.V, lambda k: PVar(q, k, 'query')),
                                          _check_variable_assignment=lambda s, e: None))()

    def call(self, a, fn):
        return fn(a._tree, a._variables, a._given, fail_on_unsatisfiability=a._fail, report_inconsistencies=a._report)

    def zero(self, a):
        q = a._q
        return And(a._zero, Implies(q.keep(q.g), q.lik(q.g) * q.prior(q.g) == 0))

    def raises(self, a, exc, old):
        return And(a._fail, self.zero(a)) if isinstance(exc, jpt_class('jpt.base.errors:Unsatisfiability')) else None

    def post(self, a, r, old):
        if r is None:
            return {'nothing is returned only if every leaf has likelihood or prior zero, and no error is wanted': And(Not(a._fail), self.zero(a))}
        return {'the posterior of the variable is the mixture of its distributions in the leaves': r.entry is a._merged and r.entry is not None}


# ------------------------------------------------------------------------------------------------ expectations
class Means(Abs):
    """the map of expectations: is there one for w, and which"""
    _restorable = True

    def __init__(self, *a, **k):
        if a or k:
            raise Undecided('a map of something else')
        self._serial = next(rt.SERIAL)
        self.has, self.value = SB(z3.BoolVal(False)), SR(z3.RealVal(0))

    def __setitem__(self, v, x):
        sym.eng().touch(self)
        if v.w():
            self.has, self.value = SB(z3.BoolVal(True)), x

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.has, self.value = E.bool('has'), E.real('value')


STUBS[TR + 'VariableMap/m'] = Value(Means)


class AllVariables:
    """the variables of the model"""
    __symobj__ = True

    def __init__(self, seq):
        self.seq = seq

    def __symseq__(self):
        return self.seq.__symseq__()

    def __symset__(self):
        return self

    def __sub__(self, o):
        return self


class Given(Abs):
    """the evidence"""
    __bool__ = lambda s: True               # noqa

    def __symset__(self):
        return self


STUBS[TR + 'Variable/m'] = Value(PVar)


def L4(st, L):
    a = L.E.spec
    return {'an expectation for every variable so far': Iff(st.final.has, L.k > a._q.gq),
            'it is that of its distribution': Implies(st.final.has, st.final.value == a._mean(a._q.gq))}


@contract(TR + 'JPT.expectation', ('C19',), uses=tuple(TR + n for n in ('VariableMap/m', 'Variable/m', 'format_path')))
class _:
    mode = 'real'
    concrete = False
    frame = False
    assumes = ('the query variables are different', 'contracts of posterior (C19) and of the means of distributions (C11, C12)')
    loops = {'JPT.expectation#L1': LC(inv=L4, modifies=lambda st: [st.final])}

    def setup(self, E, a):
        E.spec = a
        a._E, a._lists, a._asked = E, True, None
        E.world = NS(new_map=Bag)
        q = a._q = NS(E=E, V=E.int('query variables'), gq=E.int('gq'))
        E.assume(And(q.V >= 1, within(q.gq, q.V)))
        a._mean, a._j = fun(E, 'mean', 'int', 'real'), E.int('any')
        a._none, a._fail = E.bool('impossible'), E.bool('fail')
        ev = a._ev = Given()
        m = importlib.import_module('jpt.variables')

        class Label(m.LabelAssignment):
            def __init__(self):
                pass

            def value_assignment(self):
                return ev
        lab, form = Label(), E.choose(4)
        d = dict()
        a._given = (ev, lab, d, None)[form]
        which, names = E.choose(3), {}

        def var(k):
            v = PVar(q, k, 'query')
            if which == 1:
                n = 'name%d' % len(names)
                names[n] = v
                return n
            return v
        vs = SymSeq(E, q.V, var)
        a._variables = vs if which else None

        def bind(e):
            if e is d or isinstance(e, Bag):
                return lab
            raise Undecided('bind')

        def posterior(variables, evidence, fail_on_unsatisfiability=True):
            E.require(evidence is ev, 'the posterior is that given the evidence')
            n, at = seqof(variables)
            E.require(n == q.V, 'for every variable')
            if bool(within(a._j, n)):
                E.require(at(a._j).no == a._j, 'for the variables asked for')
            if bool(a._none):
                if bool(fail_on_unsatisfiability):
                    raise jpt_class('jpt.base.errors:Unsatisfiability')('impossible')
                return None
            return NS(items=lambda: SymSeq(E, q.V, lambda k: (PVar(q, k, 'query'), NS(expectation=lambda: a._mean(k)))))
        C = jpt_class(TR + 'JPT')
        a._tree = type('Tree', (C,), dict(__init__=lambda s: None, bind=lambda s, e: bind(e), posterior=lambda s, *x, **k: posterior(*x, **k),
                                          varnames=names, variables=AllVariables(SymSeq(E, q.V, lambda k: PVar(q, k, 'query'))),
                                          _check_variable_assignment=lambda s, e: None))()

    def call(self, a, fn):
        return fn(a._tree, a._variables, a._given, fail_on_unsatisfiability=a._fail)

    def raises(self, a, exc, old):
        return And(a._fail, a._none) if isinstance(exc, jpt_class('jpt.base.errors:Unsatisfiability')) else None

    def post(self, a, r, old):
        if r is None:
            return {'nothing is returned only if the evidence is impossible and no error is wanted': And(Not(a._fail), a._none)}
        return {'the expectation is the mean of the posterior': And(r.has, r.value == a._mean(a._q.gq)), 'the evidence is possible': Not(a._none)}
