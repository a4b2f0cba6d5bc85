"""Contracts of the joint probability tree: any number of leaves, any number of variables.

The state of a tree is abstracted by its list of leaves and, per leaf, by the probabilities its distributions give to the
sets a query, the evidence and the leaf's path name (contracts of the distributions: C08, C11, C12).  A leaf carries the
products PE (over all evidence variables of P(evidence set ∩ path)) and PQ (over all query and evidence variables of
P(query set ∩ evidence set ∩ path)); `apply` is under contract itself (below)."""
import importlib

from engine import sym
from engine.contract import contract, Contract, Value, P, Bool, Const, NS, And, Or, Not, Implies, Iff, If, STUBS, jpt_class, eq
from engine.hlist import Kind, SymList, LC, AUTO
from engine.sym import Undecided, SB, SR

TR = 'jpt.trees'


def t(n):
    return TR + ':' + n


def classes():
    tr = importlib.import_module(TR)
    return tr


class World:
    """the ghost state of one symbolic execution"""

    def __init__(self, E):
        self.E = E
        self.leaf = None          # the leaf that was read last
        self.tags = {}            # tag -> True | None: is the map with this tag empty
        self.origin = []
        self.foreign = False      # does the query mention variables that are not in the model
        self.out = SymList()      # what a generator has yielded
        self.totals = {m: E.real('total.' + m) for m in ('w', 'wpe', 'wpq')}
        for v in self.totals.values():
            E.assume(v >= 0)
        E.assume(self.totals['wpq'] <= self.totals['wpe'])
        E.assume(self.totals['wpe'] <= self.totals['w'])
        self.leafkind = Kind({'w': ('nonneg', lambda l: l.prior), 'wpe': ('nonneg', lambda l: l.prior * l.__dict__['PE']),
                              'wpq': ('nonneg', lambda l: l.prior * l.__dict__['PQ'])},
                             self.fresh_leaf, None, 'Leaf', relations=(('wpq', 'wpe'), ('wpe', 'w')),
                             auto=('w', 'wpe', 'wpq'))

    def ctx(self):
        """the case of the input an inferred invariant belongs to"""
        return tuple(sorted((k, v) for k, v in self.tags.items() if v))

    def covers(self, tags, tag):
        return tag in tags or self.tags.get(tag) == 'empty'

    def fresh_leaf(self, E):
        l = classes().Leaf.__new__(classes().Leaf)
        d = l.__dict__
        d['_w'] = self
        d['prior'] = E.real('prior')
        d['idx'] = E.int('idx')
        d['PE'], d['PQ'] = E.real('PE'), E.real('PQ')
        E.assume(And(l.prior >= 0, l.PQ >= 0, l.PQ <= l.PE, l.PE <= 1))
        d['applies_'], d['dis_'] = {}, {}

        def disjoint(tag):
            """number of variables whose set in the query is disjoint from the path"""
            if tag not in d['dis_']:
                d['dis_'][tag] = E.int('dis_' + tag)
                E.assume(d['dis_'][tag] >= 0)
                # the probability of the empty set is zero
                E.assume(Implies(d['dis_'][tag] > 0, l.PQ == 0))
                if tag == 'e':
                    E.assume(Implies(d['dis_'][tag] > 0, l.PE == 0))
            return d['dis_'][tag]
        d['disjoint'] = disjoint
        d['distributions'] = Dists(self, l)
        d['apath'] = Assign(self, 'path', l)
        self.leaf = l
        return l


def world(E=None):
    E = E or sym.eng()
    if E.world is None:
        E.world = World(E)
    return E.world


class Abs:
    """abstract object: whatever its contract does not know is undecided"""
    __symobj__ = True

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Undecided('%s.%s' % (type(self).__name__, k))

    def _no(self, *a, **k):
        raise Undecided('unknown operation on %s' % type(self).__name__)

    __iter__ = __len__ = __call__ = __getitem__ = __setitem__ = __delitem__ = __contains__ = __add__ = __mul__ = _no
    __sub__ = __lt__ = __le__ = __gt__ = __ge__ = __and__ = __or__ = __bool__ = _no


class Var(Abs):
    """a variable of the model"""
    __bool__ = lambda s: True               # noqa

    def __init__(self, w):
        self.__dict__.update(w=w, ins={}, p={}, kind=None, name=w.E.int('varname'))

    def has(self, tag, leaf=None):
        if tag == 'q' or tag == 'e' or tag == 'path':
            if self.w.tags.get(tag) == 'empty':
                return False
            k = (tag, id(leaf) if tag == 'path' else 0)
            if k not in self.ins:
                self.ins[k] = self.w.E.bool('in_' + tag)
            return self.ins[k]
        raise Undecided('map ' + tag)

    def prob(self, leaf, tags):
        """P_leaf(self in the intersection of the sets named by tags)"""
        if not tags:
            return 1
        k = (id(leaf), tags)
        if k not in self.p:
            v = self.w.E.real('p')
            self.w.E.assume(And(v >= 0, v <= 1))
            for (l, s), x in list(self.p.items()):
                if l == id(leaf):       # a smaller set is not more probable
                    if s <= tags:
                        self.w.E.assume(v <= x)
                    if tags <= s:
                        self.w.E.assume(x <= v)
            self.p[k] = v
        return self.p[k]

    def disj_(self, leaf, tags):
        """the intersection of the sets named by tags is empty"""
        k = (id(leaf), 'disj', frozenset(tags))
        if k not in self.ins:
            self.ins[k] = self.w.E.bool('disj')
        return self.ins[k]

    def disj(self, leaf, tag):
        return If(And(self.has(tag), self.has('path', leaf), self.disj_(leaf, {tag, 'path'})), 1, 0)

    def factor(self, leaf, e, q):
        """the factor of this variable in PE (q=False) or PQ (q=True)"""
        inp = self.has('path', leaf)

        def f(base):
            return If(inp, self.prob(leaf, frozenset(base | {'path'})), self.prob(leaf, frozenset(base))) \
                if base else 1
        ie, iq = self.has('e'), self.has('q') if q else False
        return If(iq, If(ie, f({'q', 'e'}), f({'q'})), If(ie, f({'e'}), 1))

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def _kind(self):
        if self.kind is None:
            self.__dict__['kind'] = ('numeric', 'symbolic', 'integer')[self.w.E.choose(3)]
        return self.kind

    numeric = property(lambda s: s._kind() == 'numeric')
    symbolic = property(lambda s: s._kind() == 'symbolic')
    integer = property(lambda s: s._kind() == 'integer')

    @property
    def __class__(self):
        m = importlib.import_module('jpt.variables')
        return {'numeric': m.NumericVariable, 'symbolic': m.SymbolicVariable,
                'integer': m.IntegerVariable}[self._kind()]


class VSet(Abs):
    """the set of values of a variable that is the intersection of the sets the named maps assign to it"""
    def __init__(self, var, tags, leaf=None):
        self.var, self.tags, self.leaf = var, frozenset(tags), leaf

    def intersection(self, o):
        if not isinstance(o, VSet):
            raise Undecided('intersection with %s' % type(o).__name__)
        sym.eng().prove(o.var is self.var, 'sets of the same variable are intersected')
        if o.leaf is not None and self.leaf is not None and o.leaf is not self.leaf:
            raise Undecided('sets of different leaves')
        return VSet(self.var, self.tags | o.tags, self.leaf or o.leaf)

    __and__ = intersection

    def isdisjoint(self, o):
        m = self.intersection(o)
        return m.var.disj_(m.leaf, m.tags)


class Dist(Abs):
    def __init__(self, var, leaf):
        self.var, self.leaf = var, leaf

    def _p(self, s):
        """contract of the distributions: the probability depends on the set only and does not grow with smaller sets"""
        if not isinstance(s, VSet):
            raise Undecided('probability of %s' % type(s).__name__)
        E = sym.eng()
        E.prove(s.var is self.var, 'a distribution is asked for values of its own variable')
        if s.leaf is not None:
            E.prove(s.leaf is self.leaf, 'a distribution is asked for values in the path of its own leaf')
        return self.var.prob(self.leaf, s.tags)


class Dists(Abs):
    def __init__(self, w, leaf):
        self.w, self.leaf = w, leaf

    def __getitem__(self, var):
        if not isinstance(var, Var) and type(var) is not Var:
            raise Undecided('distribution of %s' % type(var).__name__)
        return Dist(var, self.leaf)


class Keys(Abs):
    """a set of variables given by the domains of maps"""
    def __init__(self, w, pred, parts, covers=()):
        # covers: the tags of the maps whose domains are subsets for sure
        self.w, self.pred, self.parts, self.covers = w, pred, tuple(parts), frozenset(covers)

    def __symset__(self):
        return self

    def keys(self):
        return self

    @staticmethod
    def _k(o):
        return o if isinstance(o, Keys) else o.keys()

    def union(self, *os):
        r = self
        for o in os:
            o = self._k(o)
            r = Keys(self.w, lambda v, p=r.pred, q=o.pred: Or(p(v), q(v)), r.parts + o.parts, r.covers | o.covers)
        return r

    def intersection(self, *os):
        r = self
        for o in os:
            o = self._k(o)
            r = Keys(self.w, lambda v, p=r.pred, q=o.pred: And(p(v), q(v)), r.parts + o.parts, r.covers & o.covers)
            r.meet = True
        return r

    __or__ = lambda s, o: s.union(o)                    # noqa
    __and__ = lambda s, o: s.intersection(o)            # noqa
    meet = False

    def issubset(self, o):
        if getattr(o, 'all_variables', False):
            return Not(self.w.foreign)
        raise Undecided('issubset')

    __le__ = issubset

    def __contains__(self, v):
        return bool(self.pred(v))

    def __bool__(self):
        return bool(self.__symlist__().n > 0)

    def __slen__(self):
        return self.__symlist__().n

    def items(self):
        raise Undecided('items')

    def __symlist__(self):
        return self.symlist(lambda v: v)

    def symlist(self, image):
        """the elements (image: what the iteration yields for a variable)"""
        w, E = self.w, self.w.E
        leaf = w.leaf
        pred = self.pred

        def fresh(E):
            v = Var(w)
            E.assume(pred(v))
            y = image(v)
            if y is not v:
                w.origin.append((y, v))
            return y

        def of(f):
            def g(y):
                if type(y) is Var:
                    return f(y)
                for z, v in w.origin:
                    if z is y:
                        return f(v)
                raise Undecided('element of a map')
            return g
        ms, tot = {}, {}
        if leaf is not None:
            ms = {'pe': ('prod', of(lambda v: v.factor(leaf, True, False))),
                  'pq': ('prod', of(lambda v: v.factor(leaf, True, True))),
                  'dq': ('count', of(lambda v: v.disj(leaf, 'q'))), 'de': ('count', of(lambda v: v.disj(leaf, 'e')))}
        k = Kind(ms, fresh, None, 'Variable', auto=tuple(ms))
        l = SymList.symbolic(E, k, 'vars')
        if leaf is not None:
            # the products over all variables of the evidence (of query and evidence) are the leaf's
            if w.covers(self.covers, 'e'):
                E.assume(l.head['pe'] == leaf.PE)
                if w.covers(self.covers, 'q'):
                    E.assume(l.head['pq'] == leaf.PQ)
            # variables whose sets are disjoint from the path are in the query and in the path
            for m, tg in (('dq', 'q'), ('de', 'e')):
                D = leaf.disjoint(tg)
                E.assume(l.head[m] <= D)
                if w.covers(self.covers, tg) or self.meet and {p[0] for p in self.parts} <= {tg, 'path'}:
                    E.assume(l.head[m] == D)
        if all(w.tags.get(tg) == 'empty' for tg, _ in self.parts) or (
                self.meet and any(w.tags.get(tg) == 'empty' for tg, _ in self.parts)):
            E.assume(l.head.n == 0)
        return l


class Assign(Abs):
    """a map from variables to sets of values with any domain: the query, the evidence or the path of a leaf"""
    def __init__(self, w, tag, leaf=None):
        self.w, self.tag, self.leaf = w, tag, leaf

    def __contains__(self, var):
        if type(var) is not Var:
            raise Undecided('lookup of %s' % type(var).__name__)
        return bool(var.has(self.tag, self.leaf))

    def __getitem__(self, var):
        if type(var) is not Var:
            raise Undecided('lookup of %s' % type(var).__name__)
        if not (var in self):
            raise KeyError(self.tag)
        return VSet(var, {self.tag}, self.leaf if self.tag == 'path' else None)

    def get(self, var, default=None):
        return self[var] if var in self else default

    def keys(self):
        return Keys(self.w, lambda v: v.has(self.tag, self.leaf), [(self.tag, self.leaf)], {self.tag})

    def items(self):
        return Items(self)

    def values(self):
        raise Undecided('values')

    def __bool__(self):
        return bool(self.keys())

    def __slen__(self):
        return self.keys().__slen__()

    def __symset__(self):
        return self.keys()

    def __symlist__(self):
        return self.keys().__symlist__()


class Items(Abs):
    def __init__(self, a):
        self.a = a

    def __symlist__(self):
        a = self.a
        return a.keys().symlist(lambda v: (v, VSet(v, {a.tag}, a.leaf if a.tag == 'path' else None)))


class DictQ(dict):
    """a query given as a dict"""


def as_form(w, tag, form):
    """the same map in the forms a user may give it: internal values, labels, a plain dict"""
    a = Assign(w, tag)
    if form == 0:
        return a
    m = importlib.import_module('jpt.variables')

    class Label(m.LabelAssignment):
        def __init__(self):
            pass

        def value_assignment(self):
            return a
    l = Label()
    if form == 1:
        return l
    d = DictQ()
    d.label = l
    return d


class Query(P):
    def __init__(self, tag, none=False, forms=3):
        self.tag, self.none, self.forms = tag, none, forms

    def make(self, D, name):
        w = world(D.E)
        f = D.choice(name, self.forms + self.none)
        if f == self.forms:
            w.tags[self.tag] = 'empty'
            return None
        return as_form(w, self.tag, f)


class Tree(P):
    def make(self, D, name):
        w = world(D.E)
        tr = classes().JPT.__new__(classes().JPT)
        tr.__dict__['_w'] = w
        return tr


def stub_bind(raw, self, *a, **k):
    """contract of bind (C23): the query with its variables resolved; an empty query for no arguments"""
    if len(a) == 1 and isinstance(a[0], DictQ):
        return a[0].label
    if len(a) == 1 and not k and isinstance(a[0], dict) and not a[0]:
        w = world()
        w.tags.setdefault('e', 'empty')
        if w.tags['e'] != 'empty':
            raise Undecided('an empty query')
        return as_form(w, 'e', 1)
    raise Undecided('bind')


def stub_apply(raw, self, query):
    """contract of apply: leaves that are not listed are disjoint from the query"""
    w = world()
    if not isinstance(query, Assign):
        raise Undecided('apply')
    E = sym.eng()
    l = SymList.symbolic(E, w.leafkind, 'leaves')
    for m in l.kind.measures:
        E.assume(l.head[m] <= w.totals[m])
    if query.tag in ('e', 'q'):
        E.assume(l.head['wpq'] == w.totals['wpq'])
    if query.tag == 'e':
        E.assume(l.head['wpe'] == w.totals['wpe'])
    if w.tags.get(query.tag) == 'empty':
        E.assume(l.head['w'] == w.totals['w'])
    return l


def stub_applies(raw, self, query):
    """contract of Leaf.applies: False only if a variable of the query is disjoint from the path"""
    if not isinstance(query, Assign):
        raise Undecided('applies')
    return self.disjoint(query.tag) == 0


STUBS[t('JPT.bind')] = stub_bind
STUBS[t('JPT.apply')] = stub_apply
STUBS[t('Leaf.applies')] = stub_applies
STUBS[t('Node.path')] = lambda raw, self: self.apath
STUBS[t('JPT._check_variable_assignment')] = lambda raw, self, assignment: None
STUBS[t('format_path')] = lambda raw, *a, **k: ''
USES = tuple(t(n) for n in ('JPT.bind', 'JPT.apply', 'Leaf.applies', 'Node.path', 'JPT._check_variable_assignment',
                            'format_path'))


@contract(t('JPT.infer'), ('C18',))
class _:
    mode = 'real'
    params = dict(self=Tree(), query=Query('q'), evidence=Query('e', none=True), fail_on_unsatisfiability=Bool())
    uses = USES
    track_lists = True
    concrete = False
    frame = False
    opts = dict(deadline=100)

    def post(self, a, r, old):
        T = a.self.__dict__['_w'].totals
        if r is None:
            return {'None is returned only if the evidence has probability zero': T['wpe'] == 0,
                    'None is returned only if no error is wanted': Not(a.fail_on_unsatisfiability)}
        return {'the evidence has a positive probability': T['wpe'] > 0,
                'P(query | evidence) is the prior weighted sum over all leaves of the products of the probabilities '
                'of query and evidence in the leaf, divided by that of the evidence': r * T['wpe'] == T['wpq'],
                'a probability': And(r >= 0, r <= 1)}

    def raises(self, a, exc, old):
        if not isinstance(exc, ValueError):
            return None
        return And(a.self.__dict__['_w'].totals['wpe'] == 0, a.fail_on_unsatisfiability)


class OneLeaf(P):
    def make(self, D, name):
        return world(D.E).fresh_leaf(D.E)


@contract(t('Leaf.applies'), ('C18', 'C20'))
class _:
    mode = 'real'
    params = dict(self=OneLeaf(), query=Query('q', forms=2))
    uses = (t('Node.path'),)
    track_lists = True
    concrete = False
    frame = False

    def post(self, a, r, old):
        return {'false exactly if a variable of the query is disjoint from its set in the path of the leaf':
                Iff(r, a.self.disjoint('q') == 0)}


# ------------------------------------------------------------------------------------------------ the structure
def node_kind(w):
    """nodes of the tree.  Measures, both arbitrary non-negative sums over the leaves below a node:
    any: of any leaf; hit: zero for the leaves whose path is disjoint from the query"""
    if getattr(w, 'nodekind', None) is None:
        w.nodekind = Kind({m: ('nonneg', lambda n, m=m: n.__dict__['m'][m]) for m in ('any', 'hit')},
                          lambda E: fresh_node(w, E), None, 'Node', auto=('any', 'hit'),
                          accepts=lambda x: isinstance(x, classes().Node))
    return w.nodekind


def fresh_node(w, E, m=None):
    tr = classes()
    leaf = E.choose(2) == 1
    n = (tr.Leaf if leaf else tr.DecisionNode).__new__(tr.Leaf if leaf else tr.DecisionNode)
    d = n.__dict__
    d['idx'] = E.int('idx')
    d['m'] = m or {k: E.real(k) for k in ('any', 'hit')}
    for v in d['m'].values():
        E.assume(v >= 0)
    if not leaf:
        d['variable'] = Var(w)
        d['children'] = Children(w, n)
        d['_splits'] = Splits(w, n)
    return n


class Children(Abs):
    """the children of a decision node; the leaves below them are those below the node"""
    def __init__(self, w, node):
        self.w, self.node = w, node

    def _list(self, kind):
        E = self.w.E
        l = SymList.symbolic(E, kind, 'children')
        for m in ('any', 'hit'):
            E.assume(l.head[m] == self.node.__dict__['m'][m])
        return l

    def child(self, E):
        """a child and its split: no leaf of a child whose split is disjoint from the query is hit"""
        w = self.w
        c = fresh_node(w, E)
        v = self.node.__dict__['variable']
        s = VSet(v, {('split', id(c))})
        E.assume(Implies(And(v.has(w.qtag), v.disj_(None, {w.qtag} | s.tags)), c.__dict__['m']['hit'] == 0))
        c.__dict__['_split'] = s
        return c, s

    def __symlist__(self):
        return self._list(Kind(node_kind(self.w).measures, lambda E: self.child(E)[0], None, 'Node',
                               auto=('any', 'hit'), accepts=node_kind(self.w).accepts))

    def pairs(self, order):
        w = self.w
        ms = {m: ('nonneg', lambda p, m=m: p[order.index('c')].__dict__['m'][m]) for m in ('any', 'hit')}

        def fresh(E):
            c, s = self.child(E)
            i = E.int('i')
            E.assume(i >= 0)
            w.index.append((i, self.node, c, s))
            return tuple({'c': c, 's': s, 'i': i}[o] for o in order)
        return self._list(Kind(ms, fresh, None, 'child', auto=('any', 'hit'), accepts=lambda x: isinstance(x, tuple),
                               images=(node_kind(w),)))

    def __symzip__(self, a):
        if len(a) == 2 and {type(x) for x in a} == {Children, Splits} and a[0].node is a[1].node:
            return self.pairs(''.join('c' if type(x) is Children else 's' for x in a))
        raise Undecided('zip of the children')

    def __symenum__(self, start=0):
        if start != 0:
            raise Undecided('enumerate')
        return self.pairs('ic' if type(self) is Children else 'is')

    def __getitem__(self, i):
        for j, n, c, s in self.w.index:
            if j is i and n is self.node:
                return c if type(self) is Children else s
        raise Undecided('indexing the children')

    def __slen__(self):
        raise Undecided('number of children')


class Splits(Children):
    def __symlist__(self):
        raise Undecided('iteration over the splits')


class AllVars(Abs):
    all_variables = True

    def __symset__(self):
        return self


class FittedTree(P):
    """a model: unfitted, or with any root"""
    def make(self, D, name):
        w = world(D.E)
        E = D.E
        w.index = []
        w.qtag = 'q'
        w.foreign = E.bool('foreign')
        tr = classes().JPT.__new__(classes().JPT)
        d = tr.__dict__
        d['_w'] = w
        d['_variables'] = AllVars()
        m = {k: E.real('root.' + k) for k in ('any', 'hit')}
        w.m = m
        d['root'] = None if D.choice('fitted', 2) else fresh_node(w, E, m)
        return tr


STUBS[t('JPT.variables')] = lambda raw, self: self._variables


def node_lists(st):
    w = world()
    k = node_kind(w)
    tr = classes()
    out = []
    for x in st.__dict__.values():
        if isinstance(x, SymList) and all(x is not o for o in out) and (
                x.kind is k if x.abstract else all(isinstance(e, tr.Node) for e in list.__iter__(x))):
            out.append(x)
    return [x for x in out if x is not w.out] + [w.out]


def pending(st, m):
    """sum of a measure over the nodes that are still to be visited and the leaves that have been listed"""
    k = node_kind(world())
    r = 0
    for l in node_lists(st):
        r = r + l.snapshot(k)[m]
    return r


class Pend:
    __symobj__ = True

    def __init__(self, st):
        self.d = {m: pending(st, m) for m in ('any', 'hit')}


def pend_inv(v, L):
    w = world()
    pre = (lambda m: 0) if L.cond is not None else L.pre
    out = {'no leaf is listed more than once': pending(v, 'any') <= L.g.d['any'] + pre('any'),
           'no leaf that is not disjoint from the query is lost': pending(v, 'hit') == L.g.d['hit'] + pre('hit')}
    if w.tags.get('q') == 'empty':
        out['no leaf is lost if the query is empty'] = pending(v, 'any') == L.g.d['any'] + pre('any')
    return out


def pend_loop():
    return LC(inv=pend_inv, modifies=node_lists,
              kinds=lambda l: out_kind(world()) if l is world().out else node_kind(world()),
              entry=Pend, local=('node', 'child', 'split'))


def out_kind(w):
    if getattr(w, 'outkind', None) is None:
        w.outkind = Kind(node_kind(w).measures, lambda E: fresh_node(w, E),
                         lambda E, n: [('is a leaf', isinstance(n, classes().Leaf))], 'Leaf', auto=('any', 'hit'))
    return w.outkind


@contract(t('JPT.apply'), ('C18', 'C20'))
class _:
    mode = 'real'
    params = dict(self=FittedTree(), query=Query('q', none=True))
    uses = (t('JPT.bind'), t('JPT.variables'))
    track_lists = True
    concrete = False
    frame = False
    loops = {'JPT.apply#L1': pend_loop(), 'JPT.apply#L2': pend_loop()}
    opts = dict(optional_loops=True)

    def build(self, D):
        a = Contract.build(self, D)
        if a.query is None:
            a.query = as_form(world(), 'q', 1)
        return a

    def call(self, a, fn):
        w = world()
        r = fn(a.self, a.query)
        if isinstance(r, SymList):
            return r
        for x in r:
            w.out.append(x)
        return w.out

    def post(self, a, r, old):
        w = world()
        s = r.snapshot(node_kind(w))
        out = {'a leaf that is not disjoint from the query is listed once': s['hit'] == w.m['hit'],
               'no leaf is listed twice': s['any'] <= w.m['any'],
               'the query is about variables of the model': Not(w.foreign), 'the model is fitted': a.self.root is not None}
        if w.tags.get('q') == 'empty':
            out['all leaves are listed for an empty query'] = s['any'] == w.m['any']
        return out

    def raises(self, a, exc, old):
        if isinstance(exc, TypeError):
            return world().foreign
        if isinstance(exc, RuntimeError):
            return a.self.root is None
        return None


# ------------------------------------------------------------------------------------------------ the path of a node
class PSet(Abs):
    """a set of values of a variable, seen through the question whether it contains the ghost point"""
    def __init__(self, var, inside):
        self.var, self.inside = var, inside

    def intersection(self, o):
        o = pset(o, self.var)
        sym.eng().prove(o.var is self.var, 'sets of the same variable are intersected')
        return PSet(self.var, And(self.inside, o.inside))

    __and__ = intersection


def pset(o, var):
    from engine.hooks import SymRange
    if isinstance(o, PSet):
        return o
    if isinstance(o, RangeSet):
        E = sym.eng()
        r = o.r
        if r.step != 1:
            raise Undecided('range')
        return PSet(var, And(world().x0 >= r.a, world().x0 < r.b))
    raise Undecided('set %s' % type(o).__name__)


class RangeSet(Abs):
    def __init__(self, r):
        self.r = r

    def intersection(self, o):
        if not isinstance(o, PSet):
            raise Undecided('intersection')
        return pset(self, o.var).intersection(o)

    __and__ = intersection


class Reals(Abs):
    """the set of all numbers"""
    def intersection(self, o):
        if not isinstance(o, PSet):
            raise Undecided('intersection')
        return o

    __and__ = intersection


class GhostMap(Abs):
    """a map from variables to sets, seen at the ghost variable and the ghost point"""
    def __init__(self, w):
        self.__dict__.update(w=w, has=False, inside=False, others={})

    def _touch(self):
        sym.eng().touch(self)

    def __havoc__(self, E, c, kind=None):
        self.__dict__.update(has=E.bool('has'), inside=E.bool('inside'), others={})

    def at(self, var):
        if var is self.w.v0:
            return self.has, self.inside
        if id(var) not in self.others:      # about other variables nothing is known
            self.others[id(var)] = self.w.E.bool('has_other'), self.w.E.bool('in_other')
        return self.others[id(var)]

    def __contains__(self, var):
        return bool(self.at(var)[0])

    def __getitem__(self, var):
        h, i = self.at(var)
        if not h:
            raise KeyError('variable')
        return PSet(var, i)

    def get(self, var, default=None):
        return self[var] if var in self else default

    def __setitem__(self, var, value):
        self._touch()
        if not isinstance(var, Var) and type(var) is not Var:
            raise Undecided('key')
        s = pset(value, var)
        self.w.E.prove(s.var is var, 'a variable is mapped to a set of its own values')
        if var is self.w.v0:
            self.__dict__.update(has=True, inside=s.inside)
        else:
            self.others[id(var)] = True, s.inside

    def __symset__(self):
        raise Undecided('set of a map')


class PathNode(P):
    """a node whose path has any number of entries"""
    def make(self, D, name):
        w = world(D.E)
        E = D.E
        w.v0 = Var(w)
        w.x0 = E.int('x0')
        n_values = E.int('n_values')
        E.assume(n_values >= 1)
        if w.v0._kind() != 'numeric':
            E.assume(And(w.x0 >= 0, w.x0 < n_values))    # a value of the domain

        class Dom(Abs):
            pass
        w.v0.__dict__['domain'] = Dom()
        w.v0.domain.__dict__['n_values'] = n_values

        def fresh(E):
            if E.choose(2):
                v = w.v0
            else:
                v = Var(w)
                v.__dict__['domain'] = w.v0.domain
            return v, PSet(v, E.bool('in_split'))
        k = Kind({'occ': ('count', lambda p: If(p[0] is w.v0, 1, 0)),
                  'out': ('count', lambda p: If(And(p[0] is w.v0, Not(p[1].inside)), 1, 0))}, fresh, None, 'split',
                 relations=(('out', 'occ'),))
        cls = classes().Leaf if D.choice('leaf', 2) else classes().DecisionNode
        n = cls.__new__(cls)
        n.__dict__['_path'] = SymList.symbolic(E, k, 'path')
        return n


def ghost_maps(st):
    return [x for x in st.__dict__.values() if type(x) is GhostMap]


def map_inv(v, L):
    m = ghost_maps(v)
    if len(m) != 1:
        raise Undecided('the map that is built')
    return {'a variable is in the map exactly if it has been split on': Iff(m[0].has, L.pre('occ') >= 1),
            'a value is in the set of its variable exactly if it is in all splits so far':
                Implies(m[0].has, Iff(m[0].inside, L.pre('out') == 0))}


STUBS[t('VariableMap')] = lambda raw, *a, **k: GhostMap(world()) if not a and not k else _undecided('VariableMap')
STUBS[t('R')] = Value(Reals())


def _undecided(m):
    raise Undecided(m)


@contract(t('Node.path'), ('C18', 'C20'))
class _:
    mode = 'real'
    params = dict(self=PathNode())
    uses = (t('VariableMap'), t('R'))
    track_lists = True
    concrete = False
    frame = False
    loops = {'Node.path#L1': LC(inv=map_inv, modifies=ghost_maps, local=('var', 'vals'))}

    def post(self, a, r, old):
        s = a.self._path.snapshot()
        return {'the path constrains exactly the variables of its splits': Iff(r.has, s['occ'] >= 1),
                'a value is in the path exactly if it is in every split on its variable':
                    Implies(r.has, Iff(r.inside, s['out'] == 0))}


# ------------------------------------------------------------------------------------------------ updates of all leaves
_TL = None


def tracked_leaf():
    """leaves whose writes are tracked"""
    global _TL
    base = classes().Leaf
    if _TL is None or _TL.__bases__[0] is not base:
        def setattr_(self, k, v):
            m = self.__dict__['map']
            if k != 'prior' or self is not m.current:
                raise Undecided('write to %s of a leaf' % k)
            self.__dict__[k] = v
            sym.eng().touch(self)

        def getattr_(self, k):
            if k.startswith('__'):
                raise AttributeError(k)
            raise Undecided('Leaf.' + k)
        _TL = type('Leaf', (base,), {'__setattr__': setattr_, '__getattr__': getattr_})
    return _TL


class LeafMap(Abs):
    """the leaves of the model by their index.  All leaves are in the same phase: `value` gives the current prior of a
    leaf in terms of its original prior and its factor, `total` the sum of all current priors"""
    def __init__(self, w):
        E = w.E
        self.w, self.phase, self.phase_ = w, 'original', 'original'
        self.value = lambda l: l.__dict__['p0']
        self.sums = {'p0': E.real('sum.p0'), 'pf': E.real('sum.pf')}
        for v in self.sums.values():
            E.assume(v >= 0)
        self.total = self.sums['p0']
        self.current = None

    def leaf(self, E):
        from engine import rt
        if self.phase is None:
            raise Undecided('leaves in different states')
        l = tracked_leaf().__new__(tracked_leaf())
        d = l.__dict__
        d.update(map=self, _serial=next(rt.SERIAL), p0=E.real('p0'), f=E.real('f'), idx=E.int('idx'))
        E.assume(And(d['p0'] >= 0, d['f'] >= 0))
        d['prior'] = self.value(l)
        self.current = l
        return l

    def seq(self, image, of):
        E = self.w.E
        k = Kind({'now': ('nonneg', lambda y: of(y).__dict__['prior'])}, lambda E: image(self.leaf(E)), None, 'Leaf',
                 auto=('now',))
        l = SymList.symbolic(E, k, 'leaves')
        E.assume(l.head['now'] == self.total)
        l.leafmap = self
        return l

    def values(self):
        return LView(self, lambda l: l, lambda y: y)

    def items(self):
        return LView(self, lambda l: (l.idx, l), lambda y: y[1])

    def keys(self):
        return LView(self, lambda l: l.idx, lambda i: self.at(i))

    def __symlist__(self):
        return self.keys().__symlist__()

    def at(self, i):
        if self.current is not None and i is self.current.__dict__['idx']:
            return self.current
        raise Undecided('lookup of a leaf')

    __getitem__ = get = at

    def __slen__(self):
        n = self.w.E.int('leaves')
        self.w.E.assume(n >= 0)
        return n


class LView(Abs):
    def __init__(self, m, image, of):
        self.m, self.image, self.of = m, image, of

    def __symlist__(self):
        return self.m.seq(self.image, self.of)


class Factors(Abs):
    """a number for every leaf index"""
    def __init__(self, m):
        self.m = m

    def __getitem__(self, i):
        return self.m.at(i).__dict__['f']

    def get(self, i, default=None):
        return self[i]

    def __contains__(self, i):
        self[i]
        return True


class EachLC:
    """loop over all leaves in which every iteration updates its own leaf only: after it, every leaf has been updated.
    The update is inferred among the candidates (label, value(leaf), total)"""
    modifies = fresh = kinds = shapes = entry = map = kind = measure = comp = decreases = None
    local = ('idx', 'leaf')

    def __init__(self, candidates):
        self.candidates = candidates

    def inv(self, st, L):
        from engine.hlist import AUTO
        m = getattr(L.it, 'leafmap', None)
        if m is None:
            raise Undecided('loop over other things than the leaves')
        out = {}
        alive = [(lab, v, t) for lab, v, t in self.candidates(m, L.entry)
                 if (L.key, lab) not in L.E.auto_dropped]
        if not alive:
            raise Undecided('the update of the leaves')
        if st._when == 'pre':
            m.phase = None          # a loop that is left early leaves the leaves in different states
        elif st._when == 'post':
            x = L.elem[1] if isinstance(L.elem, tuple) else L.elem if isinstance(L.elem, classes().Leaf) else m.at(L.elem)
            for lab, v, t in alive:
                out['%s%r|' % (AUTO, (L.key, lab))] = x.__dict__['prior'] == v(x)
        elif st._when == 'exit':
            lab, v, t = alive[0]
            m.value, m.total, m.phase, m.phase_, m.current = v, t, lab, lab, None
        return out


def numbers(entry):
    return [(k, v) for k, v in entry.items() if isinstance(v, SR)]


def scale_candidates(m, entry):
    """the prior of every leaf divided by a number; multiplied by its factor"""
    old, tot = m.value, m.total
    out = [('/' + k, lambda l, v=v: old(l) / v, tot / v) for k, v in numbers(entry)]
    if m.phase_ == 'original':
        out.append(('*f', lambda l: old(l) * l.__dict__['f'], m.sums['pf']))
    out.append(('same', old, tot))
    return out


class LeafTree(P):
    def make(self, D, name):
        w = world(D.E)
        tr = classes().JPT.__new__(classes().JPT)
        tr.__dict__.update(_w=w, leaves=LeafMap(w))
        return tr


def stub_normalize(raw, self):
    m = self.leaves
    tr = classes()
    if m.total == 0:
        raise tr.Unsatisfiability('')
    old, t = m.value, m.total
    m.value, m.total, m.phase, m.current = (lambda l: old(l) / t), 1, 'normalized', None
    return self


STUBS[t('JPT.normalize')] = stub_normalize


def unsat(exc):
    return isinstance(exc, classes().Unsatisfiability)


@contract(t('JPT.normalize'), ('C20',))
class _:
    mode = 'real'
    params = dict(self=LeafTree())
    track_lists = True
    concrete = False
    frame = False
    loops = {'JPT.normalize#L1': EachLC(scale_candidates), 'JPT.normalize#L2': EachLC(scale_candidates)}
    opts = dict(optional_loops=True)

    def post(self, a, r, old):
        m = a.self.leaves
        l = m.leaf(world().E)
        s = m.sums['p0']
        return {'some leaf has a positive prior': s > 0, 'the prior of every leaf is divided by the sum of all':
                l.prior * s == l.__dict__['p0'], 'the priors add up to one': m.total == 1, 'returns itself': r is a.self}

    def raises(self, a, exc, old):
        return a.self.leaves.sums['p0'] == 0 if unsat(exc) else None


class FactorsOf(P):
    def make(self, D, name):
        return None


@contract(t('JPT.multiply_by_leaf_prior'), ('C20',))
class _:
    mode = 'real'
    params = dict(self=LeafTree(), prior=FactorsOf())
    uses = (t('JPT.normalize'),)
    track_lists = True
    concrete = False
    frame = False
    loops = {'JPT.multiply_by_leaf_prior#L1': EachLC(scale_candidates)}
    opts = dict(optional_loops=True)

    def build(self, D):
        a = Contract.build(self, D)
        a.prior = Factors(a.self.leaves)
        return a

    def post(self, a, r, old):
        m = a.self.leaves
        l = m.leaf(world().E)
        s = m.sums['pf']
        return {'some leaf has a positive product': s > 0,
                'the prior of every leaf is its product with its factor, divided by the sum of all':
                    l.prior * s == l.__dict__['p0'] * l.__dict__['f'],
                'the priors add up to one': m.total == 1, 'returns itself': r is a.self}

    def raises(self, a, exc, old):
        return a.self.leaves.sums['pf'] == 0 if unsat(exc) else None


# ------------------------------------------------------------------------------------------------ probability in a leaf
class VVal(VSet):
    """what a preprocessed query assigns to a variable: a set of values, or (scalar) a single one"""
    @property
    def __class__(self):
        v = self.var
        if v.__dict__.get('scalar'):
            return float
        return classes().RealSet if v._kind() == 'numeric' else set


class LikAssign(Assign):
    def keys(self):
        return LikKeys(self.w, lambda v: v.has(self.tag), [(self.tag, None)], {self.tag})

    def __getitem__(self, var):
        if not (var in self):
            raise KeyError(self.tag)
        return VVal(var, {self.tag})

    def items(self):
        return LItems(self)

    def values(self):
        raise Undecided('values')


class LItems(Abs):
    def __init__(self, a):
        self.a = a

    def __symlist__(self):
        return self.a.keys().symlist(lambda v: (v, VVal(v, {self.a.tag})))


class LikKeys(Keys):
    def symlist(self, image):
        w, E = self.w, self.w.E
        leaf = w.leaf

        def fresh(E):
            v = Var(w)
            v.__dict__['scalar'] = bool(E.choose(2))
            v.__dict__['lik'] = E.real('lik')
            E.assume(v.lik >= 0)
            E.assume(v.has('q'))
            return image(v)

        def var(y):
            return y if type(y) is Var else y[0]

        def factor(y):
            v = var(y)
            return v.lik if v._kind() == 'numeric' else v.prob(leaf, frozenset({'q'}))
        l = SymList.symbolic(E, Kind({'pl': ('prod', factor)}, fresh, None, 'Variable', auto=('pl',)), 'vars')
        E.assume(l.head['pl'] == w.pl)
        return l


class LikDist(Dist):
    def _p(self, s):
        E = sym.eng()
        if type(s) is set and len(s) == 1:
            s = list(s)[0]
            if not isinstance(s, VVal):
                raise Undecided('set')
            E.prove(bool(s.var.scalar), 'the single value of the query is put in a set')
        elif isinstance(s, VVal):
            E.prove(not s.var.scalar, 'a distribution is asked for a set')
        else:
            raise Undecided('probability of %s' % type(s).__name__)
        E.prove(s.var is self.var, 'a distribution is asked for values of its own variable')
        E.prove(self.var._kind() != 'numeric', 'numeric variables are weighted by their likelihood')
        return self.var.prob(self.leaf, s.tags)


class LikDists(Dists):
    def __getitem__(self, var):
        return LikDist(var, self.leaf)


def stub_numlik(raw, self, variable, value, dirac_scaling=2., min_distances=None):
    """contract of Leaf._numeric_probability, below"""
    w = world()
    E = w.E
    E.prove(value.var is variable and variable._kind() == 'numeric', 'the value is one of the numeric variable')
    E.prove(dirac_scaling is w.scaling and min_distances is w.distances, 'the parameters are passed on')
    return variable.lik


STUBS[t('Leaf._numeric_probability')] = stub_numlik


class LikLeaf(P):
    def make(self, D, name):
        w = world(D.E)
        l = w.fresh_leaf(D.E)
        l.__dict__['distributions'] = LikDists(w, l)
        w.pl = D.E.real('PL')
        D.E.assume(w.pl >= 0)
        w.scaling = D.E.real('scaling')
        return l


class LikQuery(P):
    def make(self, D, name):
        w = world(D.E)
        a = LikAssign(w, 'q')
        if D.choice(name, 2) == 0:
            return a
        m = importlib.import_module('jpt.variables')

        class Label(m.LabelAssignment):
            def __init__(self):
                pass

            def value_assignment(self):
                return a
        return Label()


class Distances(Abs):
    """minimal distances of the numeric variables; bool: is the map not empty"""
    def __init__(self, E):
        self.E, self.full = E, E.bool('distances')
        self.d = {}

    def __bool__(self):
        return bool(self.full)

    def __getitem__(self, var):
        if id(var) not in self.d:
            self.d[id(var)] = self.E.real('distance')
            self.E.assume(self.d[id(var)] > 0)
        return self.d[id(var)]


class MinDist(P):
    def make(self, D, name):
        w = world(D.E)
        w.distances = None if D.choice(name, 2) else Distances(D.E)
        return w.distances


class Scaling(P):
    def make(self, D, name):
        return world(D.E).scaling


@contract(t('Leaf.probability'), ('C18', 'C20'))
class _:
    mode = 'real'
    params = dict(self=LikLeaf(), query=LikQuery(), dirac_scaling=Scaling(), min_distances=MinDist())
    uses = (t('Leaf._numeric_probability'),)
    track_lists = True
    concrete = False
    frame = False

    def post(self, a, r, old):
        return {'the product over all variables of the query of the probability (numeric variables: likelihood of a '
                'number, probability of a set) of its value in the leaf': r == world().pl}


class NumPDF(Abs):
    def __init__(self, d):
        self.d = d

    def __call__(self, x):
        return self.d.density(x)

    eval = __call__


class NumDist(Abs):
    """a numeric distribution: interval probabilities and densities (C07, C11)"""
    def __init__(self, E):
        self.E, self.seen = E, []
        self.pdf = NumPDF(self)

    def density(self, x):
        for k, v in self.seen:
            if k is x:
                return v
        v = float('inf') if self.E.choose(2) else self.E.real('density')
        if v != float('inf'):
            self.E.assume(v >= 0)
        self.seen.append((x, v))
        return v

    def _p(self, s):
        if not isinstance(s, jpt_class('jpt.base.intervals:ContinuousSet')):
            raise Undecided('probability of %s' % type(s).__name__)
        return prob_of(self.E, s)


def prob_of(E, s):
    d = s.__dict__ if hasattr(s, '__dict__') else None
    if 'p_' not in d:
        d['p_'] = E.real('p')
        E.assume(And(d['p_'] >= 0, d['p_'] <= 1))
    return d['p_']


class NumVal(P):
    def make(self, D, name):
        w = world(D.E)
        E = D.E
        w.var = Var(w)
        w.var.__dict__['kind'] = 'numeric'
        f = D.choice('form', 3)
        if f == 0:
            v = E.real('value')
        elif f == 1:
            v = interval(E)
        else:
            def fresh(E):
                i = interval(E)
                i.__dict__['np_'] = E.real('np')
                return i
            k = Kind({'np': ('real', lambda i: i.__dict__['np_'])}, fresh, None, 'ContinuousSet', auto=('np',))
            v = D.new('jpt.base.intervals:RealSet', intervals=SymList.symbolic(E, Kind({}, fresh, None, 'set'), 'set'))
            w.simple = D.new('jpt.base.intervals:RealSet', intervals=SymList.symbolic(E, k, 'simplified'))
        w.form, w.value = f, v
        return v


def interval(E):
    cls = jpt_class('jpt.base.intervals:ContinuousSet')
    s = cls.__new__(cls)
    s.lower = E.real('lower')
    s.upper = E.real('upper')
    s.left, s.right = E.int('left'), E.int('right')
    s.__dict__['size_'] = E.choose(3)
    E.assume(And(s.lower <= s.upper, Implies(s.size_ == 1, s.lower == s.upper)))
    return s


STUBS['jpt.base.intervals:ContinuousSet.size'] = lambda raw, self: (0, 1, float('inf'))[self.__dict__['size_']]


def stub_simplify_np(raw, self):
    w = world()
    if self is not w.value:
        raise Undecided('simplify')
    return w.simple


STUBS['jpt.base.intervals:RealSet.simplify/np'] = stub_simplify_np


def stub_numlik_rec(raw, self, variable, value, dirac_scaling=2., min_distances=None):
    w = world()
    w.E.prove(variable is w.var and dirac_scaling is w.scaling and min_distances is w.distances,
              'the parameters are passed on')
    if 'np_' in getattr(value, '__dict__', {}):
        return value.__dict__['np_']
    if w.form == 1 and value is w.value.lower or w.form == 1 and value is w.value.upper:
        return number_lik(w, self, value)
    raise Undecided('recursive call')


def number_lik(w, leaf, x):
    d = leaf.distributions[w.var].density(x)
    if isinstance(d, float):
        if w.distances is None:
            return 1
        return If(w.distances.full, w.scaling / w.distances[w.var], 1)
    return d


STUBS[t('Leaf._numeric_probability/rec')] = stub_numlik_rec


class NumLeaf(P):
    def make(self, D, name):
        w = world(D.E)
        l = w.fresh_leaf(D.E)
        d = NumDist(D.E)

        class Ds(Abs):
            def __getitem__(self, v):
                if v is not w.var:
                    raise Undecided('distribution')
                return d
        l.__dict__['distributions'] = Ds()
        w.scaling = D.E.real('scaling')
        return l


class TheVar(P):
    def make(self, D, name):
        return world(D.E).var


@contract(t('Leaf._numeric_probability'), ('C18', 'C20'))
class _:
    mode = 'real'
    params = dict(self=NumLeaf(), value=NumVal(), variable=TheVar(), dirac_scaling=Scaling(), min_distances=MinDist())
    uses = (t('Leaf._numeric_probability/rec'), 'jpt.base.intervals:ContinuousSet.size',
            'jpt.base.intervals:RealSet.simplify/np')
    track_lists = True
    concrete = False
    frame = False

    def call(self, a, fn):
        return fn(a.self, a.variable, a.value, a.dirac_scaling, a.min_distances)

    def post(self, a, r, old):
        w = world()
        if w.form == 0:
            return {'a number: its density, infinite ones replaced as wanted': r == number_lik(w, a.self, w.value)}
        if w.form == 2:
            return {'a union: the sum over the intervals of its disjoint form': r == w.simple.intervals.measure('np')}
        s = w.value.__dict__['size_']
        if s == 0:
            return {'the empty set has probability zero': r == 0}
        if s == 1:
            return {'a single point: that of the number': r == number_lik(w, a.self, w.value.lower)}
        return {'an interval: its probability': r == prob_of(w.E, w.value)}


# ------------------------------------------------------------------------------------------------ maps that are built
class Val(Abs):
    """an abstract value; `vid` identifies it"""
    __bool__ = lambda s: True               # noqa

    def __init__(self, vid, **k):
        self.__dict__.update(vid=vid, **k)


class GMap(Abs):
    """a map from variables to abstract values that the code builds, seen at the ghost variable w.v0: is it in the map,
    and the identity of what it is mapped to"""
    ghostmap = True

    def __init__(self, w):
        from engine import rt
        self.__dict__.update(w=w, _serial=next(rt.SERIAL), has=False, vid=w.E.int('vid'))

    def state(self):
        return self.has, self.vid

    def __havoc__(self, E, c, kind=None):
        self.__dict__.update(has=E.bool('has'), vid=E.int('vid'))

    def __setitem__(self, var, value):
        sym.eng().touch(self)
        if type(var) is not Var:
            raise Undecided('key')
        vid = getattr(value, 'vid', None)
        if vid is None:
            raise Undecided('value of a map')
        self.w.E.prove(value.var is var, 'a variable is mapped to a value of its own')
        if var is self.w.v0:
            self.__dict__.update(has=True, vid=vid)

    def candidates(self, entry, L):
        h, v = entry
        out = [('has eq', lambda: Iff(self.has, h)), ('has occ', lambda: Iff(self.has, Or(h, L.pre('occ') >= 1)))]
        if 'occ' not in L.it.kind.measures:
            out = out[:1]
        for n, x in [('eq', v)] + list(self.w.ghost_values.items()):
            out.append(('vid ' + n, lambda x=x: Implies(self.has, self.vid == x)))
        return out

    def items(self):
        return GItems(self)

    def __symlist__(self):
        raise Undecided('elements of a built map')


class GItems(Abs):
    def __init__(self, m):
        self.m = m


def fresh_var(w, E):
    """the ghost variable or any other one"""
    if E.choose(2):
        return w.v0
    v = Var(w)
    return v


def occ(w, var=lambda y: y[0]):
    return 'count', lambda y: If(var(y) is w.v0, 1, 0)


# ------------------------------------------------------------------------------------------------ most probable explanations
class MpeDist(Abs):
    def __init__(self, var, E):
        self.var = var
        d = var.__dict__
        if 'expl' not in d:
            d['expl'] = Val(E.int('explanation'), var=var)
            d['peak'] = float('inf') if E.choose(2) else E.real('peak')
            if d['peak'] != float('inf'):
                E.assume(d['peak'] >= 0)

    def mpe(self):
        return self.var.expl, self.var.peak


def capped(w, v):
    return w.distances[v] if isinstance(v.peak, float) else v.peak


class MpeDists(Abs):
    """the distributions of a leaf: a most probable value of every variable and its likelihood (C11, C12, C14)"""
    def __init__(self, w):
        E = w.E
        self.w = w
        w.v0 = Var(w)
        MpeDist(w.v0, E)
        w.ghost_values = {'explanation': w.v0.expl.vid}

        def fresh(E):
            v = fresh_var(w, E)
            return v, MpeDist(v, E)
        k = Kind({'ml': ('prod', lambda y: capped(w, y[0])), 'occ': occ(w)}, fresh, None, 'variable', auto=('ml',))
        self.all = SymList.symbolic(E, k, 'distributions')

    def items(self):
        return self.all


class MpeLeaf(P):
    def make(self, D, name):
        w = world(D.E)
        l = w.fresh_leaf(D.E)
        w.distances = Distances(D.E)
        w.new_map = lambda: GMap(w)
        l.__dict__['distributions'] = MpeDists(w)
        return l


class Dist0(P):
    def make(self, D, name):
        return world(D.E).distances


class Built:
    def __init__(self, m):
        self.m = m


def stub_label(raw, items, *a, **k):
    if a or k:
        raise Undecided('LabelAssignment')
    m = items.m if isinstance(items, GItems) else items
    if not isinstance(m, GMap):
        raise Undecided('LabelAssignment')
    return Built(m)


STUBS[t('LabelAssignment/mpe')] = stub_label


@contract(t('Leaf.mpe'), ('C14',))
class _:
    mode = 'real'
    params = dict(self=MpeLeaf(), minimal_distances=Dist0())
    uses = (t('LabelAssignment/mpe'),)
    track_lists = True
    concrete = False
    frame = False

    def post(self, a, r, old):
        l = a.self
        s = l.distributions.all.snapshot()
        if not isinstance(r, tuple) or not isinstance(r[0], Built):
            raise Undecided('result')
        m = r[0].m
        w = world()
        return {'the likelihood is the prior times the product over all variables of their highest likelihoods, infinite '
                'ones replaced by the minimal distance': r[1] == l.prior * s['ml'],
                'the explanation assigns a value to exactly the variables of the leaf': Iff(m.has, s['occ'] >= 1),
                'and to every one its most probable value': Implies(m.has, m.vid == w.v0.expl.vid)}


class CondTree(Abs):
    """the conditional model: its leaves, each with a most probable explanation (contract of Leaf.mpe above)"""
    def __init__(self, w):
        self.leaves = CondLeaves(w)


class CondLeaves(Abs):
    def __init__(self, w):
        self.w = w
        E = w.E
        w.l0 = self.leaf(E, True)
        w.peak = E.real('peak')
        self.kind = Kind({'top': ('count', lambda l: If(l.__dict__['lik'] == w.peak, 1, 0)),
                          'top0': ('count', lambda l: If(And(l is w.l0, w.l0.__dict__['lik'] == w.peak), 1, 0)),
                          'in0': ('count', lambda l: If(l is w.l0, 1, 0))},
                         lambda E: w.l0 if E.choose(2) else self.leaf(E), None, 'Leaf',
                         relations=(('top0', 'in0'), ('top0', 'top')), auto=('top', 'top0', 'in0'))
        self.kind.extremes = {'likelihood': (lambda l: l.__dict__['lik'], w.peak)}
        self.all = SymList.symbolic(E, self.kind, 'leaves')
        # definition of the largest likelihood
        E.assume(Implies(self.all.n >= 1, self.all.head['top'] >= 1))
        E.assume(self.all.n >= 1)
        E.assume(self.all.head['in0'] == 1)
        E.assume(w.l0.__dict__['lik'] <= w.peak)
        E.assume(self.all.head['top0'] == If(w.l0.__dict__['lik'] == w.peak, 1, 0))

    def leaf(self, E, first=False):
        l = classes().Leaf.__new__(classes().Leaf)
        d = l.__dict__
        d.update(lik=E.real('lik'), best=Val(E.int('best'), var=None))
        d['leaf0'] = first
        E.assume(d['lik'] >= 0)
        if not first:
            E.assume(d['lik'] <= self.w.peak)
        return l

    def values(self):
        return CondView(self, lambda l: l)

    def items(self):
        return CondView(self, lambda l: (l.__dict__['best'], l))

    def __slen__(self):
        return self.all.n


class CondView(Abs):
    """the leaves in the order of the map; a list derived from them element by element can be walked in parallel"""
    def __init__(self, c, image):
        self.c, self.image = c, image

    def __symlist__(self):
        c, im = self.c, self.image
        ms = {m: (s, lambda y, f=f: f(y[1] if isinstance(y, tuple) else y)) for m, (s, f) in c.kind.measures.items()}
        k = Kind(ms, lambda E: im(c.kind.fresh(E)), None, 'Leaf', c.kind.relations, auto=c.kind.auto)
        k.extremes = {n: (lambda y, f=f: f(y[1] if isinstance(y, tuple) else y), v)
                      for n, (f, v) in c.kind.extremes.items()}
        l = SymList()
        l.abstract, l.kind, l.head, l.tail, l.walk = True, k, c.all.head, [], (c, im)
        return l

    def __symzip__(self, parts):
        from engine.hlist import MapList
        c = self.c
        ims = []
        for p in parts:
            if isinstance(p, CondView) and p.c is c:
                ims.append(p.image)
            elif isinstance(p, MapList) and p.cond is None and getattr(p.base, 'walk', (None,))[0] is c:
                ims.append(lambda l, p=p: p.fn(p.base.walk[1](l)))
            else:
                raise Undecided('parallel walk')

        def fresh(E):
            l = c.kind.fresh(E)
            y = tuple(im(l) for im in ims)
            c.w.origin.append((y, l))
            return y

        def of(f):
            def g(y):
                for z, l in c.w.origin:
                    if z is y:
                        return f(l)
                raise Undecided('element')
            return g
        k = Kind({m: (s, of(f)) for m, (s, f) in c.kind.measures.items()}, fresh, None, 'Leaf', c.kind.relations,
                 auto=c.kind.auto)
        l = SymList()
        l.abstract, l.kind, l.head, l.tail = True, k, c.all.head, []
        return l


def stub_leaf_mpe(raw, self, minimal_distances):
    w = world()
    w.E.prove(minimal_distances is w.distances, 'infinite likelihoods are replaced by the minimal distances of the model')
    return self.__dict__['best'], self.__dict__['lik']


def stub_conditional(raw, self, evidence=None, fail_on_unsatisfiability=True, keep_evidence=False, *a, **k):
    """contract of conditional_jpt (C20)"""
    w = world()
    if a or k or not isinstance(evidence, Assign) or evidence.tag != 'e':
        raise Undecided('conditional_jpt')
    w.E.prove(Not(keep_evidence), 'the evidence is used as it is')
    if w.unsat:
        if fail_on_unsatisfiability:
            raise classes().Unsatisfiability('')
        return None
    w.cond = CondTree(w)
    return w.cond


STUBS[t('Leaf.mpe/in')] = stub_leaf_mpe
STUBS[t('JPT.conditional_jpt')] = stub_conditional


class MpeTree(P):
    def make(self, D, name):
        w = world(D.E)
        w.unsat = D.E.bool('unsatisfiable')
        w.distances = Distances(D.E)
        w.cond = None
        tr = classes().JPT.__new__(classes().JPT)
        tr.__dict__.update(_w=w, minimal_distances=w.distances)
        w.built = Kind({'is0': ('count', lambda v: If(w.cond is not None and v is w.l0.__dict__['best'], 1, 0))}, None,
                       None, 'explanation')
        return tr


@contract(t('JPT.mpe'), ('C14',))
class _:
    mode = 'real'
    params = dict(self=MpeTree(), evidence=Query('e', none=True), fail_on_unsatisfiability=Bool())
    uses = (t('JPT.bind'), t('JPT._check_variable_assignment'), t('JPT.conditional_jpt'), t('Leaf.mpe/in'))
    track_lists = True
    concrete = False
    frame = False

    def post(self, a, r, old):
        w = world()
        if r is None:
            return {'None only for evidence of probability zero': And(w.unsat, Not(a.fail_on_unsatisfiability))}
        if not isinstance(r, tuple) or not isinstance(r[0], SymList):
            raise Undecided('result')
        s = w.cond.leaves.all.snapshot()
        n = r[0].snapshot(w.built)
        return {'the evidence is satisfiable': Not(w.unsat),
                'the likelihood is that of the best leaf': r[1] == w.peak,
                'one explanation for every leaf of the highest likelihood': n.n == s['top'],
                'the explanation of a leaf is listed (once) exactly if its likelihood is the highest':
                    n['is0'] == If(w.l0.__dict__['lik'] == w.peak, 1, 0)}

    def raises(self, a, exc, old):
        return And(world().unsat, a.fail_on_unsatisfiability) if unsat(exc) else None


# ------------------------------------------------------------------------------------------------ joint density
class PVal(Abs):
    """what a complete or partial observation assigns to a variable: form 'scalar', or a set holding that scalar (numeric
    variables: an interval) with one value, or with more"""
    def __init__(self, var, form):
        self.__dict__.update(var=var, form=form)

    @property
    def vid(self):
        return self.var.sid if self.form == 'scalar' else self.var.tid

    @property
    def __class__(self):
        v = self.var
        if self.form == 'scalar':
            return float if v._kind() == 'numeric' else int
        return jpt_class('jpt.base.intervals:ContinuousSet') if v._kind() == 'numeric' else set

    def _set(self, what):
        if self.form == 'scalar':
            raise TypeError(what)

    def size(self):
        self._set('size')
        return {'one': 1, 'many': float('inf')}[self.form]

    def __slen__(self):
        self._set('len')
        return {'one': 1, 'many': 2}[self.form]

    @property
    def lower(self):
        self._set('lower')
        return self.var.scalar if self.form == 'one' else Val(sym.eng().int('lower'), var=self.var)

    @property
    def upper(self):
        return self.lower

    def __hash__(self):
        return id(self)


def p_var(w, E):
    """a variable with its value in the observation"""
    v = fresh_var(w, E) if w.v0 is not None else Var(w)
    d = v.__dict__
    if 'sid' not in d:
        d['sid'], d['tid'] = E.int('scalar'), E.int('set')
        d['scalar'] = PVal(v, 'scalar')
        d['given'] = PVal(v, ('scalar', 'one', 'many')[E.choose(3)])
    return v


class PDens(Abs):
    def __init__(self, var, leaf):
        self.var, self.leaf = var, leaf

    def value(self, x):
        E = sym.eng()
        if isinstance(x, (PVal, Val)) or type(x) in (PVal, Val):
            E.prove(And(x.var is self.var, x.vid == self.var.sid),
                    'a distribution is asked for the density of the value of its variable')
            return density(self.leaf, self.var)
        raise Undecided('density')

    @property
    def pdf(self):
        sym.eng().prove(self.var.numeric, 'densities of discrete variables are asked by _pdf')
        return self.value

    def _pdf(self, x):
        sym.eng().prove(not self.var.numeric, 'densities of numeric variables are asked by pdf')
        return self.value(x)


def density(leaf, v):
    k = ('dens', id(leaf))
    if k not in v.p:
        v.p[k] = v.w.E.real('density')
        v.w.E.assume(v.p[k] >= 0)
    return v.p[k]


class PDists(Dists):
    def __getitem__(self, var):
        if type(var) is not Var:
            raise Undecided('distribution')
        return PDens(var, self.leaf)


class PObs(Abs):
    """an observation: any number of variables, each with its value"""
    _variables = property(lambda s: PVars())

    def __init__(self, w):
        self.w = w

    def _list(self, image, var):
        w, E = self.w, self.w.E

        def many(y):
            v = var(y)
            return If(v.given.form == 'many', 1, 0)
        ms = {'occ': ('count', lambda y: If(var(y) is w.v0, 1, 0)),
              'mn': ('count', lambda y: If(And(v_num(var(y)), var(y).given.form == 'many'), 1, 0)),
              'md': ('count', lambda y: If(And(Not(v_num(var(y))), var(y).given.form == 'many'), 1, 0))}

        def fresh(E):
            v = p_var(w, E)
            y = image(v)
            if y is not v:
                w.origin.append((y, v))
            return y
        l = SymList.symbolic(E, Kind(ms, fresh, None, 'variable', auto=('mn', 'md')), 'observation')
        h = l.head
        E.assume(And(Iff(w.in0, h['occ'] >= 1), h['occ'] <= 1, h['mn'] == w.many_n, h['md'] == w.many_d))
        return l

    def _of(self, y):
        for z, v in self.w.origin:
            if z is y:
                return v
        return y

    def items(self):
        return PView(lambda: self._list(lambda v: (v, v.given), lambda y: y[0]))

    def values(self):
        return PView(lambda: self._list(lambda v: v.given, self._of))

    def keys(self):
        return PView(lambda: self._list(lambda v: v, self._of))


class PVars(Abs):
    def values(self):
        return self


class PView(Abs):
    def __init__(self, mk):
        self.mk = mk

    def __symlist__(self):
        return self.mk()


def v_num(v):
    return v._kind() == 'numeric'


class PMap(GMap):
    """the observation in one of the forms the code builds"""
    def __setitem__(self, var, value):
        if isinstance(value, (set, frozenset)) and type(value) is not PVal and len(value) == 1:
            value = PSetOf(var, list(value)[0])
        GMap.__setitem__(self, var, value)

    def items(self):
        w, E = self.w, self.w.E
        # proved for the ghost variable, hence for all
        E.prove(And(Iff(self.has, w.in0), Implies(self.has, self.vid == w.v0.sid)),
                'the values whose densities are asked are those of the observation')
        leaf = w.leaf

        def fresh(E):
            v = p_var(w, E)
            return v, v.scalar
        k = Kind({'pd': ('prod', lambda y: density(leaf, y[0])), 'zero': ('count', lambda y: If(density(leaf, y[0]) == 0, 1, 0))},
                 fresh, None, 'variable', auto=('pd', 'zero'))
        l = SymList.symbolic(E, k, 'scalars')
        E.assume(l.head['pd'] == leaf.__dict__['PD'])
        E.assume(Implies(l.head['zero'] > 0, l.head['pd'] == 0))
        return l


class PSetOf(Abs):
    """the set of one value"""
    def __init__(self, var, x):
        self.__dict__.update(var=var)
        E = sym.eng()
        ok = type(x) is PVal and x.form == 'scalar'
        if not ok:
            raise Undecided('a set of something')
        E.prove(And(x.var is var, not v_num(var)), 'the value of a discrete variable is put in a set')
        self.__dict__['vid'] = var.tid


class _CSMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, jpt_class('jpt.base.intervals:ContinuousSet'))


class PInterval(metaclass=_CSMeta):
    """stands for ContinuousSet: of two abstract numbers it makes an abstract interval"""
    def __new__(cls, *a, **k):
        if len(a) == 2 and not k and type(a[0]) is PVal and a[0] is a[1] and a[0].form == 'scalar':
            sym.eng().prove(v_num(a[0].var), 'an interval of the value of a numeric variable')
            return Val(a[0].var.tid, var=a[0].var)
        raise Undecided('ContinuousSet')


def stub_va(raw, *a, **k):
    if a or set(k) - {'variables'}:
        raise Undecided('ValueAssignment')
    return PMap(world())


def stub_apply_pdf(raw, self, query):
    w = world()
    if not isinstance(query, GMap):
        raise Undecided('apply')
    w.E.prove(And(Iff(query.has, w.in0), Implies(query.has, query.vid == w.v0.tid)),
              'the leaves are searched for the sets of the observation')
    l = SymList.symbolic(w.E, w.pdfkind, 'leaves')
    # leaves that are not listed are disjoint from the observation, which has density zero in them
    w.E.assume(l.head['wd'] == w.total_wd)
    return l


def stub_prod(raw, x):
    from engine.hlist import MapList
    return x.fold('prod') if isinstance(x, MapList) else raw(x)


STUBS[t('ContinuousSet/pdf')] = Value(PInterval)
STUBS[t('ValueAssignment/pdf')] = stub_va
STUBS[t('JPT.apply/pdf')] = stub_apply_pdf
STUBS[t('prod')] = stub_prod
STUBS[t('first/pdf')] = lambda raw, x, *a: x.lower if type(x) is PVal else _undecided('first')


class PdfTree(P):
    def make(self, D, name):
        w = world(D.E)
        E = D.E
        w.v0 = None
        w.v0 = p_var(w, E)
        w.in0 = E.bool('in_observation')
        w.many_n, w.many_d = E.int('many_n'), E.int('many_d')
        E.assume(And(w.many_n >= 0, w.many_d >= 0))
        E.assume(Implies(And(w.in0, w.v0.given.form == 'many'), If(v_num(w.v0), w.many_n, w.many_d) >= 1))
        w.ghost_values = {'scalar': w.v0.sid, 'set': w.v0.tid}
        w.total_wd = E.real('total')

        def fresh(E):
            l = w.fresh_leaf(E)
            d = l.__dict__
            d['PD'] = E.real('PD')
            E.assume(d['PD'] >= 0)
            d['distributions'] = PDists(w, l)
            return l
        w.pdfkind = Kind({'wd': ('nonneg', lambda l: l.prior * l.__dict__['PD'])}, fresh, None, 'Leaf', auto=('wd',))
        E.assume(w.total_wd >= 0)
        tr = classes().JPT.__new__(classes().JPT)
        tr.__dict__['_w'] = w
        return tr


class Observation(P):
    def make(self, D, name):
        w = world(D.E)
        a = PObs(w)
        if D.choice(name, 2) == 0:
            return a
        m = importlib.import_module('jpt.variables')

        class Label(m.LabelAssignment):
            def __init__(self):
                pass

            def value_assignment(self):
                return a
        return Label()


@contract(t('JPT.pdf'), ('C21',))
class _:
    mode = 'real'
    params = dict(self=PdfTree(), values=Observation())
    uses = (t('ContinuousSet/pdf'), t('ValueAssignment/pdf'), t('JPT.apply/pdf'), t('prod'), t('first/pdf'),
            t('JPT._check_variable_assignment'))
    track_lists = True
    concrete = False
    frame = False

    def post(self, a, r, old):
        w = world()
        return {'only for observations of single values': And(w.many_n == 0, w.many_d == 0),
                'the sum over all leaves of the prior times the product of the densities of all variables':
                    r == w.total_wd}

    def raises(self, a, exc, old):
        w = world()
        return Or(w.many_n > 0, w.many_d > 0) if isinstance(exc, ValueError) else None
