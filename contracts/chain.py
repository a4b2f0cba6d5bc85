"""Contracts of sequence models (C24): any number of time steps and of leaves.

A factor graph is looked at for an arbitrary time step g and an arbitrary leaf i: is there a variable for step g, are the transitions of step g to g + 1
the transition model, and is the factor of step g the prior of the leaf under the evidence of that step."""
import importlib
import re

import z3

from engine import sym, rt
from engine.contract import contract, NS, STUBS, Value, Wrap, And, Iff, Implies, If, jpt_class
from engine.hlist import LC
from engine.seq import SymSeq, SymL, Every, Arrays, within, seqof
from engine.sym import SB, SI, SR, Or, Not, Undecided, PathEnd
from contracts.trees import Abs
from contracts.posterior import fun

SQ = 'jpt.sequential_trees:'
F = SB(z3.BoolVal(False))


def step(name):
    """the time step that a variable of the factor graph is named after"""
    m = re.fullmatch(r'(\D*)(?:<(\d+)>|(\d+))', name) if isinstance(name, str) else None
    if m is None:
        raise Undecided('name of a variable')
    a = sym.eng().spec
    if a._prefix is None:
        a._prefix = m.group(1)
    if a._prefix != m.group(1):
        raise Undecided('variables with different names')
    return a._names[int(m.group(2))] if m.group(2) else SI(z3.IntVal(int(m.group(3))))


class Matrix(Abs):
    """the transition model"""


class Graph(Abs):
    _restorable = True

    def __init__(self):
        E = sym.eng()
        self._serial = next(rt.SERIAL)
        self.var, self.trans, self.priors, self.fit = F, SI(z3.IntVal(0)), SI(z3.IntVal(0)), F
        E.spec._graph = self

    def rv(self, name, n):
        E, a = sym.eng(), sym.eng().spec
        k = step(name)
        E.require(And(n == a._L, within(k, a._T)), 'a variable has a state for every leaf')
        if bool(k == a._g):
            a._var = SB(z3.BoolVal(True))

    def factor(self, names, potential=None):
        E, a = sym.eng(), sym.eng().spec
        E.touch(self)
        if isinstance(names, SymL) and isinstance(names.n, int):
            names = [x for _, x in names.entries]
        if type(names) is not list or len(names) not in (1, 2):
            raise Undecided('factor')
        ks = [step(n) for n in names]
        if len(ks) == 2:
            E.require(And(potential is a._matrix, ks[1] == ks[0] + 1, ks[0] >= 0, ks[1] < a._T),
                      'transitions lead from one time step to the next')
            if bool(ks[0] == a._g):
                self.trans = self.trans + 1
            return
        E.require(within(ks[0], a._T), 'a factor for a time step')
        if bool(ks[0] == a._g):
            self.priors = self.priors + 1
            self.fit = And(potential.shape[0] == a._L, potential[a._i] == If(a._has(a._g, a._i), a._prior(a._g, a._i), 0))

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.trans, self.priors, self.fit = E.int('transitions'), E.int('factors'), E.bool('fit')


class Tree(Abs):
    """the model under the evidence of time step t"""
    def __init__(self, a, t):
        self.a, self.no, self.leaves = a, t, self
        self.allnodes = SymSeq(a._E, a._L, lambda k: k)

    def keys(self):
        return self

    def __contains__(self, k):
        return bool(self.a._has(self.no, self.a._pos(k)))

    def __getitem__(self, k):
        if k not in self:
            raise KeyError('no such leaf')
        return NS(prior=self.a._prior(self.no, self.a._pos(k)))

    def get(self, k, default=None):
        return self[k] if k in self else default


class Template(Abs):
    """the template tree: its leaves have any keys"""
    def __init__(self, a):
        self.a, self.leaves = a, self
        self.allnodes = SymSeq(a._E, a._L, lambda k: k)

    def keys(self):
        return SymSeq(self.a._E, self.a._L, lambda k: Key(self.a, k))

    def __slen__(self):
        return self.a._L

    def __symseq__(self):
        return self.keys().__symseq__()

    def conditional_jpt(self, e):
        a = self.a
        if not isinstance(e, Step):
            raise Undecided('evidence')
        a._E.require(Not(e.label), 'evidence is given in values')
        if bool(a._possible(e.t)):
            return Tree(a, e.t)
        a._bad = e.t
        raise jpt_class('jpt.base.errors:Unsatisfiability')('impossible')


class Key(Abs):
    def __init__(self, a, pos):
        self.a, self.pos = a, pos

    def __hash__(self):
        return 0

    def __eq__(self, o):
        return isinstance(o, Key) and bool(self.pos == o.pos)


class Step(Abs):
    """the evidence of a time step"""
    def __init__(self, t, label):
        self.t, self.label = t, label

    def value_assignment(self):
        return Step(self.t, F)

    @property
    def __class__(self):
        m = importlib.import_module('jpt.variables')
        return m.LabelAssignment if bool(self.label) else m.ValueAssignment


class Silent:
    def __getattr__(self, k):
        return lambda *a, **k: None


STUBS[SQ + 'factorgraph/g'] = Value(NS(Graph=Graph))
STUBS[SQ + 'np/z'] = Wrap(Arrays)


def transitions(st, L):
    a, g = L.E.spec, st.factor_graph
    return {'transitions so far': g.trans == If(And(L.k > a._g, a._g < a._T - 1), 1, 0), 'no factor yet': g.priors == 0}


def factors(st, L):
    a, g = L.E.spec, st.factor_graph
    return {'transitions are all there': g.trans == If(a._g < a._T - 1, 1, 0), 'a factor for every step so far': g.priors == If(L.k > a._g, 1, 0),
            'it is the prior of the leaf under the evidence': Implies(L.k > a._g, g.fit), 'a model for every step so far': st.altered_jpts.n == L.k,
            'it is that under the evidence of the step': Every(st.altered_jpts, lambda k, x: And(x.no == k, a._possible(k)))}


def fill(st, L):
    a = L.E.spec
    k = st.conditional_jpt.no
    return {'size': st.prior.shape[0] == a._L, 'the priors of the leaves so far': st.prior[a._i] == If(And(L.k > a._i, a._has(k, a._i)), a._prior(k, a._i), 0)}


def steps(l, L):
    return {'a value assignment for every step so far': l.n == L.k, 'it is the evidence of the step': Every(l, lambda k, x: And(x.t == k, Not(x.label)))}


def a_step(l):
    E = sym.eng()
    return lambda k: Step(E.int('step'), E.bool('label'))


def a_model(l):
    E = sym.eng()
    return lambda k: Tree(E.spec, E.int('step'))


class Chain:
    mode = 'real'
    concrete = False
    frame = False

    def setup(self, E, a):
        E.spec = a
        a._E, a._lists, a._names, a._prefix = E, True, [], None
        a._T, a._L, a._g, a._i = E.int('steps'), E.int('leaves'), E.int('g'), E.int('i')
        E.assume(And(a._T >= 1, a._L >= 1, within(a._g, a._T), within(a._i, a._L)))
        a._positions = [a._g]
        a._has, a._prior = fun(E, 'has leaf', 'int', 'int', 'bool'), fun(E, 'leaf prior', 'int', 'int', 'real')
        a._possible, a._var = fun(E, 'possible', 'int', 'bool'), F
        a._matrix = Matrix()

        def pos(k):
            if not isinstance(k, Key):
                raise Undecided('key of a leaf')
            return k.pos
        a._pos = pos
        lab = fun(E, 'labels given', 'int', 'bool')
        a._evidence = SymSeq(E, a._T, lambda t: Step(t, lab(t)))
        C = jpt_class(SQ + 'SequentialJPT')
        a._model = type('Model', (C,), dict(__init__=lambda s: None, logger=Silent(), template_tree=Template(a), transition_model=a._matrix))()
        self.start(E, a)

    def start(self, E, a):
        pass


@contract(SQ + 'SequentialJPT.ground', ('C24',), uses=(SQ + 'factorgraph/g', SQ + 'np/z'))
class _(Chain):
    assumes = ('contract of conditional_jpt (C20)', 'factorgraph.Graph keeps the variables and factors it is given')
    loops = {'SequentialJPT.ground#L1': LC(inv=lambda st, L: steps(st.evidence_, L), modifies=lambda st: [st.evidence_], kinds=a_step),
             'SequentialJPT.ground#L2': LC(inv=transitions, modifies=lambda st: [st.factor_graph], local=('state_names',)),
             'SequentialJPT.ground#L3': LC(inv=factors, modifies=lambda st: [st.factor_graph, st.altered_jpts], kinds=a_model,
                                           local=('conditional_jpt', 'prior', 'idx', 'leaf_idx', 'e')),
             'SequentialJPT.ground#L4': LC(inv=fill, modifies=lambda st: [st.prior])}

    def call(self, a, fn):
        return fn(a._model, a._evidence)

    def raises(self, a, exc, old):
        return Not(a._possible(a._bad)) if isinstance(exc, jpt_class('jpt.base.errors:Unsatisfiability')) else None

    def post(self, a, r, old):
        graph, models = r
        return {'the graph': graph is a._graph, 'a variable for every time step': a._var,
                'the transition model between a time step and the next, once': graph.trans == If(a._g < a._T - 1, 1, 0),
                'one factor for every time step': graph.priors == 1, 'it is the prior of every leaf under the evidence of the step': graph.fit,
                'a model for every time step': models.n == a._T, 'it is that under the evidence of the step': models.at(a._g).no == a._g}


# ------------------------------------------------------------------------------------------------ marginals
class Given(Abs):
    """evidence in a form a user may give it; den: what it says"""
    def __init__(self, den, form):
        self.den, self.form = den, form

    def value_assignment(self):
        return Given(self.den, 'values')

    @property
    def __class__(self):
        m = importlib.import_module('jpt.variables')
        return {'labels': m.LabelAssignment, 'values': m.ValueAssignment, 'dict': dict}[self.form]


class Marginal(Abs):
    """the marginal of a variable of the graph; smoothed: normalised"""
    def __init__(self, a, k, normal=False):
        self.a, self.no, self.normal = a, k, normal

    def __symseq__(self):
        a = self.a
        if not self.normal:
            raise Undecided('marginals that are not normalised')
        return a._L, lambda i: a._D(self.no, i)

    def __symzip__(self, args):
        from engine.seq import zipped
        return zipped(self.a._E, args)


class Grounded(Abs):
    ran = False

    def __init__(self, a):
        self.a = a

    def lbp(self, **k):
        self.ran = True

    def rv_marginals(self):
        a = self.a
        a._E.require(self.ran, 'messages are passed first')
        return SymSeq(a._E, a._T, lambda k: (NS(name='t%s' % k), Marginal(a, k)))


class ByName(Abs):
    def __init__(self, seq):
        self.seq = seq

    def __getitem__(self, name):
        k = step(name)
        sym.eng().require(within(k, self.seq.n), 'a marginal of the time step')
        n, v = self.seq.at(k)
        if not bool(step(n) == k):
            raise Undecided('order of the marginals')
        return v


class _D(type):
    def __instancecheck__(cls, x):
        return isinstance(x, dict)

    def __call__(cls, x=()):
        return ByKey(x)


class TheDict(metaclass=_D):
    pass


class ByKey(Abs):
    def __init__(self, seq):
        self.n, self.at = seqof(seq)

    def __getitem__(self, k):
        p = sym.eng().spec._pos(k)
        if not bool(within(p, self.n)):
            raise KeyError('no such leaf')
        key, v = self.at(p)
        if not bool(key.pos == p):
            raise Undecided('order of the leaves')
        return v


class OneLeaf(Abs):
    def __init__(self, tree, pos):
        self.__dict__.update(tree=tree, pos=pos)

    @property
    def prior(self):
        return self.tree.a._E.real('prior')

    def __setattr__(self, k, v):
        if k != 'prior':
            raise Undecided('change of a leaf')
        t = self.tree
        sym.eng().touch(t)
        if bool(self.pos == t.a._i):
            t.pi = v


class Conditioned(Abs):
    """the model under the evidence of a step; pi: the prior of leaf i"""
    _restorable = True

    def __init__(self, a, t):
        self._serial = next(rt.SERIAL)
        self.a, self.no, self.leaves, self.pi = a, t, self, a._E.real('prior')
        self.n, self.p = a._size(t), a._where(t)
        a._E.assume(self.n >= 1)

    def items(self):
        a, t = self.a, self.no

        def at(j):
            pos = a._key(t, j)
            a._E.assume(And(within(pos, a._L), Iff(pos == a._i, j == self.p)))
            return Key(a, pos), OneLeaf(self, pos)
        return SymSeq(a._E, self.n, at)

    def normalize(self):
        return Done(self.no, self.right())

    def right(self):
        return Implies(within(self.p, self.n), self.pi == self.a._D(self.no, self.a._i))

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.pi = E.real('prior')


class Done(Abs):
    def __init__(self, no, right):
        self.no, self.right = no, right


def stub_normalized(raw, dist, **k):
    if not isinstance(dist, Marginal) or set(k) - {'zeros'}:
        raise Undecided('normalized')
    return Marginal(dist.a, dist.no, True)


STUBS[SQ + 'normalized'] = stub_normalized
STUBS[SQ + 'dict/s'] = Value(TheDict)


@contract(SQ + 'SequentialJPT.independent_marginals', ('C24',), uses=(SQ + 'normalized', SQ + 'dict/s'))
class _(Chain):
    assumes = ('contracts of ground, bind (C23), normalize (C20), normalized (bounded, C15)',
               'factorgraph computes the marginals of chains (bounded: against a forward-backward recursion)')
    loops = {'SequentialJPT.independent_marginals#L1': LC(inv=lambda st, L: given(st.evidence_, L), modifies=lambda st: [st.evidence_],
                                                          kinds=lambda l: lambda k: one(sym.eng()), local=('e',)),
             'SequentialJPT.independent_marginals#L2': LC(inv=lambda st, L: results(st.result, L), modifies=lambda st: [st.result],
                                                          kinds=lambda l: lambda k: Done(sym.eng().int('step'), sym.eng().bool('right')),
                                                          local=('distribution', 'prior', 'idx', 'leaf')),
             'SequentialJPT.independent_marginals#L3': LC(inv=lambda st, L: weights(st.tree, L), modifies=lambda st: [st.tree])}

    def start(self, E, a):
        a._prefix, a._dict = 't', ByName
        a._D, a._size = fun(E, 'marginal', 'int', 'int', 'real'), fun(E, 'leaves of', 'int', 'int')
        a._where, a._key, a._says = fun(E, 'where', 'int', 'int'), fun(E, 'key', 'int', 'int', 'int'), fun(E, 'says', 'int', 'int')
        forms = (None, 'dict', 'labels', 'values')

        def at(t):
            f = forms[E.choose(4)]
            if f is None:
                E.assume(a._says(t) == -1)      # nothing
                return None
            return Given(a._says(t), f)
        a._evidence = SymSeq(E, a._T, at)

        def bind(e, **k):
            E.require(k == {'allow_singular_values': False}, 'labels are sets')
            return Given(SI(z3.IntVal(-1)) if e is None else e.den, 'labels')
        a._model.template_tree.bind = bind

        def ground(e):
            n, at = seqof(e)
            E.require(n == a._T, 'evidence for every step')
            j = E.int('any')
            if bool(within(j, n)):
                E.require(And(at(j).den == a._says(j), at(j).form == 'values'), 'it is that of the step')
            return Grounded(a), SymSeq(E, a._T, lambda k: Conditioned(a, k))
        type(a._model).ground = lambda s, e: ground(e)

    def call(self, a, fn):
        return fn(a._model, a._evidence)

    def post(self, a, r, old):
        return {'a model for every time step': r.n == a._T, 'the leaves have the marginals of the step': r.at(a._g).right, 'in their order': r.at(a._g).no == a._g}


def one(E):
    return Given(E.int('says'), ('labels', 'values')[E.choose(2)])


def given(l, L):
    a = L.E.spec
    return {'evidence for every step so far': l.n == L.k,
            'it is that of the step, in values': Every(l, lambda k, x: And(x.den == a._says(k), x.form == 'values'))}


def results(l, L):
    return {'a model for every step so far': l.n == L.k, 'leaves have the marginals of the step': Every(l, lambda k, x: And(x.no == k, x.right))}


def weights(t, L):
    return {'the marginals of the leaves so far': Implies(And(within(t.p, t.n), t.p < L.k), t.pi == t.a._D(t.no, t.a._i))}
