"""Contract of conditioning a model (C20): a tree of any shape and size, any evidence.

Nodes are numbered, the root is 0; their state is kept in arrays.  The invariant is about an arbitrary node: it is below a node that waits to be
looked at, or it has been looked at; it is deleted when all of its children are (a leaf: when its probability is zero), and with it the entries of
its parent.  Looked at in the end is an arbitrary leaf g and an arbitrary variable w of the evidence."""
import z3

from engine import sym, rt
from engine.contract import contract, NS, STUBS, Value, And, Iff, Implies, If, jpt_class
from engine.hlist import LC
from engine.seq import SymSeq, within
from engine.sym import SB, SI, SR, Or, Not, Undecided, PathEnd
from contracts.posterior import fun
from contracts.trees import Abs

TR = 'jpt.trees:'
SORTS = dict(exp=z3.BoolSort(), alive=z3.BoolSort(), inF=z3.IntSort(), gone=z3.BoolSort(), sgone=z3.BoolSort(), done=z3.BoolSort(),
             prior=z3.RealSort(), crops=z3.IntSort(), keep=z3.IntSort())
WRAP = dict(exp=SB, alive=SB, inF=SI, gone=SB, sgone=SB, done=SB, prior=SR, crops=SI, keep=SI)


class World(Abs):
    """the state of all nodes"""
    _restorable = True

    def __init__(self, E):
        self._serial = next(rt.SERIAL)
        f = lambda n, *s: fun(E, n, *s)         # noqa
        self.E, self.facts, self.known = E, [], []
        self.parent, self.leaf, self.child = f('parent', 'int', 'int'), f('leaf', 'int', 'bool'), f('child', 'int', 'int')
        self.p0, self.prob, self.depth = f('prior before', 'int', 'real'), f('probability', 'int', 'real'), f('depth', 'int', 'int')
        self.st = {}
        for n in ('exp', 'gone', 'sgone', 'done'):
            self.st[n] = z3.K(z3.IntSort(), z3.BoolVal(False))
        self.st['alive'] = z3.K(z3.IntSort(), z3.BoolVal(True))
        self.st['inF'] = self.st['crops'] = self.st['keep'] = z3.K(z3.IntSort(), z3.IntVal(0))
        self.st['prior'] = z3.Array('priors', z3.IntSort(), z3.RealSort())
        p = self.st['prior']
        self.fact(lambda x: SR(z3.Select(p, sym.zint(x))) == self.p0(x))

    def get(self, n, x):
        return WRAP[n](z3.Select(self.st[n], sym.zint(x)))

    def set(self, n, x, v):
        self.E.touch(self)
        self.st = dict(self.st, **{n: z3.Store(self.st[n], sym.zint(x), sym.zreal(v) if n == 'prior' else sym.zbool(v) if WRAP[n] is SB else sym.zint(v))})

    def snap(self):
        st = self.st
        return lambda n, x: WRAP[n](z3.Select(st[n], sym.zint(x)))

    def fact(self, f):
        """f holds for all nodes"""
        self.E.touch(self)
        self.facts = self.facts + [f]
        for x in self.known:
            self.E.assume(f(x))

    def see(self, x):
        """what is known of node x"""
        E = self.E
        if any(x is y for y in self.known):
            return x
        E.touch(self)
        self.known = self.known + [x]
        E.assume(And(x >= 0, self.depth(x) >= 0, self.p0(x) >= 0, self.prob(x) >= 0, self.prob(x) <= 1))
        E.assume(Implies(x != 0, And(Not(self.leaf(self.parent(x))), self.depth(self.parent(x)) < self.depth(x), self.parent(x) >= 0)))
        E.assume(Implies(Not(self.leaf(x)), And(self.child(x) > 0, self.parent(self.child(x)) == x)))
        for f in self.facts:
            E.assume(f(x))
        return x

    def around(self, x):
        """x, its parent, a child of it, a child of its parent"""
        p = self.parent(x)
        for y in (x, p, self.child(x), self.child(p)):
            self.see(y)
        return x

    def all(self, f):
        return AllNodes(self, f)

    def __havoc__(self, E, c, kind=None):
        self.havoc(*kind)

    def havoc(self, *names):
        self.E.touch(self)
        self.st = dict(self.st, **{n: z3.Array('%s_%d' % (n, next(rt.SERIAL)), z3.IntSort(), SORTS[n]) for n in names})

    def seen(self, g, x):
        return Or(x == 0, g('exp', self.parent(x)))


class AllNodes:
    """invariant: fact of every node"""
    def __init__(self, w, fact):
        self.w, self.fact = w, fact

    def goal(self, E):
        return self.fact(E.spec._any)

    def assume_in(self, E):
        self.w.fact(self.fact)


class Node(Abs):
    def __init__(self, w, no):
        self.__dict__.update(w=w, no=no, idx=no)

    @property
    def parent(self):
        if bool(self.no == 0):
            return None
        return Inner(self.w, self.w.see(self.w.parent(self.no)))

    __bool__ = lambda s: True               # noqa

    def __eq__(self, o):
        return self is o or isinstance(o, Node) and bool(self.no == o.no)

    def __hash__(self):
        return 0


class Inner(Node):
    @property
    def children(self):
        return Kids(self, 'gone')

    @property
    def splits(self):
        return Kids(self, 'sgone')

    _splits = splits


class Leaf(Node):
    @property
    def prior(self):
        return self.w.get('prior', self.no)

    @prior.setter
    def prior(self, v):
        self.w.set('prior', self.no, v)

    def probability(self, e):
        if isinstance(e, LA):
            sym.eng().require(False, 'the probability is that of the values of the labels')
        if e is not sym.eng().spec._ev:
            raise Undecided('probability of something else')
        return self.w.prob(self.no)

    @property
    def distributions(self):
        return Dists(self)


class Dists(Abs):
    def __init__(self, leaf):
        self.leaf = leaf

    def __getitem__(self, v):
        return Dist(self.leaf, v)

    def __setitem__(self, v, d):
        a = sym.eng().spec
        d.cropped is not None or sym.eng().require(False, 'the distribution is cropped')
        sym.eng().require(And(v.no == d.var.no, v.no == d.cropped.no, d.leaf.no == self.leaf.no),
                          'the distribution of the variable is cropped with the evidence for the variable')
        if bool(v.no == a._w):
            w = self.leaf.w
            w.set('crops', self.leaf.no, w.get('crops', self.leaf.no) + 1)


class Dist(Abs):
    def __init__(self, leaf, var, cropped=None):
        self.leaf, self.var, self.cropped = leaf, var, cropped

    def _crop(self, s):
        if self.cropped is not None or not isinstance(s, Said):
            raise Undecided('crop')
        return Dist(self.leaf, self.var, s)


class Said(Abs):
    def __init__(self, no):
        self.no = no


class EVar(Said):
    """variable of the evidence"""


class Kids(Abs):
    """the children or the splits of a node: those of the children that are left"""
    def __init__(self, node, what):
        self.node, self.what = node, what

    def __bool__(self):
        w, E, p = self.node.w, sym.eng(), self.node.no
        g, what = w.snap(), self.what
        if bool(E.bool('children left')):
            c = E.int('child left')
            E.assume(And(c > 0, w.parent(c) == p, Not(g(what, c))))
            w.see(c)
            w.set('keep', p, c)
            return True
        w.fact(lambda x: Implies(And(x != 0, w.parent(x) == p), g(what, x)))
        return False

    def __slen__(self):
        return sym.eng().spec._E.int('number of children') if bool(self) else 0

    def index(self, node):
        w, E, a = self.node.w, sym.eng(), sym.eng().spec
        if self.what != 'gone':
            raise Undecided('index of a split')
        if not bool(And(node.no != 0, w.parent(node.no) == self.node.no, Not(w.get('gone', node.no)))):
            raise ValueError('not in list')
        k = E.int('position')
        E.assume(k >= 0)
        a._positions = a._positions + [(self.node.no, node.no, k)]
        return k

    def __delitem__(self, i):
        w, E = self.node.w, sym.eng()
        for p, x, k in E.spec._positions:
            if p is self.node.no or bool(p == self.node.no):
                E.require(i == k, 'child and split deleted are those of the node deleted')
                if bool(w.get(self.what, x)):
                    raise IndexError('deleted twice')
                return w.set(self.what, x, True)
        raise Undecided('position')

    def __reversed__(self):
        return self

    def pop(self, i):
        del self[i]
        return NS()

    def remove(self, node):
        del self[self.index(node)]


class Nodes(Abs):
    """dictionary of the inner nodes, the leaves or all of them"""
    def __init__(self, w, kind):
        self.w, self.kind = w, kind

    def there(self, x):
        k = {'inner': Not(self.w.leaf(x)), 'leaf': self.w.leaf(x), 'all': True}[self.kind]
        return And(k, self.w.get('alive', x))

    def __contains__(self, x):
        return bool(self.there(x))

    def __delitem__(self, x):
        if self.kind == 'all':
            raise Undecided('all nodes')
        if x not in self:
            raise KeyError('no such node')
        self.w.set('alive', x, False)

    def pop(self, x, *d):
        del self[x]

    def get(self, x, d=None):
        raise Undecided('get')

    def values(self):
        if self.kind != 'leaf':
            raise Undecided('values')
        w = self.w
        r = Ranks.of(w)
        return SymSeq(w.E, r.n, lambda k: Leaf(w, w.around(r.at(k))))


class Ranks:
    """the leaves that are left, in order"""
    def __init__(self, w):
        E = w.E
        g = w.snap()
        self.n, self.src, self.rank = E.int('leaves left'), fun(E, 'leaf of rank', 'int', 'int'), fun(E, 'rank of leaf', 'int', 'int')
        E.assume(self.n >= 0)
        self.E, self.g, self.w = E, g, w
        n, rank, src = self.n, self.rank, self.src
        w.fact(lambda x: Implies(And(w.leaf(x), g('alive', x)), And(within(rank(x), n), src(rank(x)) == x)))

    @staticmethod
    def of(w):
        a = w.E.spec
        if a._ranks is None or not a._ranks[0].eq(w.st['alive']):
            a._ranks = (w.st['alive'], Ranks(w))
        return a._ranks[1]

    def at(self, k):
        x = self.src(k)
        self.E.assume(Implies(within(k, self.n), And(self.rank(x) == k, self.w.leaf(x), self.g('alive', x))))
        return x


class Fringe(Abs):
    def __init__(self, nodes=()):
        self.w = sym.eng().spec._world
        self.add(nodes)

    def add(self, nodes):
        w = self.w
        if isinstance(nodes, Kids):
            E, p = sym.eng(), nodes.node.no
            if nodes.what != 'gone':
                raise Undecided('splits')
            g, old = w.snap(), w.st['inF']
            w.havoc('inF')
            new = w.st['inF']
            at = lambda a, x: SI(z3.Select(a, sym.zint(x)))     # noqa
            w.fact(lambda x: at(new, x) == at(old, x) + If(And(x != 0, w.parent(x) == p, Not(g('gone', x))), 1, 0))
            return
        for n in nodes:
            w.set('inF', n.no, w.get('inF', n.no) + 1)

    extend = extendleft = add

    def append(self, n):
        self.add([n])

    appendleft = append

    def __bool__(self):
        w, E = self.w, sym.eng()
        g = w.snap()
        if bool(E.bool('nodes waiting')):
            x = E.int('waiting')
            E.assume(g('inF', x) >= 1)
            w.see(x)
            return True
        w.fact(lambda x: g('inF', x) == 0)
        return False

    def popleft(self):
        w, E = self.w, sym.eng()
        if not bool(self):
            raise IndexError('pop from an empty deque')
        n = E.int('node')
        E.assume(w.get('inF', n) >= 1)
        w.around(n)
        w.set('inF', n, w.get('inF', n) - 1)
        w.set('done', n, w.leaf(n))
        if bool(n == 0):
            return E.spec._root
        return make(w, n)

    pop = popleft


def make(w, n):
    return Leaf(w, n) if bool(w.leaf(n)) else Inner(w, n)


class Expanded(Abs):
    def __init__(self, *a):
        if a:
            raise Undecided('set')
        self.w = sym.eng().spec._world

    def __contains__(self, x):
        return bool(self.w.get('exp', x))

    def add(self, x):
        self.w.set('exp', x, True)


class Tree(Abs):
    _restorable = True

    def __init__(self, w):
        self._serial = next(rt.SERIAL)
        self.__dict__.update(w=w, gone=SB(z3.BoolVal(False)), innernodes=Nodes(w, 'inner'), leaves=Nodes(w, 'leaf'), allnodes=Nodes(w, 'all'))

    @property
    def root(self):
        return None if bool(self.gone) else sym.eng().spec._root

    @root.setter
    def root(self, v):
        if v is not None:
            raise Undecided('root')
        sym.eng().touch(self)
        self.gone = SB(z3.BoolVal(True))

    def __havoc__(self, E, c, kind=None):
        E.touch(self)
        self.gone = E.bool('root removed')

    def posterior(self):
        a = sym.eng().spec
        a._then, a._posterior = self.w.snap(), NS()
        return a._posterior


def total(seq):
    """the sum"""
    E, a = sym.eng(), sym.eng().spec
    w = a._world
    r = Ranks.of(w)
    if not isinstance(seq, SymSeq):
        raise Undecided('sum of something else')
    E.require(seq.n == r.n, 'the sum is over the leaves that are left')
    if E.choose(2) == 0:
        k = E.int('any rank')
        E.assume(within(k, r.n))
        E.prove(seq.at(k) == w.get('prior', r.at(k)), 'the priors of the leaves that are left are summed')
        raise PathEnd()
    g = w.snap()
    w.fact(lambda x: Implies(And(w.leaf(x), g('alive', x), g('prior', x) >= 0), g('prior', x) <= a._mass))
    E.assume(a._mass >= 0)
    a._summed = g
    return a._mass


class LA(Abs):
    """a LabelAssignment"""
    __bool__ = lambda s: bool(sym.eng().spec._M > 0)            # noqa

    def value_assignment(self):
        return sym.eng().spec._ev


class VA(Abs):
    """a ValueAssignment"""
    def __bool__(self):
        return bool(sym.eng().spec._M > 0)

    def items(self):
        a = sym.eng().spec
        return SymSeq(a._E, a._M, lambda j: (EVar(j), Said(j)))

    def __getitem__(self, v):
        return Said(v.no)

    def keys(self):
        a = sym.eng().spec
        return SymSeq(a._E, a._M, EVar)

    def __symseq__(self):
        a = sym.eng().spec
        return a._M, EVar


class Given(dict):
    """evidence as a dict"""
    _ghost = True


for _n, _v in (('deque', Fringe), ('set', Expanded), ('DecisionNode', Inner), ('Leaf', Leaf), ('LabelAssignment', LA), ('sum', total),
               ('format_path', lambda e: 'path')):
    STUBS[TR + _n + '/c'] = Value(_v)


def world(*names):
    return [(sym.eng().spec._world, names)]


def descend(st, L):
    a = L.E.spec
    w = a._world
    g = w.snap()

    def on(f):
        return w.all(lambda x: f(x, w.seen(g, x), w.leaf(x)))
    return {'below a node that has not been expanded nothing has happened': on(lambda x, seen, leaf: Implies(Not(seen), And(
                g('alive', x), g('inF', x) == 0, Not(g('exp', x)), Not(g('gone', x)), Not(g('sgone', x)), Not(g('done', x))))),
            'nodes with children are expanded after their parents': on(lambda x, seen, leaf: And(Implies(g('exp', x), And(seen, Not(leaf))), g('inF', x) >= 0)),
            'a leaf waits until it is looked at': on(lambda x, seen, leaf: Implies(leaf, And(
                g('inF', x) == If(And(seen, Not(g('done', x))), 1, 0), Implies(g('done', x), seen)))),
            'leaves that are deleted': on(lambda x, seen, leaf: Implies(leaf, Iff(g('alive', x), Or(Not(g('done', x)), w.prob(x) > 0)))),
            'priors': on(lambda x, seen, leaf: Implies(leaf, g('prior', x) == If(And(g('done', x), w.prob(x) > 0), w.p0(x) * w.prob(x), w.p0(x)))),
            'nodes with children wait until they are expanded': on(lambda x, seen, leaf: Implies(Not(leaf), And(
                Implies(And(seen, Not(g('exp', x)), g('alive', x)), g('inF', x) >= 1), Implies(Not(g('alive', x)), g('exp', x))))),
            'deleted nodes are no children any more': on(lambda x, seen, leaf: If(x == 0, And(Not(g('gone', x)), Not(g('sgone', x))), And(
                Iff(g('gone', x), Not(g('alive', x))), Iff(g('sgone', x), Not(g('alive', x)))))),
            'below a deleted node all are deleted': on(lambda x, seen, leaf: Implies(And(x != 0, Not(g('alive', w.parent(x)))), Not(g('alive', x)))),
            'a node that is left and does not wait has a child that is left': on(lambda x, seen, leaf: Implies(
                And(Not(leaf), g('alive', x), g('exp', x), g('inF', x) == 0), And(g('keep', x) > 0, w.parent(g('keep', x)) == x, Not(g('gone', g('keep', x)))))),
            'the root': Iff(st.conditional_jpt.gone, Not(g('alive', 0)))}


def rest(k, inner=None):
    def inv(st, L):
        a = L.E.spec
        w = a._world
        g, r = w.snap(), Ranks.of(w)

        def fact(x):
            left = And(w.leaf(x), g('alive', x))
            if inner is None:
                now = r.rank(x) < L.k
                return And(Implies(left, g('prior', x) == If(now, a._summed('prior', x) / a._mass, a._summed('prior', x))),
                           Implies(left, g('crops', x) == If(now, 1, 0)))
            me = st.leaf.no
            return And(Implies(And(left, x != me), g('crops', x) == a._before('crops', x)),
                       Implies(And(left, x == me), g('crops', x) == a._before('crops', x) + If(L.k > a._w, 1, 0)))
        if inner and st._when == 'init':
            a._before = g
        return {'leaves so far' if inner is None else 'variables so far': w.all(fact)}
    return inv


@contract(TR + 'JPT.conditional_jpt', ('C20',), uses=tuple(TR + n + '/c' for n in ('deque', 'set', 'DecisionNode', 'Leaf', 'LabelAssignment', 'sum', 'format_path')))
class _:
    mode = 'real'
    concrete = False
    frame = False
    opts = dict(opaque=True, deadline=300)
    assumes = ('contract of copy (C04): an equal tree of its own; of bind (C23); of Leaf.probability (C18); of _crop (C08, C12); of posterior (C19)',
               'facts on finite trees: above a node that has not been visited there is a highest one; between a node that is left and a root that is '
               'deleted there is a node that is left whose parent is deleted; the sum of numbers that are not negative is not less than any of them',
               'termination of the descent')
    loops = {'JPT.conditional_jpt#L1': LC(inv=descend, modifies=lambda st: world('exp', 'alive', 'inF', 'gone', 'sgone', 'done', 'keep', 'prior') + [st.conditional_jpt], local=('node', 'rm', 'leaf', 'probability', 'idx')),
             'JPT.conditional_jpt#L2': LC(inv=rest(0), modifies=lambda st: world('prior', 'crops'), local=('leaf', 'variable', 'value')),
             'JPT.conditional_jpt#L3': LC(inv=rest(0, 1), modifies=lambda st: world('crops'), local=('variable', 'value'))}

    def setup(self, E, a):
        E.spec = a
        a._E, a._M, a._w, a._g, a._mass = E, E.int('evidence'), E.int('w'), E.int('leaf g'), E.real('mass')
        E.assume(And(a._M >= 0, Implies(a._M > 0, within(a._w, a._M))))
        w = a._world = World(E)
        a._positions, a._ranks, a._then, a._posterior, a._summed, a._before = [], None, None, None, None, None
        w.see(a._g)
        E.assume(w.leaf(a._g))
        w.see(SI(z3.IntVal(0)))
        zero = w.known[-1]
        a._any = w.around(E.int('any node'))
        a._root = Leaf(w, zero) if bool(w.leaf(zero)) else Inner(w, zero)
        a._copy, a._ev = Tree(w), VA()
        kind = a._kind = E.choose(4)
        if kind == 0:
            E.assume(a._M == 0)
        a._given = (None, Given(), LA(), a._ev)[kind]
        a._fail = E.bool('fail')

        def bind(s, e, **k):
            if k or not (e is a._given or kind == 0 and e == {}):
                raise Undecided('bind')
            return LA()
        C = jpt_class(TR + 'JPT')
        a._self = type('Tree', (C,), dict(__init__=lambda s: None, copy=lambda s: a._copy, bind=bind))()

    def call(self, a, fn):
        return fn(a._self, a._given, a._fail)

    def end(self, a):
        """the facts on finite trees"""
        E, w = a._E, a._world
        g = w.snap()
        for x in (a._g, a._any):
            w.around(x)
            y, z = E.int('highest not visited'), E.int('lowest left')
            E.assume(Implies(Not(w.seen(g, x)), And(Not(w.seen(g, y)), y != 0, w.seen(g, w.parent(y)))))
            E.assume(Implies(And(g('alive', x), Not(g('alive', 0))), And(g('alive', z), z != 0, Not(g('alive', w.parent(z))))))
            w.around(y)
            w.around(z)

    def raises(self, a, exc, old):
        if type(exc).__name__ != 'Unsatisfiability':
            return None
        self.end(a)
        w, g = a._world, a._g
        return And(a._fail, a._M > 0, w.p0(g) * w.prob(g) == 0)

    def post(self, a, r, old):
        E, w, x = a._E, a._world, a._g
        if a._posterior is None and r is not None:
            return {'without evidence, an equal model': a._M == 0 and r is a._copy}
        self.end(a)
        g = w.snap()
        if r is None:
            return {'None only if wanted': Not(a._fail), 'no leaf has the evidence': w.p0(x) * w.prob(x) == 0}
        t, s, y = a._then, a._summed, a._any
        c = g('keep', y)
        w.around(c)
        return {'a copy': r is a._copy, 'there is evidence': a._M > 0, 'of leaves with the evidence, and no others': Iff(g('alive', x), w.prob(x) > 0),
                'the mass is the sum of priors times probabilities': And(Iff(s('alive', x), w.prob(x) > 0), Implies(
                    g('alive', x), s('prior', x) == w.p0(x) * w.prob(x)), a._mass != 0),
                'priors': Implies(g('alive', x), g('prior', x) == w.p0(x) * w.prob(x) / a._mass),
                'distributions are cropped once': Implies(g('alive', x), g('crops', x) == 1),
                'a deleted leaf is no child any more': Implies(And(x != 0), And(Iff(g('gone', x), Not(g('alive', x))), Iff(g('sgone', x), g('gone', x)))),
                'a node that is left has a child that is left': Implies(And(Not(w.leaf(y)), g('alive', y)), And(w.parent(c) == y, Not(g('gone', c)))),
                'a model with leaves has a root': Implies(g('alive', x), And(g('alive', 0), Not(r.gone))),
                'the distributions of the variables are those of the new model': And(r.priors is a._posterior, t('prior', x) == g('prior', x),
                                                                                    t('crops', x) == g('crops', x), Iff(t('alive', x), g('alive', x)))}
