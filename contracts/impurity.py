"""Contracts of the split search (C16): sums, histograms, variances, Gini impurities and the scan over the positions of a
feature, for data matrices, index ranges and target sets of every size.  Arithmetic is that of the real numbers."""
import numpy as np

from engine import sym
from engine.arr import SymArr, SymCell, Prefix, Base, fun
from engine.contract import contract, P, NS, STUBS, And, Iff, Implies, If
from engine.hlist import LC
from engine.sym import SI, SR, Or, Not

IM = 'jpt.learning.impurity'
C16 = ('C16',)


def t(n):
    return '%s:%s' % (IM, n)


class Arr(P):
    """array whose shape is named by other parameters: 'n' fresh size, shared by name"""

    def __init__(self, *shape, sort='real', facts=()):
        self.shape, self.sort, self.facts = shape, sort, facts

    def make(self, D, name):
        sizes = SIZES(D)
        sh = []
        for s in self.shape:
            if s not in sizes:
                sizes[s] = D.E.int('size.' + s)
                D.E.assume(sizes[s] >= 0)
            sh.append(sizes[s])
        return SymArr(D.E, name, sh, self.sort, [(lambda ix, v, rd, f=f: f(sizes, ix, v)) for f in self.facts])


def SIZES(D):
    if not hasattr(D, '_sizes'):
        D._sizes = {}
    return D._sizes


class G(P):
    """ghost integer"""

    def make(self, D, name):
        return D.E.int(name)


def below(size):
    return lambda s, ix, v: And(v >= 0, v < s[size])


def inr(i, n):
    return And(i >= 0, i < n)


def acontract(target, **kw):
    kw.setdefault('mode', 'real')
    kw.setdefault('concrete', False)
    kw.setdefault('frame', False)
    return contract(target, C16, **kw)


def mk_sums(target, inner, square, label):
    key = inner

    def term(a):
        def f(j, i):
            v = a.M.at(a.rows.at(i), a.cols.at(j))
            return v * v if square else v
        return f

    @acontract(t(target))
    class _:
        ghosts = dict(g=G())
        params = dict(M=Arr('R', 'C'), rows=Arr('n', sort='int', facts=(below('R'),)),
                      cols=Arr('m', sort='int', facts=(below('C'),)), result=Arr('m'))
        loops = {key + '#L1': LC(inv=lambda st, L: {label: outer(st, L)}, modifies=lambda st: [st.result]),
                 key + '#L2': LC(inv=lambda st, L: {label: inner_(st, L)}, modifies=lambda st: [st.result])}

        def setup(self, E, a):
            E.spec = a
            a._S = Prefix(E, 'sum', term(a))

        def post(self, a, r, old):
            n = a.rows.shape[0]
            return {'every result is the %s over the rows' % label: Implies(inr(a.g, a.cols.shape[0]),
                                                                             a.result.at(a.g) == a._S(a.g, n))}

    def outer(st, L):
        a = L.E.spec
        return Implies(inr(a.g, a.cols.shape[0]),
                       st.result.at(a.g) == If(a.g < L.k, a._S(a.g, a.rows.shape[0]), 0))

    def inner_(st, L):
        a = L.E.spec
        return Implies(inr(a.g, a.cols.shape[0]),
                       st.result.at(a.g) == If(a.g < st.j, a._S(a.g, a.rows.shape[0]),
                                               If(a.g == st.j, a._S(a.g, L.k), 0)))


mk_sums('_sum_at', 'sum_at', False, 'sum of the values')
mk_sums('_sq_sum_at', 'sq_sum_at', True, 'sum of the squared values')


def VAR(sq, s, n):
    """population variance of n values with sum s and sum of squares sq (0 for at most one value)"""
    return If(n <= 1, 0, div(sq - div(s * s, n), n))


@acontract(t('_variances'))
class _:
    ghosts = dict(g=G())
    params = dict(sq_sums=Arr('m'), sums=Arr('m'), n_samples=G(), result=Arr('m'))
    loops = {'variances#L1': LC(inv=lambda st, L: {'variances': var_inv(st, L)}, modifies=lambda st: [st.result])}
    opts = dict(timeout_ms=20000)

    def setup(self, E, a):
        E.spec = a

    def post(self, a, r, old):
        n = a.n_samples
        v = a.result.at(a.g)
        return {'every result is the variance': Implies(inr(a.g, a.sums.shape[0]),
                                                         And(Implies(n <= 1, v == 0),
                                                             Implies(n > 1, v * n * n == a.sq_sums.at(a.g) * n -
                                                                     a.sums.at(a.g) * a.sums.at(a.g))))}


def var_inv(st, L):
    a = L.E.spec
    n, v, q, s = a.n_samples, st.result.at(a.g), a.sq_sums.at(a.g), a.sums.at(a.g)
    return Implies(inr(a.g, a.sums.shape[0]), And(Implies(a.g >= L.k, v == q),
                                                  Implies(a.g < L.k, v * n * n == q * n - s * s)))


@acontract(t('ivadd'))
class _:
    ghosts = dict(g=G())
    params = dict(target=Arr('m'), arg=Arr('m'), n=G(), sq=G())
    loops = {'ivadd#L1': LC(inv=lambda st, L: {'sums': iv_inv(st, L)}, modifies=lambda st: [st.target])}

    def pre(self, a):
        return {'n is the length': a.n == a.target.shape[0]}

    def setup(self, E, a):
        E.spec = a
        a._t0 = a.target.snapshot()

    def post(self, a, r, old):
        x = a.arg.at(a.g)
        return {'every element is increased by the other (or its square)':
                Implies(inr(a.g, a.n), a.target.at(a.g) == a._t0.at(a.g) + If(a.sq != 0, x * x, x))}


def iv_inv(st, L):
    a = L.E.spec
    x = a.arg.at(a.g)
    return Implies(inr(a.g, a.n), st.target.at(a.g) == a._t0.at(a.g) + If(a.g < L.k, If(a.sq != 0, x * x, x), 0))


def issym(c):
    """is the column one of a symbolic variable: its values are then indices into the histogram"""
    return fun(None, 'issym', 'int', 'int')(c) == 1


def symvalue(V):
    return lambda s, ix, v: Implies(issym(ix[1]), And(v >= 0, v < s[V]))


def ind(c):
    return If(c, 1, 0)


@acontract(t('bincount'))
class _:
    ghosts = dict(g=G(), v=G())
    params = dict(data=Arr('R', 'C', facts=(symvalue('V'),)), rows=Arr('n', sort='int', facts=(below('R'),)),
                  cols=Arr('m', sort='int', facts=(below('C'), lambda s, ix, v: issym(v))),
                  result=Arr('V', 'm', sort='int'))
    loops = {'bincount#L1': LC(inv=lambda st, L: {'counts': bc_outer(st, L)}, modifies=lambda st: [st.result]),
             'bincount#L2': LC(inv=lambda st, L: {'counts': bc_inner(st, L)}, modifies=lambda st: [st.result])}

    def setup(self, E, a):
        E.spec = a
        a._S = Prefix(E, 'count', lambda g, v, i: ind(a.data.at(a.rows.at(i), a.cols.at(g)).trunc() == v), 2, 'int')

    def post(self, a, r, old):
        return {'every entry is the number of rows with that value':
                Implies(And(inr(a.g, a.cols.shape[0]), inr(a.v, a.result.shape[0])),
                        a.result.at(a.v, a.g) == a._S(a.g, a.v, a.rows.shape[0]))}


def bc_outer(st, L):
    a = L.E.spec
    return Implies(And(inr(a.g, a.cols.shape[0]), inr(a.v, a.result.shape[0])),
                   st.result.at(a.v, a.g) == a._S(a.g, a.v, L.k))


def bc_inner(st, L):
    a = L.E.spec
    return Implies(And(inr(a.g, a.cols.shape[0]), inr(a.v, a.result.shape[0])),
                   st.result.at(a.v, a.g) == If(a.g < L.k, a._S(a.g, a.v, st.i + 1), a._S(a.g, a.v, st.i)))


CU = 'jpt.base.cutils'


@acontract(CU + ':mean')
class _:
    params = dict(arr=Arr('m'))
    loops = {'mean#L1': LC(inv=lambda st, L: {'sum': st.result == L.E.spec._S(L.k)},
                           fresh={'result': lambda E, v: E.real('result')})}

    def pre(self, a):
        return {'not empty': a.arr.shape[0] > 0}

    def setup(self, E, a):
        E.spec = a
        a._S = Prefix(E, 'sum', lambda i: a.arr.at(i), 0)

    def post(self, a, r, old):
        n = a.arr.shape[0]
        return {'the mean': r * n == a._S(n)}


def new_self(D, **fields):
    import importlib
    cls = importlib.import_module(IM).Impurity
    o = cls.__new__(cls)
    for k, v in fields.items():
        object.__setattr__(o, k, v)
    return o


class Self(P):
    """an Impurity with the given attributes"""

    def __init__(self, **fields):
        self.fields = fields

    def make(self, D, name):
        d = {}
        for k, p in self.fields.items():
            if isinstance(p, str):
                sizes = SIZES(D)
                if p not in sizes:
                    sizes[p] = D.E.int('size.' + p)
                    D.E.assume(sizes[p] >= 0)
                d[k] = sizes[p]
            else:
                d[k] = p.make(D, k)
        return new_self(D, **d)


class R(P):
    def make(self, D, name):
        return D.E.real(name)


def div(a, b):
    """division as a specification term (no obligation)"""
    return SR(sym.zreal(a) / sym.zreal(b))


@acontract(t('Impurity.gini_impurity'))
class _:
    ghosts = dict(g=G())
    params = dict(self=Self(n_sym_vars='m', symbols=Arr('m', sort='int', facts=(
        lambda s, ix, v: And(v >= 1, v <= s['V']),)), invert_impurity=Arr('m', sort='int')),
        counts=Arr('V', 'm', sort='int'), n_samples=G(), result=Arr('m'))
    loops = {'Impurity.gini_impurity#L1': LC(inv=lambda st, L: {'gini': gi_outer(st, L)},
                                             modifies=lambda st: [st.result]),
             'Impurity.gini_impurity#L2': LC(inv=lambda st, L: {'squares': gi_inner(st, L)},
                                             modifies=lambda st: [st.result])}

    def pre(self, a):
        return {'there are samples': a.n_samples >= 1}

    def setup(self, E, a):
        E.spec = a
        a._S = Prefix(E, 'squares', lambda g, i: sym.SR(sym.zreal(a.counts.at(i, g))) * a.counts.at(i, g), 1)

    def post(self, a, r, old):
        return {'every result is the Gini impurity': Implies(inr(a.g, a.self.n_sym_vars),
                                                              a.result.at(a.g) == gini_at(a))}


def gini_at(a):
    """normalised Gini impurity of the histogram over k > 1 values of n samples"""
    k = a.self.symbols.at(a.g)
    q = a._S(a.g, k)
    n = a.n_samples
    g = div(div(q, n * n) - 1, div(1, k) - 1)
    return If(k == 1, 0, If(a.self.invert_impurity.at(a.g) != 0, 1 - g, g))


def gi_outer(st, L):
    a = L.E.spec
    return Implies(inr(a.g, a.self.n_sym_vars), st.result.at(a.g) == If(a.g < L.k, gini_at(a), 0))


def gi_inner(st, L):
    a = L.E.spec
    return Implies(inr(a.g, a.self.n_sym_vars),
                   st.result.at(a.g) == If(a.g < st.i, gini_at(a), If(a.g == st.i, a._S(a.g, L.k), 0)))


CIC = dict(data=Arr('R', 'C'), indices=Arr('N', sort='int', facts=(below('R'),)))


def cic_v(E, v):
    """v_ after some iterations: still NaN or a number"""
    return float('nan') if E.choose(2) == 0 else E.real('v_')


def isnum(v):
    return not (isinstance(v, float) and (v != v or v == -INF))


def cic_inv(st, L, rows_equal=False):
    a = L.E.spec
    first = a.self.data.at(a.self.indices.at(a.start), a.col)
    if not isnum(st.v_):
        return {'nothing seen': L.k == 0}
    return {'first value': And(L.k >= 1, st.v_ == first),
            'equal so far': Implies(inr(a.g - a.start, L.k), a.self.data.at(a.self.indices.at(a.g), a.col) == first)}


class _cic:
    ghosts = dict(g=G())
    params = dict(self=Self(**CIC), start=G(), end=G(), col=G())
    loops = {'Impurity.col_is_constant#L1': LC(inv=cic_inv, fresh={'v_': cic_v})}

    def pre(self, a):
        return {'range': And(0 <= a.start, a.start <= a.end, a.end <= a.self.indices.shape[0]),
                'column': inr(a.col, a.self.data.shape[1])}

    def setup(self, E, a):
        E.spec = a

    def call(self, a, fn):
        return fn(a.self, a.start, a.end, a.col)


@acontract(t('Impurity.col_is_constant'))
class _(_cic):
    pre, setup, call, ghosts, params, loops = _cic.pre, _cic.setup, _cic.call, _cic.ghosts, _cic.params, _cic.loops

    def post(self, a, r, old):
        d = a.self
        return {'reported as constant: all values are equal':
                Implies(And(r != 0, inr(a.g - a.start, a.end - a.start)),
                        d.data.at(d.indices.at(a.g), a.col) == d.data.at(d.indices.at(a.start), a.col)),
                'finite values: never undefined': r != -1}


@acontract(t('Impurity.col_is_constant'))
class _(_cic):
    pre, call, ghosts, loops = _cic.pre, _cic.call, _cic.ghosts, _cic.loops
    params = dict(self=Self(data=Arr('R', 'C', facts=(
        lambda s, ix, v: v == fun(None, 'const', 'int', 'real')(ix[1]),)), indices=CIC['indices']),
        start=G(), end=G(), col=G())

    def setup(self, E, a):
        E.spec = a

    def post(self, a, r, old):
        return {'a column of equal values is reported as constant': r == 1}


@acontract(t('_compute_var_improvements'))
class _:
    ghosts = dict(u=G())
    params = dict(variances_total=Arr('m'), variances_left=Arr('m'), variances_right=Arr('m'), samples_left=G(),
                  samples_right=G(), skip_idx=G())
    loops = {'compute_var_improvements#L1': LC(inv=lambda st, L: cvi_inv(st, L))}

    def pre(self, a):
        return {'samples': And(a.samples_left >= 0, a.samples_right >= 0, a.samples_left + a.samples_right >= 1)}

    def setup(self, E, a):
        E.spec = a
        # at most one target counts (for more, see the known finding about the mean)
        a.variances_total.content.facts += (lambda ix, v, rd=None: Or(ix[0] == a.u, v == 0, ix[0] == a.skip_idx),)

    def post(self, a, r, old):
        return {'the relative reduction of the variance of the only counting target': r == cvi(a)}


def counting(a):
    return And(inr(a.u, a.variances_total.shape[0]), a.variances_total.at(a.u) != 0, a.u != a.skip_idx)


def cvi(a):
    tot, l, r = (x.at(a.u) for x in (a.variances_total, a.variances_left, a.variances_right))
    n = a.samples_left + a.samples_right
    return If(counting(a), div(tot - div(l * a.samples_left + r * a.samples_right, n), tot), 0)


def cvi_inv(st, L):
    a = L.E.spec
    seen = And(counting(a), a.u < L.k)
    return {'mean so far': And(st.divisor == If(seen, 1, 0), st.variance_impr == If(seen, cvi(a), 0))}


@acontract(t('Impurity.has_numeric_vars'))
class _:
    ghosts = dict(q=G())
    params = dict(self=Self(n_num_vars='m', numeric_vars=Arr('m', sort='int')), except_var=G())
    loops = {'Impurity.has_numeric_vars#L1': LC(inv=lambda st, L: {
        'not met before': And(st.offset == 0, Implies(inr(L.E.spec.q, st.self.n_num_vars), L.k <= L.E.spec.q))})}

    def setup(self, E, a):
        E.spec = a
        # q: the position of except_var among the numeric targets, if it is one
        a.self.numeric_vars.content.facts += (lambda ix, v, rd=None: Iff(v == a.except_var, ix[0] == a.q),)

    def post(self, a, r, old):
        m = a.self.n_num_vars
        return {'number of the other numeric targets': r == m - ind(And(a.except_var >= 0, inr(a.q, m)))}


@acontract(t('Impurity.check_max_variances'))
class _:
    ghosts = dict(g=G())
    params = dict(self=Self(n_num_vars='m', max_variances=Arr('m')), variances=Arr('m'))
    loops = {'Impurity.check_max_variances#L1': LC(inv=lambda st, L: {
        'none exceeds so far': Implies(inr(L.E.spec.g, L.k), st.variances.at(L.E.spec.g) <=
                                       st.self.max_variances.at(L.E.spec.g))})}

    def setup(self, E, a):
        E.spec = a

    def post(self, a, r, old):
        return {'not reported: none exceeds its maximum': Implies(And(r == 0, inr(a.g, a.self.n_num_vars)),
                                                                  a.variances.at(a.g) <= a.self.max_variances.at(a.g))}


def dep_facts(a, arr, n, rowcond=lambda ix: True):
    """facts of a list of dependent targets that ends at a.e: g is in it at most once, at position a.q"""
    return lambda ix, v, rd=None: Implies(rowcond(ix), And(
        Implies(ix[-1] < a.e, inr(v, n)), Implies(ix[-1] == a.e, v == -1),
        Implies(ix[-1] < a.e, Iff(v == a.g, And(a.isdep != 0, ix[-1] == a.q)))))


def dep_pre(a, m):
    return {'the list ends within the row': And(0 <= a.e, a.e <= m),
            'position of g': And(Implies(a.isdep != 0, inr(a.q, a.e)), Iff(a.isdep != 0, a.isdep == 1))}


@acontract(t('Impurity.update_numeric_stats_with_dependencies'))
class _:
    ghosts = dict(g=G(), q=G(), e=G(), isdep=G())
    params = dict(self=Self(data=Arr('R', 'C'), numeric_vars=Arr('m', sort='int', facts=(below('C'),)),
                            sums_left=Arr('m'), sums_right=Arr('m'), sums_total=Arr('m'), sq_sums_left=Arr('m'),
                            sq_sums_right=Arr('m'), sq_sums_total=Arr('m')),
                  sample_idx=G(), dependent_columns=Arr('t', sort='int'))
    loops = {'Impurity.update_numeric_stats_with_dependencies#L1': LC(
        inv=lambda st, L: dict(uns(L.E.spec, L.k), end=L.k <= L.E.spec.e),
        modifies=lambda st: [st.self.sums_left, st.self.sums_right, st.self.sq_sums_left, st.self.sq_sums_right])}

    def pre(self, a):
        return dict(dep_pre(a, a.dependent_columns.shape[0]), sample=inr(a.sample_idx, a.self.data.shape[0]),
                    g=inr(a.g, a.self.numeric_vars.shape[0]))

    def setup(self, E, a):
        E.spec = a
        a._o = {k: v.snapshot() for k, v in a.self.__dict__.items() if isinstance(v, SymArr)}
        a.dependent_columns.content.facts += (dep_facts(a, None, a.self.numeric_vars.shape[0]),)

    def post(self, a, r, old):
        return uns(a, a.dependent_columns.shape[0])


def uns(a, k):
    """the statistics of target g after the first k dependent targets"""
    s, o = a.self, a._o
    y = s.data.at(a.sample_idx, s.numeric_vars.at(a.g))
    done = And(a.isdep != 0, a.q < k)
    out = {}
    for nm, z in (('sums', y), ('sq_sums', y * y)):
        l0, r0, tot = o[nm + '_left'].at(a.g), o[nm + '_right'].at(a.g), o[nm + '_total'].at(a.g)
        l, r = getattr(s, nm + '_left').at(a.g), getattr(s, nm + '_right').at(a.g)
        out[nm + ' on the left'] = l == If(done, l0 + z, l0)
        out[nm + ' on the right'] = r == If(done, tot - (l0 + z), r0)
    return out


@acontract(t('Impurity.update_symbolic_stats_with_dependencies'))
class _:
    ghosts = dict(g=G(), v=G(), q=G(), e=G(), isdep=G())
    params = dict(self=Self(data=Arr('R', 'C', facts=(symvalue('V'),)),
                            symbolic_vars=Arr('m', sort='int', facts=(below('C'), lambda s, ix, v: issym(v))),
                            symbols_left=Arr('V', 'm', sort='int'), symbols_right=Arr('V', 'm', sort='int'),
                            symbols_total=Arr('V', 'm', sort='int')),
                  sample_idx=G(), dependent_columns=Arr('t', sort='int'))
    loops = {'Impurity.update_symbolic_stats_with_dependencies#L1': LC(
        inv=lambda st, L: dict(uss(L.E.spec, L.k), end=L.k <= L.E.spec.e), modifies=lambda st: [st.self.symbols_left, st.self.symbols_right])}

    def pre(self, a):
        return dict(dep_pre(a, a.dependent_columns.shape[0]), sample=inr(a.sample_idx, a.self.data.shape[0]),
                    g=inr(a.g, a.self.symbolic_vars.shape[0]), v=inr(a.v, a.self.symbols_left.shape[0]))

    def setup(self, E, a):
        E.spec = a
        a._o = {k: v.snapshot() for k, v in a.self.__dict__.items() if isinstance(v, SymArr)}
        a.dependent_columns.content.facts += (dep_facts(a, None, a.self.symbolic_vars.shape[0]),)

    def post(self, a, r, old):
        return uss(a, a.dependent_columns.shape[0])


def uss(a, k):
    s, o = a.self, a._o
    hit = And(a.isdep != 0, a.q < k, s.data.at(a.sample_idx, s.symbolic_vars.at(a.g)).trunc() == a.v)
    l0, r0, tot = (o['symbols_' + n].at(a.v, a.g) for n in ('left', 'right', 'total'))
    return {'histogram on the left': s.symbols_left.at(a.v, a.g) == l0 + ind(hit),
            'histogram on the right': s.symbols_right.at(a.v, a.g) == If(hit, tot - (l0 + 1), r0)}


# ---------------------------------------------------------------------------------------------- the scan of one feature
INF = float('inf')
NUMERIC = ('sums_left', 'sums_right', 'sq_sums_left', 'sq_sums_right')
SYMBOLIC = ('symbols_left', 'symbols_right')
KEPT = ('data', 'indices', 'numeric_vars', 'symbolic_vars', 'sums_total', 'sq_sums_total', 'symbols_total',
        'variances_total', 'numeric_dependency_matrix', 'symbolic_dependency_matrix')
SCAN = dict(
    data=Arr('R', 'C', facts=(symvalue('V'),)), indices=Arr('N', sort='int', facts=(below('R'),)), feat=Arr('R'),
    start=G(), end=G(), n_num_vars='m', n_sym_vars='s', min_samples_leaf=R(), w_numeric=R(),
    numeric_vars=Arr('m', sort='int', facts=(below('C'),)),
    symbolic_vars=Arr('s', sort='int', facts=(below('C'), lambda s, ix, v: issym(v))),
    variances_total=Arr('m'), variances_left=Arr('m'), variances_right=Arr('m'), sums_total=Arr('m'),
    sq_sums_total=Arr('m'), sums_left=Arr('m'), sums_right=Arr('m'), sq_sums_left=Arr('m'), sq_sums_right=Arr('m'),
    symbols_total=Arr('V', 's', sort='int'), symbols_left=Arr('V', 's', sort='int'),
    symbols_right=Arr('V', 's', sort='int'), gini_left=Arr('s'), gini_right=Arr('s'), gini_improvements=Arr('s'),
    gini_impurities=Arr('s'), num_samples=Arr('two', sort='int'), numeric_dependency_matrix=Arr('C', 't', sort='int'),
    symbolic_dependency_matrix=Arr('C', 't', sort='int'))


class CellP(P):
    def make(self, D, name):
        return SymCell(D.E, lambda E: E.int('best'), D.E.int('best0'))


def everywhere(E, arr, fact, label):
    """obligation: the fact holds of every element of the array"""
    ix = [E.int('any') for _ in arr.shape]
    E.require(Implies(And(True, *[inr(i, n) for i, n in zip(ix, arr.shape)]), fact(ix, arr.at(*ix))), label)


def stub_update(raw, self, sample_idx, dependent_columns, sym_):
    E = sym.eng()
    a = E.spec
    d = a._dep['s' if sym_ else 'n']
    vars_ = self.symbolic_vars if sym_ else self.numeric_vars
    everywhere(E, dependent_columns, dep_facts(d, None, vars_.shape[0]), 'the row lists the dependent targets')
    E.require(inr(sample_idx, self.data.shape[0]), 'sample index')
    c = NS(**d.__dict__)
    c.__dict__.update(self=self, sample_idx=sample_idx, dependent_columns=dependent_columns,
                      _o={k: v.snapshot() for k, v in self.__dict__.items() if isinstance(v, SymArr)})
    for n in (SYMBOLIC if sym_ else NUMERIC):
        E.touch(getattr(self, n))
        getattr(self, n).__havoc__(E, None)
    inrange = inr(d.g, vars_.shape[0])
    if sym_:
        inrange = And(inrange, inr(d.v, self.symbols_left.shape[0]))
    for lab, cond in (uss if sym_ else uns)(c, dependent_columns.shape[0]).items():
        E.assume(Implies(inrange, cond))


STUBS[t('Impurity.update_numeric_stats_with_dependencies')] = lambda raw, self, i, c: stub_update(raw, self, i, c, False)
STUBS[t('Impurity.update_symbolic_stats_with_dependencies')] = lambda raw, self, i, c: stub_update(raw, self, i, c, True)


def stub_variances(raw, sq_sums, sums, n_samples, result):
    E = sym.eng()
    for x in (sq_sums, result):
        E.require(x.shape[0] == sums.shape[0], 'lengths agree')
    q, s = sq_sums.frozen(), sums.frozen()
    E.touch(result)
    result.__havoc__(E, None, facts=(lambda ix, v, rd=None: v == VAR(SR(q([ix[0].e])), SR(s([ix[0].e])), n_samples),))


STUBS[t('variances')] = stub_variances


def stub_cvi(raw, tot, left, right, nl, nr, skip_idx=-1):
    """the result is a function of the position: its arguments are shown to be the statistics of that position"""
    E = sym.eng()
    a, p = E.spec, E.spec._p
    me = a.self
    E.require(And(nl == a._nl(p), nr == a._n - a._nl(p)), 'numbers of samples on both sides')
    E.require(skip_idx == a._skip, 'the feature itself is left out')
    E.require(tot.content is me.variances_total.content and a._tot is tot.content, 'variances before the split')
    E.require(nl + nr >= 1, 'there are samples')
    g, k = a._dep['n'].g, p + 1
    inm = inr(g, me.n_num_vars)
    ql, sl = a._Q(g, k), a._S(g, k)
    E.require(Implies(inm, left.at(g) == VAR(ql, sl, nl)), 'variances on the left')
    E.require(Implies(inm, right.at(g) == VAR(me.sq_sums_total.at(g) - ql, me.sums_total.at(g) - sl, nr)),
              'variances on the right')
    return a._VI(p)


STUBS[t('compute_var_improvements')] = stub_cvi


def stub_gini(raw, self, counts, n_samples, result):
    E = sym.eng()
    a, p = E.spec, E.spec._p
    d = a._dep['s']
    E.require(n_samples >= 1, 'there are samples')
    h = a._H(d.g, d.v, p + 1)
    ok = And(inr(d.g, self.n_sym_vars), inr(d.v, self.symbols_total.shape[0]))
    if counts is self.symbols_left:
        E.require(And(n_samples == a._nl(p), Implies(ok, counts.at(d.v, d.g) == h)), 'histogram on the left')
        f = a._GL
    else:
        E.require(And(n_samples == a._n - a._nl(p), Implies(ok, counts.at(d.v, d.g) ==
                                                            self.symbols_total.at(d.v, d.g) - h)),
                  'histogram on the right')
        f = a._GR
    E.touch(result)
    result.__havoc__(E, None)
    result.content.mean = f(p)


STUBS[t('Impurity.gini_impurity')] = stub_gini


def stub_mean(raw, arr):
    m = getattr(arr.content, 'mean', None)
    if m is None:
        raise sym.Undecided('mean of an array of unknown origin')
    return m


STUBS[t('mean')] = stub_mean
STUBS[t('Impurity.has_numeric_vars')] = lambda raw, self, except_var=-1: sym.eng().spec._hn(except_var)


def stub_const(raw, self, start, end, col):
    """constant exactly if no two neighbours in the sorted order differ (w is where they do)"""
    E = sym.eng()
    a = E.spec
    E.require(And(start == self.start, end == self.end, col == a.var_idx), 'the range and column of the scan')
    c = E.bool('constant')
    a._const = bool(c)
    if a._const:
        return 1
    E.assume(And(a._n >= 2, a.w >= 0, a.w < a._n - 1, a._change(a.w)))
    return 0


STUBS[t('Impurity.col_is_constant')] = stub_const


def stub_sort(raw, keys, samples, n):
    """sorts the first n keys together with their samples"""
    E = sym.eng()
    a = E.spec
    if not (keys.a is a.self.feat and samples.a is a.index_buffer):
        raise sym.Undecided('sort of other arrays')
    E.require(And(keys.off == 0, samples.off == 0, n == a._n), 'all samples of the range are sorted')
    E.require(Implies(inr(a.p, n), keys.a.at(a.p) == a.self.data.at(samples.a.at(a.p), a.var_idx)),
              'the keys are the values of the feature')
    for x, f in ((keys.a, ()), (samples.a, (lambda ix, v, rd=None: inr(v, a.self.data.shape[0]),))):
        E.touch(x)
        x.__havoc__(E, None, facts=f)
    a._ib = samples.a.snapshot()


STUBS[t('sort')] = stub_sort


def best_fresh(E, v):
    return -INF if E.choose(2) == 0 else E.real('best_improvement')


def scan_inv(st, L):
    a = L.E.spec
    s = a.self
    k = SI(sym.zint(L.k))
    if st._when == 'pre':
        a._p = k
    out = best_inv(a, st.max_impurity_improvement, a.best_split_pos.v, k)
    out['range'] = If(a.symbolic != 0, k <= a._n - 1, k <= a._n - 2)
    pending = And(k > 0, a.symbolic != 0, a._change(k - 1))
    nl = a._N(k)
    out['samples on the left'] = And(s.num_samples.at(0) == If(pending, 0, nl), nl >= 0, nl <= k,
                                     Implies(k >= 1, nl >= 1), Implies(And(a.symbolic != 0, k > a.w + 1), nl < k))
    d = a._dep['n']
    inm = And(a._hn(a.var_idx) != 0, inr(d.g, s.n_num_vars))
    for nm, F in (('sums', a._S), ('sq_sums', a._Q)):
        l, r, tot = (getattr(s, nm + x).at(d.g) for x in ('_left', '_right', '_total'))
        out[nm] = Implies(inm, And(l == If(pending, 0, F(d.g, k)), r == tot - F(d.g, k), Implies(d.isdep == 0,
                                                                                                  F(d.g, k) == 0)))
    d = a._dep['s']
    ins = And(inr(d.g, s.n_sym_vars), inr(d.v, s.symbols_total.shape[0]))
    l, r, tot = (getattr(s, 'symbols' + x).at(d.v, d.g) for x in ('_left', '_right', '_total'))
    h = a._H(d.g, d.v, k)
    out['histograms'] = Implies(ins, And(l == If(pending, 0, h), r == If(pending, tot, tot - h),
                                         Implies(d.isdep == 0, h == 0)))
    return out


def best_inv(a, best, pos, k):
    """best is the greatest improvement of the admissible positions before k, attained at pos (-inf: there are none)"""
    if not isnum(best):
        return {'best so far': Implies(And(a.p >= 0, a.p < k), Not(a._adm(a.p)))}
    if isinstance(pos, type(None)):
        pos = a._D.E.int('none')
    return {'best so far': And(pos >= 0, pos < k, a._adm(pos), best == a._imp(pos),
                               Implies(And(a.p >= 0, a.p < k, a._adm(a.p)), best >= a._imp(a.p)))}


@acontract(t('Impurity.evaluate_variable'))
class _:
    ghosts = dict(p=G(), w=G(), q=G(), gn=G(), qn=G(), en=G(), dn=G(), gs=G(), vs=G(), qs=G(), es=G(), ds=G())
    params = dict(self=Self(**SCAN), var_idx=G(), symbolic=G(), symbolic_idx=G(), gini_total=R(),
                  index_buffer=Arr('N', sort='int', facts=(below('R'),)), best_split_pos=CellP())
    uses = tuple(t(n) for n in ('Impurity.update_numeric_stats_with_dependencies',
                                'Impurity.update_symbolic_stats_with_dependencies', 'variances',
                                'compute_var_improvements', 'Impurity.gini_impurity', 'mean', 'sort',
                                'Impurity.has_numeric_vars', 'Impurity.col_is_constant'))
    loops = {
        'Impurity.evaluate_variable#L1': LC(inv=lambda st, L: {
            'keys': Implies(inr(L.E.spec.p, L.k), st.f.at(L.E.spec.p) == st.data.at(
                st.index_buffer.at(L.E.spec.p), st.var_idx))}, modifies=lambda st: [st.f]),
        'Impurity.evaluate_variable#L2': LC(inv=lambda st, L: {
            'not met before': And(st.num_feat_idx == -1, Implies(inr(L.E.spec.q, st.self.n_num_vars),
                                                                 L.k <= L.E.spec.q))}),
        'Impurity.evaluate_variable#L3': LC(
            inv=scan_inv, fresh={'max_impurity_improvement': best_fresh},
            modifies=lambda st: [getattr(st.self, n) for n in NUMERIC + SYMBOLIC + (
                'num_samples', 'variances_left', 'variances_right', 'gini_left', 'gini_right', 'gini_improvements')] +
            [st.best_split_pos])}
    opts = dict(deadline=300, timeout_ms=20000, opaque=True)

    def pre(self, a):
        s = a.self
        a.__dict__['_n'] = s.end - s.start
        n = a._n
        SZ = SIZES(a._D)
        return {'range': And(0 <= s.start, s.start <= s.end, s.end <= s.indices.shape[0], n <= s.data.shape[0]),
                'column': inr(a.var_idx, s.data.shape[1]), 'flag': Or(a.symbolic == 0, a.symbolic == 1),
                'two counters': SZ['two'] == 2, 'w': a.w >= 0}

    def call(self, a, fn):
        return fn(a.self, a.var_idx, a.symbolic, a.symbolic_idx, a.self.variances_total, a.gini_total, a.index_buffer,
                  a.best_split_pos)

    def setup(self, E, a):
        E.spec = a
        scan_spec(E, a)

    def post(self, a, r, old):
        s = a.self
        if a._const:
            out = {'a constant feature is not split': r == -INF}
        else:
            out = {'result: ' + k: v for k, v in best_inv(a, r, a.best_split_pos.v, a._n).items()}
        for x in KEPT:
            out['%s is unchanged' % x] = getattr(s, x).content is a._kept[x]
        return out


def scan_spec(E, a):
    s = a.self
    n = a._n
    vi = a.var_idx
    a._p = None
    a._tot = s.variances_total.content
    a._kept = {x: getattr(s, x).content for x in KEPT}
    a._skip = If(inr(a.q, s.n_num_vars), a.q, -1)
    s.numeric_vars.content.facts += (lambda ix, v, rd=None: Iff(v == vi, ix[0] == a.q),)
    dn = NS(g=a.gn, q=a.qn, e=a.en, isdep=a.dn)
    ds = NS(g=a.gs, q=a.qs, e=a.es, isdep=a.ds, v=a.vs)
    a._dep = {'n': dn, 's': ds}
    for d, mat, vars_ in ((dn, s.numeric_dependency_matrix, s.numeric_vars),
                          (ds, s.symbolic_dependency_matrix, s.symbolic_vars)):
        mat.content.facts += (dep_facts(d, None, vars_.shape[0], lambda ix: ix[0] == vi),)
        for c in dep_pre(d, mat.shape[1]).values():
            E.assume(c)
    a._hn = lambda v: hn_of(E, a, v)
    X = lambda p: s.data.at(a._ib.at(p), vi)        # noqa
    a._change = lambda p: X(p) != X(p + 1)
    reset = lambda i: And(a.symbolic != 0, i > 0, a._change(i - 1))     # noqa
    y = lambda g, i: s.data.at(a._ib.at(i), s.numeric_vars.at(g))       # noqa
    isn = lambda g: And(dn.isdep != 0, g == dn.g)                      # noqa
    a._N = Prefix(E, 'nleft', lambda i: 1, 0, 'int', reset)
    a._S = Prefix(E, 'sum', lambda g, i: If(isn(g), y(g, i), 0), 1, 'real', reset)
    a._Q = Prefix(E, 'sqsum', lambda g, i: If(isn(g), y(g, i) * y(g, i), 0), 1, 'real', reset)
    a._H = Prefix(E, 'hist', lambda g, v, i: ind(And(
        ds.isdep != 0, g == ds.g, s.data.at(a._ib.at(i), s.symbolic_vars.at(g)).trunc() == v)), 2, 'int', reset)
    a._VI, a._GL, a._GR = (fun(E, x, 'int', 'real') for x in ('VI', 'GL', 'GR'))
    a._nl = lambda p: a._N(p + 1)
    a._cand = lambda p: If(a.symbolic != 0, And(p >= 0, p < n, Or(p == n - 1, a._change(p))),
                           And(p >= 0, p < n - 1, a._change(p)))
    a._adm = lambda p: And(a._cand(p), a._nl(p) >= s.min_samples_leaf, n - a._nl(p) >= s.min_samples_leaf)
    a._imp = lambda p: improvement(a, p)


def hn_of(E, a, v):
    """number of the numeric targets other than v"""
    E.require(v == a.var_idx, 'the feature under evaluation')
    m = a.self.n_num_vars
    return m - ind(inr(a.q, m))


def improvement(a, p):
    s = a.self
    nl, n, w, gt = a._nl(p), a._n, s.w_numeric, a.gini_total
    num = If(a._hn(a.var_idx) != 0, a._VI(p) * w, 0)
    g = gt - a._GL(p) * div(nl, n) - a._GR(p) * div(n - nl, n)
    return num + If(And(s.n_sym_vars != 0, gt != 0), div(g, gt) * (1 - w), 0)


# ------------------------------------------------------------------------------------------------- all features
def UF(name, *sorts):
    return fun(None, name, *sorts)


EVAL, EINF, BP = UF('eval', 'int', 'real'), UF('einf', 'int', 'int'), UF('bestpos', 'int', 'int')
PI, INV = UF('perm', 'int', 'int', 'int'), UF('perminv', 'int', 'int', 'int')
ISSYMF, ISF = UF('issymfeature', 'int', 'int'), UF('isfeature', 'int', 'int')
STATS = ('variances_total', 'sums_total', 'sq_sums_total', 'symbols_total', 'gini_impurities')


def rows_of_range(E, a, rows):
    E.require(rows.shape[0] == a._n, 'all samples of the range')
    everywhere(E, rows, lambda ix, v, rd=None: v == a._orig.at(a.self.start + ix[0]), 'the samples of the range')


def stub_sums2(raw, M, rows, cols, result, sq=False):
    E = sym.eng()
    a = E.spec
    E.require(M.content is a.self.data.content and cols.content is a.self.numeric_vars.content, 'the numeric targets')
    rows_of_range(E, a, rows)
    E.touch(result)
    result.__havoc__(E, None)
    E.assume(Implies(inr(a.gn, a.self.n_num_vars), result.at(a.gn) == (a._Q if sq else a._S)(a.gn, a._n)))


STUBS[t('sum_at/b')] = stub_sums2
STUBS[t('sq_sum_at/b')] = lambda raw, M, rows, cols, result: stub_sums2(raw, M, rows, cols, result, True)


def stub_bincount2(raw, data, rows, cols, result):
    E = sym.eng()
    a = E.spec
    E.require(data.content is a.self.data.content and cols.content is a.self.symbolic_vars.content,
              'the symbolic targets')
    rows_of_range(E, a, rows)
    E.touch(result)
    result.__havoc__(E, None)
    E.assume(Implies(a._insym, result.at(a.vs, a.gs) == a._H(a.gs, a.vs, a._n)))


STUBS[t('bincount/b')] = stub_bincount2


def stub_gini2(raw, self, counts, n_samples, result):
    E = sym.eng()
    a = E.spec
    E.require(And(n_samples == a._n, n_samples >= 1, Implies(a._insym, counts.at(a.vs, a.gs) == a._H(a.gs, a.vs, a._n))),
              'histogram of the range')
    E.touch(result)
    result.__havoc__(E, None)
    result.content.mean = a._GT


STUBS[t('Impurity.gini_impurity/b')] = stub_gini2


def stub_evaluate(raw, self, variable, symbolic, symbolic_idx, variances_total, gini_total, index_buffer, cell):
    E = sym.eng()
    a = E.spec
    s, n = a.self, a._n
    E.require(inr(variable, s.data.shape[1]), 'column')
    E.require(Iff(symbolic != 0, ISSYMF(variable) == 1), 'kind of the feature')
    E.require(And(s.start == a.start, s.end == a.end), 'the range')
    inm = And(s.n_num_vars != 0, inr(a.gn, s.n_num_vars))
    q, su = a._Q(a.gn, n), a._S(a.gn, n)
    E.require(Implies(inm, And(s.sums_total.at(a.gn) == su, s.sq_sums_total.at(a.gn) == q)), 'sums of the range')
    if variances_total is not None:
        E.require(Implies(inm, variances_total.at(a.gn) == VAR(q, su, n)), 'variances of the range')
    else:
        E.require(s.n_num_vars == 0, 'variances are passed')
    E.require(Implies(a._insym, s.symbols_total.at(a.vs, a.gs) == a._H(a.gs, a.vs, n)), 'histograms of the range')
    E.require(gini_total == If(s.n_sym_vars != 0, a._GT, 0), 'Gini impurity of the range')
    E.require(Implies(inr(a.x, n), index_buffer.at(a.x) == a._orig.at(a.start + a._bpi(a._k, a.x))),
              'the buffer holds the samples of the range')
    E.touch(index_buffer)
    index_buffer.__havoc__(E, None, facts=(lambda ix, v, rd=None: Implies(ix[0] < n, And(
        v == a._orig.at(a.start + PI(variable, ix[0])), inr(PI(variable, ix[0]), n))),))
    if E.choose(2) == 0:
        E.assume(EINF(variable) == 1)
        return -INF
    E.assume(And(EINF(variable) == 0, inr(BP(variable), n)))
    cell[0] = BP(variable)
    return EVAL(variable)


STUBS[t('Impurity.evaluate_variable')] = stub_evaluate


def stub_front(raw, self, var_idx, value, split_pos):
    """the samples of the range with that value come first, split_pos is the position of the last one"""
    E = sym.eng()
    a = E.spec
    E.require(And(inr(var_idx, self.data.shape[1]), self.start == a.start, self.end == a.end, var_idx == self.best_var),
              'range and column')
    E.require(value == a._val(var_idx), 'the value of the best split')
    E.require(ISSYMF(var_idx) == 1, 'a symbolic feature: its values are not negative')
    c = E.int('split_pos')
    split_pos[0] = c
    E.touch(self.indices)
    old = self.indices.snapshot()
    self.indices.__havoc__(E, None, facts=(lambda ix, v, rd=None: Implies(Not(inr(ix[0] - a.start, a._n)), v == old.at(*ix)),
                                           lambda ix, v, rd=None: Implies(inr(ix[0] - a.start, a._n), And(
                                               inr(v, self.data.shape[0]),
                                               Iff(self.data.at(v, var_idx) == value, ix[0] - a.start <= c)))))
    a._moved = c


STUBS[t('Impurity.move_best_values_to_front')] = stub_front


class Havocable(Self):
    """an Impurity whose reported best split is modified"""

    def make(self, D, name):
        o = super().make(D, name)

        def havoc(E, c):
            s = object.__setattr__
            s(o, 'best_var', E.int('best_var'))
            s(o, 'best_split_pos', E.int('best_split_pos'))
            s(o, 'max_impurity_improvement', best_fresh(E, None))
        object.__setattr__(o, '__havoc__', havoc)
        for k in ('best_var', 'best_split_pos'):
            object.__setattr__(o, k, D.E.int(k + '0'))
        object.__setattr__(o, 'max_impurity_improvement', D.E.real('best0'))
        return o


def features_inv(st, L):
    a = L.E.spec
    s = a.self
    k = SI(sym.zint(L.k))
    if st._when == 'pre':
        a._k = k
    out = report(a, k)
    out['buffer'] = Implies(inr(a.x, a._n), s.index_buffer.at(a.x) == a._orig.at(a.start + a._bpi(k, a.x)))
    return out


def report(a, k):
    """the reported split is the best one of the first k features"""
    s = a.self
    best, bv = s.max_impurity_improvement, s.best_var
    v = s.features.at(a.f)
    met = And(a.f >= 0, a.f < k)
    here = s.indices.at(a.start + a.x)
    inx = inr(a.x, a._n)
    out = {'outside of the range nothing moves': Implies(And(inr(a.z, s.indices.shape[0]), Not(inr(a.z - a.start, a._n))),
                                                         s.indices.at(a.z) == a._orig.at(a.z))}
    if not isnum(best):
        out['no feature can be split'] = Implies(met, EINF(v) == 1)
        out['order'] = Implies(inx, here == a._orig.at(a.start + a.x))
        return out
    out['no feature is better'] = Implies(And(met, EINF(v) == 0), best >= EVAL(v))
    out['the reported feature attains it'] = And(EINF(bv) == 0, best == EVAL(bv), ISF(bv) == 1, inr(bv, s.data.shape[1]))
    if a._moved is None:
        out['its position'] = And(s.best_split_pos == BP(bv), inr(BP(bv), a._n), inr(PI(bv, BP(bv)), a._n))
        out['order'] = Implies(inx, here == a._orig.at(a.start + PI(bv, a.x)))
        out['order at the split'] = s.indices.at(a.start + BP(bv)) == a._orig.at(a.start + PI(bv, BP(bv)))
    return out


@acontract(t('Impurity.compute_best_split'))
class _:
    ghosts = dict(x=G(), z=G(), f=G(), gn=G(), gs=G(), vs=G())
    params = dict(self=Havocable(**{**SCAN, 'features': Arr('F', sort='int', facts=(
        below('C'), lambda s, ix, v: ISF(v) == 1)), 'symbolic_features': Arr('FS', sort='int'),
        'index_buffer': Arr('N', sort='int')}), start=G(), end=G())
    uses = tuple(t(n) for n in ('sum_at/b', 'sq_sum_at/b', 'variances', 'bincount/b', 'Impurity.gini_impurity/b', 'mean',
                                'Impurity.evaluate_variable', 'Impurity.move_best_values_to_front'))
    loops = {'Impurity.compute_best_split#L1': LC(inv=features_inv, modifies=lambda st: [
        st.self, st.self.index_buffer, st.self.indices])}
    opts = dict(deadline=200, timeout_ms=20000, opaque=True)

    def pre(self, a):
        s = a.self
        a.__dict__['_n'] = a.end - a.start
        return {'range': And(0 <= a.start, a.start < a.end, a.end <= s.indices.shape[0], a._n <= s.data.shape[0])}

    def setup(self, E, a):
        E.spec = a
        s, n = a.self, a._n
        a._orig = s.indices.snapshot()
        a._k, a._moved = None, None
        a._insym = And(inr(a.gs, s.n_sym_vars), inr(a.vs, s.symbols_total.shape[0]))
        o, st = a._orig, a.start
        y = lambda g, i: s.data.at(o.at(st + i), s.numeric_vars.at(g))       # noqa
        a._S = Prefix(E, 'sum', y, 1)
        a._Q = Prefix(E, 'sqsum', lambda g, i: y(g, i) * y(g, i), 1)
        a._H = Prefix(E, 'hist', lambda g, v, i: ind(s.data.at(o.at(st + i), s.symbolic_vars.at(g)).trunc() == v), 2, 'int')
        a._GT = E.real('gini_of_the_range')
        a._bpi = lambda k, x: If(k == 0, x, PI(s.features.at(k - 1), x))     # noqa
        a._val = lambda v: s.data.at(o.at(st + PI(v, BP(v))), v)             # noqa
        s.symbolic_features.content.member = lambda v: ISSYMF(v) == 1
        a._keep = {x: getattr(s, x).content for x in ('data', 'numeric_vars', 'symbolic_vars', 'features')}

    def call(self, a, fn):
        return fn(a.self, a.start, a.end)

    def post(self, a, r, old):
        s = a.self
        best = s.max_impurity_improvement
        out = report(a, s.features.shape[0])
        out['the best improvement is returned'] = r == best
        if isnum(best):
            bv = s.best_var
            here = s.indices.at(a.start + a.x)
            out['a symbolic split puts the samples with its value on the left'] = Implies(
                And(ISSYMF(bv) == 1, inr(a.x, a._n)), Iff(s.data.at(here, bv) == a._val(bv), a.x <= s.best_split_pos))
        for x, c in a._keep.items():
            out['%s is unchanged' % x] = getattr(s, x).content is c
        return out


def stub_sort2(raw, keys, samples, n):
    """sort permutes keys and samples alike; position i then holds a key <= t exactly if i < the number of keys <= t"""
    E = sym.eng()
    a = E.spec
    s, x = a.self, a.x
    if not (keys.a is s.feat and samples.a is s.indices):
        raise sym.Undecided('sort of other arrays')
    E.require(And(keys.off == 0, samples.off == s.start, n == a._n), 'all samples of the range')
    hit = s.data.at(samples.a.at(s.start + x), a.var_idx) == a.value
    E.require(Implies(inr(x, n), Iff(keys.a.at(x) <= -1, hit)), 'keys of the samples with the value are the least')
    E.require(n <= s.feat.shape[0], 'enough keys')
    oldk, olds = keys.a.snapshot(), samples.a.snapshot()
    SG = UF('sigma', 'int', 'int')
    E.touch(keys.a)
    E.touch(samples.a)
    keys.a.__havoc__(E, None, facts=(lambda ix, v, rd=None: Implies(ix[0] < n, And(
        inr(SG(ix[0]), n), v == oldk.at(SG(ix[0])), Iff(v <= -1, ix[0] < a._CNT(n)))),))
    nk = keys.a
    samples.a.__havoc__(E, None, facts=(
        lambda ix, v, rd=None: Implies(Not(inr(ix[0] - s.start, n)), v == olds.at(ix[0])),
        lambda ix, v, rd=None: Implies(inr(ix[0] - s.start, n), And(v == olds.at(s.start + SG(ix[0] - s.start)),
                                                           inr(SG(ix[0] - s.start), n)))))
    a._nk, a._olds, a._oldk, a._SG = nk, olds, oldk, SG


STUBS[t('sort/b')] = stub_sort2


@acontract(t('Impurity.move_best_values_to_front'))
class _:
    ghosts = dict(x=G(), z=G())
    params = dict(self=Self(data=Arr('R', 'C'), indices=Arr('N', sort='int', facts=(below('R'),)), feat=Arr('R'),
                            start=G(), end=G()), var_idx=G(), value=R(), split_pos=CellP())
    uses = (t('sort/b'),)
    loops = {'Impurity.move_best_values_to_front#L1': LC(
        inv=lambda st, L: front_inv(L.E.spec, SI(sym.zint(L.k))), modifies=lambda st: [st.split_pos, st.self.feat],
        fresh={'v': lambda E, v: E.real('v')})}

    def pre(self, a):
        s = a.self
        a.__dict__['_n'] = s.end - s.start
        s.data.content.facts += (lambda ix, v, rd=None: Implies(ix[1] == a.var_idx, v >= 0),)
        return {'range': And(0 <= s.start, s.start <= s.end, s.end <= s.indices.shape[0], a._n <= s.data.shape[0]),
                'column': inr(a.var_idx, s.data.shape[1])}

    def setup(self, E, a):
        E.spec = a
        s = a.self
        a._orig = s.indices.snapshot()
        a._X = lambda i: s.data.at(a._orig.at(s.start + i), a.var_idx)    # noqa
        a._CNT = Prefix(E, 'count', lambda i: ind(a._X(i) == a.value), 0, 'int')

    def post(self, a, r, old):
        s, n = a.self, a._n
        i = s.start + a.x
        a._nk.at(a.x)
        v = s.data.at(s.indices.at(i), a.var_idx)
        k0 = a._oldk.at(a._SG(a.x))
        # the loop invariant at the position the sample came from
        E = a._D.E
        lemma = Implies(inr(a._SG(a.x), n), k0 == key(a, a._SG(a.x)))
        return {'the samples with the value come first': Implies(And(inr(a.x, n), lemma), Iff(v == a.value, a.x <= a.split_pos.v)),
                'nothing moves outside of the range': Implies(And(inr(a.z, s.indices.shape[0]), Not(inr(a.z - s.start, n))),
                                                              s.indices.at(a.z) == a._orig.at(a.z))}


def key(a, i):
    return If(a._X(i) == a.value, -1, a._X(i))


def front_inv(a, k):
    return {'keys': Implies(inr(a.x, k), a.self.feat.at(a.x) == key(a, a.x)),
            'position': a.split_pos.v == a._CNT(k) - 1}
