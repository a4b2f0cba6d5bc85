"""Contracts of the elementary functions (jpt.base.functions) over real arithmetic."""
import math
import operator

from engine import sym
from engine.contract import (contract, Contract, F64, Int, Bool, Const, OneOf, P, eq, le, And, Or, Not, Implies, Iff, If,
                             INC, EXC, FN, IV, tname, iter_list, CS, member, snap)

C05 = 'C05'
NAN = float('nan')


class Con(P):
    def make(self, D, name):
        return D.new(FN + ':ConstantFunction', value=D.num(name + '.value', True))


class Lin(P):
    def __init__(self, slope=False):
        self.slope = slope

    def make(self, D, name):
        m = D.num(name + '.m', True)
        if self.slope:
            D.assume(Not(m == 0) if D.symbolic else abs(m) > 1e-3)
        return D.new(FN + ':LinearFunction', m=m, c=D.num(name + '.c', True))


class Quad(P):
    def __init__(self, a=False):
        self.nz = a

    def make(self, D, name):
        a = D.num(name + '.a', True)
        if self.nz:
            D.assume(Not(a == 0) if D.symbolic else abs(a) > 1e-3)
        return D.new(FN + ':QuadraticFunction', a=a, b=D.num(name + '.b', True), c=D.num(name + '.c', True))


class Und(P):
    def make(self, D, name):
        return D.new(FN + ':Undefined')


ANY = OneOf(Con(), Lin(), Quad())
CL = OneOf(Con(), Lin())


def tn(f):
    return f.__dict__['_type'] if '_type' in getattr(f, '__dict__', {}) else tname(f)


def val(f, x):
    """the value at x of an elementary function (specification)"""
    n = tn(f)
    if n == 'ConstantFunction':
        return f.value
    if n == 'LinearFunction':
        return f.m * x + f.c
    if n == 'QuadraticFunction':
        return f.a * x * x + f.b * x + f.c
    if n == 'Undefined':
        return NAN
    if isinstance(f, (int, float)) or getattr(f, '__sym__', False):
        return f
    raise TypeError('not a function: %r' % (f,))


X = {'x0': F64()}


def f(target):
    return FN + ':' + target


def op(o):
    def call(self, a, fn):
        return o(a.self, a.f)
    return call


FUNS = {'ConstantFunction': Con, 'LinearFunction': Lin, 'QuadraticFunction': Quad}

for name_, kind_ in FUNS.items():
    @contract(f(name_ + '.eval'), C05, mode='real')
    class _:
        params = dict(self=kind_(), x=F64())

        def post(self, a, r, old):
            return {'evaluates the polynomial': eq(r, val(old.self, old.x))}

    @contract(f(name_ + '.copy'), C05, mode='real')
    class _:
        params = dict(self=kind_())
        ghosts = X

        def post(self, a, r, old):
            return {'same values': eq(val(r, old.x0), val(old.self, old.x0)), 'same kind': tn(r) == tn(old.self),
                    'a new object': r is not a.self}

    @contract(f(name_ + '.differentiate'), C05, mode='real')
    class _:
        params = dict(self=kind_())
        ghosts = dict(x0=F64(), h=F64())

        def post(self, a, r, old):
            s, x, h = old.self, old.x0, old.h
            a2 = s.a if tn(s) == 'QuadraticFunction' else 0.
            return {'f(x+h) - f(x) = f\'(x) h + a h^2 for all x and h':
                    eq(val(s, x + h) - val(s, x), val(r, x) * h + a2 * h * h, 1e-6)}

    @contract(f(name_ + '.set'), C05, mode='real')
    class _:
        params = dict(self=kind_(), f=kind_())
        ghosts = X
        modifies = ('self',)

        def post(self, a, r, old):
            return {'takes over the values': eq(val(a.self, old.x0), val(old.f, old.x0)), 'returns itself': r is a.self}

for name_, kind_ in (('LinearFunction', Lin), ('QuadraticFunction', Quad)):
    @contract(f(name_ + '.simplify'), C05, mode='real')
    class _:
        params = dict(self=kind_())
        ghosts = X

        def post(self, a, r, old):
            return {'same values': eq(val(r, old.x0), val(old.self, old.x0)),
                    'no leading zero coefficient': (Not(r.m == 0) if tn(r) == 'LinearFunction' else
                                                    Not(r.a == 0) if tn(r) == 'QuadraticFunction' else True),
                    'a new object': r is not a.self}

for name_, kind_ in (('ConstantFunction', Con), ('LinearFunction', Lin)):
    @contract(f(name_ + '.xshift'), C05, mode='real')
    class _:
        params = dict(self=kind_(), delta=F64())
        ghosts = X

        def post(self, a, r, old):
            return {'value at x is the old value at x + delta': eq(val(r, old.x0), val(old.self, old.x0 + old.delta), 1e-7),
                    'a new object': r is not a.self}

    @contract(f(name_ + '.xmirror'), C05, mode='real')
    class _:
        params = dict(self=kind_())
        ghosts = X

        def post(self, a, r, old):
            return {'value at x is the old value at -x': eq(val(r, old.x0), val(old.self, -old.x0)),
                    'a new object': r is not a.self}


def both(a):
    return tn(a.self), tn(a.f)


# which pairs of kinds have a sum / a product among the elementary functions
ADD = {('ConstantFunction', k) for k in FUNS} | {('QuadraticFunction', k) for k in FUNS} | \
    {('LinearFunction', 'ConstantFunction'), ('LinearFunction', 'LinearFunction')}
MUL = {('ConstantFunction', k) for k in FUNS} | {(k, 'ConstantFunction') for k in FUNS} | \
    {('LinearFunction', 'LinearFunction')}

for name_, kind_ in FUNS.items():
    for meth_, o_, table_ in (('add', operator.add, ADD), ('mul', operator.mul, MUL)):
        def arith(name_, kind_, meth_, o_, table_):
            def post(self, a, r, old):
                return {'the value at every x is the %s of the values' % ('sum' if meth_ == 'add' else 'product'):
                        eq(val(r, old.x0), o_(val(old.self, old.x0), val(old.f, old.x0)), 1e-7),
                        'a new object': r is not a.self and r is not a.f}

            def raises(self, a, e, old):
                return isinstance(e, TypeError) and both(old) not in table_

            @contract(f('%s.%s' % (name_, meth_)), C05, mode='real')
            class _:
                params = dict(self=kind_(), f=ANY)
                ghosts = X
            c_ = __import__('engine.contract', fromlist=['REG']).REG['%s.%s' % (name_, meth_)]
            type(c_).post, type(c_).raises = post, raises

            @contract(f('%s.%s' % (name_, '__%s__' % meth_)), C05, mode='real')
            class _:
                params = dict(self=kind_(), f=OneOf(Con(), Lin(), Quad(), F64()))
                ghosts = X
                call = op(o_)

                def function(self):
                    return None
            c_ = __import__('engine.contract', fromlist=['REG']).REG['%s.__%s__' % (name_, meth_)]
            type(c_).post = post
            type(c_).raises = lambda self, a, e, old: isinstance(e, TypeError) and both(old) not in table_ and \
                hasattr(old.f, '_type')

            @contract(f('%s.%s' % (name_, '__r%s__' % meth_)), C05, mode='real')
            class _:
                params = dict(self=F64(), f=kind_())
                ghosts = X
                call = op(o_)

                def function(self):
                    return None
            c_ = __import__('engine.contract', fromlist=['REG']).REG['%s.__r%s__' % (name_, meth_)]
            type(c_).post = post
        arith(name_, kind_, meth_, o_, table_)


@contract(f('LinearFunction.__sub__'), C05, mode='real')
class _:
    params = dict(self=OneOf(Lin(), F64()), f=OneOf(Con(), Lin(), F64()))
    ghosts = X
    call = op(operator.sub)

    def function(self):
        return None

    def pre(self, a):
        return {'a linear function is involved': 'LinearFunction' in (tn(a.self), tn(a.f))}

    def post(self, a, r, old):
        return {'the value at every x is the difference of the values':
                eq(val(r, old.x0), val(old.self, old.x0) - val(old.f, old.x0))}


@contract(f('LinearFunction.root'), C05, mode='real')
class _:
    params = dict(self=Lin(slope=True))

    def post(self, a, r, old):
        return {'the value there is zero': eq(val(old.self, r), 0, 1e-6)}


@contract(f('LinearFunction.invert'), C05, mode='real')
class _:
    params = dict(self=Lin(slope=True))
    ghosts = X

    def post(self, a, r, old):
        return {'inverse of the value is x': eq(val(r, val(old.self, old.x0)), old.x0, 1e-6),
                'value of the inverse is x': eq(val(old.self, val(r, old.x0)), old.x0, 1e-6)}


@contract(f('LinearFunction.hmirror'), C05, mode='real')
class _:
    params = dict(self=Lin())
    ghosts = X

    def post(self, a, r, old):
        return {'negated values': eq(val(r, old.x0), -val(old.self, old.x0))}


for name_, kind_ in (('ConstantFunction', Con), ('LinearFunction', Lin)):
    @contract(f(name_ + '.intersects'), C05, mode='real')
    class _:
        params = dict(self=kind_(), f=CL)
        ghosts = X

        def post(self, a, r, old):
            return {'functions with a common point intersect':
                    Implies(val(old.self, old.x0) == val(old.f, old.x0), r)}

    @contract(f(name_ + '.intersection'), C05, mode='real')
    class _:
        params = dict(self=kind_(), f=CL)
        ghosts = X

        def build(self, D):
            a = Contract.build(self, D)
            if not D.symbolic:       # doubles: only well-conditioned crossings
                ms = [getattr(g, 'm', 0.) for g in (a.self, a.f)]
                D.assume(ms[0] == ms[1] or abs(ms[0] - ms[1]) > 1e-3)
            return a

        def post(self, a, r, old):
            v, w = val(old.self, old.x0), val(old.f, old.x0)
            if isinstance(old.x0, float):
                return {'exactly the points with equal values':
                        abs(v - w) < 1e-6 * max(1, abs(v)) if member(r, old.x0) else True,
                        'a crossing is reported': r.lower <= r.upper and (
                            r.isempty() == (getattr(old.self, 'm', 0.) == getattr(old.f, 'm', 0.) and
                                            val(old.self, 0.) != val(old.f, 0.)))}
            return {'exactly the points with equal values': Iff(member(r, old.x0), v == w)}

    @contract(f(name_ + '.integrate'), C05, mode='real')
    class _:
        params = dict(self=kind_(), x1=F64(), x2=F64())

        def pre(self, a):
            return {'ordered bounds': a.x1 <= a.x2}

        def post(self, a, r, old):
            s, p, q = old.self, old.x1, old.x2
            m = s.m if tn(s) == 'LinearFunction' else 0.
            c = s.c if tn(s) == 'LinearFunction' else s.value
            return {'the difference of the antiderivative': eq(r, m * (q * q - p * p) / 2. + c * (q - p), 1e-6)}

    # unbounded integration limits
    @contract(f(name_ + '.integrate'), C05, mode='real', variant='infinite')
    class _:
        params = dict(self=kind_(), x1=OneOf(F64(), Const(-math.inf)), x2=OneOf(F64(), Const(math.inf)))

        def pre(self, a):
            return {'an infinite bound': Or(isinstance(a.x1, float) and math.isinf(a.x1),
                                            isinstance(a.x2, float) and math.isinf(a.x2))}

        def post(self, a, r, old):
            s = old.self
            m = s.m if tn(s) == 'LinearFunction' else 0.
            c = s.c if tn(s) == 'LinearFunction' else s.value
            l, u = isinstance(old.x1, float) and math.isinf(old.x1), isinstance(old.x2, float) and math.isinf(old.x2)
            inf = math.inf
            neg, pos = isinstance(r, float) and r == -inf, isinstance(r, float) and r == inf
            zero = r == 0
            want = And(Implies(And(m == 0, c == 0), zero), Implies(And(m == 0, c > 0), pos),
                       Implies(And(m == 0, c < 0), neg))
            if u and not l:
                want = And(want, Implies(m > 0, pos), Implies(m < 0, neg))
            if l and not u:
                want = And(want, Implies(m > 0, neg), Implies(m < 0, pos))
            return {'the (improper) integral': want}

    @contract(f(name_ + '.__eq__'), C05, mode='real')
    class _:
        params = dict(self=kind_(), f=ANY)
        ghosts = X
        call = op(operator.eq)

        def function(self):
            return None

        def post(self, a, r, old):
            s, t = old.self, old.f
            cs = lambda g: ((g.value, 0., 0.) if tn(g) == 'ConstantFunction' else (g.c, g.m, 0.)   # noqa
                            if tn(g) == 'LinearFunction' else (g.c, g.b, g.a))
            same = And(True, *[x == y for x, y in zip(cs(s), cs(t))])
            out = {'equal functions have equal values': Implies(r, val(s, old.x0) == val(t, old.x0))}
            if tn(t) != 'QuadraticFunction':
                out['functions with equal coefficients are equal'] = Implies(same, r)
            return out


@contract(f('LinearFunction.from_points'), C05, mode='real')
class _:
    params = dict(x1=F64(), y1=F64(), x2=F64(), y2=F64())

    def call(self, a, fn):
        return fn((a.x1, a.y1), (a.x2, a.y2))

    def build(self, D):
        a = Contract.build(self, D)
        D.assume(Not(a.x1 == a.x2) if D.symbolic else abs(a.x1 - a.x2) > 1e-2)
        return a

    def post(self, a, r, old):
        return {'passes through the first point': eq(val(r, old.x1), old.y1, 1e-6),
                'passes through the second point': eq(val(r, old.x2), old.y2, 1e-6)}


@contract(f('QuadraticFunction.from_points'), C05, mode='real')
class _:
    params = dict(x1=F64(), y1=F64(), x2=F64(), y2=F64(), x3=F64(), y3=F64())

    def call(self, a, fn):
        return fn((a.x1, a.y1), (a.x2, a.y2), (a.x3, a.y3))

    def build(self, D):
        a = Contract.build(self, D)
        for p, q in ((a.x1, a.x2), (a.x1, a.x3), (a.x2, a.x3)):
            D.assume(Not(p == q) if D.symbolic else abs(p - q) > 1e-1)
        return a

    def post(self, a, r, old):
        return {'passes through point %d' % i: eq(val(r, x), y, 1e-5)
                for i, (x, y) in enumerate(((old.x1, old.y1), (old.x2, old.y2), (old.x3, old.y3)), 1)}


@contract(f('QuadraticFunction.roots'), C05, mode='real')
class _:
    params = dict(self=Quad(a=True))
    ghosts = X

    def build(self, D):
        a = Contract.build(self, D)
        if not D.symbolic:
            d = a.self.b ** 2 - 4 * a.self.a * a.self.c
            D.assume(d == 0 or abs(d) > 1e-2)
        return a

    def post(self, a, r, old):
        rs = list(r)
        out = {'every root is a zero': And(True, *[eq(val(old.self, x), 0, 1e-5) for x in rs])}
        if not isinstance(old.x0, float):
            out['every zero is a root'] = Implies(val(old.self, old.x0) == 0, Or(False, *[old.x0 == x for x in rs]))
        return out


@contract(f('QuadraticFunction.argvertex'), C05, mode='real')
class _:
    params = dict(self=Quad(a=True))
    ghosts = X

    def post(self, a, r, old):
        s = old.self
        d = s.a * (val(s, old.x0) - val(s, r))
        return {'no other value lies beyond the vertex': le(0, d, 1e-6) if isinstance(d, float) else d >= 0}


@contract(f('LinearFunction.is_invertible'), C05, mode='real')
class _:
    params = dict(self=Lin())

    def post(self, a, r, old):
        return {'only functions with a slope are invertible': Implies(r, Not(old.self.m == 0))}


@contract(f('Undefined.eval'), C05, mode='real')
class _:
    params = dict(self=Und(), f=ANY)
    ghosts = X

    def call(self, a, fn):
        u = a.self
        return [u.eval(a.x0), tn(u.copy()), tn(u.add(a.f)), tn(u.mul(a.f)), tn(u.xshift(1.)), u == a.f, u == u.copy()]

    def function(self):
        return None

    def post(self, a, r, old):
        return {'no value anywhere': r[0] != r[0], 'combinations are undefined': all(t == 'Undefined' for t in r[1:5]),
                'equal to itself only': And(Not(r[5]), r[6])}
