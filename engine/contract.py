"""Contracts: one definition, three uses - obligations for the prover, stubs at call sites, run-time assertions on the
compiled code (replay of counter-models, cross-checks)."""
import copy
import importlib
import math
import random
import struct

from . import sym
from .sym import And, Or, Not, Implies, Iff, If, Max, Min, SB, SI, SF, SR, Undecided

INC, EXC = 1, 2
MAXF = 1.7976931348623157e308
REG = {}          # contract id -> Contract
BY_TARGET = {}
STUBS = {}        # target -> function standing for the callee at call sites (its contract)


class Value:
    """stub of a module constant"""

    def __init__(self, v):
        self.v = v


class Wrap:
    """stub of a module constant, made of the original"""

    def __init__(self, f):
        self.f = f


class Skip(Exception):
    """a concrete input outside of the precondition"""


class NS:
    def __init__(_s, **k):
        _s.__dict__.update(k)

    def __repr__(self):
        return 'NS(%s)' % ', '.join('%s=%r' % i for i in self.__dict__.items())


def jpt_class(qual):
    mod, name = qual.split(':')
    o = importlib.import_module(mod)
    for p in name.split('.'):
        o = getattr(o, p)
    return o


IV = 'jpt.base.intervals'
FN = 'jpt.base.functions'


# ------------------------------------------------------------------------------------------------ domains
class SymD:
    symbolic = True

    def __init__(self, E, seed=0):
        self.E = E

    def f64(self, name, finite=False):
        return self.E.f64(name, finite)

    def real(self, name):
        return self.E.real(name)

    def num(self, name, finite=False):
        return self.E.f64(name, finite) if self.E.fp_mode != 'real' else self.E.real(name)

    def int(self, name, lo=None, hi=None):
        v = self.E.int(name)
        if lo is not None:
            self.E.assume(v >= lo)
        if hi is not None:
            self.E.assume(v <= hi)
        return v

    def bool(self, name):
        return self.E.bool(name)

    def choice(self, name, n):
        i = self.E.choose(n)
        self.E.choices[name] = i
        return i

    def assume(self, c):
        self.E.assume(c)

    def new(self, qual, **fields):
        cls = jpt_class(qual)
        o = cls.__new__(cls)
        for k, v in fields.items():
            setattr(o, k, v)
        return o

    def list(self, xs):
        from .hlist import SymList
        return SymList(xs) if self.E.track_lists else list(xs)


BASE = [0.0, 1.0, -1.0, 0.5, 2.0, 3.0, -2.0, 0.25, 10.0, 1e-9, -1e-9, 1e16, -1e16, 2.0 ** 53, 5e-324, 1e300, -1e300]


class ConcD:
    """concrete inputs: from a counter-model (values) or sampled (rng)"""
    symbolic = False

    def __init__(self, values=None, rng=None, mode='ieee'):
        self.values = values
        self.rng = rng
        self.mode = mode
        self.log = {}
        self.seen = []

    def _rec(self, name, v):
        k, n = name, 0
        while k in self.log:
            n += 1
            k = '%s!%d' % (name, n)
        self.log[k] = v
        return v

    def _val(self, name, default):
        k, n = name, 0
        while k in self.log:
            n += 1
            k = '%s!%d' % (name, n)
        v = self.values.get(k, default)
        self.log[k] = v
        return v

    def f64(self, name, finite=False):
        if self.values is not None:
            return float(self._val(name, 0.0))
        r = self.rng
        import numpy as np
        t = r.random()
        if self.seen and t < .55:
            v = r.choice(self.seen)
            u = r.random()
            if u < .25:
                v = float(np.nextafter(v, math.inf))
            elif u < .5:
                v = float(np.nextafter(v, -math.inf))
        elif t < .8:
            v = float(r.randint(-4, 4)) * r.choice([1, .5])
        elif t < .9:
            v = r.choice(BASE)
        elif t < .95 and not finite:
            v = r.choice([math.inf, -math.inf])
        else:
            v = r.uniform(-5, 5)
        if finite and math.isinf(v):
            v = math.copysign(1.7976931348623157e308, v)
        self.seen.append(v)
        return self._rec(name, v)

    def real(self, name):
        if self.values is not None:
            return float(self._val(name, 0.0))
        r = self.rng
        t = r.random()
        if self.seen and t < .3:
            v = r.choice(self.seen)
        elif t < .75:
            v = float(r.randint(-6, 6)) * r.choice([1, .5, .25])
        else:
            v = round(r.uniform(-4, 4), 2)
        self.seen.append(v)
        return self._rec(name, v)

    def num(self, name, finite=False):
        return self.f64(name, finite) if self.mode != 'real' else self.real(name)

    def int(self, name, lo=None, hi=None):
        if self.values is not None:
            return int(self._val(name, 0 if lo is None else lo))
        lo = -3 if lo is None else lo
        hi = lo + 6 if hi is None else hi
        return self._rec(name, self.rng.randint(lo, hi))

    def bool(self, name):
        if self.values is not None:
            return bool(self._val(name, False))
        return self._rec(name, self.rng.random() < .5)

    def choice(self, name, n):
        if self.values is not None:
            return int(self._val(name, 0))
        return self._rec(name, self.rng.randrange(n))

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def new(self, qual, **f):
        cls = jpt_class(qual)
        n = qual.split(':')[1]
        if n == 'ContinuousSet':
            o = cls(0., 0., INC, INC)
            o.lower, o.upper, o.left, o.right = f['lower'], f['upper'], f['left'], f['right']
            return o
        if n == 'RealSet':
            o = cls()
            o.intervals = list(f['intervals'])
            return o
        if n == 'Undefined':
            return cls()
        if n == 'ConstantFunction':
            return cls(f['value'])
        if n == 'LinearFunction':
            return cls(f['m'], f['c'])
        if n == 'QuadraticFunction':
            return cls(f['a'], f['b'], f['c'])
        o = cls()
        for k, v in f.items():
            setattr(o, k, v)
        return o

    def list(self, xs):
        return list(xs)


# ------------------------------------------------------------------------------------------------ parameter kinds
class P:
    def make(self, D, name):
        raise NotImplementedError


class F64(P):
    def __init__(self, finite=True):
        self.finite = finite

    def make(self, D, name):
        return D.num(name, self.finite)


class Int(P):
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def make(self, D, name):
        return D.int(name, self.lo, self.hi)


class Bool(P):
    def make(self, D, name):
        return D.bool(name)


class Const(P):
    def __init__(self, v):
        self.v = v

    def make(self, D, name):
        return self.v


class OneOf(P):
    def __init__(self, *alts):
        self.alts = alts

    def make(self, D, name):
        return self.alts[D.choice(name, len(self.alts))].make(D, name)


class CS(P):
    """a well-formed interval: lower <= upper, infinite ends open"""

    def __init__(self, nonempty=False):
        self.nonempty = nonempty

    def make(self, D, name):
        lo, up = D.num(name + '.lower'), D.num(name + '.upper')
        if not D.symbolic and D.values is None and lo > up:
            a, b = [k for k in D.log if k.startswith(name + '.lower')][-1], \
                [k for k in D.log if k.startswith(name + '.upper')][-1]
            D.log[a], D.log[b] = up, lo
            lo, up = up, lo
        l, r = D.int(name + '.left', 1, 2), D.int(name + '.right', 1, 2)
        if not D.symbolic and D.values is None:
            if lo == -math.inf:
                l = D.log[[k for k in D.log if k.startswith(name + '.left')][-1]] = EXC
            if up == math.inf:
                r = D.log[[k for k in D.log if k.startswith(name + '.right')][-1]] = EXC
        D.assume(wf_fields(lo, up, l, r, D))
        o = D.new(IV + ':ContinuousSet', lower=lo, upper=up, left=l, right=r)
        if self.nonempty:
            D.assume(Not(empty(o)))
        return o


def wf_fields(lo, up, l, r, D=None):
    c = [lo <= up, l >= INC, l <= EXC, r >= INC, r <= EXC]
    if not isinstance(lo, SR):
        c += [Implies(lo == -math.inf, l == EXC), Implies(up == math.inf, r == EXC),
              lo < MAXF, up > -MAXF, Or(lo == -math.inf, lo > -MAXF), Or(up == math.inf, up < MAXF)]
    return And(*c)


class RS(P):
    """a union of exactly n well-formed intervals (fixed shape)"""

    def __init__(self, n, nonempty=False):
        self.n, self.nonempty = n, nonempty

    def make(self, D, name):
        xs = [CS(self.nonempty).make(D, '%s[%d]' % (name, i)) for i in range(self.n)]
        return D.new(IV + ':RealSet', intervals=D.list(xs))


CONC_GHOSTS = {}


def x0():
    return sym.ENG.ghosts['x0'] if sym.ENG is not None else CONC_GHOSTS['x0']


def cs_kind():
    global _CSK
    if _CSK is None:
        from .hlist import Kind
        _CSK = Kind({'x0': ('count', lambda s: If(member(s, x0()), 1, 0)),
                     'ne': ('count', lambda s: If(empty(s), 0, 1))},
                    lambda E: CS().make(SymD(E), 'elem'),
                    lambda E, s: [('is a well-formed interval', wf_fields(s.lower, s.upper, s.left, s.right))],
                    'ContinuousSet', relations=(('x0', 'ne'),))
    return _CSK


_CSK = None


class RSA(P):
    """a union of any number of well-formed intervals"""

    def make(self, D, name):
        if D.symbolic:
            from .hlist import SymList
            l = SymList.symbolic(D.E, cs_kind(), name)
            return D.new(IV + ':RealSet', intervals=l)
        n = D.int(name + '.n', 0, 3)
        return D.new(IV + ':RealSet', intervals=[CS().make(D, '%s[%d]' % (name, i)) for i in range(n)])


def cnt(l, m='x0'):
    """how many intervals of the list (of a set) contain the ghost point / are not empty"""
    l = getattr(l, 'intervals', l)
    if is_abs(l):
        return l.snapshot(cs_kind())[m]
    f = cs_kind().measures[m][1]
    return sum([f(x) for x in iter_list(l)], 0)


# ------------------------------------------------------------------------------------------------ spec vocabulary
def tname(o):
    return type(o).__name__


def wf(s):
    """well-formed interval; ends may reach the extreme doubles in results"""
    return wf_result(s.lower, s.upper, s.left, s.right)


def wf_result(lo, up, l, r):
    c = [lo <= up, l >= INC, l <= EXC, r >= INC, r <= EXC]
    if not isinstance(lo, SR):
        c += [Implies(lo == -math.inf, l == EXC), Implies(up == math.inf, r == EXC), lo < math.inf, up > -math.inf]
    return And(*c)


def member(s, x):
    """x is an element of the number set s (interval or union of intervals)"""
    if hasattr(s, 'intervals'):
        return Or(*[member(i, x) for i in iter_list(s.intervals)]) if not is_abs(s.intervals) else \
            s.intervals.measure('x0') >= 1
    return And(Or(x > s.lower, And(x == s.lower, s.left == INC)), Or(x < s.upper, And(x == s.upper, s.right == INC)))


def is_abs(l):
    return getattr(l, 'abstract', False)


def iter_list(l):
    return list(list.__iter__(l)) if isinstance(l, list) else list(l)


def succ(x):
    import numpy as np
    if isinstance(x, SF):
        return If(Or(x == math.inf, x == -math.inf), x, sym.nextafter(x, math.inf))
    if isinstance(x, SR):
        return x
    return float(np.nextafter(x, math.inf)) if math.isfinite(x) else x


def pred(x):
    import numpy as np
    if isinstance(x, SF):
        return If(Or(x == math.inf, x == -math.inf), x, sym.nextafter(x, -math.inf))
    if isinstance(x, SR):
        return x
    return float(np.nextafter(x, -math.inf)) if math.isfinite(x) else x


def lo_elem(s):
    """smallest double in the interval (the end itself when infinite)"""
    return If(s.left == INC, s.lower, succ(s.lower))


def hi_elem(s):
    return If(s.right == INC, s.upper, pred(s.upper))


def empty(s):
    """no double lies in the interval"""
    if hasattr(s, 'intervals'):
        if is_abs(s.intervals):
            return s.intervals.measure('ne') == 0
        return And(*[empty(i) for i in iter_list(s.intervals)])
    if isinstance(s.lower, SR) or isinstance(s.upper, SR):
        return And(s.lower == s.upper, Not(And(s.left == INC, s.right == INC)))
    return Or(lo_elem(s) > hi_elem(s))


def eq(a, b, tol=1e-9):
    if any(getattr(v, '__sym__', False) for v in (a, b)):
        return a == b if getattr(a, '__sym__', False) else b == a
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        if a == b or (a != a and b != b):
            return True
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


def le(a, b, tol=1e-9):
    if any(getattr(v, '__sym__', False) for v in (a, b)):
        return a <= b
    return float(a) <= float(b) + tol * max(1.0, abs(float(b)))


SNAP_FIELDS = {'ContinuousSet': ('lower', 'upper', 'left', 'right'), 'RealSet': ('intervals',),
               'ConstantFunction': ('value',), 'LinearFunction': ('m', 'c'), 'QuadraticFunction': ('a', 'b', 'c'),
               'Undefined': (), 'PiecewiseFunction': ('intervals', 'functions')}


def snap(o):
    n = tname(o)
    if n in SNAP_FIELDS:
        r = NS(**{f: snap(getattr(o, f)) for f in SNAP_FIELDS[n]})
        r.__dict__['_type'] = n
        return r
    if isinstance(o, list):
        if is_abs(o):
            return o.copy()
        return [snap(x) for x in iter_list(o)]
    if isinstance(o, tuple):
        return tuple(snap(x) for x in o)
    if type(o).__name__ == 'ndarray':
        return o.copy()
    return o


def same(a, b):
    """structural equality of snapshots"""
    if isinstance(a, NS) and isinstance(b, NS):
        if a.__dict__.get('_type') != b.__dict__.get('_type'):
            return False
        return And(True, *[same(a.__dict__[k], b.__dict__[k]) for k in a.__dict__ if k != '_type'])
    if isinstance(a, (list, tuple)) and not is_abs(a):
        if not isinstance(b, (list, tuple)) or is_abs(b) or len(a) != len(b):
            return False
        return And(True, *[same(x, y) for x, y in zip(a, b)])
    if is_abs(a):
        if not is_abs(b):
            return False
        s, t = a.snapshot(), b.snapshot()
        return And(s.n == t.n, *[s[m] == t[m] for m in a.kind.measures])
    if type(a).__name__ == 'ndarray':
        import numpy as np
        return bool(np.array_equal(a, b, equal_nan=True))
    if a is b:
        return True
    if isinstance(a, (bool, int, float)) or isinstance(b, (bool, int, float)) or getattr(a, '__sym__', False):
        if isinstance(a, float) and a != a:
            return isinstance(b, float) and b != b
        return a == b
    return a is b


# ------------------------------------------------------------------------------------------------ contracts
class Contract:
    """Subclass = contract.  Class attributes: target, mode, props, params, ghosts, loops, uses, raises, frame, reach."""
    target = None
    mode = 'ieee'
    props = ()
    params = {}
    ghosts = {}
    loops = {}
    uses = ()
    frame = True
    modifies = ()
    concrete = True
    bounded = None       # text: the bound, if the input shape is bounded (never counted as proved)
    track_lists = False
    static = False
    weight = 1
    samples = 300
    opts = {}
    defaults = {}

    # overridables
    def pre(self, a):
        return {}

    def post(self, a, r, old):
        return {}

    spec = None          # spec(a) -> the value the function must return (makes the contract usable as a stub)
    spec_label = 'result is the specified value'

    def posts(self, a, r, old):
        out = {}
        if self.spec is not None:
            v = self.spec(old)
            if isinstance(v, (bool, SB)):
                out[self.spec_label] = Iff(r, v)
            else:
                out[self.spec_label] = eq(r, v)
        out.update(self.post(a, r, old))
        return out

    def accepts(self, a):
        for k, p in self.params.items():
            v = a.__dict__.get(k)
            if isinstance(p, CS) and not hasattr(v, 'lower'):
                return False
            if isinstance(p, F64) and (hasattr(v, 'lower') or hasattr(v, 'intervals')):
                return False
        return True

    def raises(self, a, exc, old):
        """condition under which exc may be raised (None: never)"""
        return None

    def call(self, a, fn):
        args = [v for k, v in a.__dict__.items() if k not in self.ghosts and not k.startswith('_')]
        return fn(*args)

    def function(self):
        mod, name = self.target.split(':')
        o = importlib.import_module(mod)
        for p in name.split('.'):
            o = getattr(o, p)
        if isinstance(o, property):
            o = o.fget
        return o

    def build(self, D):
        a = NS()
        for k, p in self.params.items():
            a.__dict__[k] = p.make(D, k)
        for k, p in self.ghosts.items():
            a.__dict__[k] = D.E.ghosts[k] if D.symbolic else p.make(D, k)
        a.__dict__['_D'] = D
        return a

    def setup(self, E, a):
        """hook before the call"""

    # ---- run-time assertion use
    def execute(self, D):
        """returns list of failed labels (with detail); raises Skip outside of the precondition"""
        a = self.build(D)
        CONC_GHOSTS.clear()
        CONC_GHOSTS.update({k: a.__dict__[k] for k in self.ghosts})
        for lab, c in self.pre(a).items():
            if not bool(c):
                raise Skip(lab)
        old = NS(**{k: snap(v) for k, v in a.__dict__.items() if not k.startswith('_')})
        old.__dict__['_D'] = D
        fn = self.function()
        bad = []
        try:
            r = self.call(a, fn)
        except (Skip, KeyboardInterrupt):
            raise
        except Exception as e:
            c = self.raises(a, e, old)
            if c is None or not bool(c):
                bad.append('no exception (got %s: %s)' % (type(e).__name__, str(e)[:200]))
            r = None
        else:
            try:
                posts = self.posts(a, r, old)
            except Exception as e:
                posts = {}
                bad.append('the result has the specified form (%s: %s; returned %s)' % (type(e).__name__,
                                                                                     str(e)[:150], rp(r)))
            for lab, c in posts.items():
                if not bool(c):
                    bad.append('%s (returned %s)' % (lab, rp(r)))
        if self.frame:
            for k in list(self.params):
                if k not in self.modifies and not bool(same(snap(a.__dict__[k]), old.__dict__[k])):
                    bad.append('frame: argument "%s" is unchanged' % k)
        return bad

    # ---- obligations
    def symbolic(self, E):
        D = SymD(E)
        if self.ghosts:          # ghosts first: measures of abstract parameters refer to them
            for k, p in self.ghosts.items():
                E.ghosts[k] = p.make(D, k)
        a = self.build(D)
        for lab, c in self.pre(a).items():
            E.assume(c)
        old = NS(**{k: snap(v) for k, v in a.__dict__.items() if not k.startswith('_')})
        old.__dict__['_D'] = D
        E.entered += 1
        self.setup(E, a)
        fn = self.function()
        short = self.cid
        try:
            r = self.call(a, fn)
        except (sym.PathEnd, Undecided, KeyboardInterrupt, RecursionError):
            raise
        except Exception as e:
            c = self.raises(a, e, old)
            if c is not True and foreign(e):
                raise Undecided('%s: %s' % (type(e).__name__, str(e)[:120]))
            E.exited += 1
            E.prove(False if c is None else c, '%s: no exception (%s: %s)' % (short, type(e).__name__, str(e)[:120]))
        else:
            E.exited += 1
            E.prove_all([('%s: %s' % (short, lab), c) for lab, c in self.posts(a, r, old).items()])
        if self.frame:
            E.prove_all([('%s: frame: argument "%s" is unchanged' % (short, k), same(snap(a.__dict__[k]),
                                                                                    old.__dict__[k]))
                         for k in list(self.params) if k not in self.modifies])


def rp(r):
    try:
        s = repr(r)
    except Exception:
        s = '<%s>' % type(r).__name__
    return s[:200]


def contract(target, props, **kw):
    """decorator: class body -> registered contract instance"""
    def deco(cls):
        ns = {k: v for k, v in cls.__dict__.items() if k not in ('__dict__', '__weakref__')}
        ns.update(kw)
        ns['target'] = target
        ns['props'] = tuple(props) if not isinstance(props, str) else (props,)
        c = type(cls.__name__, tuple(b for b in cls.__bases__ if b is not object) + (Contract,), ns)()
        base = target.split(':')[1]
        cid = base + ('/' + kw['variant'] if 'variant' in kw else '')
        n = 2
        while cid in REG:
            cid = '%s/%d' % (base, n)
            n += 1
        c.cid = cid
        REG[cid] = c
        BY_TARGET.setdefault(target, []).append(c)
        if c.spec is not None and 'variant' not in kw:
            STUBS[target] = make_stub(c)
        return c
    return deco


def foreign(e):
    """does the exception only say that a stand-in of the prover lacks an operation?"""
    import os
    import re
    import sys
    if not isinstance(e, (TypeError, AttributeError, NotImplementedError)) and type(e).__name__ != 'Z3Exception':
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith((os.path.join(here, 'engine'), os.path.join(here, 'contracts'))):
        return True
    names = set(re.findall(r"'(\w+)'", str(e))) | set(re.findall(r"not (\w+)$", str(e)))
    for m, mod in list(sys.modules.items()):
        if m.split('.')[0] in ('engine', 'contracts') and mod is not None:
            for n in names:
                o = mod.__dict__.get(n)
                if isinstance(o, type) and o.__module__ == m:
                    return True
    return getattr(e, 'obj', None) is not None and hasattr(e.obj, '__symobj__')


def make_stub(c):
    import inspect

    def stub(raw, *args, **kw):
        names = list(c.params)
        a = NS(_D=SymD(sym.eng()))
        defaults = c.defaults
        for n, v in zip(names, args):
            a.__dict__[n] = v
        for n in names[len(args):]:
            if n in kw:
                a.__dict__[n] = kw[n]
            elif n in defaults:
                a.__dict__[n] = defaults[n]
        if len(a.__dict__) != len(names) + 1 or not c.accepts(a):
            return raw(*args, **kw)
        pre = c.pre(a)
        for lab, cond in pre.items():
            sym.eng().require(cond, 'precondition of %s: %s' % (c.cid, lab))
        return c.spec(a)
    return stub


def values_of(model, E):
    """counter-model -> {symbol name: python value}"""
    import z3
    out = {}
    for d in model.decls():
        if d.arity() != 0:
            continue
        v = model[d]
        n = d.name()
        try:
            if z3.is_bv_value(v):
                out[n] = sym.ord_to_float(v.as_signed_long())
            elif z3.is_int_value(v):
                out[n] = sym.ord_to_float(v.as_long()) if n in E.ordnames else v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                out[n] = z3.is_true(v)
            elif z3.is_rational_value(v):
                out[n] = v.numerator_as_long() / v.denominator_as_long()
            elif z3.is_algebraic_value(v):
                a = v.approx(20)
                out[n] = a.numerator_as_long() / a.denominator_as_long()
        except Exception:
            pass
    out.update(E.choices)
    return out
