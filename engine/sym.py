"""Symbolic values and path exploration.

Values
  SB  symbolic truth value                       (z3 Bool)
  SI  symbolic integer, mathematical             (z3 Int)
  SF  IEEE-754 binary64, exact                   (BV64 "ordinal", i.e. the position of the double in the total order,
                                                  or a z3 FP term once arithmetic is involved)
  SR  real number (machine arithmetic treated as mathematical) (z3 Real)
Python code runs natively on them; `bool()` of an SB forks the path.
"""
import math
import numbers
import struct
import time

import numpy as np
import z3

F64 = z3.Float64()
RNE = z3.RNE()
INF_ORD = 0x7FF0000000000000


class Undecided(Exception):
    """The engine cannot decide (unsupported construct, resource limit...) - never a verdict."""


class PathEnd(BaseException):
    """Normal end of a path cut by a loop contract, or an infeasible path."""


class Infeasible(PathEnd):
    pass


class Refuted(Exception):
    pass


ENG = None      # the active engine


def eng():
    if ENG is None:
        raise Undecided('symbolic value outside of an engine run')
    return ENG


# ------------------------------------------------------------------------------------------------ conversions
def float_to_ord(x):
    if math.isnan(x):
        raise Undecided('NaN has no ordinal')
    b = struct.unpack('<q', struct.pack('<d', x))[0]
    if b < 0:
        b = -(b & 0x7FFFFFFFFFFFFFFF)
    return b


def ord_to_float(o):
    if o >= 0:
        return struct.unpack('<d', struct.pack('<q', o))[0]
    return -struct.unpack('<d', struct.pack('<q', -o))[0]


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_)) and not getattr(x, '__sym__', False)


def zbool(x):
    """any truth-ish -> z3 Bool"""
    if isinstance(x, SB):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SI):
        return x.e != 0
    if isinstance(x, (int, np.integer)):
        return z3.BoolVal(x != 0)
    raise Undecided('not a truth value: %r' % (x,))


def zint(x):
    if isinstance(x, SI):
        return x.e
    if isinstance(x, SB):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return z3.IntVal(int(x))
    raise Undecided('not an integer: %r' % (x,))


def frac(x):
    from fractions import Fraction
    f = Fraction(float(x))
    return z3.Q(f.numerator, f.denominator)


def zreal(x):
    if isinstance(x, SR):
        return x.e
    if isinstance(x, SI):
        return z3.ToReal(x.e)
    if isinstance(x, SB):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, (float, np.floating)):
        if math.isinf(x) or math.isnan(x):
            raise Undecided('non-finite constant in real arithmetic')
        return frac(x)
    raise Undecided('not a real: %r' % (x,))


# ------------------------------------------------------------------------------------------------ values
class Sym:
    __sym__ = True
    __slots__ = ('e',)
    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, z3.simplify(self.e) if isinstance(self.e, z3.ExprRef) else self.e)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return str(self)

    def __str__(self):
        names = getattr(getattr(ENG, 'spec', None), '_names', None)
        if names is None:
            return '<sym>'
        names.append(self)          # a contract that reads texts
        return '<%d>' % (len(names) - 1)


class SB(Sym):
    __slots__ = ()

    def __bool__(self):
        return eng().branch(self.e)

    def __and__(self, o):
        return SB(z3.And(self.e, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SB(z3.Or(self.e, zbool(o)))

    __ror__ = __or__

    def __invert__(self):
        return SB(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SB, bool, np.bool_)):
            return SB(self.e == zbool(o))
        return SB(zint(self) == zint(o)) if isinstance(o, (SI, int, np.integer)) else NotImplemented

    def __ne__(self, o):
        return SB(z3.Not((self == o).e))

    def __hash__(self):
        raise Undecided('hash of a symbolic truth value')

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def num(self):
        return SI(zint(self))

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self.num() < o

    def __gt__(self, o):
        return self.num() > o

    def to_int(self):
        return self

    def to_float(self):
        return SI(zint(self)).to_float()

    def trunc(self):
        return self

    def isnan(self):
        return False


def _mk(x):
    """wrap constant results as python values"""
    return x


class SI(Sym):
    __slots__ = ()

    def _bin(self, o, f):
        if isinstance(o, (SF, SR)):
            return NotImplemented
        if isinstance(o, (float, np.floating)):
            return f_real(SR(z3.ToReal(self.e)), o, f)
        return SI(f(self.e, zint(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, list):
            return NotImplemented
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SI(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SI(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        return SR(z3.ToReal(self.e)) / (SR(z3.ToReal(zint(o))) if not isinstance(o, (SR, float)) else o)

    def __rtruediv__(self, o):
        return SR(zreal(o)) / SR(z3.ToReal(self.e))

    def __floordiv__(self, o):
        oe = zint(o)
        eng().require(oe > 0, 'floor-division by a positive integer')
        return SI(self.e / oe)

    def __mod__(self, o):
        oe = zint(o)
        eng().require(oe > 0, 'modulo by a positive integer')
        return SI(self.e % oe)

    def _cmp(self, o, f):
        if isinstance(o, (SF, SR)):
            return NotImplemented
        if isinstance(o, (float, np.floating)):
            if math.isinf(o):
                return f(0, 1 if o > 0 else -1)
            return SB(f(z3.ToReal(self.e), frac(o)))
        if o is None:
            return NotImplemented
        if not (isinstance(o, (SI, SB)) or is_num(o) or isinstance(o, bool)):
            return NotImplemented
        return SB(f(self.e, zint(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else SB(z3.Not(r.e))

    def __hash__(self):
        raise Undecided('hash of a symbolic integer')

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __index__(self):
        return eng().concretize_int(self)

    def __int__(self):
        return eng().concretize_int(self)

    def to_int(self):
        return self

    trunc = to_int

    def to_float(self):
        if eng().fp_mode != 'real':
            raise Undecided('symbolic int -> double in exact mode')
        return SR(z3.ToReal(self.e))

    def isnan(self):
        return False

    def isinf(self):
        return False


def f_real(a, b, f):
    if isinstance(b, (float, np.floating)) and (math.isinf(b) or math.isnan(b)):
        raise Undecided('arithmetic with a non-finite constant')
    return SR(f(a.e, zreal(b)))


class SF(Sym):
    """IEEE double.  self.e is a BV64 ordinal (kind 'o') or an FP term (kind 'f')."""
    __slots__ = ('k',)

    def __init__(self, e, k='o'):
        self.e, self.k = e, k

    # -- representations
    def fp(self):
        if self.k == 'f':
            return self.e
        return ord_fp(self.e)

    @staticmethod
    def lift(x):
        if isinstance(x, SF):
            return x
        if isinstance(x, SI):
            raise Undecided('symbolic int mixed with exact doubles')
        if isinstance(x, (bool, int, float, np.integer, np.floating, np.bool_)):
            xf = float(x)
            if isinstance(x, int) and int(xf) != x:
                raise Undecided('int constant not representable')
            if math.isnan(xf):
                return SF(z3.fpNaN(F64), 'f')
            return SF(ordval(float_to_ord(xf)))
        raise Undecided('not a double: %r' % (x,))

    def _cmp(self, o, fo, ff):
        if o is None or isinstance(o, (str, list, tuple)):
            return NotImplemented
        if not (isinstance(o, SF) or is_num(o) or isinstance(o, bool)):
            return NotImplemented
        if is_num(o) and math.isnan(float(o)):
            return ff is z3.fpNEQ
        o = SF.lift(o)
        if self.k == 'o' and o.k == 'o':
            return SB(fo(self.e, o.e))
        return SB(ff(self.fp(), o.fp()))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, z3.fpGEQ)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, z3.fpEQ)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, z3.fpNEQ)

    def __hash__(self):
        raise Undecided('hash of a symbolic double')

    def _ar(self, o, f, swap=False):
        if not (isinstance(o, SF) or is_num(o)):
            return NotImplemented
        o = SF.lift(o)
        if eng().fp_mode == 'ieee':
            return order_arith(f, *((o, self) if swap else (self, o)))
        a, b = self.fp(), o.fp()
        return SF(f(RNE, b, a) if swap else f(RNE, a, b), 'f')

    def __add__(self, o):
        return self._ar(o, z3.fpAdd)

    def __radd__(self, o):
        return self._ar(o, z3.fpAdd, True)

    def __sub__(self, o):
        return self._ar(o, z3.fpSub)

    def __rsub__(self, o):
        return self._ar(o, z3.fpSub, True)

    def __mul__(self, o):
        return self._ar(o, z3.fpMul)

    def __rmul__(self, o):
        return self._ar(o, z3.fpMul, True)

    def __truediv__(self, o):
        return self._ar(o, z3.fpDiv)

    def __rtruediv__(self, o):
        return self._ar(o, z3.fpDiv, True)

    def __neg__(self):
        return SF(-self.e, 'o') if self.k == 'o' else SF(z3.fpNeg(self.e), 'f')

    def __pos__(self):
        return self

    def __abs__(self):
        return SF(z3.If(self.e >= 0, self.e, -self.e), 'o') if self.k == 'o' else SF(z3.fpAbs(self.e), 'f')

    def __bool__(self):
        if self.k == 'o':
            return eng().branch(self.e != 0)
        return eng().branch(z3.Not(z3.fpIsZero(self.e)))

    def __float__(self):
        raise Undecided('float() of a symbolic double')

    def isnan(self):
        return False if self.k == 'o' else SB(z3.fpIsNaN(self.e))

    def isinf(self):
        if self.k == 'o':
            return SB(z3.Or(self.e == INF_ORD, self.e == -INF_ORD))
        return SB(z3.fpIsInf(self.e))

    def to_float(self):
        return self

    def to_int(self):
        raise Undecided('double -> C int')

    trunc = to_int

    def __round__(self, n=None):
        raise Undecided('round of a symbolic double')


def order_arith(f, x, y):
    """order-only mode: a rounded operation is an unknown double about which only consequences of the monotonicity of
    IEEE rounding are known (x + y >= x for y >= 0, the rounded mean of two doubles lies between them, ...)"""
    E = eng()
    if f is z3.fpSub:
        return order_arith(z3.fpAdd, x, -y)
    if f is z3.fpDiv and z3.is_int_value(y.e) and y.e.as_long() == float_to_ord(2.0):
        f, y = z3.fpMul, SF(ordval(float_to_ord(.5)))
    x, y = SF(z3.simplify(x.e)), SF(z3.simplify(y.e))
    if f is z3.fpMul and z3.is_int_value(x.e):
        x, y = y, x
    a, b, inf = x.e, y.e, INF_ORD
    key = (f.__name__,) + tuple(sorted((a.get_id(), b.get_id())))
    if key in E.ords:
        return E.ords[key][0]
    if f is z3.fpAdd:
        if E.feasible(z3.Or(z3.And(a == inf, b == -inf), z3.And(a == -inf, b == inf))):
            raise Undecided('inf - inf in an order-only contract')
        r = E.f64('sum')
        o = r.e
        E.assume(z3.And(z3.Implies(b >= 0, o >= a), z3.Implies(b <= 0, o <= a), z3.Implies(a >= 0, o >= b),
                        z3.Implies(a <= 0, o <= b)))
    elif f is z3.fpMul:
        if E.feasible(z3.Or(z3.And(z3.Or(a == inf, a == -inf), b == 0), z3.And(z3.Or(b == inf, b == -inf), a == 0))):
            raise Undecided('0 * inf in an order-only contract')
        r = E.f64('prod')
        o = r.e
        E.assume(z3.And(z3.Implies(z3.Or(z3.And(a >= 0, b >= 0), z3.And(a <= 0, b <= 0)), o >= 0),
                        z3.Implies(z3.Or(z3.And(a >= 0, b <= 0), z3.And(a <= 0, b >= 0)), o <= 0)))
        half = ordval(float_to_ord(.5))
        for k, v in list(E.ords.items()):
            if k[0] == 'fpAdd' and v[0].e.get_id() == a.get_id() and z3.is_int_value(b) and b.eq(half):
                p, q = v[1]
                big = float_to_ord(2.0 ** 1000)
                E.assume(z3.Implies(z3.And(p >= -big, p <= big, q >= -big, q <= big),
                                    z3.And(o >= z3.If(p <= q, p, q), o <= z3.If(p <= q, q, p))))
    else:
        raise Undecided('division in an order-only contract')
    E.ords[key] = (r, (a, b))
    return r


def ordval(n):
    return z3.BitVecVal(n, 64) if eng().fp_mode == 'ieee-fp' else z3.IntVal(n)


def ord_fp(o):
    if z3.is_int(o):
        raise Undecided('floating point arithmetic in an order-only contract')
    sign = z3.Extract(63, 63, o)
    mag = z3.If(o >= 0, o, -o)
    bits = z3.Concat(sign, z3.Extract(62, 0, mag))
    return z3.fpBVToFP(bits, F64)


def nextafter(x, y):
    if not (getattr(x, '__sym__', False) or getattr(y, '__sym__', False)):
        return np.nextafter(x, y)
    if isinstance(x, SR) or isinstance(y, SR):
        # real mode: the successor of a double is infinitesimally close; its distance is treated as 0
        return x
    x, y = SF.lift(x), SF.lift(y)
    if x.k == 'f':
        x = eng().fp_to_ord(x)
    if y.k == 'o':
        lt, gt = x.e < y.e, x.e > y.e
        nan = None
    else:
        lt, gt = z3.fpLT(x.fp(), y.e), z3.fpGT(x.fp(), y.e)
        nan = z3.fpIsNaN(y.e)
        if eng().feasible(nan):
            if eng().branch(nan):
                return SF(z3.fpNaN(F64), 'f')
    return SF(z3.If(lt, x.e + 1, z3.If(gt, x.e - 1, x.e)), 'o')


class SR(Sym):
    """real number"""
    __slots__ = ()

    def _bin(self, o, f, nf):
        if isinstance(o, (float, np.floating)) and (math.isinf(o) or math.isnan(o)):
            return nf(float(o))
        if not (isinstance(o, (SR, SI, SB)) or is_num(o) or isinstance(o, bool)):
            return NotImplemented
        return SR(f(self.e, zreal(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda c: c)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a, lambda c: c)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda c: -c)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda c: c)

    def _mulinf(self, c):
        if math.isnan(c):
            return c
        if eng().branch(self.e == 0):
            return math.nan
        return c if eng().branch(self.e > 0) else -c

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, self._mulinf)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a, self._mulinf)

    def __truediv__(self, o):
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            return 0.0
        if isinstance(o, (float, int)) and not isinstance(o, bool) and o == 0:
            eng().require(z3.BoolVal(False), 'division by zero')
        oe = zreal(o)
        eng().require(oe != 0, 'divisor is not zero')
        return SR(self.e / oe)

    def __rtruediv__(self, o):
        eng().require(self.e != 0, 'divisor is not zero')
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            return o if eng().branch(self.e > 0) else -o
        return SR(zreal(o) / self.e)

    def __pow__(self, n):
        if isinstance(n, (int, np.integer)) and 0 <= n <= 8:
            r = z3.RealVal(1)
            for _ in range(int(n)):
                r = r * self.e
            return SR(r)
        if isinstance(n, float) and n == int(n):
            return self ** int(n)
        if isinstance(n, SI):
            return eng().uf_pow(self, n)
        raise Undecided('power %r' % (n,))

    def __neg__(self):
        return SR(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SR(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        if o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, (float, np.floating)):
            if math.isnan(o):
                return f is _NE
            if math.isinf(o):
                return f(0.0, float(o))
        if not (isinstance(o, (SR, SI, SB)) or is_num(o) or isinstance(o, bool)):
            return NotImplemented
        r = f(self.e, zreal(o))
        return SB(r)

    def __lt__(self, o):
        return self._cmp(o, _LT)

    def __le__(self, o):
        return self._cmp(o, _LE)

    def __gt__(self, o):
        return self._cmp(o, _GT)

    def __ge__(self, o):
        return self._cmp(o, _GE)

    def __eq__(self, o):
        return self._cmp(o, _EQ)

    def __ne__(self, o):
        return self._cmp(o, _NE)

    def __hash__(self):
        raise Undecided('hash of a symbolic real')

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __float__(self):
        raise Undecided('float() of a symbolic real')

    def isnan(self):
        return False

    def isinf(self):
        return False

    def to_float(self):
        return self

    def to_int(self):
        raise Undecided('real -> C int')

    def trunc(self):
        return SI(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __round__(self, n=None):
        raise Undecided('round of a symbolic real')

    def uf(self, name):
        return eng().uf(name, self)


def _LT(a, b):
    return a < b


def _LE(a, b):
    return a <= b


def _GT(a, b):
    return a > b


def _GE(a, b):
    return a >= b


def _EQ(a, b):
    return a == b


def _NE(a, b):
    return a != b


numbers.Real.register(SF)
numbers.Real.register(SR)
numbers.Integral.register(SI)


def cdiv(a, b):
    ae, be = zint(a), zint(b)
    if not isinstance(b, int):
        eng().require(be > 0, 'C division by a positive integer')
    # truncation towards zero, divisor positive
    return SI(z3.If(ae >= 0, ae / be, -((-ae) / be)))


def cmod(a, b):
    ae, be = zint(a), zint(b)
    return SI(ae - zint(cdiv(a, b)) * be)


# ------------------------------------------------------------------------------------------------ logic helpers
def And(*xs):
    xs = [x for x in xs]
    if any(getattr(x, '__sym__', False) or isinstance(x, z3.BoolRef) for x in xs):
        return SB(z3.And([zbool(x) for x in xs]))
    return all(bool(x) for x in xs)


def Or(*xs):
    if any(getattr(x, '__sym__', False) or isinstance(x, z3.BoolRef) for x in xs):
        return SB(z3.Or([zbool(x) for x in xs]))
    return any(bool(x) for x in xs)


def Not(x):
    if getattr(x, '__sym__', False) or isinstance(x, z3.BoolRef):
        return SB(z3.Not(zbool(x)))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if any(getattr(x, '__sym__', False) or isinstance(x, z3.BoolRef) for x in (a, b)):
        return SB(zbool(a) == zbool(b))
    return bool(a) == bool(b)


def If(c, a, b):
    """value-level conditional over numbers, not forking"""
    if not (getattr(c, '__sym__', False) or isinstance(c, z3.BoolRef)):
        return a if c else b
    c = zbool(c)
    if isinstance(a, SF) or isinstance(b, SF):
        a, b = SF.lift(a), SF.lift(b)
        if a.k == b.k == 'o':
            return SF(z3.If(c, a.e, b.e))
        return SF(z3.If(c, a.fp(), b.fp()), 'f')
    if isinstance(a, SR) or isinstance(b, SR) or isinstance(a, float) or isinstance(b, float):
        return SR(z3.If(c, zreal(a), zreal(b)))
    if isinstance(a, SB) or isinstance(a, bool):
        return SB(z3.If(c, zbool(a), zbool(b)))
    return SI(z3.If(c, zint(a), zint(b)))


def Max(a, b):
    return If(a >= b, a, b)


def Min(a, b):
    return If(a <= b, a, b)


# ------------------------------------------------------------------------------------------------ engine
class Obligation:
    __slots__ = ('name', 'result', 'model', 'time', 'path', 'backend', 'values')

    def __init__(self, name, result, model=None, t=0.0, path=None, backend='z3'):
        self.name, self.result, self.model, self.time, self.path = name, result, model, t, path
        self.backend = backend


class Opaque:
    """abstraction of terms: products and quotients of unknowns become uninterpreted (what holds of the abstraction holds)"""

    def __init__(self):
        self.cache, self.keep = {}, []
        r = z3.RealSort()
        self.mul, self.div = z3.Function('opq.mul', r, r, r), z3.Function('opq.div', r, r, r)
        i = z3.IntSort()
        self.imul = z3.Function('opq.imul', i, i, i)

    def __call__(self, e):
        k = e.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self.walk(e)
            self.keep.append(e)
        return r

    @staticmethod
    def num(x):
        return z3.is_rational_value(x) or z3.is_int_value(x)

    def walk(self, e):
        if not z3.is_app(e):
            raise Undecided('quantifier')
        if e.num_args() == 0:
            return e
        ch = [self(c) for c in e.children()]
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            f = [c for c in ch if not self.num(c)]
            if len(f) > 1:
                ints = z3.is_int(e)
                f.sort(key=lambda c: c.get_id())
                m = f[0]
                for c in f[1:]:
                    m = (self.imul if ints else self.mul)(m, c)
                for c in ch:
                    if self.num(c):
                        m = c * m
                return m
        elif k == z3.Z3_OP_DIV and not self.num(ch[1]):
            return self.div(ch[0], ch[1])
        elif k == z3.Z3_OP_POWER:
            if self.num(ch[1]) and ch[1].as_string() == '2':
                return self.mul(ch[0], ch[0]) if z3.is_real(e) else self.imul(ch[0], ch[0])
        return e.decl()(*ch) if k != z3.Z3_OP_ADD and k != z3.Z3_OP_AND and k != z3.Z3_OP_OR and k != z3.Z3_OP_MUL \
            else self.nary(k, ch)

    @staticmethod
    def nary(k, ch):
        if k == z3.Z3_OP_AND:
            return z3.And(*ch)
        if k == z3.Z3_OP_OR:
            return z3.Or(*ch)
        if k == z3.Z3_OP_ADD:
            return z3.Sum(*ch)
        return z3.Product(*ch)


class Engine:
    def __init__(self, fp_mode='real', timeout_ms=8000, feas_ms=1500, max_paths=4000, max_branch=600, deadline=None):
        self.fp_mode = fp_mode
        self.timeout_ms = timeout_ms
        self.feas_ms = feas_ms
        self.max_paths = max_paths
        self.max_branch = max_branch
        self.deadline = deadline
        self.obligations = []
        self.stack = [[]]
        self.paths = 0
        self.pruned = 0
        self.solver_time = 0.0
        self.queries = 0
        self.loop_contracts = {}
        self.loop_used = set()
        self.unknown = []
        self.stop_on_refute = True
        self.max_unroll = 12
        self.track_lists = False
        self.sort_relations = []
        self.entered = self.exited = 0
        self.choices = {}
        self.wlog, self.undo = [], []
        self.ordnames = set()
        self.auto_dropped = set()
        self.img_kinds = {}
        self.world = None
        self.opaque = None

    def _add(self, c):
        self.pc.append(c)
        self.solver.add(self.opaque(c) if self.opaque else c)

    # ---- exploration
    def run(self, body):
        """body() is executed once per feasible path."""
        global ENG
        trails = [[]]
        while trails:
            if self.paths >= self.max_paths:
                raise Undecided('path limit %d' % self.max_paths)
            if self.deadline is not None and time.time() > self.deadline:
                raise Undecided('time limit')
            self.trail = trails.pop()
            self.pos = 0
            self.new_trails = []
            self.pc = []
            self.solver = z3.Solver()
            self.fresh_n = {}
            self.ords = {}
            self.ghosts = {}
            self.choices = {}
            self.wlog, self.undo = [], []
            self.world = None
            self.solver.set('timeout', self.feas_ms)
            ENG = self
            self.paths += 1
            try:
                body()
            except PathEnd:
                pass
            except Undecided:
                if self._check(z3.BoolVal(True), 1000) != z3.unsat:       # no such path
                    raise
            finally:
                ENG = None
            trails.extend(self.new_trails)

    # ---- write log (loop frames)
    def touch(self, o, field=None):
        if field is not None and o.__dict__.get('_elem') == 'shared':
            raise Undecided('an element of a list, which may be shared, is modified')
        self.wlog.append(o)
        self.undo.append(dict(o.__dict__) if field is not None or getattr(type(o), '_restorable', False) else None)

    def mark(self):
        from . import rt
        return next(rt.SERIAL), len(self.wlog)

    def check_frame(self, mark, mods, key):
        ser, pos = mark
        for o in self.wlog[pos:]:
            if o.__dict__.get('_serial', -1) > ser or any(o is m for m in mods):
                continue
            raise Undecided('loop %s writes %s, which its contract does not list as modified' % (key, type(o).__name__))

    def sort_relation(self, key):
        for f in self.sort_relations:
            r = f(key)
            if r is not None:
                return r
        return None

    def assume(self, c):
        c = zbool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self._add(c)
        if z3.is_false(c):
            raise Infeasible()

    def _check(self, extra, ms):
        t = time.time()
        self.solver.set('timeout', ms)
        r = self.solver.check(self.opaque(extra) if self.opaque else extra)
        self.solver_time += time.time() - t
        self.queries += 1
        return r

    def feasible(self, c):
        c = z3.simplify(zbool(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self._check(c, self.feas_ms) != z3.unsat

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            self._add(c if d else z3.Not(c))
            return d
        if len(self.trail) > self.max_branch:
            raise Undecided('branch depth limit')
        if self.deadline is not None and time.time() > self.deadline:
            raise Undecided('time limit')
        st = self._check(c, self.feas_ms)
        if st == z3.unsat:
            d = False
            # the path itself is assumed feasible
        else:
            sf = self._check(z3.Not(c), self.feas_ms)
            if sf == z3.unsat:
                d = True
            else:
                d = True
                self.new_trails.append(self.trail[:self.pos] + [False])
        self.trail = self.trail + [d]
        self.pos += 1
        self._add(c if d else z3.Not(c))
        return d

    def choose(self, n=2):
        """non-deterministic choice among n alternatives (all explored)"""
        for i in range(n - 1):
            b = z3.Bool('choice!%d' % self._n('choice'))
            if self.branch(b):
                return i
        return n - 1

    # ---- obligations
    def prove(self, cond, name):
        """an obligation: cond holds on this path"""
        c = z3.simplify(zbool(cond))
        t = time.time()
        be = 'z3'
        if z3.is_true(c):
            self.obligations.append(Obligation(name, 'proved', backend='simplifier'))
            return True
        r = self._check(z3.Not(c), self.timeout_ms)
        if self.opaque:
            if r == z3.unsat:
                be = 'z3 (products uninterpreted)'
            else:
                r = z3.unknown
        if r == z3.unknown:
            # second opinion with a fresh solver (non-incremental tactics)
            s2 = z3.Solver()
            s2.set('timeout', self.timeout_ms)
            s2.add(self.pc)
            s2.add(z3.Not(c))
            t2 = time.time()
            r = s2.check()
            self.solver_time += time.time() - t2
            self.queries += 1
            if r == z3.unknown:
                r2 = cvc5_check(self.pc + [z3.Not(c)], self.timeout_ms)
                if r2 == 'unsat':
                    r, be = z3.unsat, 'cvc5'
            m = s2.model() if r == z3.sat else None
        else:
            m = self.solver.model() if r == z3.sat else None
        dt = time.time() - t
        if r == z3.unsat:
            self.obligations.append(Obligation(name, 'proved', None, dt, backend=be))
            return True
        if r == z3.sat:
            o = Obligation(name, 'refuted', m, dt)
            from .contract import values_of
            o.values = values_of(m, self)
            o.model = None
            self.obligations.append(o)
            return False
        self.obligations.append(Obligation(name, 'unknown', None, dt))
        return False

    def prove_all(self, named):
        """all goals in one query; split only if that does not succeed"""
        if len(named) > 1:
            c = z3.simplify(z3.And([zbool(g) for _, g in named]))
            t = time.time()
            r = z3.unsat if z3.is_true(c) else self._check(z3.Not(c), self.timeout_ms)
            if r == z3.unsat:
                dt = (time.time() - t) / len(named)
                for n, _ in named:
                    self.obligations.append(Obligation(n, 'proved', None, dt,
                                                       backend='simplifier' if z3.is_true(c) else 'z3'))
                return
        for n, g in named:
            self.prove(g, n)

    def require(self, cond, name):
        """safety obligation at this point; afterwards it is assumed"""
        self.prove(cond, 'safety: ' + name)
        self.assume(cond)

    # ---- fresh symbols
    def _n(self, base):
        k = self.fresh_n.get(base, 0)
        self.fresh_n[base] = k + 1
        return k

    def name(self, base):
        k = self._n(base)
        return base if k == 0 else '%s!%d' % (base, k)

    def real(self, base='r'):
        return SR(z3.Real(self.name(base)))

    def int(self, base='i'):
        return SI(z3.Int(self.name(base)))

    def bool(self, base='b'):
        return SB(z3.Bool(self.name(base)))

    def f64(self, base='f', finite=False):
        n = self.name(base)
        self.ordnames.add(n)
        e = z3.BitVec(n, 64) if self.fp_mode == 'ieee-fp' else z3.Int(n)
        b = INF_ORD - (1 if finite else 0)
        self.assume(z3.And(e >= -b, e <= b))
        return SF(e)

    def num(self, base='x'):
        return self.f64(base) if self.fp_mode != 'real' else self.real(base)

    def fp_to_ord(self, x):
        key = x.e.get_id()
        if key in self.ords:
            return self.ords[key][0]
        if self.feasible(z3.fpIsNaN(x.e)):
            if self.branch(z3.fpIsNaN(x.e)):
                raise Undecided('NaN reached an ordinal operation')
        o = self.f64('ord')
        self.assume(z3.fpEQ(ord_fp(o.e), x.e))
        self.ords[key] = (o, x.e)
        return o

    def concretize_int(self, x):
        e = z3.simplify(x.e)
        if z3.is_int_value(e):
            return e.as_long()
        # fork over feasible values (bounded)
        for _ in range(64):
            if self.pos < len(self.trail):
                # replay: values are recorded through the branch conditions below, in the same order
                pass
            r = self._check(z3.BoolVal(True), self.feas_ms)
            if r != z3.sat:
                raise Undecided('cannot concretize an integer')
            v = self.solver.model().eval(e, model_completion=True).as_long()
            key = ('conc', self.pos)
            if self.pos < len(self.trail) and isinstance(self.trail[self.pos], tuple):
                v = self.trail[self.pos][1]
            raise Undecided('symbolic integer used as a concrete index')
        raise Undecided('too many values for an integer')

    def uf(self, name, *args):
        f = z3.Function('uf_' + name, *([z3.RealSort()] * (len(args) + 1)))
        return SR(f(*[zreal(a) for a in args]))

    def uf_pow(self, b, n):
        f = z3.Function('uf_pow', z3.RealSort(), z3.IntSort(), z3.RealSort())
        return SR(f(b.e, n.e))


def cvc5_check(assertions, ms):
    """second back end: cvc5 on the SMT-LIB rendering"""
    import subprocess
    import tempfile
    import os
    s = z3.Solver()
    s.add(assertions)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % ms, f.name], capture_output=True, text=True,
                               timeout=ms / 1000 + 5)
            return r.stdout.strip().split('\n')[0]
        finally:
            os.unlink(f.name)
    except Exception:
        return 'unknown'


# ------------------------------------------------------------------------------------------------ shims
def _has_sym(x):
    if isinstance(x, (list, tuple)):
        return any(_has_sym(i) for i in x)
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(getattr(i, '__sym__', False) for i in x.flat)
    return getattr(x, '__sym__', False)


class _ArrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, np.ndarray)


class sym_ndarray(metaclass=_ArrMeta):
    """np.ndarray(shape, dtype) of the code under verification: object arrays, so that elements may be symbolic"""
    def __new__(cls, shape=None, dtype=None, *a, **k):
        dtype = np.float64 if dtype is NpShim.float64 else dtype
        if ENG is None or a or k or dtype in (object, str):
            return np.ndarray(shape, dtype, *a, **k)
        if _has_sym(shape):
            from .arr import SymArr
            return SymArr(ENG, 'array', shape if isinstance(shape, (tuple, list)) else (shape,))      # any content
        r = np.empty(shape, dtype=object)
        r.fill(0.0 if dtype is None or np.dtype(dtype).kind == 'f' else 0)
        return r


class NpShim:
    """numpy as seen by the code under verification: scalar functions understand symbolic values"""

    def __init__(self):
        self.__dict__['_np'] = np

    def __getattr__(self, k):
        return getattr(np, k)

    nextafter = staticmethod(nextafter)
    ndarray = sym_ndarray

    @staticmethod
    def array(x, *a, **k):
        if _has_sym(x):
            return np.array(x, dtype=object)
        a = [np.float64 if d is NpShim.float64 else d for d in a]
        k = {n: np.float64 if d is NpShim.float64 else d for n, d in k.items()}
        return np.array(x, *a, **k)

    @staticmethod
    def zeros(shape, *a, **k):
        if ENG is None or ENG.fp_mode == 'ieee-fp':
            return np.zeros(shape, *a, **k)
        return sym_ndarray(shape, *a, **k)

    @staticmethod
    def mean(x):
        x = list(x)
        if _has_sym(x):
            return sum(x[1:], x[0]) / len(x)
        return np.mean(x)

    @staticmethod
    def isnan(x):
        return x.isnan() if getattr(x, '__sym__', False) else np.isnan(x)

    @staticmethod
    def isinf(x):
        return x.isinf() if getattr(x, '__sym__', False) else np.isinf(x)

    @staticmethod
    def isfinite(x):
        if getattr(x, '__sym__', False):
            return Not(Or(x.isinf(), x.isnan()))
        return np.isfinite(x)

    @staticmethod
    def abs(x):
        return abs(x) if getattr(x, '__sym__', False) else np.abs(x)

    @staticmethod
    def sign(x):
        if getattr(x, '__sym__', False):
            return If(x > 0, 1, If(x < 0, -1, 0))
        return np.sign(x)

    @staticmethod
    def sqrt(x):
        if not getattr(x, '__sym__', False):
            return np.sqrt(x)
        E = eng()
        if not isinstance(x, SR):
            return x.uf('sqrt')
        E.require(x >= 0, 'square root of a non-negative number')
        r = E.real('sqrt')
        E.assume(z3.And(r.e >= 0, r.e * r.e == x.e))
        return r

    @staticmethod
    def log(x):
        return x.uf('log') if getattr(x, '__sym__', False) else np.log(x)

    @staticmethod
    def exp(x):
        return x.uf('exp') if getattr(x, '__sym__', False) else np.exp(x)

    @staticmethod
    def finfo(x=None):
        return np.finfo(np.float64)

    @staticmethod
    def float64(x):
        return x if getattr(x, '__sym__', False) else np.float64(x)

    @staticmethod
    def power(a, b):
        return a ** b if getattr(a, '__sym__', False) else np.power(a, b)


class MathShim:
    def __getattr__(self, k):
        return getattr(math, k)

    @staticmethod
    def isnan(x):
        return x.isnan() if getattr(x, '__sym__', False) else math.isnan(x)

    @staticmethod
    def isinf(x):
        return x.isinf() if getattr(x, '__sym__', False) else math.isinf(x)

    @staticmethod
    def floor(x):
        if isinstance(x, SI):
            return x
        if isinstance(x, SR):
            return SI(z3.ToInt(x.e))
        return math.floor(x)

    @staticmethod
    def ceil(x):
        if isinstance(x, SI):
            return x
        if isinstance(x, SR):
            return SI(-z3.ToInt(-x.e))
        return math.ceil(x)


class Shims:
    """identity keyed replacements of module globals"""

    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return self.pairs
