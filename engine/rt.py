"""Run-time of the lowered code: C coercions, C operators, pointers, C++ containers.  Works on concrete Python values
and on the symbolic values of sym.py (anything carrying `__sym__`)."""
import math
import heapq
import itertools
import numbers
import numpy as np


class libc:
    @staticmethod
    def isnan(x):
        if getattr(x, '__sym__', False):
            return x.isnan()
        return math.isnan(x)

    @staticmethod
    def isinf(x):
        if getattr(x, '__sym__', False):
            return x.isinf()
        return math.isinf(x)

    @staticmethod
    def log(x):
        if getattr(x, '__sym__', False):
            return x.uf('log')
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    ln = log

    @staticmethod
    def exp(x):
        return math.exp(x)

    @staticmethod
    def printf(*a):
        return None

    @staticmethod
    def sqrt(x):
        if getattr(x, '__sym__', False):
            return x.uf('sqrt')
        return math.sqrt(x) if x >= 0 else math.nan


def is_sym(x):
    return getattr(x, '__sym__', False)


def f8(v):
    if type(v) is float:
        return v
    if is_sym(v):
        return v.to_float()
    if v is None:
        raise TypeError('must be real number, not NoneType')
    return float(v)


def ci(v):
    if type(v) is int:
        return v
    if is_sym(v):
        return v.to_int()
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, numbers.Integral):
        return int(v)
    if isinstance(v, (float, np.floating)):
        # C double -> C integer conversion truncates; a Python float object would raise TypeError in Cython.
        if math.isnan(v) or math.isinf(v):
            raise TypeError('float %s to C integer' % v)
        return int(v)
    if v is None:
        raise TypeError('an integer is required')
    return int(v)


def cast_f8(v):
    return f8(v)


def cast_int(v):
    if is_sym(v):
        return v.trunc()
    return int(v)


def cdiv(a, b):
    if is_sym(a) or is_sym(b):
        from . import sym
        return sym.cdiv(a, b)
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def cmod(a, b):
    if is_sym(a) or is_sym(b):
        from . import sym
        return sym.cmod(a, b)
    return int(math.fmod(a, b))


def fdiv(a, b):
    if is_sym(a) or is_sym(b):
        return a / b
    a, b = float(a), float(b)
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        neg = (math.copysign(1, a) < 0) != (math.copysign(1, b) < 0)
        return -math.inf if neg else math.inf
    return a / b


def pow(a, b):
    return a ** b


def ext(v, cls, glob=None):
    if v is None:
        return v
    if isinstance(cls, str):
        c = glob.get(cls.split('.')[-1])
        if c is None:
            return v
        cls = c
    if getattr(v, '__symobj__', False) and v.__isa__(cls):
        return v
    if not isinstance(v, cls):
        raise TypeError('Argument has incorrect type (expected %s, got %s)' % (cls.__name__, type(v).__name__))
    return v


def mv(v, elem):
    if v is None or is_sym(v) or getattr(v, '__symobj__', False):
        return v
    if isinstance(v, np.ndarray):
        kind = v.dtype.kind
        if v.dtype == object:
            return v
        if elem == 'f8' and v.dtype != np.float64:
            raise ValueError('Buffer dtype mismatch')
        if elem == 'int' and kind not in 'iu':
            raise ValueError('Buffer dtype mismatch')
        return v
    if isinstance(v, memoryview):
        return np.asarray(v)
    if hasattr(v, '__array_interface__') or hasattr(v, '__buffer__'):
        return np.asarray(v)
    raise TypeError('a bytes-like object is required, not %r' % type(v).__name__)


class Ptr:
    """&a[off]"""
    __slots__ = ('a', 'off')

    def __init__(self, a, off=0):
        self.a, self.off = a, off

    def __getitem__(self, i):
        j = self.off + i
        if not is_sym(j) and not is_sym(self.a) and not hasattr(self.a, '__symobj__') and (j < 0 or j >= len(self.a)):
            raise IndexError('pointer read out of bounds')
        return self.a[j]

    def __setitem__(self, i, v):
        j = self.off + i
        if not is_sym(j) and not is_sym(self.a) and not hasattr(self.a, '__symobj__') and (j < 0 or j >= len(self.a)):
            raise IndexError('pointer write out of bounds')
        self.a[j] = v

    def __add__(self, n):
        return Ptr(self.a, self.off + n)

    __iadd__ = __add__


class Cell:
    """&local"""

    def __init__(self, v=None):
        self.v = v

    def __getitem__(self, i):
        assert i == 0
        return self.v

    def __setitem__(self, i, v):
        assert i == 0
        self.v = v


class AttrRef:
    """&obj.attr"""

    def __init__(self, o, a):
        self.o, self.a = o, a

    def __getitem__(self, i):
        assert i == 0
        return getattr(self.o, self.a)

    def __setitem__(self, i, v):
        assert i == 0
        setattr(self.o, self.a, v)


class PQ:
    """std::priority_queue (max first)"""

    def __init__(self):
        self.h = []

    def push(self, x):
        heapq.heappush(self.h, -x)

    def top(self):
        return -self.h[0]

    def pop(self):
        heapq.heappop(self.h)

    def size(self):
        return len(self.h)

    def empty(self):
        return not self.h


class Deque(list):
    def push_back(self, x):
        self.append(x)

    def push_front(self, x):
        self.insert(0, x)

    def front(self):
        return self[0]

    def back(self):
        return self[-1]

    def pop_front(self):
        del self[0]

    def pop_back(self):
        del self[-1]

    def size(self):
        return len(self)

    def empty(self):
        return not len(self)


TEMPLATES = {'deque': Deque, 'priority_queue': PQ, 'vector': Deque}
DEFAULTS = {'f8': 0.0, 'int': 0}


SERIAL = itertools.count(1)


class CObjectMeta(type):
    def __new__(m, name, bases, ns):
        cls = super().__new__(m, name, bases, ns)
        ct = {}
        for b in reversed(cls.__mro__):
            ct.update(b.__dict__.get('__ctypes__', {}))
        cls.__allctypes__ = ct
        # Cython 0.29: arithmetic slots get (left, right) whichever side is the extension type
        for op in ('add', 'sub', 'mul', 'truediv', 'and', 'or', 'pow'):
            if '__%s__' % op in ns:
                def r(self, other, _op='__%s__' % op):
                    return type(self).__dict__.get(_op, getattr(type(self), _op))(other, self)
                ns_name = '__r%s__' % op
                setattr(cls, ns_name, r)
        return cls


class CObject(metaclass=CObjectMeta):
    __ctypes__ = {}

    def __new__(cls, *a, **k):
        o = super().__new__(cls)
        d = o.__dict__
        d['_serial'] = next(SERIAL)
        for at, (kind, name, elem) in cls.__allctypes__.items():
            if name in TEMPLATES:
                d[at] = TEMPLATES[name]()
            else:
                d[at] = DEFAULTS.get(kind)
        return o

    def __setattr__(self, k, v):
        t = type(self).__allctypes__.get(k)
        if t is not None:
            kind = t[0]
            if kind == 'f8':
                v = f8(v)
            elif kind == 'int':
                v = ci(v)
            elif kind == 'mv':
                v = mv(v, t[2])
        if TRACK is not None:
            TRACK(self, k)
        object.__setattr__(self, k, v)


TRACK = None
