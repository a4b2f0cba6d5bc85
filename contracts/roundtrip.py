"""Contracts of the JSON forms and pickling states of number sets and elementary functions: what is written, through JSON
text, reads back as an equal object (C04).  A JSON text keeps numbers, strings, lists and string-keyed dicts exactly
(contract of the json module; doubles are written by their shortest exact representation)."""
import importlib
import json

from engine import sym
from engine.contract import contract, Contract, CS, RSA, P, SymD, And, Iff, Implies, member, empty, tname, snap, same, \
    FN, IV, INC, cs_kind, cnt, wf_fields, NS, If
from engine.hlist import Kind, LC, SymList, MapList
from contracts.functions import Con, Lin, Quad, Und, OneOf
from contracts.intervals import X
from contracts.realset import INIT

C04 = ('C04',)


class NotJson(TypeError):
    pass


def jsonify(x):
    """what json.loads(json.dumps(x)) returns"""
    if getattr(x, '__sym__', False) or x is None or isinstance(x, (str, bool, int, float)):
        return x
    if isinstance(x, MapList):
        if x.how != 'list':
            raise NotJson('generator is not a JSON value')
        return x.as_list()
    if isinstance(x, SymList) and x.abstract:
        return x
    if isinstance(x, (list, tuple)):
        return [jsonify(y) for y in list.__iter__(x)] if isinstance(x, list) else [jsonify(y) for y in x]
    if isinstance(x, dict):
        for k in x:
            if not isinstance(k, str):
                raise NotJson('key %r' % (k,))
        return {k: jsonify(v) for k, v in x.items()}
    raise NotJson('%s is not a JSON value' % type(x).__name__)


def trip(x, raw, cls):
    """write with the method under contract, read with the class"""
    d = raw(x)
    if not getattr(sym, 'ENG', None):
        d = json.loads(json.dumps(d))
    else:
        d = jsonify(d)
    return cls.from_json(d)


def reg(target, mod, reader, param, **kw):
    @contract(target, C04)
    class _:
        track_lists = True
        params = dict(self=param)

        def call(self, a, fn):
            return trip(a.self, fn, getattr(importlib.import_module(mod), reader))

        def post(self, a, r, old):
            return {'what is read back is of the same type': tname(r) == tname(a.self),
                    'and has the same content': same(snap(r), old.self), 'it is another object': r is not a.self}


reg(IV + ':ContinuousSet.to_json', IV, 'ContinuousSet', CS())
reg(FN + ':ConstantFunction.to_json', FN, 'LinearFunction', Con())
reg(FN + ':LinearFunction.to_json', FN, 'LinearFunction', Lin())
reg(FN + ':QuadraticFunction.to_json', FN, 'LinearFunction', Quad())
reg(FN + ':Undefined.to_json', FN, 'LinearFunction', Und())


@contract(FN + ':QuadraticFunction.from_json', C04)
class _:
    params = dict(self=Quad())

    def call(self, a, fn):
        return fn(jsonify(a.self.to_json()))

    def post(self, a, r, old):
        return {'what is read back has the same content': And(tname(r) == 'QuadraticFunction', same(snap(r), old.self))}


def json_interval_kind():
    """the JSON form of an interval, measured by what it denotes"""
    def dec(d):
        return NS(dict(lower=d['lower'], upper=d['upper'], left=d['left'], right=d['right']))

    def fresh(E):
        s = CS().make(SymD(E), 'json')
        return {'lower': s.lower, 'upper': s.upper, 'left': s.left, 'right': s.right}
    k = cs_kind()
    return Kind({m: ('count', lambda d, f=f: f(dec(d))) for m, (s, f) in k.measures.items()}, fresh,
                lambda E, d: [('is the JSON form of a well-formed interval',
                               wf_fields(d['lower'], d['upper'], d['left'], d['right']))], 'json',
                relations=(('x0', 'ne'),))


class LazyLC(LC):
    """the element kinds depend on the ghosts of the run"""
    def __init__(self, kind):
        LC.__init__(self)
        self.k = kind

    @property
    def kind(self):
        return self.k()

    @kind.setter
    def kind(self, v):
        pass


def NS(d):
    class O:
        pass
    o = O()
    o.__dict__.update(d)
    return o


@contract(IV + ':RealSet.to_json', C04)
class _:
    params = dict(self=RSA())
    ghosts = X
    track_lists = True
    loops = dict(INIT, **{'RealSet.to_json#C1': LazyLC(json_interval_kind), 'RealSet.from_json#C1': LazyLC(cs_kind)})
    opts = dict(optional_loops=True)

    def call(self, a, fn):
        return trip(a.self, fn, importlib.import_module(IV).RealSet)

    def post(self, a, r, old):
        return {'what is read back is a set with the same elements': Iff(member(r, old.x0), member(old.self, old.x0)),
                'and as many non-empty intervals': cnt(r, 'ne') == cnt(old.self, 'ne'),
                'it is another object': r is not a.self}


class State(P):
    def __init__(self, p):
        self.p = p

    def make(self, D, name):
        return self.p.make(D, name)


@contract(IV + ':ContinuousSet.__getstate__', C04)
class _:
    params = dict(self=CS())

    def call(self, a, fn):
        st = fn(a.self)
        r = importlib.import_module(IV).ContinuousSet.__new__(importlib.import_module(IV).ContinuousSet)
        r.__setstate__(st)
        return r

    def post(self, a, r, old):
        return {'the restored interval has the same content': same(snap(r), old.self)}


@contract(IV + ':RealSet.__getstate__', C04)
class _:
    params = dict(self=RSA())
    ghosts = X
    track_lists = True
    loops = INIT
    opts = dict(optional_loops=True)

    def call(self, a, fn):
        cls = importlib.import_module(IV).RealSet
        st = fn(a.self)
        r = cls.__new__(cls)
        r.__setstate__(st)
        return r

    def post(self, a, r, old):
        return {'the restored set has the same elements': Iff(member(r, old.x0), member(old.self, old.x0)),
                'and as many non-empty intervals': cnt(r, 'ne') == cnt(old.self, 'ne')}
