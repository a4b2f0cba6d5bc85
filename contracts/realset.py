"""Contracts of RealSet for unions of any number of intervals (loop invariants, no bound)."""
import math

from engine import sym
from engine.contract import (contract, Contract, CS, RS, RSA, F64, Int, Bool, Const, OneOf, P, member, empty, lo_elem, hi_elem, eq, le,
                             And, Or, Not, Implies, Iff, If, INC, EXC, IV, tname, iter_list, cnt, cs_kind, x0, SymD,
                             is_abs, STUBS, wf_fields)
from engine.hlist import LC, SymList
from contracts.intervals import X, C01, C02, C03, CALLEES, c


def iff1(x, y):
    return Iff(cnt(x) >= 1, y)


KIND = lambda l: cs_kind()      # noqa

# RealSet(list): a copy of every given interval
INIT = {'RealSet.__init__#L1': LC(
    inv=lambda v, L: {'copies contain the point exactly if the originals do': cnt(v.self) == L.pre('x0'),
                      'as many non-empty intervals': cnt(v.self, 'ne') == L.pre('ne')},
    modifies=lambda v: [v.self.intervals], kinds=KIND)}


class NSet(P):
    """any number set: an interval or a union"""

    def make(self, D, name):
        return (CS() if D.choice(name, 2) == 0 else RSA()).make(D, name)


def fresh_set(D, memb, nonempty=None, name='res'):
    """an arbitrary number set with the given membership of the ghost point"""
    E = D.E
    r = RSA().make(D, name)
    E.assume(Iff(r.intervals.measure('x0') >= 1, memb))
    if nonempty is not None:
        E.assume(Iff(r.intervals.measure('ne') >= 1, nonempty))
    return r


@contract(c('RealSet.contains_value'), C01)
class _:
    params = dict(self=RSA(), value=F64())
    ghosts = X
    uses = (c('ContinuousSet.contains_value'),)
    track_lists = True
    loops = {'RealSet.contains_value#L1': LC(
        inv=lambda v, L: {'no interval so far contains the value': L.pre('x0') == 0})}

    def pre(self, a):
        return {'the ghost point is the value': a.x0 == a.value}

    def build(self, D):
        a = Contract.build(self, D)
        if not D.symbolic:
            a.x0 = a.value
        return a

    def post(self, a, r, old):
        return {'true exactly for the members': Iff(r, member(old.self, old.value))}


@contract(c('RealSet.isempty'), C01)
class _:
    params = dict(self=RSA())
    ghosts = X
    uses = (c('ContinuousSet.isempty'),)
    track_lists = True
    loops = {'RealSet.isempty#L1': LC(inv=lambda v, L: {'no interval so far has an element': L.pre('ne') == 0})}

    def post(self, a, r, old):
        return {'true exactly if no interval has an element': Iff(r, empty(old.self)),
                'a set with an element is not empty': Implies(member(old.self, old.x0), Not(r))}


@contract(c('RealSet.__init__'), C01)
class _:
    params = dict(intervals=RSA())
    ghosts = X
    uses = (c('ContinuousSet.copy'),) if False else ()
    track_lists = True
    loops = INIT

    def function(self):
        import importlib
        return importlib.import_module(IV).RealSet

    def call(self, a, fn):
        return fn(a.intervals.intervals)

    def post(self, a, r, old):
        return {'the set is the union of the given intervals': Iff(member(r, old.x0), member(old.intervals, old.x0)),
                'the list is not shared': r.intervals is not a.intervals.intervals}


@contract(c('RealSet.copy'), C01)
class _:
    params = dict(self=RSA())
    ghosts = X
    track_lists = True
    loops = INIT

    def post(self, a, r, old):
        return {'same elements': Iff(member(r, old.x0), member(old.self, old.x0)), 'a new object': r is not a.self,
                'the list is not shared': r.intervals is not a.self.intervals}


def stub_simplify(raw, self):
    # contract of RealSet.simplify at call sites: an arbitrary set with the same elements
    D = SymD(sym.eng())
    return fresh_set(D, cnt(self) >= 1, cnt(self, 'ne') >= 1)


STUBS[c('RealSet.simplify')] = stub_simplify


def stub_cs_intersection(raw, self, other, left=0, right=0):
    D = SymD(sym.eng())
    r = CS().make(D, 'meet')
    D.assume(Iff(member(r, x0()), And(member(self, x0()), member(other, x0()))))
    return r


def stub_cs_difference(raw, self, other):
    if hasattr(other, 'intervals'):
        return raw(self, other)
    D = SymD(sym.eng())
    want = And(member(self, x0()), Not(member(other, x0())))
    if D.E.choose(2) == 0:
        r = CS().make(D, 'diff')
        D.assume(Iff(member(r, x0()), want))
        return r
    p, q = CS().make(D, 'diff1'), CS().make(D, 'diff2')
    D.assume(Iff(Or(member(p, x0()), member(q, x0())), want))
    return D.new(IV + ':RealSet', intervals=SymList([p, q]))


STUBS[c('ContinuousSet.difference')] = stub_cs_difference
STUBS[c('ContinuousSet.intersection')] = stub_cs_intersection


@contract(c('RealSet.union'), C01)
class _:
    params = dict(self=RSA(), other=NSet())
    ghosts = X
    uses = (c('RealSet.simplify'),)
    track_lists = True
    loops = INIT

    def post(self, a, r, old):
        return {'the result contains exactly the elements of either':
                Iff(member(r, old.x0), Or(member(old.self, old.x0), member(old.other, old.x0)))}


@contract(c('RealSet.intersection'), C01)
class _:
    params = dict(self=RSA(), other=NSet())
    ghosts = X
    uses = (c('RealSet.simplify'), c('ContinuousSet.intersection'))
    track_lists = True
    opts = {'optional_loops': True}
    loops = dict(INIT, **{
        'RealSet.intersection#L1': LC(
            inv=lambda v, L: {'common elements of the intervals so far':
                              iff1(v.result, And(L.pre('x0') >= 1, cnt(v.other_) >= 1))},
            modifies=lambda v: [v.result.intervals], kinds=KIND),
        'RealSet.intersection#L2': LC(
            entry=lambda v: cnt(v.result) >= 1,
            inv=lambda v, L: {'common elements of this interval and the others so far':
                              iff1(v.result, Or(L.g, And(member(v.subset_i, x0()), L.pre('x0') >= 1)))},
            modifies=lambda v: [v.result.intervals], kinds=KIND)})

    def post(self, a, r, old):
        return {'the result contains exactly the common elements':
                Iff(member(r, old.x0), And(member(old.self, old.x0), member(old.other, old.x0)))}


@contract(c('RealSet.difference'), C01)
class _:
    params = dict(self=RSA(), other=RSA())
    ghosts = X
    uses = (c('RealSet.simplify'), c('ContinuousSet.difference'), c('ContinuousSet.isempty'))
    track_lists = True
    loops = dict(INIT, **{
        'RealSet.isempty#L1': LC(inv=lambda v, L: {'no interval so far has an element': L.pre('ne') == 0}),
        'RealSet.difference#L1': LC(
            inv=lambda v, L: {'collected and pending pieces': Implies(
                cnt(v.other) == 0, Iff(Or(cnt(v.intervals) >= 1, cnt(v.q) >= 1), cnt(v.self) >= 1)),
                'collected pieces avoid the subtracted set': Implies(cnt(v.other) >= 1, cnt(v.intervals) == 0),
                'loop condition': True},
            modifies=lambda v: [v.q, v.intervals], kinds=KIND),
        'RealSet.difference#L2': LC(
            entry=lambda v: Or(member(v.s, x0()), cnt(v.q) >= 1),
            fresh={'s': lambda E, v: CS().make(SymD(E), 's')},
            inv=lambda v, L: {'the rest of this piece avoids the intervals so far':
                              Implies(member(v.s, x0()), L.pre('x0') == 0),
                              'nothing else is lost or added':
                              Implies(cnt(v.other) == 0, Iff(Or(member(v.s, x0()), cnt(v.q) >= 1), L.g)),
                              'the piece is well-formed': wf_fields(v.s.lower, v.s.upper, v.s.left, v.s.right)},
            modifies=lambda v: [v.q], kinds=KIND)})

    def post(self, a, r, old):
        return {'the result contains exactly the elements of self that are not in other':
                Iff(member(r, old.x0), And(member(old.self, old.x0), Not(member(old.other, old.x0))))}


@contract(c('RealSet.intersects'), C01)
class _:
    params = dict(self=RSA(), other=NSet())
    ghosts = X
    uses = (c('ContinuousSet.intersects'),)
    track_lists = True
    opts = {'optional_loops': True}
    loops = dict(INIT, **{
        'RealSet.intersects#L1': LC(
            inv=lambda v, L: {'no common element so far': Implies(cnt(v.other) >= 1, L.pre('x0') == 0)}),
        'RealSet.intersects#L2': LC(
            inv=lambda v, L: {'no common element with this interval so far':
                              Implies(member(v.s, x0()), L.pre('x0') == 0)})})

    def post(self, a, r, old):
        return {'sets with a common element intersect':
                Implies(And(member(old.self, old.x0), member(old.other, old.x0)), r)}


# ------------------------------------------------------------------------------------------------ simplify
def stub_chop(raw, seq):
    """contract of chop() as used here: the first pair it yields is (first element, the remaining elements)"""
    if not is_abs(seq):
        return raw(seq)

    def gen():
        rest = seq.copy()
        head = rest.pop(0)
        yield head, rest
        raise sym.Undecided('more than one chop of an abstract list')
    return gen()


STUBS[IV + ':chop'] = stub_chop

_NEK = []


def nonempty_kind():
    from engine.hlist import Kind
    if not _NEK:
        k = cs_kind()
        _NEK.append(Kind(k.measures, lambda E: CS(nonempty=True).make(SymD(E), 'elem'),
                         lambda E, s: k.facts(E, s) + [('is not empty', Not(empty(s)))], 'non-empty ContinuousSet',
                         relations=k.relations, owned=True))
    return _NEK[0]


def ncnt(l):
    return l.snapshot(nonempty_kind())['x0'] if is_abs(l) else cnt(l)


@contract(c('RealSet.simplify'), C01, variant='any number')
class _:
    params = dict(self=RSA())
    ghosts = X
    track_lists = True
    uses = (IV + ':chop', c('ContinuousSet.isempty'), c('ContinuousSet.difference'))
    loops = dict(INIT, **{
        'RealSet.simplify#L1': LC(
            entry=lambda v: cnt(v.self),
            fresh={'tail': lambda E, v: SymList.symbolic(E, cs_kind(), 'tail')},
            inv=lambda v, L: {'collected and pending pieces cover the set':
                              Iff(Or(ncnt(v.intervals) >= 1, cnt(v.tail) >= 1), L.g >= 1),
                              'collected pieces are disjoint': ncnt(v.intervals) <= 1,
                              'pending pieces are disjoint from the collected ones':
                              Implies(ncnt(v.intervals) >= 1, cnt(v.tail) == 0)},
            modifies=lambda v: [(v.intervals, nonempty_kind())]),
        'RealSet.simplify#L2': LC(
            inv=lambda v, L: {'pending pieces: the rest minus the collected piece':
                              Iff(cnt(v.tail) >= 1, And(L.pre('x0') >= 1, Not(member(v.head, x0()))))},
            modifies=lambda v: [(v.tail, cs_kind())]),
        'RealSet.simplify#L3': LC(
            inv=lambda v, L: {
                'merged intervals contain what the pieces so far contain':
                ncnt(v.intervals) == L.pre('x0') + If(member(L.it.before, x0()), 1, 0),
                'the last merged interval ends like the last piece':
                And(v.intervals[-1].upper == L.prev.upper, v.intervals[-1].right == L.prev.right,
                    v.intervals[-1].lower <= L.prev.lower),
                'the last merged interval is well-formed':
                And(wf_fields(v.intervals[-1].lower, v.intervals[-1].upper, v.intervals[-1].left,
                              v.intervals[-1].right), Not(empty(v.intervals[-1])))},
            modifies=lambda v: [(v.intervals, nonempty_kind())], shapes=lambda l: 'last'),
    })

    def post(self, a, r, old):
        out = {'same elements': Iff(member(r, old.x0), member(old.self, old.x0))}
        if tname(r) == 'RealSet':
            out['pieces are disjoint'] = cnt(r) <= 1
        return out


# ------------------------------------------------------------------------------ an interval with a union of intervals
@contract(c('ContinuousSet.union'), C01, variant='with a RealSet')
class _:
    params = dict(self=CS(), other=RSA())
    ghosts = X
    uses = (c('RealSet.simplify'),)
    track_lists = True
    opts = {'optional_loops': True}
    loops = INIT

    def post(self, a, r, old):
        return {'the result contains exactly the elements of either':
                Iff(member(r, old.x0), Or(member(old.self, old.x0), member(old.other, old.x0)))}


@contract(c('ContinuousSet.intersection'), C01, variant='with a RealSet')
class _:
    params = dict(self=CS(), other=RSA())
    ghosts = X
    uses = (c('RealSet.simplify'), c('ContinuousSet.intersection'))
    track_lists = True
    opts = {'optional_loops': True}
    loops = dict(INIT, **{'ContinuousSet.intersection#C1': LC(
        map=lambda v: {'x0': {'x0': If(member(v.self, x0()), 1, 0)}, 'ne': None})})

    def post(self, a, r, old):
        return {'the result contains exactly the common elements':
                Iff(member(r, old.x0), And(member(old.self, old.x0), member(old.other, old.x0)))}
