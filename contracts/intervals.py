"""Contracts of jpt.base.intervals (exact IEEE doubles)."""
import math

from engine.contract import (contract, CS, RS, F64, Int, Bool, Const, OneOf, member, empty, lo_elem, hi_elem, succ, pred,
                             eq, le, wf, And, Or, Not, Implies, Iff, If, Max, Min, INC, EXC, IV, tname, iter_list, P)

X = {'x0': F64()}
C01, C02, C03 = 'C01', 'C02', 'C03'
CALLEES = tuple(IV + ':ContinuousSet.' + n for n in ('isempty', 'contains_value', 'intersects', 'contains_interval',
                                                   'lowermost', 'uppermost'))


def valid_result(r):
    """every interval of a result is well-formed"""
    if tname(r) == 'RealSet':
        return And(True, *[wf(i) for i in iter_list(r.intervals)])
    return wf(r)


def fresh(r, *args):
    return all(r is not a for a in args)


def c(target):
    return IV + ':' + target


# ------------------------------------------------------------------------------------------------ ContinuousSet
@contract(c('ContinuousSet.isempty'), C01)
class _:
    params = dict(self=CS())
    ghosts = X
    spec_label = 'is exactly "no double lies between the ends"'

    def spec(self, a):
        return empty(a.self)

    def post(self, a, r, old):
        return {'an empty interval contains no double': Implies(r, Not(member(old.self, old.x0))),
                'an interval that contains a double is not empty': Implies(member(old.self, old.x0), Not(r))}


@contract(c('ContinuousSet.contains_value'), C01)
class _:
    params = dict(self=CS(), value=F64())
    spec_label = 'true exactly for the members'
    uses = (c('ContinuousSet.intersects'),)

    def spec(self, a):
        return member(a.self, a.value)


@contract(c('ContinuousSet.__contains__'), C01)
class _:
    params = dict(self=CS(), x=OneOf(F64(), CS(nonempty=True)))
    uses = (c('ContinuousSet.contains_value'), c('ContinuousSet.contains_interval'))
    ghosts = X

    def post(self, a, r, old):
        if hasattr(old.x, 'lower'):
            return {'an interval that is "in" another is a subset':
                    Implies(And(r, member(old.x, old.x0)), member(old.self, old.x0))}
        return {'"in" is membership': Iff(r, member(old.self, old.x))}


@contract(c('ContinuousSet.intersects'), C01)
class _:
    params = dict(self=CS(), other=CS())
    ghosts = X

    spec_label = 'true exactly if some real number lies in both (non-empty) sets'
    uses = (c('ContinuousSet.isempty'),)

    def spec(self, a):
        s, o = a.self, a.other
        lo, hi = Max(s.lower, o.lower), Min(s.upper, o.upper)
        return And(Not(empty(s)), Not(empty(o)), Or(lo < hi, And(lo == hi, member(s, lo), member(o, lo))))

    def post(self, a, r, old):
        s, o = old.self, old.other
        return {'sets with a common element intersect': Implies(And(member(s, old.x0), member(o, old.x0)), r)}


@contract(c('ContinuousSet.isdisjoint'), C01)
class _:
    params = dict(self=CS(), other=CS())
    uses = (c('ContinuousSet.intersects'),)
    ghosts = X

    def post(self, a, r, old):
        return {'disjoint sets have no common element':
                Implies(r, Not(And(member(old.self, old.x0), member(old.other, old.x0))))}


@contract(c('ContinuousSet.intersection'), C01)
class _:
    params = dict(self=CS(), other=CS())
    uses = (c('ContinuousSet.intersects'),)
    ghosts = X

    def post(self, a, r, old):
        return {'the result contains exactly the common elements':
                Iff(member(r, old.x0), And(member(old.self, old.x0), member(old.other, old.x0))),
                'the result is well-formed': wf(r),
                'the result is a new object': fresh(r, a.self, a.other)}


@contract(c('ContinuousSet.union'), C01)
class _:
    params = dict(self=CS(), other=CS())
    uses = CALLEES
    ghosts = X

    def post(self, a, r, old):
        return {'the result contains exactly the elements of either':
                Iff(member(r, old.x0), Or(member(old.self, old.x0), member(old.other, old.x0))),
                'the result is well-formed': valid_result(r),
                'the result is a new object': fresh(r, a.self, a.other)}


@contract(c('ContinuousSet.difference'), C01)
class _:
    params = dict(self=CS(), other=CS())
    uses = CALLEES
    ghosts = X

    def post(self, a, r, old):
        return {'the result contains exactly the elements of self that are not in other':
                Iff(member(r, old.x0), And(member(old.self, old.x0), Not(member(old.other, old.x0)))),
                'the result is well-formed': valid_result(r),
                'the result is a new object': fresh(r, a.self, a.other)}


@contract(c('ContinuousSet.complement'), C01)
class _:
    params = dict(self=CS())
    uses = CALLEES
    ghosts = X

    def post(self, a, r, old):
        return {'a number is in the complement exactly if it is not in the set':
                Iff(member(r, old.x0), Not(member(old.self, old.x0))),
                'the result is well-formed': valid_result(r)}


@contract(c('ContinuousSet.contains_interval'), C01)
class _:
    params = dict(self=CS(), other=CS(nonempty=True), proper_containment=Bool())
    defaults = dict(proper_containment=False)
    ghosts = X
    uses = (c('ContinuousSet.isempty'), c('ContinuousSet.lowermost'), c('ContinuousSet.uppermost'))
    spec_label = 'true exactly for a (properly enclosed) subset'

    def spec(self, a):
        s, o = a.self, a.other
        sl, sh, ol, oh = lo_elem(s), hi_elem(s), lo_elem(o), hi_elem(o)
        return And(Not(empty(s)), sl <= ol, oh <= sh, Implies(a.proper_containment, And(sl < ol, oh < sh)))

    def post(self, a, r, old):
        s, o = old.self, old.other
        return {'every element of a contained interval is an element':
                Implies(And(r, member(o, old.x0)), member(s, old.x0))}


@contract(c('ContinuousSet.contiguous'), C01)
class _:
    params = dict(self=CS(nonempty=True), other=CS(nonempty=True))
    ghosts = X

    def post(self, a, r, old):
        s, o = old.self, old.other
        return {'contiguous intervals share no element': Implies(r, Not(And(member(s, old.x0), member(o, old.x0)))),
                'no number lies strictly between contiguous intervals':
                Implies(And(r, Or(And(s.upper <= old.x0, old.x0 <= o.lower), And(o.upper <= old.x0, old.x0 <= s.lower)),
                            Not(old.x0 == math.inf), Not(old.x0 == -math.inf)),
                        Or(member(s, old.x0), member(o, old.x0))),
                'symmetric': Iff(r, Or(And(s.upper == o.lower, s.right + o.left == 3),
                                       And(o.upper == s.lower, o.right + s.left == 3)))}


@contract(c('ContinuousSet.copy'), C01)
class _:
    params = dict(self=CS())

    def post(self, a, r, old):
        return {'same ends': And(r.lower == old.self.lower, r.upper == old.self.upper),
                'same brackets': And(r.left == old.self.left, r.right == old.self.right),
                'a new object': fresh(r, a.self)}


@contract(c('ContinuousSet.simplify'), C01)
class _:
    params = dict(self=CS())
    ghosts = X

    def post(self, a, r, old):
        return {'same elements': Iff(member(r, old.x0), member(old.self, old.x0)), 'a new object': fresh(r, a.self)}


@contract(c('ContinuousSet.xmirror'), C01)
class _:
    params = dict(self=CS())
    ghosts = X

    def post(self, a, r, old):
        return {'contains -x exactly if the interval contains x': Iff(member(r, -old.x0), member(old.self, old.x0)),
                'well-formed': wf(r)}


@contract(c('ContinuousSet.__eq__'), C01)
class _:
    uses = (c('ContinuousSet.isempty'), c('ContinuousSet.lowermost'), c('ContinuousSet.uppermost'))
    params = dict(self=CS(), other=CS())
    ghosts = X

    def post(self, a, r, old):
        s, o = old.self, old.other
        return {'equal intervals have the same elements': Implies(r, Iff(member(s, old.x0), member(o, old.x0))),
                'intervals with the same extreme elements are equal':
                Implies(Or(And(empty(s), empty(o)), And(lo_elem(s) == lo_elem(o), hi_elem(s) == hi_elem(o))), r)}


@contract(c('ContinuousSet.__ne__'), C01)
class _:
    uses = (c('ContinuousSet.isempty'), c('ContinuousSet.lowermost'), c('ContinuousSet.uppermost'))
    params = dict(self=CS(), other=CS())
    ghosts = X

    def post(self, a, r, old):
        s, o = old.self, old.other
        return {'intervals that are not unequal have the same elements':
                Implies(Not(r), Iff(member(s, old.x0), member(o, old.x0))),
                'same interval is not unequal':
                Implies(Or(And(empty(s), empty(o)), And(lo_elem(s) == lo_elem(o), hi_elem(s) == hi_elem(o))), Not(r))}


# ------------------------------------------------------------------------------------------------ extremes (C02)
@contract(c('ContinuousSet.lowermost'), C02)
class _:
    params = dict(self=CS())
    ghosts = X
    spec_label = 'the smallest double from the lower end on (infinite ends stay)'

    def spec(self, a):
        return lo_elem(a.self)

    def post(self, a, r, old):
        fin = And(Not(old.self.lower == -math.inf), Not(empty(old.self)))
        return {'is an element (finite lower end)': Implies(fin, member(old.self, r)),
                'no element is smaller': Implies(member(old.self, old.x0), r <= old.x0)}


@contract(c('ContinuousSet.uppermost'), C02)
class _:
    params = dict(self=CS())
    ghosts = X
    spec_label = 'the largest double up to the upper end (infinite ends stay)'

    def spec(self, a):
        return hi_elem(a.self)

    def post(self, a, r, old):
        fin = And(Not(old.self.upper == math.inf), Not(empty(old.self)))
        return {'is an element (finite upper end)': Implies(fin, member(old.self, r)),
                'no element is larger': Implies(member(old.self, old.x0), r >= old.x0)}


@contract(c('ContinuousSet.fst'), C02)
class _:
    uses = (c('ContinuousSet.isempty'),)
    params = dict(self=CS())
    ghosts = X

    def post(self, a, r, old):
        e = empty(old.self)
        isnan = (r != r)
        return {'nan exactly for the empty set': Iff(isnan, e),
                'is an element': Implies(Not(e), member(old.self, r)),
                'no element is smaller': Implies(And(Not(e), member(old.self, old.x0)), r <= old.x0)}


@contract(c('ContinuousSet.size'), C02)
class _:
    uses = (c('ContinuousSet.isempty'),)
    params = dict(self=CS())

    def post(self, a, r, old):
        s = old.self
        return {'0 exactly for the empty set': Iff(r == 0, empty(s)),
                '1 for a single point': Implies(And(s.lower == s.upper, s.left == INC, s.right == INC), r == 1),
                'not 1 if there are two elements': Implies(lo_elem(s) < hi_elem(s), Not(r == 1)),
                'is 0, 1 or infinite': Or(r == 0, r == 1, r == math.inf)}


@contract(c('ContinuousSet.isninf'), C02)
class _:
    params = dict(self=CS())

    def post(self, a, r, old):
        return {'true exactly for a lower end of -inf': Iff(r, old.self.lower == -math.inf)}


@contract(c('ContinuousSet.ispinf'), C02)
class _:
    params = dict(self=CS())

    def post(self, a, r, old):
        return {'true exactly for an upper end of inf': Iff(r, old.self.upper == math.inf)}


@contract(c('ContinuousSet.isinf'), C02)
class _:
    params = dict(self=CS())

    def post(self, a, r, old):
        return {'true exactly if one end is infinite':
                Iff(r, Or(old.self.upper == math.inf, old.self.lower == -math.inf))}


@contract(c('ContinuousSet.isclosed'), C02)
class _:
    params = dict(self=CS())

    def post(self, a, r, old):
        return {'true exactly for [a,b]': Iff(r, And(old.self.left == INC, old.self.right == INC))}


@contract(c('ContinuousSet.any_point'), C02)
class _:
    params = dict(self=CS(nonempty=True))
    def pre(self, a):
        s = a.self
        return {'finite ends below 2^1000': And(Or(s.lower == -math.inf, s.lower >= -2.0 ** 1000),
                                               Or(s.upper == math.inf, s.upper <= 2.0 ** 1000),
                                               s.lower <= 2.0 ** 1000, s.upper >= -2.0 ** 1000)}

    def post(self, a, r, old):
        return {'is an element': member(old.self, r)}


# ------------------------------------------------------------------------------------------------ bounds (C03)
@contract(c('ContinuousSet.boundaries'), C03)
class _:
    params = dict(self=CS(), left=Int(0, 2), right=Int(0, 2))
    ghosts = X

    def pre(self, a):
        big = 1.7976931348623157e308
        s = a.self
        # [x, max] cannot be written with an open end at a double, and neither can an end at infinity be closed
        return {'the requested brackets exist':
                And(Implies(s.lower == -math.inf, Not(a.left == INC)), Implies(s.upper == math.inf, Not(a.right == INC)),
                    Implies(a.left == EXC, s.lower > -big), Implies(a.right == EXC, s.upper < big)),
                'not empty': Not(empty(s))}

    def post(self, a, r, old):
        return {'the set of doubles does not change': Iff(member(r, old.x0), member(old.self, old.x0)),
                'left bracket as requested': Implies(old.left != 0, r.left == old.left),
                'right bracket as requested': Implies(old.right != 0, r.right == old.right),
                'unrequested ends stay': And(Implies(old.left == 0, And(r.left == old.self.left,
                                                                       r.lower == old.self.lower)),
                                             Implies(old.right == 0, And(r.right == old.self.right,
                                                                        r.upper == old.self.upper)))}


@contract(c('ContinuousSet.intersection'), C03, variant='brackets')
class _:
    uses = (c('ContinuousSet.intersects'),)
    params = dict(self=CS(), other=CS(), left=Int(0, 2), right=Int(0, 2))
    ghosts = X

    def pre(self, a):
        big = 1.7976931348623157e308
        out = {'ends finite': And(*[And(s.lower > -big, s.upper < big) for s in (a.self, a.other)])}
        return out

    def post(self, a, r, old):
        both = And(member(old.self, old.x0), member(old.other, old.x0))
        return {'the requested brackets do not change the set of doubles': Iff(member(r, old.x0), both),
                'left bracket as requested': Implies(And(old.left != 0, Not(empty(r))), r.left == old.left),
                'right bracket as requested': Implies(And(old.right != 0, Not(empty(r))), r.right == old.right)}


@contract(c('ContinuousSet.ends'), C03)
class _:
    params = dict(self=CS(), left=OneOf(Const(-1), Const(INC), Const(EXC)),
                  right=OneOf(Const(-1), Const(INC), Const(EXC)))
    ghosts = X

    def pre(self, a):
        big = 1.7976931348623157e308
        s = a.self
        return {'the requested brackets exist': And(s.lower > -big, s.upper < big), 'not empty': Not(empty(s))}

    def post(self, a, r, old):
        return {'the set of doubles does not change': Iff(member(r, old.x0), member(old.self, old.x0))}


class Points(P):
    def __init__(self, n):
        self.n = n

    def make(self, D, name):
        return D.list([D.f64('%s[%d]' % (name, i), True) for i in range(self.n)])


def cchop(n):
    @contract(c('ContinuousSet.chop'), C03, variant='%d points' % n,
              bounded='%d cutting points (symbolic values)' % n)
    class _:
        uses = CALLEES
        params = dict(self=CS(), points=Points(n))
        ghosts = X

        def call(self, a, fn):
            return list(fn(a.self, a.points))

        def post(self, a, r, old):
            pieces = list(r)
            inx = [member(p, old.x0) for p in pieces]
            out = {'the pieces cover exactly the interval': Iff(Or(False, *inx), member(old.self, old.x0)),
                   'no piece is empty': And(True, *[Not(empty(p)) for p in pieces]),
                   'pieces are disjoint': And(True, *[Not(And(inx[i], inx[j])) for i in range(len(inx))
                                                      for j in range(i)]),
                   'pieces are in order': And(True, *[p.upper <= q.lower for p, q in zip(pieces, pieces[1:])])}
            for p in iter_list(old.points):
                out['interior pieces are right-open at a cutting point'] = And(
                    out.get('interior pieces are right-open at a cutting point', True),
                    *[Not(And(q.lower < p, p < q.upper)) for q in pieces],
                    *[Implies(And(q.upper == p, Not(p == old.self.upper)), q.right == EXC) for q in pieces])
            return out
    return _


for n_ in (0, 1, 2):
    cchop(n_)


# ------------------------------------------------------------------------------------------------ RealSet, fixed shapes
def rs_contracts(n, m):
    B = 'unions of %d and %d intervals (symbolic ends)' % (n, m)

    @contract(c('RealSet.intersection'), C01, variant='%dx%d' % (n, m), bounded=B)
    class _:
        uses = CALLEES
        params = dict(self=RS(n), other=RS(m))
        ghosts = X

        def post(self, a, r, old):
            return {'the result contains exactly the common elements':
                    Iff(member(r, old.x0), And(member(old.self, old.x0), member(old.other, old.x0)))}

    @contract(c('RealSet.union'), C01, variant='%dx%d' % (n, m), bounded=B)
    class _:
        uses = CALLEES
        params = dict(self=RS(n), other=RS(m))
        ghosts = X

        def post(self, a, r, old):
            return {'the result contains exactly the elements of either':
                    Iff(member(r, old.x0), Or(member(old.self, old.x0), member(old.other, old.x0)))}

    @contract(c('RealSet.difference'), C01, variant='%dx%d' % (n, m), bounded=B)
    class _:
        uses = CALLEES
        params = dict(self=RS(n), other=RS(m))
        ghosts = X

        def post(self, a, r, old):
            return {'the result contains exactly the elements of self that are not in other':
                    Iff(member(r, old.x0), And(member(old.self, old.x0), Not(member(old.other, old.x0))))}


def rs1(n):
    B = 'union of %d intervals (symbolic ends)' % n

    @contract(c('RealSet.simplify'), C01, variant=str(n), bounded=B)
    class _:
        uses = CALLEES
        params = dict(self=RS(n))
        ghosts = X

        def post(self, a, r, old):
            out = {'same elements': Iff(member(r, old.x0), member(old.self, old.x0))}
            if tname(r) == 'RealSet':
                xs = iter_list(r.intervals)
                out['no empty piece'] = And(*[Not(empty(i)) for i in xs])
                out['pieces are disjoint'] = And(True, *[Not(And(member(p, old.x0), member(q, old.x0)))
                                                         for i, p in enumerate(xs) for q in xs[:i]])
                out['pieces are sorted'] = And(True, *[p.lower <= q.lower for p, q in zip(xs, xs[1:])])
            return out

    @contract(c('RealSet.complement'), C01, variant=str(n), bounded=B)
    class _:
        uses = CALLEES
        params = dict(self=RS(n))
        ghosts = X

        def post(self, a, r, old):
            return {'a number is in the complement exactly if it is not in the set':
                    Iff(member(r, old.x0), Not(member(old.self, old.x0)))}


rs_contracts(1, 1)
rs1(1)
rs1(2)
