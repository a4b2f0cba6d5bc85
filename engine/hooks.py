"""The object injected as `__eng__` in every loaded module: loop cutting, comprehensions over symbolic lists."""
import re
import sys

import numpy as np
import z3

from . import sym
from .sym import SB, SI, SR, SF, Undecided, PathEnd, And, Or, Not, Implies, Iff, If
from .hlist import SymList, Poison, NS, MapList, AUTO


class Plain:
    cut = False
    __slots__ = ('it',)

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


class PlainW:
    cut = False
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __iter__(self):
        n = 0
        c = self.c
        while c():
            n += 1
            if sym.ENG is not None and n > sym.ENG.max_unroll:
                raise Undecided('uncontracted while loop exceeds the unrolling bound')
            yield n


class Many:
    """all that a generator delegates to"""
    def __init__(self, seq):
        self.seq = seq


class SymRange:
    """range() with symbolic bounds, step +1 or -1"""
    __symiter__ = True

    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step

    def __symset__(self):
        from contracts.trees import RangeSet
        return RangeSet(self)

    def __symrange__(self):
        if self.step != 1:
            raise Undecided('descending symbolic range')
        n = self.b - self.a
        return SI(sym.zint(If(n > 0, n, 0))), lambda k: k + self.a

    def __slist__(self):
        from .seq import SymL
        n, at = self.__symrange__()
        return SymL(sym.eng(), n, at)

    def __iter__(self):
        raise Undecided('symbolic range outside of a loop statement')


def srange(*a):
    if any(getattr(x, '__sym__', False) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        if len(a) == 2:
            return SymRange(a[0], a[1])
        if isinstance(a[2], int) and a[2] in (1, -1):
            return SymRange(*a)
        raise Undecided('symbolic range step')
    return range(*a)


def fresh_like(E, v, base):
    if isinstance(v, (SB, bool, np.bool_)):
        return E.bool(base)
    if isinstance(v, (SI, int, np.integer)):
        return E.int(base)
    if isinstance(v, SF):
        return E.f64(base)
    if isinstance(v, SR):
        return E.real(base)
    if isinstance(v, (float, np.floating)):
        return E.f64(base) if E.fp_mode != 'real' else E.real(base)
    return None


class Cut:
    """a loop being cut by its invariant"""
    cut = True

    def __init__(self, E, key, it, contract, frame, cond=None, roots=()):
        self.E, self.key, self.it, self.c, self.frame, self.cond = E, key, it, contract, frame, cond
        self.entry = dict(frame.f_locals)
        self.name = '%s' % key
        E.loop_used.add(key)
        self.k = 0
        # ---- establish
        if cond is None:
            self.setup_iter()
        self.check_roots(roots)
        st0 = self.state(self.entry, 'init')
        self.g = self.c.entry(st0) if self.c.entry else None
        for lab, g in self.inv(st0):
            self.goal(g, 'loop %s: invariant "%s" holds on entry' % (key, lab))
        self.mark = E.mark()
        # ---- havoc heap
        self.mod = list(self.c.modifies(st0)) if self.c.modifies else []
        for i, o in enumerate(self.mod):
            if isinstance(o, tuple):
                o[0].__havoc__(E, self.c, o[1])
                self.mod[i] = o[0]
            else:
                o.__havoc__(E, self.c)
        self.arbitrary = E.choose(2) == 0
        self.havocked = {}

    def check_roots(self, roots):
        mods = []
        if self.c.modifies:
            mods = list(self.c.modifies(self.state(self.entry, 'init')))
        for r in roots:
            try:
                parts = r.split('.')
                v = self.entry[parts[0]]
                for p in parts[1:]:
                    v = getattr(v, p)
            except Exception:
                continue
            if (isinstance(v, (np.ndarray, dict, set)) or type(v) is list) and not getattr(v, '_ghost', False):
                raise Undecided('loop %s mutates an untracked container %s' % (self.key, r))

    def setup_iter(self):
        E, it = self.E, self.it
        if isinstance(it, SymRange):
            a, b = sym.zint(it.a), sym.zint(it.b)
            self.n = SI(z3.If(b > a, b - a, 0)) if it.step == 1 else SI(z3.If(a > b, a - b, 0))
            self.elem_at = (lambda k: SI(a + k.e)) if it.step == 1 else (lambda k: SI(a - k.e))
            self.kind = 'range'
        elif isinstance(it, SymList):
            self.kind = 'hlist'
        elif hasattr(it, '__symseq__'):
            self.kind = 'seq'
            self.n, self.elem_at = it.__symseq__()
        else:
            raise Undecided('loop over %s' % type(it).__name__)

    def hv(self, name):
        E = self.E
        v = self.entry.get(name, Poison)
        mk = self.c.fresh.get(name) if self.c.fresh else None
        if isinstance(self.c, AutoLC) and self.c.number(v) and E.fp_mode == 'real':
            mk = lambda E, v: E.real(name)      # noqa
        if mk is not None:
            r = mk(E, v)
        elif v is Poison or isinstance(v, Poison):
            r = Poison(name)
        else:
            r = fresh_like(E, v, name)
            if r is None:
                if name in (self.c.local or ()):
                    r = Poison(name)
                else:
                    r = Poison(name)
        self.havocked[name] = r
        return r

    def state(self, locs, when):
        s = NS(locs)
        s.__dict__['_entry'] = NS(self.entry)
        s.__dict__['_cut'] = self
        s.__dict__['_when'] = when
        return s

    def inv(self, st):
        try:
            r = self.c.inv(st, self)
        except (AttributeError, KeyError, TypeError) as e:
            raise Undecided('loop %s: the invariant does not fit the code (%s)' % (self.key, e))
        return list(r.items())

    # what invariants may refer to: L.k, L.n, L.pre(m), L.prev
    def pre(self, m):
        return self._pre[m]

    @property
    def k_(self):
        return self._k

    def __iter__(self):
        E, c = self.E, self.c
        locs = dict(self.frame.f_locals)
        if self.cond is not None:
            return self.iter_while(locs)
        if self.kind == 'hlist':
            return self.iter_hlist(locs)
        return self.iter_range(locs)

    def assume_inv(self, st):
        for lab, g in self.inv(st):
            if hasattr(g, 'assume_in'):
                if g.fact is not None:
                    g.fact = self.here(g.fact)
                    if getattr(g, 'frozen', False):     # says what it says now, whatever becomes of the objects it looks at
                        g.fact = frozen_fact(self.E, g.fact)
                g.assume_in(self.E)
            else:
                self.E.assume(g)

    def here(self, f):
        """f, evaluated later, with the position of the loop as it is now"""
        k, pre, prev = self.k, self._pre, self.prev

        def g(*a):
            now = self.k, self._pre, self.prev
            self.k, self._pre, self.prev = k, pre, prev
            try:
                return f(*a)
            finally:
                self.k, self._pre, self.prev = now
        return g

    def prove_inv(self, st):
        for lab, g in self.inv(st):
            self.goal(g, 'loop %s: invariant "%s" is preserved' % (self.key, lab))

    def goal(self, g, name):
        E = self.E
        if getattr(g, 'alone', False):      # its case distinctions are its own
            if E.choose(2) == 0:
                E.prove(g.goal(E), name)
                raise PathEnd()
            return
        E.prove(g.goal(E) if hasattr(g, 'goal') else g, name)

    def frame_check(self):
        self.E.check_frame(self.mark, self.mod, self.key)

    def iter_range(self, locs):
        E = self.E
        if self.arbitrary:
            k = E.int('k')
            E.assume(And(k >= 0, k < self.n))
            self.k = k
            self.assume_inv(self.state(locs, 'pre'))
            elem = self.elem_at(k)
            yield elem
            self.k = k + 1
            self.prove_inv(self.state(dict(self.frame.f_locals), 'post'))
            self.frame_check()
            raise PathEnd()
        self.k = self.n
        self.assume_inv(self.state(locs, 'exit'))
        self.frame_check()

    def iter_hlist(self, locs):
        E, L = self.E, self.it
        if self.arbitrary:
            pre, elem, suf, prev = L.split(E)
            self._pre, self.prev, self.elem = pre, prev, elem
            self.k = pre.n
            self.assume_inv(self.state(locs, 'pre'))
            yield elem
            self._pre = pre.plus(elem)
            self.prev = elem
            self.k = pre.n + 1
            self.prove_inv(self.state(dict(self.frame.f_locals), 'post'))
            self.frame_check()
            raise PathEnd()
        self._pre = L.snapshot()
        self.k = L.n
        self.prev = L.last_elem(E)
        self.assume_inv(self.state(locs, 'exit'))
        self.frame_check()

    def iter_while(self, locs):
        E = self.E
        self.assume_inv(self.state(locs, 'pre'))
        dec0 = self.c.decreases(self.state(locs, 'pre')) if self.c.decreases else None
        if self.arbitrary:
            if not self.cond():
                raise PathEnd()
            yield 0
            st = self.state(dict(self.frame.f_locals), 'post')
            self.prove_inv(st)
            if dec0 is not None:
                d1 = self.c.decreases(st)
                E.prove(And(dec0 >= 0, d1 < dec0), 'loop %s: variant decreases' % self.key)
            self.frame_check()
            raise PathEnd()
        if self.cond():
            raise PathEnd()
        self.frame_check()


class AutoLC:
    """loop without a contract over a list of a known kind: invariants are inferred (Houdini: start from all candidates
    x == entry value, x == entry value + (or *) measure of the part already visited; a candidate that is not preserved
    is dropped and the whole contract is discharged again without it).  Lists and maps the loop builds are treated
    likewise: measures of a list; membership and value of the ghost key of a map (`candidates`)"""
    fresh = shapes = entry = map = kind = measure = comp = decreases = None
    local = ()

    def __init__(self, E, key, kind, roots=()):
        self.E, self.key, self.measures = E, key, [(m, kind.measures[m][0]) for m in kind.auto]
        self.roots, self.snap = roots, {}

    def number(self, v):
        return isinstance(v, (SI, SR, int, float, np.integer, np.floating)) and not isinstance(v, (bool, np.bool_))

    def cid(self, *a):
        c = getattr(self.E.world, 'ctx', None)
        return (self.key,) + a + ((c(),) if c else ())

    def built(self, st):
        """names of the lists and maps the loop may change"""
        out = []
        for name, v in st._entry.__dict__.items():
            if getattr(type(v), 'ghostmap', False):
                out.append(name)
            elif isinstance(v, SymList) and name in self.roots:
                if v.kind is not None or getattr(self.E.world, 'built', None) is not None:
                    out.append(name)
        return out

    def kinds(self, l):
        return l.kind or self.E.world.built

    def modifies(self, st):
        seen, out = set(), []
        for name in self.built(st):
            o = st._entry[name]
            if id(o) not in seen:
                seen.add(id(o))
                out.append(o)
        return out

    def inv(self, st, L):
        out = {}
        dropped = self.E.auto_dropped

        def cand(name, c, f):
            cid = self.cid(name, c)
            if cid not in dropped:
                out['%s%r|%s' % (AUTO, cid, c)] = f()
        for m, s in self.measures:
            cid = self.cid('', m)
            if s == 'count' and cid not in dropped:
                out['%s%r|%s' % (AUTO, cid, m)] = L.pre(m) == 0
        if st._when == 'init':
            for name in self.built(st):
                o = st._entry[name]
                self.snap[name] = o.snapshot(self.kinds(o)) if isinstance(o, SymList) else o.state()
            return out
        for name in getattr(L, 'havocked', {}):
            v, e = getattr(st, name, None), L.entry.get(name)
            if v is None or not self.number(v) or not self.number(e):
                continue
            cand(name, 'eq', lambda: v == e)
            for m, s in self.measures:
                cand(name, m, lambda: v == (e * L.pre(m) if s == 'prod' else e + L.pre(m)))
        for name, e in self.snap.items():
            o = L.entry[name]
            if isinstance(o, SymList):
                now = o.snapshot()
                for q in ['n'] + list(o.kind.measures):
                    sq = 'count' if q == 'n' else o.kind.measures[q][0]
                    cand(name, q + ' eq', lambda: now[q] == e[q])
                    for m, s in self.measures + [('n', 'count')]:
                        if (s == 'prod') == (sq == 'prod') and s != 'prod':
                            cand(name, q + ' ' + m, lambda: now[q] == e[q] + L.pre(m))
            else:
                for c, f in o.candidates(e, L):
                    cand(name, c, f)
        return out


class EntryCut(Cut):
    pass


def frozen_fact(E, f):
    from .seq import State
    state = State(E)

    def g(*a):
        ok, r = state.run(lambda: f(*a))
        if not ok:
            raise Undecided('the state of an invariant is not known any more')
        return r
    return g


class Hooks:
    def loop(self, key, it, roots):
        E = sym.ENG
        if E is None:
            return Plain(it)
        if isinstance(it, MapList):
            it = it.as_list()
        f = getattr(it, '__symlist__', None)
        if f is not None:
            it = f()
        if isinstance(it, SymList) and not it.abstract:
            return Plain(it)
        if isinstance(it, (SymRange, SymList)) or hasattr(it, '__symseq__'):
            c = E.loop_contracts.get(key)
            if c is None and isinstance(it, SymList) and it.kind.auto:
                c = AutoLC(E, key, it.kind, roots)
            if c is None:
                raise Undecided('no loop contract for %s' % key)
            cut = Cut.__new__(Cut)
            cut._pre, cut.prev, cut.k = None, None, 0
            if isinstance(it, SymList):
                cut._pre = it.zero()
                cut.prev = it.before
            cut.__init__pre = None
            _init_cut(cut, E, key, it, c, sys._getframe(1), None, roots)
            return cut
        return Plain(it)

    def wloop(self, key, cond, roots):
        E = sym.ENG
        if E is None:
            return PlainW(cond)
        c = E.loop_contracts.get(key)
        if c is None:
            return PlainW(cond)
        cut = Cut.__new__(Cut)
        cut._pre, cut.prev, cut.k = None, None, 0
        _init_cut(cut, E, key, None, c, sys._getframe(1), cond, roots)
        return cut

    def comp(self, key, kind, it, fn, cond):
        E = sym.ENG
        if kind == 'dict':
            if E is not None and (isinstance(it, SymRange) or any(hasattr(it, m) for m in ('__symseq__', '__symlist__'))):
                mk = getattr(E.spec, '_dict', None)
                if mk is None:
                    raise Undecided('a dict of symbolic size')
                from .seq import comprehension
                return mk(comprehension(E, key, 'gen', it, fn, cond))
            return dict(fn(x) for x in it) if cond is None else dict(fn(x) for x in it if cond(x))
        if E is not None:
            f = getattr(it, '__symlist__', None)
            if f is not None:
                it = f()
        if E is not None and isinstance(it, MapList):        # image of an image
            it.use()
            inner, c0 = it, it.cond
            c1 = None if cond is None and c0 is None else \
                lambda x: (c0 is None or bool(c0(x))) and (cond is None or bool(cond(inner.fn(x))))
            r = inner.base.comprehend(E, key, kind, lambda x: fn(inner.fn(x)), c1, E.loop_contracts.get(key),
                                      sys._getframe(1).f_locals)
            return r
        if E is not None and isinstance(it, SymList) and it.abstract:
            cc = E.loop_contracts.get(key)
            return it.comprehend(E, key, kind, fn, cond, cc, sys._getframe(1).f_locals)
        if E is not None and (isinstance(it, SymRange) or hasattr(it, '__symseq__')):
            cc = E.loop_contracts.get(key)
            if cc is None or cc.comp is None:
                from .seq import comprehension
                return comprehension(E, key, kind, it, fn, cond)
            return cc.comp(E, it, fn, cond)
        if kind == 'list':
            r = [fn(x) for x in it] if cond is None else [fn(x) for x in it if cond(x)]
            return SymList.of(r) if E is not None and E.track_lists else r
        if kind == 'set':
            return {fn(x) for x in it} if cond is None else {fn(x) for x in it if cond(x)}
        return (fn(x) for x in it) if cond is None else (fn(x) for x in it if cond(x))

    def fmt(self, text, args):
        """text % args; a symbolic number is formatted by its str"""
        if sym.ENG is not None and any(isinstance(x, sym.Sym) for x in (args if isinstance(args, tuple) else (args,))):
            text = re.sub(r'%[-+ #0-9.]*[dfgeixX]', '%s', text)
        return text % args

    def mkdict(self, d):
        E = sym.ENG
        mk = getattr(E.world, 'new_map', None) if E is not None else None
        return mk() if mk is not None else d

    def many(self, it):
        """what `yield from` delegates to: a sequence of symbolic length is yielded as a whole, as one Many"""
        return iter([Many(it)]) if hasattr(it, '__symseq__') else it

    def mkset(self, l):
        if sym.ENG is not None:
            from .seq import mkset
            return mkset(l)
        return set(l)

    def mklist(self, l):
        E = sym.ENG
        if E is not None and E.track_lists:
            return SymList.of(l)
        if E is not None and getattr(getattr(E, 'spec', None), '_lists', False):
            from .seq import SymL
            return SymL.of(E, l)
        return l


def _init_cut(cut, *a):
    Cut.__init__(cut, *a)


HOOKS = Hooks()
