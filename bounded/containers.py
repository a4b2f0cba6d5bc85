"""Bounded stand-ins for sorting, the priority queue, normalisation, sampling by weight and small helpers."""
import math

from engine.bounded import bounded, Skip

INF = math.inf


def gen_floats(r, n):
    style = r.choice(['real', 'ties', 'const', 'two', 'asc', 'desc', 'organ', 'big', 'killer'])
    if style == 'real':
        return [r.uniform(-5, 5) for _ in range(n)]
    if style == 'ties':
        return [float(r.randint(0, max(1, n // 3))) for _ in range(n)]
    if style == 'const':
        return [1.5] * n
    if style == 'two':
        return [float(r.randint(0, 1)) for _ in range(n)]
    if style == 'asc':
        return [float(i) for i in range(n)]
    if style == 'desc':
        return [float(n - i) for i in range(n)]
    if style == 'organ':
        return [float(min(i, n - i)) for i in range(n)]
    if style == 'big':
        return [r.choice([-1, 1]) * 10 ** r.uniform(-300, 300) for _ in range(n)]
    # median-of-three killer: drives the recursion depth to its limit (heap sort takes over)
    k = max(1, n // 2)
    a = [0.] * (2 * k)
    for i in range(1, k + 1):
        if i % 2:
            a[i - 1] = float(i)
            a[min(i, 2 * k - 1)] = float(k + i)
        a[k + i - 1] = float(2 * i)
    return a


@bounded('C15', 'sort', 600, about='introsort of up to 3000 numbers, whole array and prefix: ascending permutation, indices to match')
class _:
    def gen(self, r):
        n = r.choice([1, 2, 3, 4, 5, 7, 16, 17, 33, 100, 257, 1000, 3000] if r.random() < .3 else [1, 2, 3, 4, 5, 6, 8, 11, 20])
        v = gen_floats(r, n)
        if r.random() < .1:
            v = [x if r.random() < .9 else r.choice([INF, -INF, -0., 0.]) for x in v]
        n = len(v)
        return {'v': v, 'n': r.choice([-1, -1, n, r.randint(0, n)]), 'off': r.choice([0, 100])}

    def run(self, c):
        import numpy as np
        from jpt.base.cutils import test_sort
        v = list(c['v'])
        arr = np.array(v, dtype=np.float64)
        idx = np.arange(len(v), dtype=np.int64) + c['off']
        test_sort(arr, idx, c['n'])
        m = len(v) if c['n'] == -1 else c['n']
        bad = []
        if any(arr[i] > arr[i + 1] for i in range(m - 1)):
            bad.append('the sorted part is not ascending')
        if sorted(idx[:m] - c['off']) != list(range(m)):
            bad.append('the indices of the sorted part are not a permutation of those before')
        elif any(v[idx[i] - c['off']] != arr[i] for i in range(m)):
            bad.append('an index does not belong to the number at its position')
        if any(arr[i] != v[i] or idx[i] != i + c['off'] for i in range(m, len(v))):
            bad.append('sorting a prefix changes the rest')
        return bad


@bounded('C15', 'heap', 1500, about='sequences of up to 40 operations on the priority queue against an ordered list of (key, age)')
class _:
    def gen(self, r):
        n = r.choice([0, 0, 1, 2, 3, 6, 10])
        ops = []
        for _ in range(r.randint(0, 40)):
            k = r.choice(['push', 'push', 'push', 'pop', 'pop', 'del', 'index', 'look'])
            ops.append([k, r.randint(0, 8), r.random()])
        return {'data': [r.randint(0, 8) for _ in range(n)], 'ops': ops, 'key': r.choice([None, 'neg', 'half']),
                'inc': r.choice([1, 1, 2, -1]), 'gen': r.random() < .3, 'kind': r.choice(['int', 'obj'])}

    def run(self, c):
        from jpt.base.utils import Heap

        class Item:
            def __init__(self, v):
                self.v = v

        obj = c['kind'] == 'obj'
        mk = Item if obj else (lambda v: v)
        val = (lambda x: x.v) if obj else (lambda x: x)
        key = {None: None, 'neg': lambda x: -val(x), 'half': lambda x: val(x) // 2}[c['key']]
        if key is None and obj:
            key = val
        k = key or (lambda x: x)
        data = [mk(v) for v in c['data']]
        src = list(data)
        if key is None:
            h = Heap(data, inc=c['inc'])
        else:
            h = Heap(data, key=key, inc=c['inc'])
        bad = []
        age, model = 0, []
        for x in data:
            model.append((k(x), age, x))
            age += c['inc']

        def check(where):
            if len(h) != len(model) or bool(h) != bool(model):
                bad.append('%s: the queue has not the number of elements put in and not taken out' % where)
            its = list(h)
            if sorted(map(id, its)) != sorted(id(m[2]) for m in model):
                bad.append('%s: the elements iterated over are not those in the queue' % where)
            if [id(x) for x in reversed(list(reversed(h)))] != [id(x) for x in its]:
                bad.append('%s: reversed iteration does not mirror iteration' % where)
            if [id(h[i]) for i in range(len(h))] != [id(x) for x in its]:
                bad.append('%s: h[i] is not the i-th element of the iteration' % where)
            if model and k(h[0]) != min(m[0] for m in model):
                bad.append('%s: the first element is not a minimal one' % where)

        check('construction')
        if [id(x) for x in data] != [id(x) for x in src]:
            bad.append('the list passed to the constructor is changed')
        for op, v, t in c['ops']:
            if op == 'push':
                x = mk(v)
                h.push(x)
                model.append((k(x), age, x))
                age += c['inc']
            elif op == 'pop':
                if not model:
                    try:
                        h.pop()
                        bad.append('an element is popped from an empty queue')
                    except IndexError:
                        pass
                    continue
                x = h.pop()
                best = min(model, key=lambda m: m[:2])
                if k(x) != best[0]:
                    bad.append('the popped element is not minimal')
                elif x is not best[2] and obj:
                    bad.append('among equal elements the one with the lowest insertion index is not popped first')
                g = [m for m in model if m[2] is x] if obj else [m for m in model if m[2] == x]
                if not g:
                    bad.append('the popped element was not in the queue')
                    return bad
                model.remove(min(g, key=lambda m: m[:2]))
            elif op == 'del':
                if model:
                    i = int(t * len(model))
                    x = h[i]
                    del h[i]
                    g = [m for m in model if m[2] is x]
                    model.remove(min(g, key=lambda m: m[:2]) if obj else g[0])
            elif op == 'index':
                if model:
                    x = model[int(t * len(model))][2]
                    i = h.index(x)
                    if h[i] is not x and h[i] != x:
                        bad.append('index(x) is not a position of x')
                try:
                    h.index(mk(99))
                    bad.append('an element not in the queue has an index')
                except ValueError:
                    pass
            check(op)
            if bad:
                return bad
        out = []
        while h:
            out.append(k(h.pop()))
        if out != sorted(m[0] for m in model):
            bad.append('emptying the queue does not list the remaining elements in ascending order')
        return bad


@bounded('C15', 'normalized', 1500, about='normalisation of lists, arrays and dicts: proportions kept, sum one, argument unchanged')
class _:
    def gen(self, r):
        n = r.choice([1, 2, 3, 5, 10])
        w = [r.choice([0., 0., 1., 2., r.random(), r.random() * 1e-9, 1e9]) for _ in range(n)]
        if r.random() < .2:
            w = [0.] * n
        if r.random() < .3:
            w = [x * r.choice([1, -1]) for x in w]
        return {'w': w, 'kind': r.choice(['list', 'array', 'dict']), 'ident': r.random() < .5, 'neg': r.random() < .5,
                'zeros': r.choice([0., 0., .1, 1.])}

    def run(self, c):
        import numpy as np
        from jpt.base.utils import normalized
        w = c['w']
        arg = {'list': list, 'array': np.array, 'dict': lambda x: {'k%d' % i: v for i, v in enumerate(x)}}[c['kind']](w)
        bad = []
        z = sum(abs(x) for x in w)
        try:
            res = normalized(arg, identity_on_zeros=c['ident'], allow_neg=c['neg'], zeros=c['zeros'])
        except ValueError:
            if z and (c['neg'] or all(x >= 0 for x in w)):
                bad.append('proper weights cannot be normalised')
            res = None
        else:
            if any(x < 0 for x in w) and not c['neg']:
                bad.append('negative weights are accepted')
            if not z and not c['ident']:
                bad.append('weights that are all zero are normalised')
        now = list(arg.values()) if c['kind'] == 'dict' else list(arg)
        if now != w:
            bad.append('the argument is changed')
        if res is None or bad:
            return bad
        if res is arg:
            bad.append('the argument itself is returned')
        if type(res) is not type(arg) or (c['kind'] == 'dict' and list(res) != list(arg)):
            bad.append('the result is of another kind or order than the argument')
            return bad
        v = list(res.values()) if c['kind'] == 'dict' else [float(x) for x in res]
        if not z:
            if v != w:
                bad.append('weights that are all zero are changed although the identity was requested')
            return bad
        if abs(sum(map(abs, v)) - 1) > 1e-9:
            bad.append('the result does not sum to one')
        nz = [(a, b) for a, b in zip(w, v) if a]
        if any((a > 0) != (b > 0) for a, b in nz):
            bad.append('a sign changes')
        a0, b0 = max(nz, key=lambda p: abs(p[0]))
        if any(abs(abs(b) * abs(a0) - abs(a) * abs(b0)) > 1e-9 * abs(a) * abs(b0) for a, b in nz):
            bad.append('the proportions of the elements change')
        lo = min(abs(b) for a, b in nz)
        for a, b in zip(w, v):
            if not a and abs(b - c['zeros'] * lo) > 1e-9 * lo:
                bad.append('an element of weight zero does not get the requested fraction of the smallest element')
                break
        return bad


@bounded('C15', 'roulette', 800, about='weighted choice: every position of the wheel belongs to the element whose field it lies in')
class _:
    def gen(self, r):
        n = r.choice([1, 2, 3, 5])
        w = [r.choice([0., 1., .5, r.random()]) for _ in range(n)]
        if not sum(w):
            w[r.randrange(n)] = 1.
        return {'w': w, 'norm': r.random() < .5, 'k': r.choice([0, 1, 3, 10]), 'seed': r.randrange(10 ** 6),
                'ts': [r.random() for _ in range(5)]}

    def run(self, c):
        import random
        from jpt.base.sampling import RouletteWheelSampler, wsample, wchoice, wchoiced, wchoicei, wsamplei
        w = c['w']
        els = ['e%d' % i for i in range(len(w))]
        z = sum(w)
        s = RouletteWheelSampler(els, w, normalize=c['norm'])
        f = 1 / z if c['norm'] else 1.
        bad = []
        cum = [sum(w[:i]) * f for i in range(len(w) + 1)]
        for i in range(len(w)):
            for t in c['ts']:
                x = cum[i] + t * (cum[i + 1] - cum[i])
                if cum[i] + 1e-12 < x < cum[i + 1] - 1e-12:
                    if s.index(x) != i or s[x] != els[i]:
                        bad.append('a position inside the field of an element yields another element')
        exact = not c['norm'] and all(2 * x == int(2 * x) for x in w)
        for x in (0., cum[-1] if exact else cum[-1] * (1 - 1e-15)):
            i = s.index(x)
            if i is None or not w[i]:
                bad.append('a position on the border yields an element of weight zero')
        for x in (-.1, cum[-1] + .1):
            try:
                s.index(x)
                bad.append('a position outside of the wheel yields an element')
            except IndexError:
                pass
        random.seed(c['seed'])
        ok = {e for e, p in zip(els, w) if p}
        for got in (s.sample(c['k']), wsample(els, w, c['k'])):
            if len(got) != c['k'] or not set(got) <= ok:
                bad.append('a sample has another length than requested or an element of weight zero')
        for got in (s.samplei(c['k']), wsamplei(els, w, c['k'])):
            if len(got) != c['k'] or any(els[i] != e or not w[i] for e, i in got):
                bad.append('a sample with indices: length, element or index is wrong')
        if wchoice(els, w) not in ok or wchoiced(dict(zip(els, w))) not in ok:
            bad.append('an element of weight zero is chosen')
        e, i = wchoicei(els, w)
        if els[i] != e or not w[i]:
            bad.append('an element of weight zero is chosen (with index)')
        try:
            RouletteWheelSampler(els, w + [1.])
            bad.append('weights of another number than the elements are accepted')
        except ValueError:
            pass
        return bad


@bounded('C15', 'helpers', 1500, about='list2interval, list2intset, list2set, pairwise, mapstr, setstr_int, ifnan, linspace, entropy')
class _:
    def gen(self, r):
        n = r.choice([1, 2, 3, 5, 8])
        return {'xs': [r.choice([r.randint(-3, 9), r.randint(0, 4)]) for _ in range(n)],
                'lo': r.choice([None, '...', '-inf', r.randint(-5, 5), r.uniform(-5, 5)]),
                'd': r.choice([0, 1, 3, r.random() * 4]), 'up': r.choice([None, '...', 'inf', 1, 1]),
                'limit': r.choice([None, 1, 2, 3, 4, 5, 7, 20]),
                'num': r.choice([1, 2, 3, 5, 11]), 'a': r.uniform(-5, 5), 'b': r.uniform(-5, 5),
                'p': [r.choice([0., 1., r.random()]) for _ in range(n)]}

    def run(self, c):
        import numpy as np
        from jpt.base.cutils import ifnan, linspace, ConfInterval
        from jpt.base.utils import (list2interval, list2intset, list2set, pairwise, mapstr, setstr, setstr_int, none2nan,
                                    prod, entropy, max_entropy, rel_entropy, gini, to_json)
        bad = []
        sp = {None: None, '...': ..., '-inf': -INF, 'inf': INF}
        lo = sp[c['lo']] if c['lo'] in sp else c['lo']
        lo_ = -INF if lo in (None, ..., -INF) else float(lo)
        up_ = INF if c['up'] != 1 else (lo_ if lo_ > -INF else 0.) + c['d']
        up = up_ if c['up'] == 1 else sp[c['up']]
        i = list2interval([lo, up])
        if (i.lower, i.upper) != (lo_, up_) or lo_ > -INF and i.left != 1 or up_ < INF and i.right != 1:
            bad.append('list2interval: the interval has other ends than the list')
        a = c['xs'][0]
        if list2intset([a, a + 3]) != {a, a + 1, a + 2, a + 3} or list2intset([a, a]) != {a}:
            bad.append('list2intset: not the integers between the bounds')
        if list2set(c['xs']) != set(c['xs']):
            bad.append('list2set: another set')
        xs = c['xs']
        if list(pairwise(xs)) != [(xs[j], xs[j + 1]) for j in range(len(xs) - 1)] or list(pairwise(iter(xs))) != list(zip(xs, xs[1:])):
            bad.append('pairwise: not the consecutive pairs')
        m = mapstr(xs, limit=c['limit'])
        full = [str(x) for x in xs]
        if not c['limit'] or c['limit'] >= len(xs):
            if m != full:
                bad.append('mapstr: elements are lost below the limit')
        else:
            k = m.index('...')
            rest = m[:k] + m[k + 1:]
            if len(rest) > c['limit'] or m[:k] != full[:k] or (m[k + 1:] and m[k + 1:] != full[-len(m[k + 1:]):]):
                bad.append('mapstr: a limited list is not head, ellipse and tail of at most limit elements')
        if setstr(xs, limit=c['limit']) != ', '.join(m):
            bad.append('setstr: not the joined list of strings')
        t = setstr_int(set(xs), sep_inner='')
        back = set()
        for part in t.split(', '):
            if '...' in part:
                u, v = part.split('...')
                back |= set(range(int(u), int(v) + 1))
            else:
                back.add(int(part))
        if back != set(xs):
            bad.append('setstr_int: the string denotes another set')
        if ifnan(c['a'], 1.) != c['a'] or ifnan(math.nan, c['b']) != c['b'] or ifnan(2., 1., lambda x: x * 3) != 6. \
                or ifnan(math.nan, 1., lambda x: x * 3) != 1.:
            bad.append('ifnan: neither the value nor the replacement')
        ls = np.asarray(linspace(c['a'], c['b'], c['num']))
        want = np.linspace(c['a'], c['b'], c['num']) if c['num'] > 1 else np.array([(c['a'] + c['b']) / 2])
        if ls.shape != want.shape or not np.allclose(ls, want):
            bad.append('linspace: not the evenly spaced numbers (the centre for one number)')
        ci = ConfInterval(c['a'], c['b'], 3.)
        if ci.totuple() != (c['b'], c['a'], 3.):
            bad.append('ConfInterval: other numbers than given')
        r_ = np.zeros(3)
        ci.tomemview(r_)
        if list(r_) != [c['b'], c['a'], 3.]:
            bad.append('ConfInterval: other numbers written to the array')
        try:
            v = ci.tomemview()
            if v is None or list(np.asarray(v)) != [c['b'], c['a'], 3.]:
                bad.append('ConfInterval: no array of its numbers is returned')
        except (TypeError, AttributeError):
            bad.append('ConfInterval: no array of its numbers is returned')
        p = c['p']
        if sum(p):
            p = [x / sum(p) for x in p]
            e = -sum(x * math.log2(x) for x in p if x)
            if abs(entropy(p) - e) > 1e-9 or abs(entropy({str(j): x for j, x in enumerate(p)}) - e) > 1e-9:
                bad.append('entropy: not that of the distribution')
            if abs(max_entropy(len(p)) - math.log2(len(p))) > 1e-9:
                bad.append('max_entropy: not the logarithm of the number of states')
            if abs(rel_entropy(p) - (e / math.log2(len(p)) if len(p) > 1 else 0)) > 1e-9:
                bad.append('rel_entropy: not the entropy relative to the maximal one')
            if abs(gini(p) - sum(x * (1 - x) for x in p) / len(p)) > 1e-9:
                bad.append('gini: not the mean of p (1 - p)')
        if prod(xs) != math.prod(xs):
            bad.append('prod: not the product')
        g = list(none2nan([1, None, 0]))
        if g[0] != 1 or g[1] == g[1] or g[2] != 0:
            bad.append('none2nan: not the same elements with nan for None')
        if to_json({'a': [1, {'b': 'x'}], 2: 1.5}) != {'a': [1, {'b': 'x'}], '2': 1.5}:
            bad.append('to_json: the structure changes')
        return bad
