"""C05 to C10."""
import collections
import itertools
import math
import random as _random

from fauxdoc import mathtools
from . import monitor, check, Bad
from .gen import *


class Tok:
    """A hashable item that tells its position; equal to those of the same
    class k."""
    __slots__ = ('i', 'k')

    def __init__(self, i, k):
        self.i, self.k = i, k

    def __eq__(self, o):
        return isinstance(o, Tok) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f'<{self.i}:{self.k}>'


def toks(g, n=None, cap=1500):
    n = g.size(1, cap) if n is None else n
    d = g.r.choice([None, None, 1, 2, max(1, n // 2)])
    return [Tok(i, i if d is None else i % d) for i in range(n)]


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300) or \
        abs(a - b) < 1e-12


def cum(ws):
    return list(itertools.accumulate(ws))


@monitor('C05', 260)
def without_replacement(g):
    r = g.r
    items = toks(g)
    n = len(items)
    spec = g.choice_spec(items, replace=False, roac=False)
    g.note(spec)
    o = build(spec)
    emitted = []
    replacing = False
    for _ in range(r.randint(1, 14)):
        left = n - len(emitted)
        x = r.random()
        if not replacing:
            check(o.num_unique_items == left, lambda: 'remaining: '
                  f'{o.num_unique_items}, not {left}')
        if x < 0.06:
            g.note('reset')
            o.reset()
            emitted = []
        elif x < 0.12:
            s = g.seed()
            g.note('seed', s)
            o.seed(s)
            emitted = []
        elif x < 0.18:
            w = r.choice([None, g.weights(n), [1] * n])
            g.note('weights', w)
            o.weights = w
            emitted = []
        elif x < 0.22:
            w = cum(g.weights(n))
            g.note('cum_weights', w)
            o.cum_weights = w
            emitted = []
        elif x < 0.28:
            g.note('replace off and on' if not replacing else 'off')
            o.replace = True
            check(o.num_unique_items == n, 'items when replacing')
            for _ in range(r.randint(0, 3)):
                o(r.randint(0, 3))
            o.replace = False
            emitted = []
        elif x < 0.32:
            g.note('roac on, replace off')
            o.replace_only_after_call = True
            o(min(2, left and 1))
            o.replace = False
            check(not o.replace_only_after_call, 'replaces after calls')
            emitted = []
        elif x < 0.36:
            g.note('roac = False')
            o.replace_only_after_call = False
        elif x < 0.40:
            g.note('replace = False')
            o.replace = False
        elif x < 0.50:
            m = left + r.choice([1, 2, n, g.size(1)])
            g.note('too many', m)
            try:
                v = o(m)
            except ValueError:
                pass
            else:
                raise Bad(f'{m} of {left} values emitted: {v!r}')
            if left == 0:
                try:
                    v = o()
                except ValueError:
                    pass
                else:
                    raise Bad(f'value emitted of none left: {v!r}')
        else:
            m = r.choice([None, 0, 1, left, g.size(0, max(left, 0))])
            m = m if m is None else min(m, left)
            if left == 0 and m is None:
                continue
            g.note('call', m)
            got = [o()] if m is None else o(m)
            check(len(got) == (1 if m is None else m), 'number of values')
            emitted += [t.i for t in got]
        check(len(set(emitted)) == len(emitted), lambda:
              f'position emitted twice: {emitted}')
        check(o.num_unique_items == n - len(emitted), lambda:
              f'remaining: {o.num_unique_items}, not {n - len(emitted)}')
    if r.random() < 0.6:
        left = n - len(emitted)
        for m in g.split(left):
            emitted += [t.i for t in ([o()] if m is None else o(m))]
        check(sorted(emitted) == list(range(n)), 'not all were emitted: '
              f'{sorted(set(range(n)) - set(emitted))[:10]}')
        for bad in (None, 1, 2):
            try:
                v = o() if bad is None else o(bad)
            except ValueError:
                pass
            else:
                raise Bad(f'emits {v!r} when run out')
        check(o.num_unique_items == 0, 'remaining when run out')


@monitor('C05', 60)
def failing_call_uses_up_nothing(g):
    r = g.r
    items = toks(g, cap=200)
    spec = g.choice_spec(items, replace=False, roac=False,
                         seed=g.seed())
    a, b = build(spec), build(spec)
    n = len(items)
    k = r.randint(0, n)
    g.note(spec, k)
    a(k), b(k)
    for _ in range(r.randint(1, 3)):
        m = n - k + r.choice([1, 2, 5, n])
        try:
            a(m)
        except ValueError:
            pass
        else:
            raise Bad('too many values emitted')
    check(a.num_unique_items == b.num_unique_items == n - k, 'remaining')
    check([t.i for t in a(n - k)] == [t.i for t in b(n - k)],
          'a failing call changed what follows')


@monitor('C06', 260)
def per_call_replacement(g):
    r = g.r
    items = toks(g)
    n = len(items)
    spec = g.choice_spec(items, replace=r.random() < 0.7, roac=True)
    g.note(spec)
    o = build(spec)

    def positive():
        w = o.weights
        if w is None:
            return n
        return sum(1 for x in w if x)
    for _ in range(r.randint(1, 8)):
        x = r.random()
        p = positive()
        if x < 0.1:
            g.note('reset')
            o.reset()
        elif x < 0.16:
            s = g.seed()
            g.note('seed', s)
            o.seed(s)
        elif x < 0.22:
            w = r.choice([None, g.weights(n)])
            if r.random() < 0.5:
                g.note('weights', w)
                o.weights = w
            else:
                w = w and cum(w)
                g.note('cum_weights', w)
                o.cum_weights = w
        elif x < 0.28:
            g.note('off and on again')
            o.replace = False
            o(r.randint(0, n))
            o.replace_only_after_call = True
        elif x < 0.38:
            m = n + r.choice([1, 2, n, g.size(1)])
            if m < 2:
                continue
            g.note('too many', m)
            try:
                v = o(m)
            except ValueError:
                pass
            else:
                raise Bad(f'{m} of {n} items emitted in one call: {v!r}')
        else:
            m = r.choice([0, 1, 2, p, p, n, g.size(0, p)])
            m = min(m, p) if m != n else n
            g.note('call', m)
            got = o(m)
            ids = [t.i for t in got]
            check(len(ids) == m, 'number of values')
            check(len(set(ids)) == m, lambda: f'repeats within a call: {got}')
            if r.random() < 0.2:
                check(o() in items, 'single value')


@monitor('C07', 260)
def own_items(g):
    r = g.r
    items = toks(g, cap=700)
    n = len(items)
    spec = g.choice_spec(items)
    g.note(spec)
    o = build(spec)
    for _ in range(r.randint(1, 8)):
        x = r.random()
        if x < 0.08:
            o.reset()
            g.note('reset')
        elif x < 0.15:
            s = g.seed()
            o.seed(s)
            g.note('seed', s)
        elif x < 0.30:
            w = r.choice([None, g.weights(n), g.weights(n)])
            g.note('weights', w)
            o.weights = w
        elif x < 0.36:
            w = cum(g.weights(n))
            g.note('cum_weights', w)
            o.cum_weights = w
        elif x < 0.45:
            v = r.random() < 0.5
            g.note('replace', v)
            o.replace = v
        elif x < 0.52:
            v = r.random() < 0.5
            g.note('replace_only_after_call', v)
            o.replace_only_after_call = v
        else:
            m = r.choice([None, 1, 2, g.size(0, 400)])
            g.note('call', m)
            try:
                got = [o()] if m is None else o(m)
            except ValueError:
                check(not o.replace or o.replace_only_after_call,
                      'ValueError with replacement')
                continue
            ids = [getattr(t, 'i', None) for t in got]
            check(all(i is not None and items[i] is t
                      for i, t in zip(ids, got)), lambda:
                  f'not an item: {got}')
            w = o.weights
            if o.replace and w is not None and n > 1 and (
                    not o.replace_only_after_call or m in (None, 1)):
                check(all(w[i] > 0 for i in ids), lambda:
                      f'weight zero: {[i for i in ids if not w[i] > 0]} of '
                      f'{w}')


class Scripted(_random.Random):
    """Generator with chosen outcomes, extreme ones among them."""

    def __new__(cls, *a):
        return super().__new__(cls)

    def __init__(self, vals, seed):
        self.vals, self.k = vals, 0
        super().__init__(seed)

    def random(self):
        self.k += 1
        if self.k <= len(self.vals):
            v = self.vals[self.k - 1]
            if v is not None:
                return v
        return super().random()


EXTREME = [0.0, 2.0 ** -53, 1 - 2.0 ** -53, 0.5, 1e-300, 0.25, 0.9999999]


@monitor('C07', 120)
def weights_respected(g):
    """Extreme outcomes of the generator; chances; frequencies."""
    r = g.r
    k = r.randint(0, 3)
    if k == 0:
        n = g.size(2, 60)
        w = list(g.weights(n))
        if r.random() < 0.5:
            w[-1] = 0
        if r.random() < 0.5:
            w[0] = 0
        if not any(w):
            w[r.randrange(n)] = 2
        items = list(range(n))
        o = choice.Choice(items, weights=w) if r.random() < 0.5 else \
            choice.Choice(items, cum_weights=cum(w))
        g.note('extreme outcomes', w)
        o.rng = Scripted([r.choice(EXTREME + [None]) for _ in range(80)],
                         g.seed())
        for m in (None, 1, 2, 30, None):
            got = [o()] if m is None else o(m)
            for i in got:
                check(0 <= i < n and w[i] > 0, f'item {i} of weight zero')
    elif k == 1:
        p = r.choice([1, 1.0, 1.5, 7, 2.5, 0, 0.0, -0.5, -3, -1])
        o = choice.chance(p, rng_seed=g.seed())
        g.note('chance', p)
        if r.random() < 0.5:
            o.rng = Scripted([r.choice(EXTREME) for _ in range(40)],
                             g.seed())
        for m in (None, 1, 2, 50, 300):
            got = [o()] if m is None else o(m)
            check(all(x is (p >= 1) for x in got), f'chance({p}): {got}')
    elif k == 2:
        p = r.choice([0.1, 0.25, 0.5, 0.9, 1 / 3, 0.01, 0.999])
        o = choice.chance(p, rng_seed=g.seed())
        g.note('frequency of chance', p)
        N = 4000
        split = r.choice([0, 1])
        t = sum(o(N)) if split else sum(o() for _ in range(N))
        sd = math.sqrt(N * p * (1 - p))
        check(abs(t - N * p) <= 6 * sd + 1, f'True {t} times of {N}')
        check(sorted(o.items) == [False, True], 'items')
        w = o.weights
        check(w is not None and len(w) == 2 and
              close(w[list(o.items).index(True)], p) and
              close(w[list(o.items).index(False)], 1 - p), f'weights {w}')
    else:
        n = r.randint(2, 6)
        w = [r.choice([0, 1, 2, 5]) for _ in range(n)]
        if not any(w):
            w[0] = 1
        o = choice.Choice(range(n), weights=w, rng_seed=g.seed())
        g.note('frequencies', w)
        N = 5000
        c = collections.Counter(o(N) if r.random() < 0.5 else
                                [o() for _ in range(N)])
        for i in range(n):
            p = w[i] / sum(w)
            check(abs(c[i] - N * p) <= 6 * math.sqrt(N * p * (1 - p)) + 1,
                  f'{i} emitted {c[i]} times of {N}')


@monitor('C08', 320)
def settings(g):
    r = g.r
    items = g.items(cap=300)
    n = len(items)
    mode = r.choice([None, 'weights', 'cum'])
    spec = g.choice_spec(items, mode or False)
    if mode is None:
        spec[2].pop('weights', None)
        spec[2].pop('cum_weights', None)
    g.note(spec)
    o = build(spec)
    kw = spec[2]
    W = list(kw['weights']) if 'weights' in kw else None
    if 'cum_weights' in kw:
        c = kw['cum_weights']
        W = [b - a for a, b in zip([0] + c, c)]
    roac = bool(kw['replace_only_after_call'])
    rep = bool(kw['replace']) or roac

    def consistent(after):
        w, c = o.weights, o.cum_weights
        check((w is None) == (c is None), f'{after}: weights {w}, '
              f'cumulative {c}')
        check((w is None) == (W is None), f'{after}: weights {w}')
        if w is not None:
            check(len(w) == n and len(c) == n, f'{after}: lengths')
            check(all(close(a, b) or abs(a - b) < 1e-9 * max(map(abs, cc))
                      for a, b in zip(w, W)), f'{after}: weights {w}')
            check(all(close(a, b) or abs(a - b) < 1e-9 * max(map(abs, cc))
                      for a, b in zip(c, cc)),
                  f'{after}: cumulative weights {c}, not {cc}')
        check(bool(o.replace) == rep, f'{after}: replace {o.replace}')
        check(bool(o.replace_only_after_call) == roac,
              f'{after}: replace_only_after_call '
              f'{o.replace_only_after_call}')
    cc = cum(W) if W is not None else None
    consistent('construction')
    for _ in range(r.randint(1, 10)):
        x = r.random()
        if x < 0.2:
            W = r.choice([None, list(g.weights(n))])
            after = f'weights = {W}'
            o.weights = W
        elif x < 0.38:
            W = r.choice([None, list(g.weights(n))])
            c = None if W is None else cum(W)
            after = f'cum_weights = {c}'
            o.cum_weights = c
        elif x < 0.52:
            rep = r.random() < 0.5
            if not rep:
                roac = False
            after = f'replace = {rep}'
            o.replace = rep
        elif x < 0.68:
            roac = r.random() < 0.5
            if roac:
                rep = True
            v = r.choice([roac, roac, int(roac), 'yes' if roac else '',
                          [0] if roac else None])
            after = f'replace_only_after_call = {v!r}'
            o.replace_only_after_call = v
        elif x < 0.84:
            m = r.choice([n + 1, n - 1, 2 * n, 0, n + 7])
            if m == n:
                continue
            bad = [1] * m
            which = r.choice(['weights', 'cum_weights'])
            after = f'{which} = {bad}'
            try:
                setattr(o, which, bad if which == 'weights' else cum(bad))
            except ValueError:
                pass
            else:
                raise Bad(f'{after} is accepted for {n} items')
        elif x < 0.9:
            after = 'reset'
            o.reset()
        else:
            after = 'call'
            m = g.r.choice([None, 1, 2])
            use(o, m)
        g.note(after)
        cc = cum(W) if W is not None else None
        consistent(after)


@monitor('C08', 60)
def any_sign(g):
    """Weights of any sign, of which none is drawn: the two stay in step."""
    r = g.r
    n = r.choice([1, 2, 3, g.size(1, 40)])
    o = choice.Choice(list(range(n)))
    for _ in range(3):
        w = [r.choice([0, 1, -1, 2, -3, r.randint(-9, 9)])
             for _ in range(n)]
        which = r.choice(['weights', 'cum_weights'])
        new = r.random() < 0.4
        g.note(which, w, new)
        kw = {which: w if which == 'weights' else cum(w)}
        if new:
            o = choice.Choice(list(range(n)), **kw)
        else:
            setattr(o, which, kw[which])
        check(list(o.weights) == w, lambda: f'weights {o.weights}, not {w}')
        check(list(o.cum_weights) == cum(w),
              lambda: f'cumulative {o.cum_weights}, not {cum(w)}')


@monitor('C08', 60)
def construction_refused(g):
    r = g.r
    n = g.size(1, 50)
    m = r.choice([n + 1, max(1, n - 1), 2 * n + 1])
    g.note(n, m)
    if m == n:
        m = n + 1
    items = list(range(n))
    for kw in ({'weights': [1] * m}, {'cum_weights': list(range(1, m + 1))}):
        for rep in (True, False):
            try:
                choice.Choice(items, replace=rep, **kw)
            except ValueError:
                continue
            raise Bad(f'{m} weights for {n} items accepted')


@monitor('C09', 420)
def shuffle(g):
    r = g.r
    n = g.size(0, 600)
    items = toks(g, n)
    w = list(g.weights(n, positive=r.choice([0, 1, 1, n // 2])))
    pos = sum(1 for x in w if x)
    rng = _random.Random(g.seed()) if r.random() < 0.5 else Scripted(
        [r.choice(EXTREME + [None]) for _ in range(60)], g.seed())
    k = r.choice([None, 0, 1, pos, int(n * 0.42), int(n * 0.42) + 1,
                  g.size(0, max(pos, 0)), pos // 2, n])
    if k is not None and k != n:
        k = min(k, pos)
    if k is not None and k <= n * 0.42 and k > pos:
        k = pos
    its = tuple(items) if r.random() < 0.4 else list(items)
    ws = tuple(w) if r.random() < 0.4 else list(w)
    i0, w0 = list(its), list(ws)
    g.note(n, w, k, type(rng).__name__, getattr(rng, 'vals', None))
    got = mathtools.weighted_shuffle(its, ws, rng, k) if k is not None or \
        r.random() < 0.5 else mathtools.weighted_shuffle(its, ws, rng)
    kk = n if k is None else k
    check(isinstance(got, list) and len(got) == kk, lambda:
          f'{len(got)} items, not {kk}')
    ids = [t.i for t in got]
    check(len(set(ids)) == len(ids), f'position taken twice: {ids}')
    zero = [i for i in ids if not w[i]]
    check(not zero or all(not w[i] for i in ids[len(ids) - len(zero):]),
          f'zero weight before a positive one: {ids}')
    if zero:
        check(len(ids) - len(zero) == pos, 'zero weight before a positive '
              'one that was not taken')
    check(list(its) == i0 and all(a is b for a, b in zip(its, i0)),
          'items modified')
    check(list(ws) == w0, 'weights modified')


@monitor('C09', 60)
def shuffle_refused(g):
    n = g.size(0, 60)
    m = g.r.choice([n + 1, max(0, n - 1), 2 * n + 1, 0])
    if m == n:
        m += 1
    k = g.r.choice([None, 0, 1, min(m, n)])
    g.note(n, m, k)
    try:
        v = mathtools.weighted_shuffle(list(range(n)), [1] * m,
                                       _random.Random(1), k)
    except ValueError:
        return
    raise Bad(f'{m} weights for {n} items accepted: {v}')


@monitor('C09', 40)
def shuffle_weights_matter(g):
    """First positions follow the weights; all outcomes are possible."""
    r = g.r
    n = r.choice([2, 3, 4, 5, 8])
    w = [r.choice([1, 2, 5, 10]) for _ in range(n)]
    k = r.choice([None, 1, 2, n])
    rng = _random.Random(g.seed())
    g.note(w, k)
    N = 2000
    first = collections.Counter()
    for _ in range(N):
        first[mathtools.weighted_shuffle(range(n), w, rng, k)[0]] += 1
    for i in range(n):
        p = w[i] / sum(w)
        check(abs(first[i] - N * p) <= 6.5 * math.sqrt(N * p * (1 - p)) + 1,
              f'{i} comes first {first[i]} times of {N}')


def poisson_ref(x, mu):
    if not mu:
        return 0.0 if x else 1.0
    return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))


def gauss_ref(x, mu, s):
    return math.exp(-((x - mu) / s) ** 2 / 2) / (s * math.sqrt(2 * math.pi))


def near(a, b, rel=1e-8):
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b)) or \
        max(abs(a), abs(b)) < 1e-280


@monitor('C10', 300)
def formulas(g):
    r = g.r
    k = r.randint(0, 2)
    if k == 0:
        x = g.size(0, 3000)
        mu = r.choice([1, 2, 0, 0.0, 0.5, 10, 3, 99.5, 0.001, 300, 600,
                       r.random() * 30 + 1e-9])
        g.note('poisson', x, mu)
        got = mathtools.poisson(x, mu)
        check(near(got, poisson_ref(x, mu), 1e-7),
              lambda: f'{got}, not {poisson_ref(x, mu)}')
        check(mathtools.poisson(x) == mathtools.poisson(x, 1), 'default mu')
    elif k == 1:
        x = r.choice([0, 1, -3, g.size(), r.random() * 10, -r.random()])
        mu = r.choice([0, 1, -2, 5.5, r.random() * 50])
        s = r.choice([1, 0.5, 2, 10, 0.1, r.random() + 0.01])
        g.note('gaussian', x, mu, s)
        got = mathtools.gaussian(x, mu, s)
        check(near(got, gauss_ref(x, mu, s)),
              lambda: f'{got}, not {gauss_ref(x, mu, s)}')
        check(near(mathtools.gaussian(x), gauss_ref(x, 0, 1)), 'defaults')
        check(near(mathtools.gaussian(x, mu), gauss_ref(x, mu, 1)),
              'default sigma')
    else:
        pool = [None, 0, -1, 1, 5, 2.5, -0.5, 10, 0.0, g.size(), -g.size()]
        x = r.choice(pool[1:])
        lo, hi = r.choice(pool), r.choice(pool)
        if lo is not None and hi is not None and lo > hi:
            lo, hi = hi, lo
        g.note('clamp', x, lo, hi)
        want = x
        if lo is not None and x < lo:
            want = lo
        if hi is not None and x > hi:
            want = hi
        for got in (mathtools.clamp(x, lo, hi),
                    mathtools.clamp(x, mn=lo, mx=hi)):
            check(got == want and type(got) is type(want),
                  f'{got!r}, not {want!r}')


@monitor('C10', 160)
def factories(g):
    r = g.r
    n = g.size(1, 700)
    items = toks(g, n)
    its = tuple(items) if r.random() < 0.5 else items
    floor = r.choice([0, 0, 0.01, 0.5, 1e-5, 1])
    kw = {}
    if r.random() < 0.6:
        kw['replace'] = r.random() < 0.5
    if r.random() < 0.4:
        kw['replace_only_after_call'] = r.random() < 0.5
    if r.random() < 0.4:
        kw['noun'] = r.choice(['', 'thing'])
    kw['rng_seed'] = g.seed()
    if floor or r.random() < 0.5:
        kw['weight_floor'] = floor
    if r.random() < 0.5:
        mu = r.choice([1, 2, 7, 0.5, 30])
        make, ref = choice.poisson_choice, lambda x: poisson_ref(x, mu)
        if mu != 1 or r.random() < 0.5:
            kw['mu'] = mu
    else:
        mu = r.choice([0, 1, 5, -2, 20])
        s = r.choice([1, 2, 0.7, 10])
        make, ref = choice.gaussian_choice, lambda x: gauss_ref(x, mu, s)
        if mu or r.random() < 0.5:
            kw['mu'] = mu
        if s != 1 or r.random() < 0.5:
            kw['sigma'] = s
    g.note(make.__name__, n, kw)
    o = make(its, **kw)
    want = [max(ref(x), floor) for x in range(1, n + 1)]
    w = o.weights
    check(w is not None and len(w) == n, 'weights of all items')
    for x in range(n):
        check(near(w[x], want[x], 1e-7), lambda:
              f'weight of item {x + 1}: {w[x]}, not {want[x]}')
    roac = kw.get('replace_only_after_call', False)
    check(bool(o.replace) == bool(kw.get('replace', True) or roac),
          f'replace {o.replace}')
    check(bool(o.replace_only_after_call) == roac, 'replace_only_after_call')
    check(o.noun == kw.get('noun', ''), f'noun {o.noun!r}')
    check(o.rng_seed == kw['rng_seed'], f'seed {o.rng_seed!r}')
    check(list(o.items) == items and
          all(a is b for a, b in zip(o.items, items)), 'items')
    twin = choice.Choice(its, weights=w, replace=o.replace,
                         replace_only_after_call=roac,
                         rng_seed=kw['rng_seed'])
    pos = sum(1 for x in w if x > 0)
    m = min(5, pos)
    a, b = o(m), twin(m)
    check([t.i for t in a] == [t.i for t in b], 'emits other than a choice '
          'emitter with these settings')
