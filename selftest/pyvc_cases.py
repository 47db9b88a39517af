"""Small functions the verifier is compared with CPython on.

Each is called with symbolic lists and integers that are only *assumed* to
equal the inputs, so that the treatment of loops of unknown length is used.
"""
import contextlib
from datetime import datetime, timedelta
import functools
import itertools
import operator

LISTS = [[], [3], [1, 2, 3], [0, -2, 5, 5, 0], [4, 4, 4], [-1, 0, 1, 2, 7, 2]]
CASES = []


def case(*inputs):
    def deco(f):
        CASES.append((f, inputs or tuple((x,) for x in LISTS)))
        return f
    return deco


# functions whose result the verifier knows less about than its value (the
# order of sorted, the text of a number): no wrong value may be proved
WEAK = {'ordered', 'distinct', 'texts', 'text_of', 'nested_break',
        'nested_search'}
PAIRS = tuple((x, k) for x in LISTS for k in (-1, 0, 2, 7))


@case()
def double_all(xs):
    return [2 * x for x in xs]


@case()
def positive_only(xs):
    return [x for x in xs if x > 0]


@case()
def positive_and_rest(xs):
    pos, rest = [], []
    for x in xs:
        if x > 0:
            pos.append(x)
        else:
            rest.append(-x)
    return pos, rest


@case()
def skips(xs):
    out = []
    for x in xs:
        if x == 0:
            continue
        out.append(x)
        out.append(x + 1)
    return out


@case()
def count_and_sum(xs):
    n = total = 0
    for x in xs:
        n += 1
        total += x
    return n, total


@case()
def running(xs):
    total, out = 10, []
    for x in xs:
        out.append(total)
        total -= x
    return out, total


@case()
def first_zero(xs):
    for i, x in enumerate(xs):
        if x == 0:
            return i
    return None


@case()
def first_zero_else(xs):
    at = -5
    for at, x in enumerate(xs, 1):
        if x == 0:
            break
    else:
        at = at + 100
    return at


@case()
def last_one(xs):
    last = 'nothing'
    for x in xs:
        last = x
    return last


@case()
def previous_of(xs):
    prev, out = None, []
    for x in xs:
        out.append(prev)
        prev = x
    return out


@case()
def largest_so_far(xs):
    best = 0
    for x in xs:
        if x > best:
            best = x
    return best


@case()
def alternate(xs):
    flag, n = False, 0
    for x in xs:
        flag = not flag
        if flag:
            n += x
    return n, flag


@case()
def fibonacci_like(xs):
    a, b = 0, 1
    for x in xs:
        a, b = b, a + b
    return a


@case()
def while_index(xs):
    i, out = 0, []
    while i < len(xs):
        out.append(xs[i] * i)
        i += 1
    return out, i


@case()
def while_down(xs):
    i, out = len(xs), []
    while i > 0:
        i -= 1
        out.append(xs[i])
    return out, i


@case()
def while_true(xs):
    i = 0
    while True:
        if i == len(xs):
            break
        if xs[i] < 0:
            return 'negative', i
        i += 1
    return 'all', i


@case()
def while_pop(xs):
    rest, n = list(xs), 0
    while rest:
        rest.pop()
        n += 2
    return n


@case(*PAIRS)
def head_of(xs, k):
    return xs[:k], xs[k:], xs[k:k + 2], xs[::-1]


@case(*PAIRS)
def item_at(xs, k):
    return xs[k]


@case(*PAIRS)
def item_or(xs, k):
    try:
        return xs[k]
    except IndexError:
        return 'none'
    finally:
        k = 17


@case(*PAIRS)
def division(xs, k):
    return [x // k for x in xs], [x % k for x in xs]


@case((-7, 2), (7, -2), (-7, -2), (6, 3), (0, 5), (5, 0))
def divide(a, b):
    return a // b, a % b, divmod(a, b)


@case((-7, 2), (7, 2), (6, 3), (0, 5), (5, 0))
def true_division(a, b):
    return a / b > 1, int(a / b)


@case(*PAIRS)
def repeated(xs, k):
    return xs * k, [k] * len(xs)


@case(*PAIRS)
def within(xs, k):
    return k in xs, k not in xs, xs.count(k) if k else 0


@case(*PAIRS)
def ranges(xs, k):
    return list(range(k)), list(range(k, len(xs))), \
        list(range(len(xs), k, -1)), [xs[i] for i in range(0, len(xs), 2)]


@case(*PAIRS)
def zipped(xs, k):
    return [a + b for a, b in zip(xs, range(k))], \
        list(zip(xs, xs[1:])), [tuple(p) for p in enumerate(xs, k)]


@case(*PAIRS)
def chained(xs, k):
    return list(itertools.chain(xs, [k], xs)), \
        list(itertools.islice(xs, max(k, 0)))


@case()
def nested_flat(xs):
    return [y for x in xs for y in (x, x + 1)]


@case()
def nested_filter(xs):
    return [y for x in xs for y in xs if x < y]


@case()
def sums(xs):
    return sum(xs), sum(x > 0 for x in xs), sum(xs, 4), \
        list(itertools.accumulate(xs))


@case()
def extremes(xs):
    return max(xs), min(xs), max(xs, default=3)


@case()
def extremes_default(xs):
    return max(xs, default=9), min((x for x in xs if x > 1), default=-9)


@case()
def quantified(xs):
    return any(xs), all(xs), any(x > 4 for x in xs), \
        all(x > -2 for x in xs)


@case()
def ordered(xs):
    return sorted([1, 0, 2, 1]), sorted(['b', 'a'], reverse=True), \
        len(sorted(xs))


@case()
def mapped(xs):
    return list(map(operator.neg, xs)), list(filter(None, xs)), \
        list(map(lambda a, b: a - b, xs, xs[1:]))


@case()
def generated(xs):
    def gen():
        for x in xs:
            if x:
                yield x
        yield 'end'
    return list(gen())


@case()
def delegated(xs):
    def gen():
        yield 0
        yield from xs
    return list(gen())


@case()
def taken(xs):
    it = iter(xs)
    first = next(it, 'no')
    rest = list(it)
    return first, rest


@case()
def taken_in_turns(xs):
    it = iter(xs + [8, 9])
    a = next(it)
    b = next(it)
    return a, b, sum(it)


@case()
def dicts(xs):
    d = {'a': 1}
    d['n'] = len(xs)
    d.update(b=2)
    d['a'] += 5
    return list(d.items()), d.get('z', 4), 'n' in d, d.pop('b'), len(d)


@case()
def dict_of(xs):
    d = {str(k): k for k in (1, 2, 3)}
    return list(d), list(d.values()), {**d, 'x': 0}


@case()
def dict_keyed(xs):
    seen = {}
    for i, x in enumerate(xs):
        seen[i] = x
    return list(seen.items())


@case()
def sets(xs):
    s = {1, 2} | {2, 3}
    s.add(2)
    return len(s), 2 in s, 5 in s, s - {1} == {2, 3}


@case()
def distinct(xs):
    return len(set(xs)) == len(xs)


@case()
def texts(xs):
    return ', '.join(str(x) for x in xs), 'ab' + 'cd', 'x' * 3, \
        f'{len(xs)}-{"y"}'


@case((3,), (-12,), (0,))
def text_of(k):
    return str(k), f'<{k}>', '%s!' % k, len(str(k))


@case()
def aliased(xs):
    a = list(xs)
    b = a
    b.append(1)
    b += [2]
    c = b
    c = c + [3]
    return a, b, c, a is b, b is c


@case()
def rebound(xs):
    base = [0]
    acc = base
    for x in xs:
        acc = acc + [x]
    return base, acc


@case()
def extended_in_loop(xs):
    base = [0]
    acc = base
    for x in xs:
        acc += [x, x]
    return base, acc


@case()
def mixed_aliasing(xs):
    base = [0]
    acc = base
    for x in xs:
        acc.append(x)
        acc = acc + [7]
    return base, acc


@case()
def copied(xs):
    a = [list(xs), [1]]
    b = list(a)
    b[1].append(5)
    b[0] = 'new'
    return a, b


@case()
def counters(xs):
    n = 0

    def inc(by=1):
        nonlocal n
        n += by
        return n
    for x in xs:
        inc(x)
    inc()
    return n


@case()
def closures(xs):
    fs = [lambda y, x=x: x * y for x in (1, 2, 3)]
    gs = [lambda y: x * y for x in (1, 2, 3)]
    return [f(10) for f in fs], [g(10) for g in gs]


def _star(*args, key='k', **kw):
    return args, key, list(kw)


@case()
def starred(xs):
    first, *rest = [1, 2, 3]
    return _star(*xs), _star(1, *[2], key='z', a=1, **{'b': 2}), first, rest


@case(*PAIRS)
def logic(xs, k):
    return xs and k, xs or k, not xs, k and 'yes' or 'no', \
        0 < k < 5, 'pos' if k > 0 else 'neg'


@case(*PAIRS)
def matched(xs, k):
    match k:
        case 0:
            return 'zero'
        case 2 | 3:
            return 'few'
        case n if n < 0:
            return n
        case _:
            return len(xs)


@case(*PAIRS)
def suppressed(xs, k):
    got = 'nothing'
    with contextlib.suppress(IndexError, KeyError):
        got = xs[k]
        got = got + 1
    return got


@case(*PAIRS)
def cleanup(xs, k):
    log = []
    try:
        log.append('try')
        if k == 0:
            raise ValueError('zero')
        log.append(xs[k])
    except ValueError as e:
        log.append(e.args[0])
    except LookupError:
        log.append('lookup')
    else:
        log.append('else')
    finally:
        log.append('finally')
    return log


@case(*PAIRS)
def reraised(xs, k):
    try:
        if k < 0:
            raise KeyError('k')
        return xs[k]
    except IndexError:
        raise TypeError('no')
    finally:
        if k == 7 and not xs:
            return 'swallowed'


class Base:
    count = 5

    def __init__(self, n, *args):
        self._n = n
        self.args = args

    @property
    def n(self):
        return self._n

    @n.setter
    def n(self, value):
        if value < 0:
            raise ValueError(value)
        self._n = value

    def twice(self):
        return 2 * self.n

    @classmethod
    def make(cls, n):
        return cls(n, 'made')

    @staticmethod
    def plus(a, b=1):
        return a + b

    def __len__(self):
        return 3

    def __call__(self, x):
        return self.plus(x, self.n)


class Derived(Base):
    def twice(self):
        return super().twice() + 1

    def __getattr__(self, name):
        if name == 'magic':
            return 'm'
        raise AttributeError(name)


@case((0,), (4,), (-3,))
def objects(k):
    d = Derived.make(1)
    d.n += 1
    d.count += 1
    before = d.twice()
    d.n = k
    return before, d.twice(), d.count, Base.count, d.args, len(d), \
        d(10), isinstance(d, Base), type(d) is Base, d.magic, \
        hasattr(d, 'other'), getattr(d, 'other', 3)


@case(*PAIRS)
def comparisons(xs, k):
    return k == 2, k != 2, [k] == [2], (1, 2) < (1, 3), None is None, \
        'a' < 'b', True + k


@case((0,), (1,), (5,))
def recursive(k):
    def fact(n):
        return 1 if n < 2 else n * fact(n - 1)
    return fact(5) + k


@case(*PAIRS)
def walrus(xs, k):
    if (n := len(xs)) > k:
        return n
    return -n


@case()
def filtered_loop(xs):
    out = []
    for x in (y for y in xs if y > 0):
        out.append(x)
        if x == 5:
            break
    return out


@case()
def picked(xs):
    out = {}
    for i, x in enumerate(xs):
        if x > 1:
            out[i] = x
    return list(out.items())


@case()
def partials(xs):
    add = functools.partial(operator.add, 3)
    return [add(x) for x in xs], add(4)


@case(*PAIRS)
def in_place(xs, k):
    a = list(xs)
    a[k] = 100
    return a


@case(*PAIRS)
def inserted(xs, k):
    a = [k]
    a.extend(xs)
    a.insert(0, 'first')
    return a


@case()
def peeled(xs):
    out = ''
    for i, x in enumerate(xs):
        if i > 0:
            out += '-'
        out += 'ab'
    return out


@case()
def product(xs):
    p = 1
    for x in xs:
        p *= 2
    return p


@case()
def transposed(xs):
    pairs = [(x, -x) for x in xs]
    if not pairs:
        return None
    a, b = zip(*pairs)
    return a, b


@case()
def bounded(xs):
    n = 0
    for x in xs:
        n = min(n + 1, 3)
    return n


@case(*PAIRS)
def stop_when(xs, k):
    total = 0
    for x in xs:
        if total > k:
            break
        total += 2
    return total


@case()
def two_loops(xs):
    a = []
    for x in xs:
        a.append(x + 1)
    b = []
    for y in a:
        if y > 2:
            b.append(y)
    return len(b), sum(a), b


@case()
def square_loops(xs):
    n = 0
    for x in xs:
        for y in xs:
            n += 1
    return n


@case()
def raises_in_loop(xs):
    out = []
    for x in xs:
        if x < 0:
            raise ValueError(x)
        out.append(x)
    return out


@case()
def tried_in_loop(xs):
    out = []
    for x in xs:
        try:
            if x < 0:
                raise ValueError('negative')
            out.append(x)
        except ValueError:
            out.append('bad')
        finally:
            out.append('.')
    return out


@case()
def nested_search(xs):
    for i, x in enumerate(xs):
        for j in range(i):
            if xs[j] == x:
                return i, j
    return None


@case()
def nested_break(xs):
    out = []
    for x in xs:
        for y in xs:
            if y == 0:
                break
            out.append((x, y))
    return out


@case(*PAIRS)
def same_lists(xs, k):
    return xs == [1, 2, 3], [k] + xs == xs + [k], xs[:1] == xs[1:2], \
        xs != xs[::-1], tuple(xs) == (3,)


@case(*PAIRS)
def keyed_twice(xs, k):
    d = {}
    for x in xs:
        d[x] = len(d)
        if len(d) > 100:
            break
    return k in d


@case(*PAIRS)
def key_given(xs, k):
    d = {k: 'k', 2: 'two'}
    d[0] = 'zero'
    return d[k], d.get(7, 'none'), len(d)


@case(*PAIRS)
def set_member(xs, k):
    s = set(xs)
    return k in s


@case()
def uneven(xs):
    return list(zip(xs, [7, 8])), list(zip([7, 8], xs)), \
        [a - b for a, b in zip(xs[1:], xs)], list(zip(range(2), 'abc'))


@case(*PAIRS)
def negative_slices(xs, k):
    return xs[-2:], xs[:-1], xs[-k:], xs[1:-1], xs[k:0], xs[-1:k]


@case(*PAIRS)
def stepping(xs, k):
    return list(range(10, k, -3)), list(range(k, 9, 2)), \
        len(range(k, 9, 2)), 5 in range(k, 9), list(reversed(xs))


@case(*PAIRS)
def until_sum(xs, k):
    total = 0
    for n, x in enumerate(xs):
        total += x * x
        if total > k:
            return n, total
    return -1, total


@case()
def groups(xs):
    out, current = [], []
    for x in xs:
        current = [x]
        out.append(current)
    return out


@case()
def shared_inner(xs):
    inner = []
    out = []
    for x in xs:
        inner.append(x)
        out.append(len(inner))
    return out, inner


@case(*PAIRS)
def window(xs, k):
    out = []
    for i in range(len(xs)):
        if i >= 1:
            out.append(xs[i] - xs[i - 1])
        else:
            out.append(k)
    return out


@case()
def sum_of_filtered(xs):
    return sum(x for x in xs if x > 1), \
        len([x for x in xs if x > 1]), \
        [x for x in [y + 1 for y in xs] if x > 1]


@case()
def flatten_lists(xs):
    lists = [[x] * 2 for x in xs]
    return [y for one in lists for y in one], sum(len(a) for a in lists)


@case()
def conditional_lists(xs):
    return [y for x in xs for y in ([x, x] if x > 0 else [])]


@case(*PAIRS)
def at_flat(xs, k):
    ys = [y for x in xs for y in ([x] if x > 0 else [])]
    try:
        return ys[k], ys[-1]
    except IndexError:
        return len(ys)


@case(*PAIRS)
def sliced_flat(xs, k):
    ys = [x for x in xs if x != 0]
    return ys[k:], ys[:k], ys[1:3] + ys[:1]


@case(*PAIRS)
def while_two(xs, k):
    i, j, out = 0, len(xs), []
    while i < j:
        out.append((i, j))
        i += 1
        j -= 1
    return out, i, j


@case(*PAIRS)
def while_value(xs, k):
    n = 0
    while n * n < len(xs) and n < 5:
        n += 1
    return n


@case(*PAIRS)
def while_else(xs, k):
    i = 0
    while i < len(xs):
        if xs[i] == k:
            found = True
            break
        i += 1
    else:
        found = False
    return found, i


@case()
def continue_while(xs):
    i, out = 0, []
    while i < len(xs):
        x = xs[i]
        i += 1
        if x <= 0:
            continue
        out.append(x)
    return out


@case()
def iterators(xs):
    it = iter(xs)
    out = []
    for x in it:
        if x == 0:
            break
        out.append(x)
    return out, list(it)


@case()
def next_until(xs):
    it = iter(xs)
    n = 0
    while True:
        try:
            n += next(it)
        except StopIteration:
            return n


@case(*PAIRS)
def cycled(xs, k):
    if not xs:
        return []
    return list(itertools.islice(itertools.cycle(xs), 7))


@case()
def counted_from(xs):
    return [i * x for i, x in zip(itertools.count(2), xs)]


@case()
def lazily(xs):
    log = []

    def gen():
        for x in xs:
            log.append(x)
            yield x
    got = list(gen())
    return got, log


@case()
def memo(xs):
    cache = {}

    def f(n):
        if n not in cache:
            cache[n] = n * 10
        return cache[n]
    return f(1), f(2), f(1), len(cache)


class Counter:
    made = 0

    def __init__(self, start):
        self.value = start

    def add(self, k):
        self.value += k
        return self


@case()
def object_state(xs):
    c = Counter(1)
    d = c
    for x in xs:
        c.add(x)
        d.value += 1
    return c.value, d.value, c is d


@case()
def object_list(xs):
    cs = [Counter(k) for k in (1, 2)]
    for x in xs:
        for c in cs:
            c.add(x)
    return [c.value for c in cs]


@case(*PAIRS)
def nested_functions(xs, k):
    def outer(a):
        def inner(b):
            return a + b + k
        return inner
    f = outer(100)
    k += 1
    return f(1)


@case(*PAIRS)
def exception_order(xs, k):
    log = []

    def note(x):
        log.append(x)
        return x
    try:
        [note(0), note(xs[k]), note(2)]
    except IndexError:
        log.append('out')
    return log


@case(*PAIRS)
def short_circuit(xs, k):
    log = []

    def note(x):
        log.append(x)
        return x
    r = note(k) and note(len(xs)) or note('last')
    s = all(note(x) for x in [1, k, 3])
    return r, s, log


@case(*PAIRS)
def any_stops(xs, k):
    log = []
    for x in xs:
        log.append(x)
        if any(y == x for y in (k, 5)):
            break
    return log


# ---------------------------------------------------------------------------
# Iterators: what is computed, and when


@case()
def lazy_map_unused(xs):
    log = []
    map(log.append, xs)
    return log


@case()
def lazy_generator_unused(xs):
    log = []

    def gen():
        for x in xs:
            log.append(x)
            yield x
    gen()
    return log


@case(*PAIRS)
def lazy_any_effects(xs, k):
    log = []

    def note(x):
        log.append(x)
        return x > k
    r = any(note(x) for x in xs)
    return r, log


@case(*PAIRS)
def lazy_interleaved(xs, k):
    log = []

    def gen():
        for x in xs:
            log.append(x)
            yield x + 1
        log.append(-1)
    for y in gen():
        log.append(y)
        if y > k:
            break
    return log


@case()
def lazy_mapped_loop(xs):
    log = []

    def f(x):
        log.append(x)
        return 2 * x
    for y in map(f, xs):
        log.append(y)
    return log


@case()
def lazy_next_effects(xs):
    log = []

    def gen():
        for x in xs:
            log.append(x)
            yield x
    first = next(gen(), None)
    return first, log


@case()
def lazy_late(xs):
    k = 1
    g = (x + k for x in xs)
    k = 5
    return list(g)


@case()
def lazy_two_parts(xs):
    k = 1
    g = (x + k for x in xs)
    a = next(g, 0)
    k = 5
    return a, list(g)


@case(*PAIRS)
def lazy_zip_consumes(xs, k):
    it = iter(xs)
    a = list(zip(it, [1, 2]))
    return a, list(it)


@case(*PAIRS)
def lazy_zip_consumes_less(xs, k):
    it = iter(xs)
    a = list(zip([1, 2], it))
    return a, list(it)


@case(*PAIRS)
def lazy_zip_three(xs, k):
    it, jt = iter(xs), iter([1, 2, 3])
    a = list(zip(it, [k], jt))
    return a, list(it), list(jt)


@case()
def lazy_pairs(xs):
    it = iter(xs)
    return list(zip(it, it))


@case()
def lazy_triples(xs):
    return [a + b + c for a, b, c in zip(*[iter(xs)] * 3)]


@case()
def lazy_enumerated(xs):
    it = iter(xs)
    next(it, 0)
    r = [(j, x) for j, x in enumerate(it, 2)]
    return r, list(it)


@case(*PAIRS)
def lazy_islice_effects(xs, k):
    log = []

    def gen():
        for x in xs:
            log.append(x)
            yield x
    return list(itertools.islice(gen(), 2)), log


@case(*PAIRS)
def lazy_in(xs, k):
    it = iter(xs)
    return k in it


@case(*PAIRS)
def lazy_in_twice(xs, k):
    it = iter(xs)
    return k in it, list(it)


@case()
def lazy_list_changed(xs):
    it = iter(xs)
    xs.append(9)
    return list(it)


@case()
def lazy_enumerate_set(xs):
    for j, x in enumerate(xs):
        xs[j] = x + 1
    return xs


@case()
def lazy_enumerate_ahead(xs):
    for j, x in enumerate(xs):
        if j + 1 < len(xs):
            xs[j + 1] = x
    return xs


@case()
def lazy_grows(xs):
    n = 0
    for x in xs:
        n += 1
        if len(xs) < 8:
            xs.append(x)
        if n > 20:
            break
    return n, xs


@case()
def lazy_chain(xs):
    it = iter(xs)
    first = next(it, 0)
    return list(itertools.chain([first], it, it))


@case()
def lazy_filter_effects(xs):
    log = []

    def odd(x):
        log.append(x)
        return x % 2
    r = [y for y in filter(odd, xs) if not log.append(-y)]
    return r, log


@case()
def lazy_finish(xs):
    log = []

    def gen():
        try:
            for x in xs:
                yield x
        finally:
            log.append('end')
    for x in gen():
        log.append(x)
        if x == 5:
            break
    return log


@case()
def lazy_body_raises(xs):
    def gen():
        for x in xs:
            try:
                yield x
            except ValueError:
                pass
    try:
        for x in gen():
            if x > 1:
                raise ValueError
    except ValueError:
        return 'out'
    return 'none'


@case()
def lazy_stop_iteration(xs):
    def gen():
        it = iter(xs)
        yield next(it)
        yield next(it)
    return list(gen())


@case()
def lazy_nested(xs):
    log = []

    def inner():
        for x in xs:
            log.append(x)
            yield x

    def outer():
        for y in inner():
            log.append(-y)
            yield 2 * y
            if y > 4:
                return
    for z in outer():
        log.append(z)
    return log


@case()
def lazy_yield_from(xs):
    def gen():
        yield 0
        yield from xs
        yield from (x + 1 for x in xs)
    return [y for y in gen()]


@case()
def lazy_list_of_raising(xs):
    log = []

    def f(x):
        if x > 4:
            raise ValueError
        log.append(x)
        return x
    try:
        r = list(map(f, xs))
    except ValueError:
        r = None
    return r, log


class Countdown:
    def __init__(self, n):
        self.n = n

    def __iter__(self):
        return self

    def __next__(self):
        if self.n <= 0:
            raise StopIteration
        self.n -= 1
        return self.n


@case((3, 0), (0, 0), (2, 5))
def lazy_protocol(k, j):
    return [x + j for x in Countdown(k)]


class Bag:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        for x in self.items:
            yield x * 2


@case()
def lazy_bag(xs):
    total = 0
    for x in Bag(xs):
        if x > 8:
            break
        total += x
    return total, sum(Bag(xs))


@case()
def lazy_max_changed(xs):
    d = {x: 1 for x in (1, 2)}
    for x in xs:
        for key in d:
            d[key] += x
    return d


@case()
def fromkeys_counts(xs):
    d = dict.fromkeys(xs)
    return len(d) == len(set(xs)), 3 in d, \
        len(dict.fromkeys(xs, 0)) - len(d)


@case()
def fromkeys_known(k):
    return list(dict.fromkeys((1, 2, 1, 3))), dict.fromkeys('ab', 2)


@case()
def del_entries(k, j):
    d = {k: 1, k + 1: 2, k + 3: 3}
    del d[k + 1]
    try:
        del d[j]
    except KeyError:
        return list(d), 'no'
    return list(d), len(d)


@case()
def time_replace(k, j):
    t = (datetime.min + timedelta(seconds=5000 + 7 * k)).time()
    u = t.replace(second=3, microsecond=0)
    try:
        w = t.replace(hour=j)
    except ValueError:
        w = None
    d = datetime(2020, 1, 2, 3, 4, 5) + timedelta(seconds=k)
    return u, w, d.replace(minute=7), d.weekday(), d.isoweekday()
