"""C01 and C11."""
import warnings

from . import monitor, check, Bad
from .gen import *


def is_count(o, n, g):
    if n is None:
        o()
        return 1
    r = o(n)
    check(isinstance(r, list), f'a call with {n} gives a '
          f'{type(r).__name__}, not a list')
    check(len(r) == n, f'a call with {n} gives {len(r)} values')
    return n


@monitor('C01', 260)
def counts(g):
    """Any emitter, any history of calls, resets and reseedings."""
    spec = g.emitter_spec(2)
    ops = []
    for _ in range(g.r.randint(1, 7)):
        x = g.r.random()
        if x < 0.3:
            ops.append(None)
        elif x < 0.85:
            ops.append(g.size(0, 1200))
        elif x < 0.95:
            ops.append('reset')
        else:
            ops.append('seed')
    g.note(spec, ops)
    o = build(spec)
    for op in ops:
        if op == 'reset':
            o.reset()
        elif op == 'seed':
            if hasattr(o, 'seed'):
                o.seed(g.seed())
        else:
            is_count(o, op, g)


@monitor('C01', 120)
def counts_choice(g):
    """Choice in every mode, as far as it can satisfy the calls."""
    r = g.r
    items = g.items()
    n = len(items)
    mode = r.choice(['with', 'roac', 'without'])
    if mode == 'with':
        spec = g.choice_spec(items, replace=True, roac=False)
        todo = [r.choice([None, g.size(0, 2500)]) for _ in range(4)]
    elif mode == 'roac':
        spec = g.choice_spec(items, roac=True)
        pos = n
        if spec[2].get('weights'):
            pos = sum(1 for w in spec[2]['weights'] if w)
        elif spec[2].get('cum_weights'):
            c = spec[2]['cum_weights']
            pos = sum(1 for a, b in zip([0] + c, c) if b > a)
        todo = [r.choice([None, 0, 1, pos, n, g.size(0, pos)])
                for _ in range(4)]
    else:
        spec = g.choice_spec(items, replace=False, roac=False)
        todo = g.split(r.randint(0, n))
    g.note(spec, todo)
    o = build(spec)
    for m in todo:
        is_count(o, m, g)


@monitor('C01', 60)
def counts_fields(g):
    """Emitters that take their values from fields."""
    r = g.r
    fields = []
    for i in range(r.randint(1, 4)):
        fields.append(build(g.field_spec('f%d' % i)))
    single = r.random() < 0.3
    src = fields[0] if single else fields
    n = 1 if single else len(fields)
    if r.random() < 0.5:
        o = fromfields.CopyFields(src, r.choice([None, ', ', '']))
    else:
        fn = r.choice(['f_pair', 'f_rng', 'str']) if n == 1 else \
            r.choice(['f_kwargs', 'f_kwargs_rng'])
        o = fromfields.BasedOnFields(src, FUNCS[fn], rng_seed=g.seed())
    for _ in range(5):
        for f in fields:
            if r.random() < 0.7:
                f()
        m = r.choice([None, 0, 1, 2, g.size(0, 600)])
        g.note('call', m)
        is_count(o, m, g)


@monitor('C01', 6)
def counts_large(g):
    """Calls for more values than other cases ask for."""
    r = g.r
    big = [h for h in g.hints if 5000 < h < 400000]
    n = r.choice(big) if big and r.random() < 0.7 else r.choice(
        [10001, 32769, 65535, 65536, 65537, 70000, 100001, 131073])
    o = r.choice([
        lambda: fixed.Iterative(lambda: iter('abc')),
        lambda: fixed.Sequential(range(7)),
        lambda: fixed.Static('a'),
        lambda: choice.Choice('abc'),
        lambda: choice.Choice('abc', [1, 0, 3]),
        lambda: choice.Choice(range(n), replace=False),
        lambda: choice.Choice(range(n), replace_only_after_call=True),
        lambda: text.Word(fixed.Static(2), choice.Choice('ab')),
        lambda: wrappers.WrapOne(fixed.Static(2), str),
    ])()
    g.note(type(o).__name__, n)
    is_count(o, n, g)


@monitor('C11', 260)
def order(g):
    r = g.r
    vals = list(g.items())
    rac = r.random() < 0.35
    kind = r.choice(['Sequential', 'Iterative', 'Seq2'])
    g.note(kind, vals, rac)
    cur = {'v': vals}

    def factory():
        return iter(vals)
    if kind == 'Iterative':
        if r.random() < 0.4:
            def factory():
                return (x for x in vals)
        o = fixed.Iterative(factory, reset_after_call=rac)
    else:
        o = fixed.Sequential(vals if r.random() < 0.6 else tuple(vals),
                             reset_after_call=rac)
    pos = 0
    for _ in range(r.randint(1, 9)):
        x = r.random()
        if x < 0.08:
            g.note('reset')
            o.reset()
            pos = 0
            continue
        if x < 0.14:
            rac = not rac
            g.note('reset_after_call', rac)
            o.reset_after_call = rac
            continue
        if x < 0.17:
            g.note('the same source again')
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                o.iterator_factory = o.iterator_factory
            pos = 0
            continue
        if x < 0.23:
            vals = list(g.items())
            v2 = vals
            g.note('source', v2)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                o.iterator_factory = lambda v2=v2: iter(v2)
            pos = 0
            if kind != 'Iterative':
                check(list(o.items) == v2, 'items after a change of source')
            continue
        n = None if x < 0.45 else r.choice([0, 1, 2, len(vals),
                                            len(vals) + 1, g.size(),
                                            2 * len(vals) + 1])
        g.note('call', n)
        got = o() if n is None else o(n)
        m = 1 if n is None else n
        want = [vals[(pos + i) % len(vals)] for i in range(m)]
        pos = 0 if rac else pos + m
        want = want[0] if n is None else want
        check(frozen(got) == frozen(want), lambda: f'call with {n} gives '
              f'{got!r}, not {want!r}')
        if kind != 'Iterative':
            check(list(o.items) == vals, 'items')


@monitor('C11', 80)
def static(g):
    r = g.r
    pool = [None, 0, 1, True, '', 'a', [], [1], (1, 2), {}, 1.5, 'long']
    v = r.choice(pool)
    o = fixed.Static(v)
    g.note('Static', v)
    for _ in range(r.randint(1, 8)):
        x = r.random()
        if x < 0.25:
            v = r.choice(pool)
            g.note('value', v)
            o.value = v
        elif x < 0.35:
            g.note('reset')
            o.reset()
        else:
            n = r.choice([None, 0, 1, g.size()])
            g.note('call', n)
            got = o(n) if n is not None else o()
            want = v if n is None else [v] * n
            check(frozen(got) == frozen(want),
                  lambda: f'call with {n} gives {got!r}, not {want!r}')
        check(len(o.items) == 1 and frozen(list(o.items)[0]) == frozen(v),
              'items')
        check(o.value is v, 'value')


@monitor('C11', 40)
def lazy_sources(g):
    """Iterators whose values are only right if taken one by one."""
    r = g.r
    n = r.randint(1, 6)

    def factory():
        buf = []
        for i in range(n):
            buf.append(i)
            yield tuple(buf)
    want = [tuple(range(i + 1)) for i in range(n)]
    o = fixed.Iterative(factory)
    pos = 0
    for _ in range(6):
        m = r.choice([None, 0, 1, n, 2 * n + 1])
        g.note('call', m, 'of', n)
        got = o(m) if m is not None else [o()]
        k = 1 if m is None else m
        exp = [want[(pos + i) % n] for i in range(k)]
        pos += k
        check(got == exp, lambda: f'{got} is not {exp}')
