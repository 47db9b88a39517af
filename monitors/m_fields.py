"""C17 to C20: fields, schemas, copies and wrappers."""
import random as _random

import collections
import datetime as _dt

from . import monitor, check, Bad
from .gen import *


class Rec:
    """An emitter that writes each call into a shared log."""

    def __init__(self, log, name, vals):
        self.log, self.name, self.vals, self.k = log, name, vals, 0

    emits_unique_values = False
    num_unique_values = None

    def reset(self):
        self.log.append((self.name, 'reset'))

    def val(self):
        self.k += 1
        v = self.vals
        return v(self.k - 1) if callable(v) else v[(self.k - 1) % len(v)]

    def emit(self):
        return self()

    def emit_many(self, number):
        return self(number)

    def __call__(self, number=None):
        out = self.val() if number is None else \
            [self.val() for _ in range(number)]
        self.log.append((self.name, 'call', number, out))
        return out


class Vals(Rec):
    """The same with items."""

    @property
    def items(self):
        return self.vals


@monitor('C17', 300)
def field_calls(g):
    r = g.r
    log = []
    gates = [r.choice([True, False, 1, 0, 'yes', '', None, [], [0]])
             for _ in range(r.randint(1, 5))]
    reps = [r.choice([None, 0, 1, 2, 3, g.size(0, 50)])
            for _ in range(r.randint(1, 4))]
    pool = [None, 0, '', False, 'v', (), 7]
    data = Rec(log, 'data', (lambda i: pool[i % 7]) if r.random() < 0.4
               else (lambda i: 'd%d' % i))
    gate = Rec(log, 'gate', gates) if r.random() < 0.8 else None
    rep = Rec(log, 'repeat', reps) if r.random() < 0.8 else None
    g.note('gates', gates if gate else None, 'repeats',
           reps if rep else None)
    f = profile.Field('name', data, repeat=rep, gate=gate,
                      hide=r.random() < 0.3,
                      rng_seed=r.choice([None, g.seed()]))
    check(f.previous is None, 'previous value of a new field')
    want_prev = None
    gk = rk = 0
    for _ in range(r.randint(1, 10)):
        if r.random() < 0.12:
            g.note('reset')
            f.reset()
            check(f.previous is None, 'previous value after a reset')
            want_prev = None
            continue
        if r.random() < 0.1:
            f.seed(g.seed())
            check(f.previous is want_prev or frozen(f.previous) ==
                  frozen(want_prev), 'previous value after reseeding')
        del log[:]
        got = f()
        g.note('call')
        open_ = True
        calls = list(log)
        if gate:
            gv = gates[gk % len(gates)]
            gk += 1
            check([e for e in calls if e[0] == 'gate'] ==
                  [('gate', 'call', None, gv)], f'gate: {calls}')
            open_ = bool(gv)
        rest = [e for e in calls if e[0] != 'gate']
        if not open_:
            check(got is None, f'{got!r} though the gate says no')
            check(rest == [], f'draws though the gate says no: {calls}')
        else:
            n = None
            if rep:
                n = reps[rk % len(reps)]
                rk += 1
                check([e for e in rest if e[0] == 'repeat'] ==
                      [('repeat', 'call', None, n)], f'repeat: {calls}')
            d = [e for e in rest if e[0] == 'data']
            check(len(d) == 1 and d[0][2] == n, f'data: {calls}')
            check(got is d[0][3] or frozen(got) == frozen(d[0][3]),
                  f'{got!r} though the data are {d[0][3]!r}')
        check(f.previous is got or frozen(f.previous) == frozen(got),
              f'previous is {f.previous!r} after {got!r}')
        want_prev = got


@monitor('C17', 160)
def field_values(g):
    """Against twins of the emitters; multi-valued; changes of emitters."""
    r = g.r
    items = [r.choice([None, 0, 1, 2, 3]) for _ in range(r.randint(1, 4))]
    kind = r.choice(['none', 'Static', 'Sequential', 'Choice', 'Iterative',
                     'Custom', 'Vals'])
    v = items[0]
    log = []
    mk = {'none': lambda: None, 'Static': lambda: fixed.Static(v),
          'Sequential': lambda: fixed.Sequential(
              items if r.random() < 0.5 else tuple(items)),
          'Choice': lambda: choice.Choice(
              items if r.random() < 0.5 else tuple(items)),
          'Iterative': lambda: fixed.Iterative(lambda: iter(items)),
          'Custom': lambda: Custom(items),
          'Vals': lambda: Vals(log, 'x', tuple(items))}
    g.note(kind, items)
    f = profile.Field('f', fixed.Sequential('abc'), repeat=mk[kind]())

    def want(kind, items):
        if kind == 'none':
            return False
        if kind == 'Static':
            return v is not None
        if kind in ('Sequential', 'Choice', 'Vals'):
            return any(x is not None for x in items)
        return True
    check(bool(f.multi_valued) == want(kind, items),
          f'multi_valued is {f.multi_valued}')
    if r.random() < 0.5:
        k2 = r.choice([k for k in mk if k != 'none'])
        f.repeat_emitter = mk[k2]()
        g.note('repeat_emitter', k2)
        check(bool(f.multi_valued) == want(k2, items),
              f'multi_valued is {f.multi_valued}')
        kind = k2
    if kind == 'Static' and r.random() < 0.4:
        v = r.choice([None, 0, 1, 2])
        f.repeat_emitter.value = v
        g.note('value', v)
        check(bool(f.multi_valued) == (v is not None),
              f'multi_valued is {f.multi_valued}')
    if kind == 'Sequential' or kind == 'Static':
        seq = items if kind == 'Sequential' else [v]
        pos = 0
        for i in range(6):
            n = seq[i % len(seq)]
            got = f()
            m = 1 if n is None else n
            exp = ['abc'[(pos + j) % 3] for j in range(m)]
            pos += m
            exp = exp[0] if n is None else exp
            check(got == exp, f'{got!r}, not {exp!r}')
            check(f.previous == exp, 'previous')
    f2 = profile.Field('f', fixed.Static('x'), gate=fixed.Static(False))
    check(f2() is None and f2.previous is None, 'closed gate')
    f2.gate_emitter = fixed.Static(True)
    check(f2() == 'x' and f2.previous == 'x', 'opened gate')
    f2.emitter = fixed.Static('y')
    check(f2() == 'y' and f2.previous == 'y', 'new emitter')
    f2.gate_emitter = fixed.Static(False)
    check(f2() is None and f2.previous is None, 'closed gate again')


class FakeField:
    def __init__(self, log, name, hide, vals=None, multi=False):
        self.log, self.name, self.hide = log, name, hide
        self.rng_seed = None
        self.multi_valued = multi
        self.vals = vals
        self.k = 0
        self.previous = None

    def __call__(self):
        self.k += 1
        self.log.append(('call', self))
        self.previous = self.vals[(self.k - 1) % len(self.vals)] \
            if self.vals is not None else (self.name, self.k)
        return self.previous

    def reset(self):
        self.log.append(('reset', self))
        self.previous = None

    def seed(self, s):
        self.log.append(('seed', self, s))

    def __repr__(self):
        return f'<field {self.name}{" hidden" if self.hide else ""}>'


@monitor('C18', 320)
def schema_calls(g):
    r = g.r
    log = []
    cur = {}
    n = r.choice([0, 1, 2, 3, 4, g.size(0, 60)])
    pool = [None, 0, '', [], False, 'v', [1]]

    def mk(i=None):
        nm = 'f%d' % (r.randint(0, max(n, 1) * 2) if i is None else i)
        if r.random() < 0.1:
            nm = r.choice(STRINGS + ['', ' ', 'Name', 'é'])
        vals = None if r.random() < 0.6 else [r.choice(pool)]
        return FakeField(log, nm, some_hide(r), vals)
    fs = [mk(i) for i in range(n)]
    r.shuffle(fs)
    for f in fs:
        cur[f.name] = f
    g.note(fs)
    s = profile.Schema(*fs)

    def partition():
        check(list(s.fields.values()) == list(cur.values()) and
              list(s.fields) == list(cur), lambda:
              f'fields {list(s.fields.values())}, not {list(cur.values())}')
        check(list(s.hidden_fields.items()) ==
              [(k, f) for k, f in cur.items() if f.hide],
              lambda: f'hidden: {s.hidden_fields}')
        check(list(s.public_fields.items()) ==
              [(k, f) for k, f in cur.items() if not f.hide],
              lambda: f'public: {s.public_fields}')
    partition()
    for _ in range(r.randint(1, 9)):
        x = r.random()
        if x < 0.18:
            new = [mk() for _ in range(r.randint(0, 3))]
            g.note('add', new)
            s.add_fields(*new)
            for f in new:
                cur[f.name] = f
        elif x < 0.26 and cur:
            f = r.choice(list(cur.values()))
            f.hide = some_hide(r)
            g.note('hide', f)
        elif x < 0.32:
            new = [mk(i) for i in range(r.randint(0, 3))]
            g.note('set', new)
            s.set_fields(*new)
            cur = {}
            for f in new:
                cur[f.name] = f
        elif x < 0.38 and cur:
            k = r.choice(list(cur))
            g.note('delete', k)
            del s.fields[k]
            del cur[k]
        elif x < 0.44:
            s.reset_fields() if r.random() < 0.5 else s.seed_fields(4)
        else:
            del log[:]
            g.note('call')
            doc = s()
            check(log == [('call', f) for f in cur.values()],
                  lambda: f'calls: {log}, fields {list(cur.values())}')
            want = {k: f.previous for k, f in cur.items() if not f.hide}
            check(isinstance(doc, dict) and frozen(doc) == frozen(want),
                  lambda: f'{doc!r}, not {want!r}')
            check(list(doc) == list(want), f'order of {list(doc)}')
            for k in want:
                check(doc[k] is cur[k].previous, f'value of {k}')
        partition()


def some_hide(r):
    if r.random() < 0.75:
        return r.random() < 0.35
    return r.choice([None, 0, 1, 2, '', 'yes', [], ['x'], 0.0, -1, (), (0,)])


@monitor('C18', 60)
def schema_of_fields(g):
    """Real fields; a field that reads others sees this call's values."""
    r = g.r
    a = profile.Field('a', fixed.Sequential(range(100)),
                      hide=some_hide(r))
    b = profile.Field('b', fromfields.CopyFields(a))
    c = profile.Field('c', fromfields.BasedOnFields(a, lambda v: (v,)),
                      hide=some_hide(r))
    s = profile.Schema(a, b)
    s.add_fields(c)
    s.reset_fields()
    g.note(a.hide, c.hide)
    for i in range(5):
        doc = s()
        want = {'a': i, 'b': i, 'c': (i,)}
        want = {k: want[k] for k in 'abc' if not s.fields[k].hide}
        check(doc == want and list(doc) == list(want),
              f'{doc}, not {want}')


@monitor('C19', 360)
def copies(g):
    r = g.r
    log = []
    pool = [None, None, 0, '', False, 'a', 'b', 12, 1.5, [], ['x'],
            ['x', 'y', None], (1, 2), [None], [0, ''], 'word',
            list(range(g.size(0, 30))), {'k': 1}, 'sep', ['long', 'er'],
            b'bytes', b'', bytearray(b'ab'), range(3), frozenset({1}),
            _dt.date(2020, 1, 2), 2 + 1j, ('t', None), [b'x', 'y'],
            [(1, 2), 'z'], [[1], None], True, collections.deque([1, 2])]
    n = r.choice([1, 1, 2, 3, g.size(1, 30)])
    fs = [FakeField(log, 'f%d' % i, r.random() < 0.3, multi=r.random() < 0.5)
          for i in range(n)]
    alone = n == 1 and r.random() < 0.6
    sep = r.choice([None, None, ' ', '', ', ', '|', 'sep'])
    src = fs[0] if alone else (fs if r.random() < 0.6 else tuple(fs))
    o = fromfields.CopyFields(src, sep) if r.random() < 0.5 else \
        fromfields.CopyFields(src, separator=sep)
    g.note('alone' if alone else n, 'separator', sep,
           [f.multi_valued for f in fs])
    for _ in range(r.randint(1, 5)):
        if r.random() < 0.1:
            fs = [FakeField(log, 'g%d' % i, False, multi=r.random() < 0.5)
                  for i in range(r.choice([1, 2]))]
            alone = len(fs) == 1 and r.random() < 0.5
            o.set_source_fields(fs[0] if alone else fs)
            g.note('set_source_fields', len(fs), alone)
        if r.random() < 0.1:
            sep = r.choice([None, '-'])
            o.separator = sep
            g.note('separator', sep)
        for f in fs:
            f.previous = r.choice(pool)
        prev = [f.previous for f in fs]
        keep = [list(p) if isinstance(p, list) else p for p in prev]
        g.note(prev)
        check(bool(o.single_valued) == (alone and not fs[0].multi_valued),
              'single_valued')
        if alone and not fs[0].multi_valued:
            def ok(got):
                return got is prev[0]
            want = prev[0]
        else:
            flat = []
            for p in prev:
                if isinstance(p, (list, tuple)):
                    flat += list(p)
                elif p is not None:
                    flat.append(p)
            want = (flat or None) if sep is None else \
                sep.join(str(v) for v in flat)

            def ok(got):
                return frozen(got) == frozen(want)
        k = r.choice([None, None, 0, 1, 2, 3])
        got = o() if k is None else o(k)
        if k is None:
            check(ok(got), lambda: f'{got!r}, not {want!r}')
        else:
            check(len(got) == k and all(ok(x) for x in got),
                  lambda: f'{got!r}, not {k} times {want!r}')
        check(log == [], f'source fields are called: {log}')
        check(frozen([f.previous for f in fs]) == frozen(keep),
              'values of the source fields changed')
        if k is None and isinstance(got, list) and not (
                alone and not fs[0].multi_valued):
            got.append('mine')      # a result belongs to the caller
            check(frozen([f.previous for f in fs]) == frozen(keep),
                  'the result shares a list with the field')
            again = o()
            check(ok(again), lambda: f'second time: {again!r}, not {want!r}')


@monitor('C19', 60)
def copies_of_fields(g):
    r = g.r
    rep = r.choice([None, fixed.Static(None), fixed.Static(2),
                    fixed.Sequential([None, 2, 0])])
    gate = r.choice([None, fixed.Sequential([True, False])])
    a = profile.Field('a', fixed.Sequential(range(50)), repeat=rep,
                      gate=gate)
    b = profile.Field('b', fixed.Sequential('xyz'))
    sep = r.choice([None, '/'])
    one = fromfields.CopyFields(a, sep)
    two = fromfields.CopyFields([a, b], sep)
    multi = rep is not None and any(x is not None for x in rep.items)
    g.note(multi, sep, gate is not None)
    for _ in range(6):
        va = a() if r.random() < 0.8 else a.previous
        vb = b() if r.random() < 0.8 else b.previous
        la = va if isinstance(va, list) else [] if va is None else [va]
        lb = [] if vb is None else [vb]

        def shape(x):
            return (x or None) if sep is None else sep.join(map(str, x))
        w1 = shape(la) if multi else va
        check(one() == w1, f'{one()!r}, not {w1!r}')
        check(two() == shape(la + lb), f'{two()!r}')


# --------------------------------------------------------------------------


class Fn:
    """User functions of many signatures, writing a log."""

    KINDS = ['plain', 'args', 'rng', 'rng_kwonly', 'rng_default', 'kwargs',
             'obj', 'partial', 'lambda', 'posonly', 'default', 'local',
             'global', 'free', 'method', 'wrapped', 'partial_rng',
             'varnamed']


def one_fn(kind, log):
    import functools

    def rec(*a, **k):
        log.append((a, k))
        return ('r', len(log))
    if kind == 'plain':
        def f(v):
            return rec(v)
        return f, False
    if kind == 'args':
        def f(*args):
            return rec(*args)
        return f, False
    if kind == 'rng':
        def f(v, rng):
            return rec(v, rng=rng)
        return f, True
    if kind == 'rng_kwonly':
        def f(v, *, rng):
            return rec(v, rng=rng)
        return f, True
    if kind == 'rng_default':
        def f(v, rng=None):
            return rec(v, rng=rng)
        return f, True
    if kind == 'kwargs':
        def f(*v, **kw):
            return rec(*v, **kw)
        return f, False
    if kind == 'obj':
        class O:
            def __call__(self, v, rng=None):
                return rec(v, rng=rng)
        return O(), True
    if kind == 'partial':
        def f(x, v):
            return rec(v)
        return functools.partial(f, 1), False
    if kind == 'lambda':
        return (lambda v: rec(v)), False
    if kind == 'posonly':
        def f(v, /):
            return rec(v)
        return f, False
    if kind == 'local':
        def f(v):
            rng = rec(v)
            return rng
        return f, False
    if kind == 'global':
        ns = {'rec': rec, 'rng': 1}
        exec('def f(v):\n    return rec(v) if rng else None', ns)
        return ns['f'], False
    if kind == 'free':
        rng = rec

        def f(v):
            return rng(v)
        return f, False
    if kind == 'method':
        class M:
            def meth(self, v, rng):
                return rec(v, rng=rng)
        return M().meth, True
    if kind == 'wrapped':
        def inner(v, rng):
            return rec(v, rng=rng)

        @functools.wraps(inner)
        def f(*a, **k):
            return inner(*a, **k)
        return f, True
    if kind == 'partial_rng':
        def f(x, v, rng):
            return rec(v, rng=rng)
        return functools.partial(f, 1), True
    if kind == 'varnamed':
        def f(v, *rngs, **kwrng):
            check(not rngs and not kwrng, 'extra arguments given')
            return rec(v)
        return f, False

    def f(v, extra=3):
        check(extra == 3, 'extra argument given')
        return rec(v)
    return f, False


def many_fn(kind, names, log):
    def rec(**k):
        log.append(((), k))
        return ('r', len(log))
    if kind == 'kwargs':
        return (lambda **kw: rec(**kw)), False
    ns = {'rec': rec}
    args = ', '.join(names)
    body = ', '.join(f'{n}={n}' for n in names)
    if kind == 'named':
        exec(f'def f({args}):\n    return rec({body})', ns)
        return ns['f'], False
    if kind == 'kwonly':
        exec(f'def f(*, {args}):\n    return rec({body})', ns)
        return ns['f'], False
    if kind == 'local':
        exec(f'def f({args}):\n    rng = rec({body})\n    return rng', ns)
        return ns['f'], False
    if kind == 'rng_kwargs':
        def f(rng=None, **kw):
            return rec(rng=rng, **kw)
        return f, True
    exec(f'def f({args}, rng):\n    return rec({body}, rng=rng)', ns)
    return ns['f'], True


def eq_calls(got, want, rng, what):
    check(len(got) == len(want), lambda: f'{what}: {len(got)} calls of the '
          f'function, not {len(want)}')
    for (a, k), (wa, wk) in zip(got, want):
        k = dict(k)
        if 'rng' in wk:
            check(k.get('rng') is rng, f'{what}: rng is {k.get("rng")!r}')
            k.pop('rng')
            wk = {x: y for x, y in wk.items() if x != 'rng'}
        check(frozen(list(a)) == frozen(list(wa)) and
              {x: frozen(y) for x, y in k.items()} ==
              {x: frozen(y) for x, y in wk.items()},
              lambda: f'{what}: called with {a} {k}, not {wa} {wk}')


@monitor('C20', 240)
def wrap_one(g):
    r = g.r
    log = []
    kind = r.choice(Fn.KINDS)
    fn, wants = one_fn(kind, log)
    vals = [r.choice([None, 0, 'a', (1, 2), [3], {'x': 1}, i])
            for i in range(r.randint(1, 6))]
    src = Rec([], 'source', vals)
    g.note(kind, vals)
    s = g.seed()
    o = wrappers.WrapOne(src, fn, s)
    for _ in range(r.randint(1, 5)):
        if r.random() < 0.2:
            kind = r.choice(Fn.KINDS)
            fn, wants = one_fn(kind, log)
            g.note('function', kind)
            if r.random() < 0.3:
                o.wrapper.function = fn
            else:
                o.set_wrapper_function(fn)
        if r.random() < 0.2:
            o.seed(g.seed()) if r.random() < 0.5 else o.reset()
        del log[:]
        del src.log[:]
        n = r.choice([None, 0, 1, 2, g.size(0, 60)])
        g.note('call', n)
        got = o() if n is None else o(n)
        used = []
        for e in src.log:
            check(e[1] == 'call', 'source reset')
            used += [e[3]] if e[2] is None else e[3]
        m = 1 if n is None else n
        check(len(used) == m, f'{len(used)} source values for {m}')
        eq_calls(log, [((v,), {'rng': 1} if wants else {}) for v in used],
                 o.rng, 'call')
        want = [('r', i + 1) for i in range(m)]
        check(got == (want[0] if n is None else want),
              f'{got!r}, not the results of the function')


@monitor('C20', 240)
def wrap_many(g):
    r = g.r
    log, slog = [], []
    names = ['k%d' % i for i in range(r.choice([0, 1, 2, 3, 4, 5]))]
    r.shuffle(names)
    kind = r.choice(['kwargs', 'named', 'kwonly', 'rng_kwargs', 'rng', 'local']
                    if names else ['kwargs', 'rng_kwargs'])
    fn, wants = many_fn(kind, sorted(names), log)
    srcs = {nm: Rec(slog, nm, (lambda i, nm=nm: (nm, i))) for nm in names}
    g.note(kind, names)
    o = wrappers.WrapMany(srcs, fn, g.seed())
    for _ in range(r.randint(1, 5)):
        if r.random() < 0.2:
            o.seed(g.seed()) if r.random() < 0.5 else o.reset()
        del log[:]
        del slog[:]
        n = r.choice([None, 0, 1, 2, g.size(0, 60)])
        g.note('call', n)
        got = o() if n is None else o(n)
        m = 1 if n is None else n
        cols = {nm: [] for nm in names}
        for e in slog:
            check(e[1] == 'call', 'source reset')
            cols[e[0]] += [e[3]] if e[2] is None else e[3]
        check(all(len(c) == m for c in cols.values()), 'source values used')
        want = [((), dict({nm: cols[nm][i] for nm in names},
                          **({'rng': 1} if wants else {})))
                for i in range(m)]
        eq_calls(log, want, o.rng, 'call')
        res = [('r', i + 1) for i in range(m)]
        check(got == (res[0] if n is None else res),
              f'{got!r}, not the results of the function')


@monitor('C20', 240)
def based_on_fields(g):
    r = g.r
    log, flog = [], []
    n = r.choice([0, 1, 1, 2, 3, 5])
    fs = [FakeField(flog, 'n%d' % i, r.random() < 0.3) for i in range(n)]
    r.shuffle(fs)
    names = [f.name for f in fs]
    alone = n == 1 and r.random() < 0.5
    if n == 1:
        kind = r.choice(Fn.KINDS)
        fn, wants = one_fn(kind, log)
    else:
        kind = r.choice(['kwargs', 'named', 'kwonly', 'rng_kwargs', 'rng', 'local']
                        if n else ['kwargs', 'rng_kwargs'])
        fn, wants = many_fn(kind, sorted(names), log)
    g.note(kind, names, 'alone' if alone else '')
    o = fromfields.BasedOnFields(fs[0] if alone else fs, fn,
                                 rng_seed=g.seed())
    for _ in range(r.randint(1, 5)):
        for f in fs:
            f.previous = r.choice([None, 0, 'a', [1, 2], (3,), 'b', 7])
        if r.random() < 0.2:
            o.seed(g.seed()) if r.random() < 0.5 else o.reset()
        del log[:]
        del flog[:]
        k = r.choice([None, None, 1, 2, 0])
        g.note('call', k, [f.previous for f in fs])
        got = o() if k is None else o(k)
        check(flog == [], f'fields are used: {flog}')
        kw = {'rng': 1} if wants else {}
        want = ((fs[0].previous,), kw) if n == 1 else (
            (), dict({f.name: f.previous for f in fs}, **kw))
        if k is None or k == 1:
            eq_calls(log, [want], o.rng, 'call')
        elif log:
            eq_calls(log, [want] * len(log), o.rng, 'call')
        if k is None:
            check(got == ('r', 1), f'{got!r}')
        else:
            check(len(got) == k and all(
                x[0] == 'r' and 1 <= x[1] <= len(log) for x in got),
                f'{got!r}')


BAD_ONE = [lambda: 1, lambda a, b: 1, lambda *, k: 1, lambda v, x, rng: 1]
BAD_MANY = [lambda: 1, lambda a: 1, lambda a, c: 1, lambda a, b, x: 1,
            lambda a, /, b: 1, lambda rng, a: 1, lambda *args: 1]


@monitor('C20', 60)
def refused(g):
    """Functions that cannot take the arguments; builtins; bound generator"""
    r = g.r
    k = r.randint(0, 5)
    log = []
    if k == 4:
        g.note('function of the wrapper set directly')
        o = wrappers.WrapOne(fixed.Sequential([4, -5]),
                             lambda v, rng: (v, rng))
        check(o() == (4, o.rng), 'with rng')
        for fn in (str, abs, lambda v: [v]):
            o.wrapper.function = fn
            o.reset()
            check(o() == fn(4) and o(2) == [fn(-5), fn(4)],
                  'a function that does not want rng, set later')
    elif k == 5:
        g.note('one source under two names')
        w = wrappers.WrapMany(
            dict.fromkeys(['a', 'b'], fixed.Sequential('abcdef')),
            lambda a, b: a + b)
        check(w() == 'ab', 'one')
        check(w(2) == ['ce', 'df'], 'two')
    elif k == 0:
        bad = r.choice(BAD_ONE)
        g.note('WrapOne / one field refused', BAD_ONE.index(bad))
        f = FakeField(log, 'a', False)
        for mk in (lambda: wrappers.WrapOne(fixed.Static(1), bad),
                   lambda: wrappers.WrapOne(
                       fixed.Static(1), str).set_wrapper_function(bad),
                   lambda: fromfields.BasedOnFields(f, bad),
                   lambda: fromfields.BasedOnFields(
                       f, str).set_action_function(bad)):
            _type_error(mk)
    elif k == 1:
        bad = r.choice(BAD_MANY)
        g.note('WrapMany / fields refused', BAD_MANY.index(bad))
        fs = [FakeField(log, 'a', False), FakeField(log, 'b', False)]
        src = {'a': fixed.Static(1), 'b': fixed.Static(2)}
        for mk in (lambda: wrappers.WrapMany(src, bad),
                   lambda: wrappers.WrapMany(
                       src, f_kwargs).set_wrapper_function(bad),
                   lambda: fromfields.BasedOnFields(fs, bad),
                   lambda: fromfields.BasedOnFields(
                       fs, f_kwargs).set_action_function(bad)):
            _type_error(mk)
    elif k == 2:
        g.note('builtins')
        vals = [r.randint(-9, 9) for _ in range(4)]
        for fn in (str, abs, int, repr, bool, float):
            o = wrappers.WrapOne(fixed.Sequential(vals), fn)
            check(o() == fn(vals[0]), f'{fn}')
            o.reset()
            check(o(6) == [fn(vals[i % 4]) for i in range(6)], f'{fn}')
        o = wrappers.WrapOne(fixed.Static([3, 1, 2]), max)
        check(o() == 3 and o(2) == [3, 3], 'max')
        o = wrappers.WrapOne(fixed.Static({'a': 1}), dict)
        check(o(2) == [{'a': 1}] * 2, 'dict')
        o = wrappers.WrapMany({'a': fixed.Sequential(vals),
                               'b': fixed.Static(2)}, dict)
        check(o(2) == [{'a': vals[0], 'b': 2}, {'a': vals[1], 'b': 2}],
              'dict of names')
    else:
        g.note('generator')
        s = g.seed()
        calls = [r.choice([None, 1, 3, 0]) for _ in range(4)]

        def draw(v, rng):
            return rng.random()
        o = wrappers.WrapOne(fixed.Static(0), draw, s)
        ref = _random.Random(s)
        for c in calls:
            got = o() if c is None else o(c)
            want = ref.random() if c is None else \
                [ref.random() for _ in range(c)]
            check(got == want, 'not the values of the own generator')
        o.seed(5)
        check(o() == _random.Random(5).random(), 'after reseeding')
        o.reset()
        check(o() == _random.Random(5).random(), 'after a reset')


def _type_error(mk):
    try:
        mk()
    except TypeError:
        return
    raise Bad('a function that cannot take the arguments is accepted')
