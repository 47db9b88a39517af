"""C02, C03 and C04: seeds, resets, groups, determinism."""
import os
import random as _random
import subprocess
import sys

from . import monitor, check, Bad, pristine
from .gen import *
from .m_text import Tape


def history(g, spec, o, ops):
    """Random calls; returns the number of them."""
    r = g.r
    for _ in range(ops):
        x = r.random()
        if x < 0.75 or not hasattr(o, 'seed'):
            n = r.choice([None, None, 0, 1, 2, 3, g.size(0, 150)])
            g.note('call', n)
            use(o, n)
        elif x < 0.9:
            g.note('reset')
            (o.reset_fields if spec[0] == 'Schema' else o.reset)()
        else:
            s = g.seed()
            g.note('seed', s)
            o.seed(s)


def calls_for(g, k=None):
    return [g.r.choice([None, 1, 2, 3, 0, g.size(0, 60)])
            for _ in range(k or g.r.randint(2, 5))]


def trace(o, calls):
    return [frozen(use(o, n)) for n in calls]


def same(name, a, b):
    check(a == b, lambda: f'{name}: {_first(a, b)}')


def _first(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f'call {i} gives {str(x)[:300]} and not {str(y)[:300]}'
    return f'{str(a)[:300]} and not {str(b)[:300]}'


def states(parts):
    """States of all generators of the parts."""
    return {p: o.rng.getstate() for p, k, o in parts
            if isinstance(getattr(o, 'rng', None), _random.Random)}


def any_spec(g):
    x = g.r.random()
    if x < 0.25:
        return g.choice_spec(g.items(cap=200))
    if x < 0.45:
        return g.field_spec()
    if x < 0.55:
        return g.schema_spec()
    return g.emitter_spec(2)


@monitor('C02', 320)
def reset_restores(g):
    r = g.r
    s = g.seed()
    spec = with_seed(any_spec(g), s)
    g.note(spec)
    parts, fparts = [], []
    o = build(spec, parts)
    seeded = s
    for _ in range(r.randint(1, 5)):
        history(g, spec, o, 1)
        if r.random() < 0.15 and hasattr(o, 'seed'):
            seeded = g.seed()
            g.note('seed', seeded)
            o.seed(seeded)
        elif hasattr(o, 'rng_seed'):
            seeded = o.rng_seed
    schema = spec[0] == 'Schema'
    if schema and r.random() < 0.5:
        seeded = g.seed()
        g.note('seed_fields', seeded)
        o.seed_fields(seeded)
        if r.random() < 0.5:
            use(o)
    g.note('reset')
    (o.reset_fields if schema else o.reset)()
    fresh = build(with_seed(spec, seeded), fparts)
    for k in range(2):
        st, fst = states(parts), states(fparts)
        for p in fst:
            check(st.get(p) == fst[p], f'generator of {p} is not in the '
                  f'state of a fresh one (comparison {k})')
        for (p, _, a), (_, _, b) in zip(parts, fparts):
            for attr in ('previous', 'num_unique_items', 'rng_seed',
                         'num_unique_values', 'emits_unique_values'):
                x, y = (frozen(outcome(getattr, q, attr, '-'))
                        for q in (a, b))
                check(x == y, lambda: f'{attr} of {p}: {x}, not {y}')
        c = calls_for(g)
        same(f'after reset, calls {c}', trace(o, c), trace(fresh, c))
        if r.random() < 0.5:
            break
        (o.reset_fields if schema else o.reset)()
        (fresh.reset_fields if schema else fresh.reset)()


def random_only(g):
    """Objects whose whole state is their generators."""
    r = g.r

    def ch(items, **kw):
        return ('Choice', items, dict(kw, rng_seed=g.seed()))
    k = r.randint(0, 6)
    items = g.items(cap=60)
    if k <= 1:
        return g.choice_spec(items, roac=False if r.random() < 0.6 else None)
    w = ('Word', ch([0, 1, 2, 5]), ch('abcd'), g.seed())
    if k == 2:
        return w
    if k == 3:
        return ('Text', ch([0, 1, 3]), w if r.random() < 0.5 else
                ch(['x', 'y', 'z'], replace_only_after_call=True),
                r.choice([None, ch([' ', '-'])]), g.seed())
    if k == 4:
        return ('WrapOne', ch(items), r.choice(['f_rng', 'f_pair']),
                g.seed())
    if k == 5:
        return ('WrapMany', [('a', ch(items)), ('b', w)],
                r.choice(['f_kwargs', 'f_kwargs_rng']), g.seed())
    if r.random() < 0.3:
        return ('Schema', [('Field', 'f%d' % i, ch(items), None,
                            ('chance', 0.6, 3), i == 1, g.seed())
                           for i in range(3)])
    return ('Field', 'f', r.choice([ch(items), w]),
            r.choice([None, ch([None, 2, 3])]),
            r.choice([None, ('chance', 0.7, g.seed())]),
            False, g.seed())


@monitor('C02', 260)
def reseed(g):
    """seed(s): every generator as if freshly seeded; reset goes to s."""
    r = g.r
    spec = random_only(g)
    g.note(spec)
    parts, fparts = [], []
    o = build(spec, parts)
    history(g, spec, o, r.randint(0, 4))
    s = g.seed()
    g.note('seed', s)
    schema = spec[0] == 'Schema'
    (o.seed_fields if schema else o.seed)(s)
    fresh = build(with_seed(spec, s), fparts)
    st, fst = states(parts), states(fparts)
    for p in fst:
        check(st.get(p) == fst[p], f'generator of {p} after seed')
    if spec[0] == 'Choice' and o.replace:
        check(o.rng.getstate() == _random.Random(s).getstate(),
              'generator is not freshly seeded')
    c = calls_for(g)
    same(f'after seed, calls {c}', trace(o, c), trace(fresh, c))
    (o.reset_fields if schema else o.reset)()
    fresh = build(with_seed(spec, s))
    same(f'after seed and reset, calls {c}', trace(o, c), trace(fresh, c))


@monitor('C02', 160)
def settings_changed(g):
    """Reset after changes of configuration: as one constructed like that."""
    r = g.r
    k = r.randint(0, 4)
    s = g.seed()
    if k <= 2:
        items = g.items(cap=100)
        n = len(items)
        spec = g.choice_spec(items, seed=s)
        g.note(spec)
        o = build(spec)
        for _ in range(r.randint(1, 6)):
            x = r.random()
            if x < 0.2:
                w = r.choice([None, g.weights(n)])
                g.note('weights', w)
                o.weights = w
            elif x < 0.4:
                v = r.random() < 0.5
                g.note('replace', v)
                o.replace = v
            elif x < 0.6:
                v = r.random() < 0.5
                g.note('roac', v)
                o.replace_only_after_call = v
            elif x < 0.7:
                s = g.seed()
                g.note('seed', s)
                o.seed(s)
            else:
                m = r.choice([None, 1, 2, 3])
                g.note('call', m)
                use(o, m)
        g.note('reset')
        o.reset()
        kw = {'replace': o.replace, 'rng_seed': s,
              'replace_only_after_call': o.replace_only_after_call}
        if o.weights is not None:
            kw['weights'] = o.weights
        fresh = choice.Choice(items, **kw)
    elif k == 3:
        vals = list(g.items(cap=30))
        rac = r.random() < 0.5
        o = fixed.Sequential(vals, reset_after_call=rac)
        use(o, g.size(0, 50))
        rac = not rac
        o.reset_after_call = rac
        use(o, g.size(0, 50))
        o.reset()
        g.note('Sequential', vals, rac)
        fresh = fixed.Sequential(vals, reset_after_call=rac)
    else:
        sub = g.word_spec()
        spec = ('Field', 'f', g.emitter_spec(1), g.repeat_spec(),
                g.gate_spec(), False, s)
        g.note(spec, 'then emitter', sub)
        o = build(spec)
        history(g, spec, o, 3)
        s = o.rng_seed
        which = r.choice(['emitter', 'repeat_emitter', 'gate_emitter'])
        new = {'emitter': sub, 'repeat_emitter':
               ('Choice', [1, 2], {'rng_seed': 8}),
               'gate_emitter': ('chance', 0.5, 9)}[which]
        g.note(which)
        setattr(o, which, build(new))
        history(g, spec, o, 2)
        s = o.rng_seed
        o.reset()
        i = {'emitter': 2, 'repeat_emitter': 3, 'gate_emitter': 4}[which]
        fresh = build(spec[:i] + (new,) + spec[i + 1:6] + (s,))
    c = calls_for(g)
    same(f'calls {c}', trace(o, c), trace(fresh, c))


# --------------------------------------------------------------------------


class Member:
    """Remembers what is done to it, in a log shared by a group."""

    def __init__(self, log, name, methods, attrs, falsy):
        object.__setattr__(self, '_i', (log, name, methods, falsy))
        for a in attrs:
            object.__setattr__(self, a, 'old')

    def __getattr__(self, a):
        log, name, methods, _ = object.__getattribute__(self, '_i')
        if a in methods:
            return lambda *args, **kw: log.append((name, a, args, kw))
        raise AttributeError(a)

    def __setattr__(self, a, v):
        log, name, _, _ = self._i
        log.append((name, '=', a, v))
        object.__setattr__(self, a, v)

    def __bool__(self):
        return not self._i[3]

    def __repr__(self):
        return f'<{self._i[1]}>'


@monitor('C03', 300)
def groups(g):
    r = g.r
    log = []
    names = ['alpha', 'beta', 'reset', 'seed', 'rng_seed', '_x', 'append',
             'items', 'do'] + r.sample(STRINGS, min(3, len(STRINGS)))
    names = [n for n in dict.fromkeys(names) if n.isidentifier() and
             not (n.startswith('__') and n.endswith('__')) and n != '_i']
    names = list(names)
    n = r.choice([0, 1, 2, 3, g.size(0, 40)])
    members, desc = [], []
    for i in range(n):
        x = r.random()
        if x < 0.2:
            members.append(None)
            desc.append(None)
        elif x < 0.3 and any(m is not None for m in members):
            k = r.choice([k for k, m in enumerate(members)
                          if m is not None])
            members.append(members[k])
            desc.append(desc[k])
        else:
            ms = r.sample(names, r.randint(0, len(names)))
            at = r.sample([x for x in names if x not in ms],
                          r.randint(0, len(names) - len(ms)))
            d = (f'm{i}', ms, at, r.random() < 0.2)
            members.append(Member(log, *d))
            desc.append(d)
    g.note(desc)
    if r.random() < 0.5:
        G = group.ObjectGroup(*members)
        if r.random() < 0.3:
            G.append(None)
            members.append(None)
        check(list(G) == members, 'members of the group')
    else:
        keys = ['k%d' % i for i in range(n)]
        r.shuffle(keys)
        G = group.ObjectMap(dict(zip(keys, members)))
        check(list(G.values()) == members and list(G) == keys,
              'members of the map')
    for _ in range(r.randint(1, 4)):
        del log[:]
        nm = r.choice(names)
        if r.random() < 0.5:
            v = r.choice([None, 0, 'v', [1], object()])
            g.note('setattr', nm)
            have = [m for m in members if m is not None and hasattr(m, nm)]
            G.setattr(nm, v)
            want = [(m._i[1], '=', nm, v) for m in have]
            check(log == want, lambda: f'setattr {nm}: {log}, not {want}')
            check(all(getattr(m, nm) is v for m in have), 'values')
        else:
            a = r.choice([(), (1,), (None, 'x'), ([],)])
            k = r.choice([{}, {}, {'kw': 1}, {'a': 2, 'b': None}])
            g.note('do_method', nm, a, k)
            if any(m is not None and nm in m.__dict__ for m in members):
                continue        # an attribute that is no method
            G.do_method(nm, *a, **k)
            want = [(m._i[1], nm, a, k) for m in members
                    if m is not None and nm in m._i[2]]
            check(log == want, lambda: f'do_method {nm}: {log}, not {want}')


def leaf(g, vals):
    return Seeded(vals, 'own') if g.r.random() < 0.7 else Custom(vals)


def inspect_reset(kids, s, what):
    for nm, k in kids:
        log = k.log
        check(('reset',) in log, f'{what}: {nm} is not reset')
        first = log.index(('reset',))
        last = len(log) - 1 - log[::-1].index(('reset',))
        check(not any(e[0] == 'call' for e in log[first:]),
              f'{what}: {nm} is used')
        if isinstance(k, Seeded):
            before = [e for e in log[:last] if e[0] in ('setattr', 'seed')]
            check(before and before[-1][1] == s, f'{what}: {nm} is not '
                  f'given the seed {s!r} before it is reset: {log}')
            check(k.rng_seed == s, f'{what}: seed of {nm}')
        else:
            check(not hasattr(k, 'rng_seed'), f'{what}: {nm} is given an '
                  'attribute rng_seed')


def inspect_seed(kids, s, what):
    for nm, k in kids:
        if isinstance(k, Seeded):
            check(('seed', s) in k.log, f'{what}: {nm} is not seeded: '
                  f'{k.log}')
            check(k.rng_seed == s, f'{what}: {nm} has seed {k.rng_seed!r}')
            check(all(e[1] == s for e in k.log if e[0] in
                      ('seed', 'setattr')), f'{what}: other seeds')
        else:
            check(not hasattr(k, 'rng_seed'), f'{what}: {nm} is given an '
                  'attribute rng_seed')


@monitor('C03', 260)
def composites(g):
    r = g.r
    kind = r.choice(['Word', 'Text', 'WrapOne', 'WrapMany', 'Field',
                     'Schema'])
    s = g.seed()
    kids = []

    def kid(nm, vals):
        k = leaf(g, vals)
        kids.append((nm, k))
        return k

    def field(i, hide, fs):
        rep = kid(f'repeat {i}', [2, None]) if r.random() < 0.6 else None
        gate = kid(f'gate {i}', [True, False]) if r.random() < 0.6 else None
        return profile.Field(f'f{i}', kid(f'emitter {i}', 'ab'), rep, gate,
                             hide, fs)
    if kind == 'Word':
        o = text.Word(kid('length', [2, 3]), kid('alphabet', 'ab'), s)
    elif kind == 'Text':
        sep = kid('sep', ' -') if r.random() < 0.7 else None
        o = text.Text(kid('numwords', [2, 0]), kid('word', ['x', 'y']), sep,
                      s)
    elif kind == 'WrapOne':
        o = wrappers.WrapOne(kid('source', 'abc'), FUNCS['f_pair'], s)
    elif kind == 'WrapMany':
        o = wrappers.WrapMany({f'k{i}': kid(f'k{i}', 'ab')
                               for i in range(r.randint(1, 4))},
                              FUNCS['f_kwargs'], s)
    elif kind == 'Field':
        o = field(0, r.random() < 0.5, s)
    else:
        fs = [field(i, r.random() < 0.5, g.seed())
              for i in range(r.randint(1, 4))]
        o = profile.Schema(*fs)
    g.note(kind, s, [(n, type(k).__name__) for n, k in kids])
    if kind != 'Schema':
        for nm, k in kids:
            if isinstance(k, Seeded):
                check(k.rng_seed == s, f'construction: seed of {nm}')
        inspect_reset(kids, s, 'construction') if kind in (
            'Word', 'Text', 'Field') else None
    for _ in range(r.randint(1, 4)):
        for _ in range(r.randint(0, 2)):
            use(o) if kind in ('Field', 'Schema') else \
                use(o, r.choice([None, 2]))
        for _, k in kids:
            del k.log[:]
        x = r.random()
        if kind == 'Schema':
            if x < 0.5:
                g.note('reset_fields')
                o.reset_fields()
                for f in fs:
                    own = [(nm, k) for nm, k in kids
                           if nm.endswith(f.name[1:])]
                    inspect_reset(own, f.rng_seed, 'reset_fields')
                    check(f.previous is None, 'previous value')
            else:
                s = g.seed()
                g.note('seed_fields', s)
                o.seed_fields(s)
                inspect_seed(kids, s, 'seed_fields')
                check(all(f.rng_seed == s for f in fs), 'seeds of fields')
        elif x < 0.5:
            g.note('reset')
            o.reset()
            inspect_reset(kids, s, 'reset')
        elif x < 0.6:
            s = g.seed()
            g.note('rng_seed', s, 'reset')
            o.rng_seed = s
            o.reset()
            inspect_reset(kids, s, 'reset')
        else:
            s = g.seed()
            g.note('seed', s)
            o.seed(s)
            inspect_seed(kids, s, 'seed')
            check(o.rng_seed == s, 'own seed')


# --------------------------------------------------------------------------


class LoggedField:
    """A field of the user's."""

    def __init__(self, log, name, hide):
        self.log, self.name, self.hide = log, name, hide

    def seed(self, s):
        self.log.append(('seed', self.name, s))

    def reset(self):
        self.log.append(('reset', self.name))


@monitor('C03', 60)
def schema_order(g):
    """All fields, hidden ones included, once each and in order."""
    r = g.r
    log = []
    names = ['f%d' % i for i in range(g.size(0, 40))]
    r.shuffle(names)
    fs = [LoggedField(log, nm, r.choice([False, False, True, 0, 1]))
          for nm in names]
    g.note([(f.name, f.hide) for f in fs])
    sch = profile.Schema(*fs)
    late = [LoggedField(log, 'x%d' % i, r.random() < 0.4)
            for i in range(r.randint(0, 2))]
    if late:
        sch.add_fields(*late)
    want = names + [f.name for f in late]
    for _ in range(r.randint(1, 3)):
        del log[:]
        if r.random() < 0.5:
            s = g.seed()
            sch.seed_fields(s)
            check(log == [('seed', nm, s) for nm in want], f'{log}')
        else:
            sch.reset_fields()
            check(log == [('reset', nm) for nm in want], f'{log}')


@monitor('C04', 300)
def twins(g):
    """Two equal objects, with other things going on in between."""
    r = g.r
    s = g.seed()
    spec = with_seed(any_spec(g), s)
    other = any_spec(g)
    g.note(spec, 'other', other)
    a, b = build(spec), build(spec)
    c = build(other) if r.random() < 0.5 else build(spec)
    ops = [r.choice(['call', 'call', 'call', 'reset', 'seed', 'weights',
                     'replace', 'roac'])
           for _ in range(r.randint(2, 8))]

    def disturb():
        x = r.randint(0, 4)
        if x == 0:
            _random.seed(r.random())
        elif x == 1:
            _random.random()
        elif x == 2:
            use(c, r.choice([None, 1, 5]))
        elif x == 3:
            build(other)
        else:
            from fauxdoc.mathtools import weighted_shuffle
            weighted_shuffle([1, 2, 3], [1, 2, 3])
    res = [[], []]
    plan = []
    for op in ops:
        plan.append((op, {'call': r.choice([None, 0, 1, 2, g.size(0, 90)]),
                          'seed': g.seed(), 'reset': None,
                          'weights': r.choice([None, 'w', 'u']),
                          'replace': r.random() < 0.5,
                          'roac': r.random() < 0.5}[op]))

    def step(o, op, x, out):
        v = pristine.step(o, spec, op, x)
        if op == 'call':
            out.append(v)
    g.note(plan)
    if r.random() < 0.5:
        for op, x in plan:
            step(a, op, x, res[0])
            disturb()
            step(b, op, x, res[1])
            disturb()
    else:
        for op, x in plan:
            step(a, op, x, res[0])
            disturb()
        for _ in range(5):
            disturb()
        d = build(spec)
        for op, x in plan:
            step(d, op, x, res[1])
            disturb()
    same('equal objects differ', res[0], res[1])


@monitor('C04', 30)
def nothing_before(g):
    """The same in a process that did nothing else before."""
    r = g.r
    s = g.seed()
    k = r.randint(0, 5)
    n = g.size(1, 120)
    if k == 0:
        spec = ('poisson_choice', list(range(n)), {
            'mu': r.choice([1, 2, 3, 7, 0.5]),
            'weight_floor': r.choice([0, 0.001, 0.2, 0.5]),
            'replace': r.random() < 0.7, 'rng_seed': s})
    elif k == 1:
        spec = ('gaussian_choice', list(range(n)), {
            'mu': r.choice([0, 1, 2, 7, -1]), 'sigma': r.choice([1, 2.5]),
            'weight_floor': r.choice([0, 0.001, 0.2, 0.5]),
            'replace': r.random() < 0.7, 'rng_seed': s})
    else:
        spec = with_seed(any_spec(g), s)
    plan = [(op, {'call': r.choice([None, 0, 1, 2, n, g.size(0, 90)]),
                  'seed': g.seed(), 'reset': None}[op])
            for op in [r.choice(['call', 'call', 'call', 'reset', 'seed'])
                       for _ in range(r.randint(1, 4))]]
    uses = []
    x = spec
    for _ in range(r.randint(1, 3)):
        x = pristine.neighbour(r, x if r.random() < 0.5 else spec)
        uses.append((x, plan if r.random() < 0.5 else
                     [('poke', r.choice(['#', '', 'xy'])), ('call', 2),
                      ('call', None)]))
    g.note(spec, plan, 'after', uses)
    a = pristine.isolated([(spec, plan)])
    try:
        for y, p in uses:
            build(y)
    except Exception:
        g.trivial = True    # no valid configuration
        return
    b = pristine.isolated(uses + [(spec, plan)])
    check(a == b, f'alone {a[:600]}; after others {b[:600]}')


@monitor('C04', 40)
def no_seed_shared(g):
    """The seed decides, however the children were seeded or used before."""
    r = g.r
    s = g.seed()
    mk = {'Word': lambda a, b: text.Word(a, b, rng_seed=s),
          'WrapMany': lambda a, b: wrappers.WrapMany(
              {'a': a, 'b': b}, FUNCS['f_kwargs_rng'], rng_seed=s),
          'Field': lambda a, b: profile.Field('f', b, a, rng_seed=s)}
    kind = r.choice(sorted(mk))
    g.note(kind, s)

    def kids(s1, s2):
        return (choice.Choice([0, 1, 2, 3], rng_seed=s1),
                choice.Choice('abcdef', rng_seed=s2))
    a = mk[kind](*kids(g.seed(), g.seed()))
    x, y = kids(g.seed(), g.seed())
    x(3), y(5)
    b = mk[kind](x, y)
    c = [r.choice([None, 1, 4]) for _ in range(4)]
    same('children seeded differently', trace(a, c), trace(b, c))


CHILD = r'''
import sys, random, hashlib
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from pyvc.boot import boot
boot()
from monitors.gen import *
random.seed(int(sys.argv[3]))
h = hashlib.sha256()
for k in range(60):
    g = Gen(random.Random(f'{sys.argv[2]}:{k}'))
    s = [k, 'seed%d' % k, b'x%d' % k, k + 0.5][k // 4 % 4]
    spec = g.schema_spec() if k % 4 == 0 else with_seed(g.emitter_spec(2), s)
    if k % 4 == 1:
        spec = with_seed(g.choice_spec(g.items(cap=300)), s)
    o = build(spec)
    for n in (None, 3, 1, 20, None):
        h.update(repr(frozen(use(o, n))).encode())
        random.random()
    print(k, spec[0], h.hexdigest()[:12])
'''


@monitor('C04', 3, once=True)
def processes(g):
    """The same in processes with different hash seeds."""
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    base = str(g.r.random())
    g.note('processes', base)
    outs = []
    for hs in ('0', '1', '77'):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, '-c', CHILD, root, base, hs],
                           capture_output=True, text=True, env=env,
                           timeout=120, cwd=root)
        check(p.returncode == 0, p.stderr[-1500:])
        outs.append(p.stdout.split('\n'))
    for o in outs[1:]:
        for x, y in zip(outs[0], o):
            check(x == y, f'output differs between processes: {x} / {y}')
