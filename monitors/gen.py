"""Random and boundary cases: objects of every class, built from specs."""
import ast
import math
import os

from fauxdoc import emitters as em
from fauxdoc.emitters import choice, fixed, text, wrappers, fromfields
from fauxdoc import profile, group


def _mine():
    """Integers and strings the code itself mentions (outside docstrings)."""
    ints, strs = set(), set()
    root = os.path.dirname(profile.__file__)
    for d, _, files in os.walk(root):
        for f in files:
            if not f.endswith('.py'):
                continue
            try:
                with open(os.path.join(d, f)) as fh:
                    tree = ast.parse(fh.read())
            except (SyntaxError, OSError):
                continue
            docs = set()
            for node in ast.walk(tree):
                body = getattr(node, 'body', None)
                if isinstance(body, list) and body and \
                        isinstance(body[0], ast.Expr) and \
                        isinstance(body[0].value, ast.Constant):
                    docs.add(id(body[0].value))
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and id(node) not in docs:
                    v = node.value
                    if isinstance(v, int) and not isinstance(v, bool):
                        ints.update((v - 1, v, v + 1))
                    elif isinstance(v, float) and v == v and \
                            abs(v) < 1e6:
                        ints.add(int(v))
                    elif isinstance(v, str) and 0 < len(v) < 12:
                        strs.add(v)
                elif isinstance(node, ast.BinOp) and isinstance(
                        node.left, ast.Constant) and isinstance(
                        node.right, ast.Constant) and isinstance(
                        node.op, (ast.Pow, ast.LShift, ast.Mult)):
                    try:
                        if abs(node.right.value) < 64:
                            v = eval(compile(ast.Expression(node), '', 'eval'))
                            if isinstance(v, int):
                                ints.update((v - 1, v, v + 1))
                    except Exception:
                        pass
    return (sorted(i for i in ints if 0 <= i <= 20000), sorted(strs),
            sorted(i for i in ints if i > 20000))


MINED, STRINGS, BIG = _mine()
# sizes the code as first verified does not mention
KNOWN = {0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 32, 33, 34, 35, 36, 37, 38, 39, 40,
         41, 98, 99, 100, 125, 126, 127, 160, 161, 162, 171, 172, 173, 174,
         175, 254, 255, 256}
NEW = [i for i in MINED if i not in KNOWN]


class Custom:
    """An emitter of the user's without a seed; cycles over its values."""

    def __init__(self, values):
        self.values = list(values)
        self.pos = 0
        self.log = []

    emits_unique_values = False
    num_unique_values = None

    def reset(self):
        self.pos = 0
        self.log.append(('reset',))

    def one(self):
        v = self.values[self.pos % len(self.values)]
        self.pos += 1
        return v

    def emit(self):
        return self()

    def emit_many(self, number):
        return self(number)

    def __call__(self, number=None):
        self.log.append(('call', number))
        if number is None:
            return self.one()
        return [self.one() for _ in range(number)]


class Seeded(Custom):
    """The same with a seed, which shows in nothing but its log."""

    def __init__(self, values, rng_seed=None):
        self._s = rng_seed
        super().__init__(values)

    @property
    def rng_seed(self):
        return self._s

    @rng_seed.setter
    def rng_seed(self, s):
        self._s = s
        self.log.append(('setattr', s))

    def seed(self, rng_seed):
        self._s = rng_seed
        self.log.append(('seed', rng_seed))


# user functions for wrappers; named so that a spec can be built twice
def f_pair(v):
    return ('f', v)


def f_rng(v, rng):
    return (v, rng.random())


def f_rng_kw(v, *, rng=None):
    return (v, rng.randint(0, 10 ** 6))


def f_kwargs(**kw):
    return tuple(sorted(kw.items()))


def f_kwargs_rng(rng, **kw):
    return (tuple(sorted(kw.items())), rng.random())


FUNCS = {f.__name__: f for f in (f_pair, f_rng, f_rng_kw, f_kwargs,
                                 f_kwargs_rng)}
FUNCS['str'] = str
FUNCS['repr'] = repr


class Gen:
    def __init__(self, rng, hints=(), prop='', idx=0):
        self.r = rng
        self.idx = idx
        self.hints = [h for h in hints if isinstance(h, int)
                      and 0 <= h <= 20000]
        self.big = BIG + [h for h in hints if isinstance(h, int)
                          and h > 20000]
        self.notes = []
        self.trivial = False

    def note(self, *xs):
        self.notes.append(xs)

    def describe(self):
        return ' ; '.join(' '.join(_short(x) for x in n)
                          for n in self.notes)[:3000]

    # --- numbers
    def size(self, lo=0, cap=3000):
        r = self.r
        x = r.random()
        if NEW and x > 0.93:
            v = r.choice(NEW)
            return max(lo, min(v, 10000 if cap >= 3000 else cap))
        if x < 0.62:
            v = r.randint(lo, max(lo, 6))
        elif x < 0.80:
            v = r.randint(lo, 40)
        elif x < 0.92:
            v = r.choice((self.hints or MINED) if r.random() < 0.5
                         else MINED)
        elif x < 0.97:
            v = r.choice([7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99,
                          100, 101, 127, 128, 129, 255, 256, 257, 499, 500,
                          511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025])
        else:
            v = r.randint(lo, 1200)
        return max(lo, min(v, cap))

    def split(self, total):
        """A split of total into calls: None for a single value, or n."""
        out = []
        while total > 0:
            if self.r.random() < 0.35:
                out.append(None)
                total -= 1
            else:
                n = min(total, self.r.choice([1, 2, 3, total,
                                              self.size(0, total)]))
                out.append(n)
                total -= n
        for _ in range(self.r.randint(0, 2)):
            out.insert(self.r.randint(0, len(out)), 0)
        return out

    def seed(self):
        return self.r.choice([0, 1, 2, 42, 999, -5, 'seed', '', b'x', 1.5,
                              2 ** 70, self.r.randint(0, 10 ** 6), -1, -2,
                              2 ** 61 - 1, 2 ** 61, '0', True, 1.0])

    # --- items
    def items(self, n=None, distinct=False, lo=1, cap=3000):
        r = self.r
        n = self.size(lo, cap) if n is None else n
        kind = r.randint(0, 5)
        if distinct or kind == 0:
            v = list(range(n))
            r.shuffle(v)
        elif kind == 1:
            v = [r.choice('abc') for _ in range(n)]
        elif kind == 2:
            v = [r.choice([None, 0, False, '', 1, True, 'x', (), 1.0])
                 for _ in range(n)]
        elif kind == 3:
            v = ['i%d' % (i // 2) for i in range(n)]
        elif kind == 4:
            v = [r.randint(0, max(1, n // 2)) for _ in range(n)]
        else:
            v = [(i, 'v') for i in range(n)]
        k = r.randint(0, 3)
        if k == 0:
            return tuple(v)
        if k == 1 and n and all(isinstance(x, str) and len(x) == 1
                                for x in v):
            return ''.join(v)
        return v

    def weights(self, n, zeros=True, positive=1):
        """n weights with at least `positive` positive ones."""
        r = self.r
        k = r.randint(0, 4)
        if k == 0:
            w = [1] * n
        elif k == 1:
            w = [r.randint(1, 9) for _ in range(n)]
        elif k == 2:
            w = [r.random() + 0.001 for _ in range(n)]
        elif k == 3:
            w = [r.choice([1e-6, 0.5, 1, 3, 1e6]) for _ in range(n)]
        else:
            w = [i + 1 for i in range(n)]
        if r.random() < 0.1:        # tiny or huge ones
            f = 2.0 ** r.choice([-200, -66, 66, 200])
            w = [x * f for x in w]
        if zeros and n and r.random() < 0.5:
            for i in r.sample(range(n), r.randint(0, max(0, n - positive))):
                w[i] = 0 if r.random() < 0.5 else 0.0
        return tuple(w) if r.random() < 0.3 else w

    # --- specs.  Every spec is a tuple; build() makes the object.
    def choice_spec(self, items=None, mode=None, replace=None, roac=None,
                    seed='any', zeros=True):
        r = self.r
        items = self.items() if items is None else items
        kw = {}
        mode = r.choice([None, None, 'weights', 'cum']) if mode is None \
            else mode
        if mode == 'weights':
            kw['weights'] = self.weights(len(items), zeros)
        elif mode == 'cum':
            w = self.weights(len(items), zeros)
            tot, c = 0, []
            for x in w:
                tot += x
                c.append(tot)
            kw['cum_weights'] = c
        rep = r.random() < 0.6 if replace is None else replace
        roa = r.random() < 0.3 if roac is None else roac
        kw['replace'] = rep
        kw['replace_only_after_call'] = roa
        kw['rng_seed'] = self.seed() if seed == 'any' else seed
        return ('Choice', items, kw)

    def nat_spec(self, cap=5, zero=True):
        """Emitters of lengths."""
        r = self.r
        lo = 0 if zero else 1
        vals = [r.randint(lo, cap) for _ in range(r.randint(1, 4))]
        k = r.randint(0, 4)
        if k == 0:
            return ('Static', vals[0])
        if k == 1:
            return ('Sequential', vals, r.random() < 0.2)
        if k == 2:
            return ('Iterative', vals, r.random() < 0.2)
        if k == 3:
            return ('Choice', vals, {'rng_seed': self.seed()})
        return ('Choice', vals, {'weights': [r.randint(1, 4) for _ in vals],
                                 'rng_seed': self.seed()})

    def str_spec(self, depth=1):
        r = self.r
        chars = ['a', 'b', 'c', 'd', 'é', 'Z', '7']
        k = r.randint(0, 5)
        vals = chars[:r.randint(1, 7)]
        if k == 0:
            return ('Sequential', vals, False)
        if k == 1:
            return ('Iterative', vals, False)
        if k == 2:
            return ('Static', vals[0])
        if k == 3:
            return ('Custom', vals)
        return ('Choice', vals, {'rng_seed': self.seed()})

    def word_spec(self):
        return ('Word', self.nat_spec(), self.str_spec(), self.seed())

    def text_spec(self):
        r = self.r
        sep = r.choice([None, ('Static', '-'), ('Static', ' '),
                        ('Choice', [' ', '_', ', '],
                         {'rng_seed': self.seed()}),
                        ('Sequential', ['1', '2', '3'], False),
                        ('Static', '')])
        k = r.randint(0, 3)
        if k == 0:
            ws = ('Choice', ['w%d' % i for i in range(r.randint(1, 6))],
                  {'replace_only_after_call': True, 'rng_seed': self.seed()})
        elif k == 1:
            ws = ('Sequential', ['ab', 'cd', 'e'], False)
        else:
            ws = self.word_spec()
        return ('Text', self.nat_spec(6), ws, sep, self.seed())

    def simple_spec(self):
        r = self.r
        k = r.randint(0, 5)
        if k == 0:
            return ('Static', r.choice([None, 0, 'x', [1, 2], (1,), False]))
        if k == 1:
            return ('Sequential', list(self.items(cap=40)),
                    r.random() < 0.3)
        if k == 2:
            return ('Iterative', list(self.items(cap=40)), r.random() < 0.3)
        if k == 3:
            return ('Custom', self.items(cap=8))
        return self.choice_spec(self.items(cap=300), replace=True,
                                roac=False)

    def wrap_spec(self, depth=1):
        r = self.r
        sub = self.emitter_spec(depth - 1) if depth > 0 else \
            self.simple_spec()
        if r.random() < 0.5:
            return ('WrapOne', sub, r.choice(['f_pair', 'f_rng', 'f_rng_kw',
                                              'str']), self.seed())
        n = r.choice([0, 1, 1, 2, 2, 3, 3])
        return ('WrapMany', [('k%d' % i, sub if i == 0 else
                              self.simple_spec()) for i in range(n)],
                r.choice(['f_kwargs', 'f_kwargs_rng']), self.seed())

    def emitter_spec(self, depth=1):
        """Any emitter that can always satisfy a call."""
        r = self.r
        k = r.randint(0, 9)
        if k <= 4:
            return self.simple_spec()
        if k == 5:
            return self.word_spec()
        if k == 6:
            return self.text_spec()
        if k == 7:
            return r.choice([
                ('chance', r.choice([0, 0.3, 0.5, 1, 1.0, 0.999]),
                 self.seed()),
                ('poisson_choice', list(range(r.randint(1, 40))),
                 {'mu': r.choice([1, 2, 7, 0.5]), 'rng_seed': self.seed()}),
                ('gaussian_choice', list(range(r.randint(1, 40))),
                 {'mu': r.choice([1, 2, 7, -1]), 'sigma': r.choice([1, 2.5]),
                  'rng_seed': self.seed()})])
        return self.wrap_spec(depth) if depth > 0 else self.simple_spec()

    def repeat_spec(self):
        r = self.r
        return r.choice([None, None, ('Static', None),
                         ('Static', r.randint(0, 4)),
                         ('Choice', [0, 1, 2, 3], {'rng_seed': self.seed()}),
                         ('Choice', [None, 2], {'rng_seed': self.seed()}),
                         ('Sequential', [1, None, 0, 3], False),
                         ('Custom', [2, 0, None]),
                         ('Iterative', [1, 2], False)])

    def gate_spec(self):
        r = self.r
        return r.choice([None, None, ('Static', False),
                         ('chance', 0.5, self.seed()),
                         ('Sequential', [True, False, True], False),
                         ('Custom', [1, 0, '', 'x']),
                         ('Choice', [True, False], {'rng_seed':
                                                    self.seed()})])

    def field_spec(self, name='f'):
        return ('Field', name, self.emitter_spec(1), self.repeat_spec(),
                self.gate_spec(), self.r.random() < 0.3, self.seed())

    def schema_spec(self):
        n = self.r.randint(0, 4)
        return ('Schema', [self.field_spec('f%d' % i) for i in range(n)])


def _short(x):
    s = repr(x) if not isinstance(x, str) else x
    return s if len(s) < 700 else s[:500] + '...' + s[-150:]


def build(spec, parts=None, path='o', override=None):
    """Make the object; parts collects (path, object) of all components.

    override: seed used in place of every 'own' seed at the top.
    """
    if spec is None:
        return None
    kind = spec[0]

    def sub(s, nm):
        return build(s, parts, path + '.' + nm)
    if kind == 'Static':
        o = fixed.Static(spec[1])
    elif kind == 'Sequential':
        o = fixed.Sequential(spec[1], reset_after_call=spec[2])
    elif kind == 'Iterative':
        vals = spec[1]
        o = fixed.Iterative(lambda: iter(vals), reset_after_call=spec[2])
    elif kind == 'Choice':
        o = choice.Choice(spec[1], **spec[2])
    elif kind == 'chance':
        o = choice.chance(spec[1], rng_seed=spec[2])
    elif kind == 'poisson_choice':
        o = choice.poisson_choice(spec[1], **spec[2])
    elif kind == 'gaussian_choice':
        o = choice.gaussian_choice(spec[1], **spec[2])
    elif kind == 'Custom':
        o = Custom(spec[1])
    elif kind == 'Seeded':
        o = Seeded(spec[1])
    elif kind == 'Word':
        o = text.Word(sub(spec[1], 'length'), sub(spec[2], 'alphabet'),
                      rng_seed=spec[3])
    elif kind == 'Text':
        o = text.Text(sub(spec[1], 'numwords'), sub(spec[2], 'word'),
                      sub(spec[3], 'sep'), rng_seed=spec[4])
    elif kind == 'WrapOne':
        o = wrappers.WrapOne(sub(spec[1], 'source'), FUNCS[spec[2]],
                             rng_seed=spec[3])
    elif kind == 'WrapMany':
        o = wrappers.WrapMany({k: sub(s, k) for k, s in spec[1]},
                              FUNCS[spec[2]], rng_seed=spec[3])
    elif kind == 'Field':
        o = profile.Field(spec[1], sub(spec[2], 'emitter'),
                          repeat=sub(spec[3], 'repeat'),
                          gate=sub(spec[4], 'gate'), hide=spec[5],
                          rng_seed=spec[6])
    elif kind == 'Schema':
        o = profile.Schema(*[sub(s, s[1]) for s in spec[1]])
    else:
        raise ValueError(kind)
    if parts is not None:
        parts.append((path, kind, o))
    return o


def with_seed(spec, s):
    """The spec with the seed of the top object (all fields of a schema)."""
    k = spec[0]
    if k in ('Choice', 'poisson_choice', 'gaussian_choice'):
        return (k, spec[1], dict(spec[2], rng_seed=s))
    if k in ('chance', 'Word', 'Text', 'WrapOne', 'WrapMany', 'Field'):
        return spec[:-1] + (s,)
    if k == 'Schema':
        return (k, [with_seed(f, s) for f in spec[1]])
    return spec


def outcome(fn, *a, **k):
    """('ok', value) or ('error', type, message), for comparison."""
    try:
        return ('ok', fn(*a, **k))
    except Exception as e:
        return ('error', type(e).__name__, str(e))


def frozen(x):
    """Comparable form that tells 1, True and 1.0 apart."""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(frozen(v) for v in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((frozen(k), frozen(v))
                                 for k, v in x.items())
    if isinstance(x, float) and x != x:
        return 'nan'
    return (type(x).__name__, x)


def use(o, n=None):
    """One call of an emitter, a field or a schema."""
    if isinstance(o, (profile.Field, profile.Schema)):
        return outcome(o)
    return outcome(o, n) if n is not None else outcome(o)
