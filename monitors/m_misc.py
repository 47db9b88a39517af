"""C21 and C22."""
import importlib
import warnings

import fauxdoc
from fauxdoc import warn
from . import monitor, check, Bad
from .gen import *
from .m_choice import toks


def uniq(vals):
    return len(set(vals))


@monitor('C21', 300)
def of_items(g):
    r = g.r
    k = r.randint(0, 3)
    if k == 0:
        items = toks(g, cap=300) if r.random() < 0.6 else g.items(cap=300)
        spec = g.choice_spec(items)
        o = build(spec)
        n = len(items)
        g.note(spec)
        rep = bool(spec[2]['replace'] or
                   spec[2]['replace_only_after_call'])
        left = list(items)
        for _ in range(r.randint(1, 8)):
            if rep:
                check(o.num_unique_values == uniq(items), lambda:
                      f'{o.num_unique_values}, not {uniq(items)}')
                check(not o.emits_unique_values, 'claims unique values')
            else:
                check(o.num_unique_values == uniq(left), lambda:
                      f'{o.num_unique_values}, not {uniq(left)}')
                check(bool(o.emits_unique_values) ==
                      (uniq(left) == len(left)), lambda:
                      f'emits_unique_values is {o.emits_unique_values} for '
                      f'{left}')
            x = r.random()
            if x < 0.15:
                rep = r.random() < 0.5
                if o.replace != rep:
                    left = list(items)
                g.note('replace', rep)
                o.replace = rep
            elif x < 0.25:
                g.note('reset')
                o.reset()
                left = list(items)
            elif x < 0.3:
                g.note('roac on')
                o.replace_only_after_call = True
                rep = True
            elif x < 0.4:
                g.note('weights')
                o.weights = r.choice([None, g.weights(n)])
                left = list(items)
            else:
                m = r.choice([None, 1, 2, g.size(0, n), n])
                if not rep:
                    if not left and m is None:
                        continue
                    m = m if m is None else min(m, len(left))
                elif o.replace_only_after_call:
                    m = None
                g.note('call', m)
                got = [o()] if m is None else o(m)
                if not rep:
                    for v in got:
                        left = _without(left, v)
    elif k == 1:
        v = r.choice([None, 0, 'x', (1,)])
        o = fixed.Static(v)
        g.note('Static', v)
        check(o.num_unique_values == 1 and not o.emits_unique_values, 'Static')
        o.value = 'other'
        check(o.num_unique_values == 1, 'Static')
    elif k == 2:
        items = toks(g, cap=300) if r.random() < 0.5 else g.items(cap=300)
        o = fixed.Sequential(items)
        g.note('Sequential', items)
        for m in (None, 3, 0):
            check(o.num_unique_values == uniq(items), lambda:
                  f'{o.num_unique_values}, not {uniq(items)}')
            check(not o.emits_unique_values, 'claims unique values')
            use(o, m)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            new = list(g.items(cap=40))
            o.iterator_factory = lambda: iter(new)
        check(o.num_unique_values == uniq(new), 'after a change of source')
    else:
        p = r.choice([0, 0.5, 1, 2])
        o = choice.chance(p)
        g.note('chance', p)
        check(o.num_unique_values == 2 and not o.emits_unique_values,
              'chance')


def _without(left, v):
    for i, x in enumerate(left):
        if x is v:
            return left[:i] + left[i + 1:]
    for i, x in enumerate(left):
        if x == v and type(x) is type(v):
            return left[:i] + left[i + 1:]
    raise Bad(f'{v!r} is not left')


class Stub(Custom):
    def __init__(self, nuv, items=None):
        super().__init__(items or ['x'])
        self.num_unique_values = nuv
        if items is not None:
            self.items = items


@monitor('C21', 260)
def of_texts(g):
    r = g.r
    lens = [g.size(0, 30) for _ in range(r.choice([1, 1, 2, 3]))] \
        if r.random() < 0.8 else [g.size(0, 200)]
    known = r.random() < 0.75
    ln = Stub(None, lens) if known and r.random() < 0.4 else \
        fixed.Sequential(lens) if known and r.random() < 0.5 else \
        choice.Choice(lens) if known else Custom(lens)
    nc = r.choice([None, 0, 1, 2, 26, g.size(1, 60)])
    alpha = Stub(nc) if r.random() < 0.5 else \
        choice.Choice([chr(200 + i) for i in range(max(nc or 1, 1))] +
                      [chr(200)] * r.randint(0, 2))
    nc = alpha.num_unique_values
    if r.random() < 0.5:
        g.note('Word', lens, known, nc)
        o = text.Word(ln, alpha)
        want = sum(nc ** k for k in lens) if known and nc is not None \
            else None
    else:
        ns = r.choice([None, 0, 1, 3])
        sep = Stub(ns) if r.random() < 0.7 else None
        ns = ns if sep else 1
        g.note('Text', lens, known, nc, ns)
        o = text.Text(ln, alpha, sep)
        want = None
        if known and nc is not None and ns is not None:
            want = sum(nc ** k * ns ** max(k - 1, 0) for k in lens)
    got = o.num_unique_values
    check(got == want and type(got) is type(want),
          lambda: f'{got!r}, not {want!r}')
    check(not o.emits_unique_values, 'claims unique values')


@monitor('C21', 60)
def others(g):
    """Emitters that can't know."""
    r = g.r
    spec = r.choice([('Iterative', [1, 2], False),
                     ('WrapOne', ('Static', 1), 'f_pair', 1),
                     ('WrapMany', [('a', ('Static', 1))], 'f_kwargs', 1)])
    o = build(spec)
    g.note(spec)
    check(not o.emits_unique_values, 'claims unique values')
    nested = text.Text(fixed.Static(2), text.Word(
        fixed.Static(3), choice.Choice('abcd')))
    check(nested.num_unique_values == 64 ** 2, 'nested')


NAMES = ['Wrap', 'wrap', 'Wrapp', 'WrapOn', 'Nope', '_x', '__nope__', '',
         'DEPRECATE', 'é', 'deprecated', 'function', 'Choices', 'x' * 300]


def variant(r, nm):
    """Another name, that is much like this one."""
    return r.choice(['_' + nm, '__' + nm, nm + '_', nm + 's', nm.lower(),
                     nm.upper(), nm.swapcase(), nm[:-1], nm[1:], nm + nm,
                     'x.' + nm, ' ' + nm, nm + ' ', nm[::-1],
                     f'__{nm}__'])


@monitor('C22', 200)
def modules(g):
    r = g.r
    mod = r.choice(['fauxdoc.emitters', 'fauxdoc.emitters.wrappers'])
    m = importlib.import_module(mod)
    if r.random() < 0.4:
        how = r.choice(['getattr', 'from', '__getattr__'])
        g.note(mod, 'Wrap', how)
        for _ in range(r.randint(1, 3)):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                if how == 'getattr':
                    v = m.Wrap
                elif how == '__getattr__':
                    v = m.__getattr__('Wrap')
                else:
                    ns = {}
                    exec(f'from {mod} import Wrap', ns)
                    v = ns['Wrap']
            if how == 'from' and len(w) == 2:
                # the import system may ask twice (hasattr, then getattr)
                w = w[:1]
            check(len(w) == 1, f'{len(w)} warnings')
            check(w[0].category is DeprecationWarning, 'category')
            t = str(w[0].message)
            check(mod in t and 'Wrap' in t and 'WrapOne' in t and
                  'WrapMany' in t, f'message {t!r}')
            check(v is m.DEPRECATED['Wrap'][1], 'object')
            check(v.__name__ == 'Wrap', 'name of the object')

            class Sub(v):
                def emit(self):
                    return self.wrapper(self.emitters['source']())

                def emit_many(self, number):
                    return [self.emit() for _ in range(number)]
            o = Sub({'source': fixed.Static(1)}, f_pair, rng_seed=3)
            check(o() == ('f', 1) and o.rng_seed == 3, 'use of the object')
        check('Wrap' in dir(m), 'dir')
    else:
        nm = r.choice(NAMES + [x for x in STRINGS
                               if not hasattr(m, x)] +
                      ['n%d' % r.randint(0, 99)] +
                      [variant(r, 'Wrap')] * 3)
        if nm == 'Wrap' or nm in vars(m):
            nm = 'Unknown'
        g.note(mod, nm)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                v = getattr(m, nm)
            except AttributeError as e:
                check(nm in str(e) or repr(nm) in str(e),
                      f'message {e} does not name {nm!r}')
            else:
                raise Bad(f'{nm!r} gives {v!r}')
        check(not w, 'a warning is issued')
        check(not hasattr(m, nm), 'hasattr')
    for nm in ('WrapOne', 'WrapMany'):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            getattr(m, nm)
        check(not w, f'{nm} warns')


@monitor('C22', 200)
def function(g):
    r = g.r
    table = {}
    for i in range(r.randint(0, 6)):
        table[r.choice(NAMES + ['n%d' % i])] = (
            r.choice([None, '', 'New', 'Other', 'A or B']),
            r.choice([None, 0, False, '', object(), f_pair, [], int]))
    nm = r.choice(list(table) + NAMES) if table else r.choice(NAMES)
    if r.random() < 0.3:
        nm = variant(r, nm)
    obj, typ = r.choice(['fauxdoc.x', 'mod', 'Cls']), r.choice(
        ['module', 'class'])
    g.note(list(table), nm, table.get(nm), obj, typ)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            v = warn.get_deprecated_attr(nm, obj, typ, table)
        except AttributeError as e:
            check(nm not in table, 'a deprecated name is refused')
            check(nm in str(e) or repr(nm) in str(e), f'message {e}')
            check(not w, 'a warning is issued')
            return
    check(nm in table, f'{nm!r} gives {v!r}')
    check(v is table[nm][1], f'gives {v!r}')
    check(len(w) == 1 and w[0].category is DeprecationWarning,
          f'warnings {[str(x.message) for x in w]}')
    t = str(w[0].message)
    new = table[nm][0]
    check(obj in t and nm in t and (not new or new in t), f'message {t!r}')
