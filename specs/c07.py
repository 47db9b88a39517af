"""C07: what a choice emits; C08: its settings."""
from .zoo import *
from .c05 import (MODES, WS, fresh_weights, fresh_cum, by_setting,
                  by_setting2, by_weights6)


def from_items(name, c, r, m, positive):
    """The m values r are items (of positive weight)."""
    if hostint(r.n) == 0:
        prove(name + ': none', zi(m) == 0)
        return
    p = index_map(r, c.items)
    if p is None:
        prove(name, False, 'the values do not come from the items')
        return
    w = force(get_attr(c.obj, 'weights'))

    def run():
        j = plain('j', Int)
        assume(z3.And(j >= 0, j < zi(m)))
        prove(name + ': a position of the items', z3.And(
            p(j) >= 0, p(j) < zi(c.n)))
        f = values.eq_formula(r.get(j), c.items.get(p(j)))
        prove(name + ': the item there', False if f is None else f)
        if positive and w is not None:
            prove(name + ': weight not zero', zr(interp.as_num(
                to_seq(w).get(p(j)))) > 0)
    sub_paths(run)


def emissions(c, m, positive):
    def single():
        v, e = attempt(lambda: call(c.obj, []))
        prove('a single value', e is None, repr(e))
        if e is None:
            from_items('single', c, SSeq(1, lambda i: v), 1, positive)

    def many():
        r, e = attempt(lambda: call(c.obj, [m]))
        prove('many values', e is None, repr(e))
        if e is None:
            from_items('many', c, to_seq(force(r)), m, positive)
    sub_paths(single)
    sub_paths(many)


def replacing(mode):
    return AnyChoice(mode, replace=True, roac=False)


def set_replacing(mode):
    c = AnyChoice(mode, replace=False, roac=False)
    set_attr(c.obj, 'replace', True)
    return c


def reweighed(mode):
    c = AnyChoice(mode, replace=True, roac=False)
    if branch(plain('which', Bool)):
        set_attr(c.obj, 'weights', fresh_weights(c))
    else:
        set_attr(c.obj, 'cum_weights', fresh_cum(c))
    return c


def after_reset(mode):
    c = AnyChoice(mode, replace=True, roac=False)
    if branch(plain('which', Bool)):
        method(c.obj, 'reset')
    else:
        method(c.obj, 'seed', anyv('other_seed'))
    return c


def unweighed(mode):
    c = AnyChoice(mode, replace=True, roac=False)
    set_attr(c.obj, 'weights' if branch(plain('which', Bool)) else
             'cum_weights', None)
    return c


for _start in (replacing, set_replacing, reweighed, unweighed, after_reset):
    for _mode in MODES:
        @goal(f'Choice ({_mode}) {_start.__name__}: emits items of positive '
              'weight', 'C07', secs=120, uses=WS)
        def _(start=_start, mode=_mode):
            c = start(mode)
            c.positive_now()
            emissions(c, ints('m', 0), True)

for _mode in MODES:
    @goal(f'Choice ({_mode}), replacing after each call: emits items of '
          'positive weight', 'C07', secs=120, uses=WS)
    def _(mode=_mode):
        c = AnyChoice(mode, replace=True, roac=True)
        c.positive_now()
        m = ints('m', 0)
        assume(m <= c.n)
        w = force(get_attr(c.obj, 'weights'))
        if w is not None:
            assume(m <= pos_count(to_seq(w)))
        emissions(c, m, True)

    @goal(f'Choice ({_mode}), without replacement: emits items', 'C07',
          secs=120, uses=WS)
    def _(mode=_mode):
        c = AnyChoice(mode, replace=False, roac=False)
        assume(c.idx < c.n)
        m = ints('m', 0)
        assume(m <= c.n - c.idx)
        emissions(c, m, False)


@goal('chance: the outcomes', 'C07')
def _():
    p = reals('chance')
    c = call(choice.chance, [p], {'rng_seed': anyv('seed')})
    m = ints('m', 0)
    j = plain('j', Int)

    def always(v):
        x, e = attempt(lambda: call(c, []))
        prove('works', e is None, repr(e))
        if e is None:
            prove_eq(f'single: {v}', x, v)
        r, e = attempt(lambda: call(c, [m]))
        prove('works', e is None, repr(e))
        if e is None:
            assume(z3.And(j >= 0, j < m))
            prove_eq(f'many: {v}', to_seq(force(r)).get(j), v)

    def sure():
        assume(p >= 1)
        always(True)

    def never():
        assume(p <= 0)
        always(False)

    def between():
        assume(z3.And(p > 0, p < 1))
        items, ws = to_seq(get_attr(c, 'items')), to_seq(
            get_attr(c, 'weights'))
        prove('two items', z3.And(zi(items.n) == 2, zi(ws.n) == 2))
        prove('with replacement', zb(truth(get_attr(c, 'replace'))))
        prove('not only after each call', interp.znot(zb(truth(
            get_attr(c, 'replace_only_after_call')))))
        for i in (0, 1):
            v = force(items.get(i))
            prove('True or False', v is True or v is False)
            prove(f'weight of {v}', interp.as_num(ws.get(i)) ==
                  (p if v is True else 1 - p))
        prove('one of each', force(items.get(0)) is not
              force(items.get(1)))
        r, e = attempt(lambda: call(c, [m]))
        prove('works', e is None, repr(e))
    sub_paths(sure)
    sub_paths(never)
    sub_paths(between)


@goal('chance: the seed', 'C07')
def _():
    s = anyv('seed')
    for args, kw in (([reals('p'), s], {}), ([reals('q')],
                                             {'rng_seed': s})):
        c = call(choice.chance, args, kw)
        prove_eq('rng_seed', get_attr(c, 'rng_seed'), s)


# --- C08

def consistent(o, n):
    """The settings as the property has them."""
    w, cw = force(get_attr(o, 'weights')), force(get_attr(o, 'cum_weights'))
    prove('both weights or none', (w is None) == (cw is None),
          f'{w!r}, {cw!r}')
    if w is not None and cw is not None:
        w, cw = to_seq(w), to_seq(cw)
        prove('a weight per item', zi(w.n) == zi(n))
        prove('a cumulative weight per item', zi(cw.n) == zi(n))
        ww = lambda i: zr(interp.as_num(w.get(i)))
        cc = lambda i: zr(interp.as_num(cw.get(i)))

        def sums():
            i = plain('i', Int)
            assume(z3.And(i >= 1, i < zi(n)))
            prove('a cumulative weight adds the weight',
                  cc(i) == cc(simp(i - 1)) + ww(i))
        sub_paths(sums)
        sub_paths(lambda: prove('the first cumulative weight',
                                z3.Implies(zi(n) >= 1, cc(zi(0)) ==
                                           ww(zi(0)))))
    rep, roac = (truth(get_attr(o, x))
                 for x in ('replace', 'replace_only_after_call'))
    prove('replacement after each call is replacement',
          z3.Implies(zb(roac), zb(rep)))


def given(o, n, name, seq):
    """The weights set are the weights reported."""
    got = force(get_attr(o, name))
    if seq is None:
        prove(f'no {name}', got is None)
    elif got is None:
        prove(f'{name} as set', False)
    else:
        prove_eq(f'{name} as set', got, SList(seq))


for _mode in MODES:
    for _hist in (False, True):
        @goal(f'Choice ({_mode}), {"used" if _hist else "new"}: consistent '
              'settings', 'C08', uses=WS)
        def _(mode=_mode, hist=_hist):
            c = AnyChoice(mode, replace=None, roac=None, history=hist)
            consistent(c.obj, c.n)
            rep, roac = (zb(truth(get_attr(c.obj, x)))
                         for x in ('replace', 'replace_only_after_call'))
            prove('replace as given', rep == z3.Or(c.replace, c.roac))
            prove('replace_only_after_call as given', roac == c.roac)
            if mode == 'weights':
                given(c.obj, c.n, 'weights', c.w)
            elif mode == 'cum_weights':
                given(c.obj, c.n, 'cum_weights', c.c)
            else:
                given(c.obj, c.n, 'weights', None)

    @goal(f'Choice ({_mode}): setting replace', 'C08', uses=WS)
    def _(mode=_mode):
        c = AnyChoice(mode)
        w0 = snap_weights(c.obj)
        old = zb(truth(get_attr(c.obj, 'replace_only_after_call')))
        v = plain('value', Bool)
        set_attr(c.obj, 'replace', v)
        consistent(c.obj, c.n)
        prove('replace as set', zb(truth(get_attr(c.obj, 'replace'))) == v)
        prove('replace_only_after_call is off if replace is',
              zb(truth(get_attr(c.obj, 'replace_only_after_call'))) ==
              z3.And(v, old))
        prove_same('weights', snap_weights(c.obj), w0)

    @goal(f'Choice ({_mode}): setting replace_only_after_call', 'C08',
          uses=WS)
    def _(mode=_mode):
        c = AnyChoice(mode)
        w0 = snap_weights(c.obj)
        old = zb(truth(get_attr(c.obj, 'replace')))
        # anything true or false
        v = anyv('value')
        set_attr(c.obj, 'replace_only_after_call', v)
        v = zb(truth(v))
        consistent(c.obj, c.n)
        prove('replace_only_after_call as set', zb(truth(
            get_attr(c.obj, 'replace_only_after_call'))) == v)
        prove('replace is on if replace_only_after_call is',
              zb(truth(get_attr(c.obj, 'replace'))) == z3.Or(old, v))
        prove_same('weights', snap_weights(c.obj), w0)

    for _what in ('weights', 'cum_weights'):
        @goal(f'Choice ({_mode}): setting {_what}', 'C08', uses=WS,
              secs=120)
        def _(mode=_mode, what=_what):
            c = AnyChoice(mode)
            flags = snap_flags(c.obj)
            new = fresh_weights(c) if what == 'weights' else fresh_cum(c)
            if branch(plain('tuple', Bool)):
                new = new.seq.with_kind('tuple')
            set_attr(c.obj, what, new)
            consistent(c.obj, c.n)
            given(c.obj, c.n, what, to_seq(new))
            prove_same('flags', snap_flags(c.obj), flags)

        @goal(f'Choice ({_mode}): removing {_what}', 'C08', uses=WS)
        def _(mode=_mode, what=_what):
            c = AnyChoice(mode)
            flags = snap_flags(c.obj)
            set_attr(c.obj, what, None)
            consistent(c.obj, c.n)
            given(c.obj, c.n, what, None)
            prove_same('flags', snap_flags(c.obj), flags)

        @goal(f'Choice ({_mode}): {_what} of the wrong number', 'C08',
              uses=WS)
        def _(mode=_mode, what=_what):
            c = AnyChoice(mode)
            m = ints('m', 0)
            assume(m != c.n)
            before = snapshot(c.obj)
            new = any_list('new', m, sort=Real)
            _, e = attempt(lambda: set_attr(c.obj, what, new))
            prove_exc('refused', e, ValueError)
            prove_same('settings unchanged', snapshot(c.obj), before)

for _what in ('weights', 'cum_weights'):
    @goal(f'Choice: {_what} of the wrong number on construction', 'C08',
          uses=WS)
    def _(what=_what):
        n, m = ints('n', 1), ints('m', 0)
        assume(m != n)
        kw = {what: any_list('new', m, sort=Real),
              'replace': plain('replace', Bool),
              'replace_only_after_call': plain('roac', Bool),
              'rng_seed': anyv('seed')}
        c, e = attempt(lambda: call(choice.Choice, [any_list('item', n)],
                                    kw))
        if e is None:
            prove('only no weights count as not given', m == 0)
            consistent(c, n)
            given(c, n, 'weights', None)
        else:
            # (cum_weights of [] are refused)
            prove('no weights count as not given',
                  m > 0 if what == 'weights' else True)
            prove_exc('refused', e, ValueError)


@goal('Choice: both kinds of weights', 'C08', uses=WS)
def _():
    n = ints('n', 1)
    prove_raises('refused', lambda: call(
        choice.Choice, [any_list('item', n)],
        {'weights': any_list('w', n, sort=Real),
         'cum_weights': any_list('c', n, sort=Real)}), TypeError)


def snap_weights(o):
    return Snap('weights', {x: snapshot(get_attr(o, x))
                            for x in ('weights', 'cum_weights')})


def snap_flags(o):
    return Snap('flags', {x: snapshot(get_attr(o, x)) for x in (
        'replace', 'replace_only_after_call')})


for _what in ('weights', 'cum_weights'):
    @goal(f'Choice with replacement: {_what} of any sign', 'C08')
    def _(what=_what):
        # (those of a chance emitter may be negative)
        n = ints('n', 1)
        items = any_list('item', n)
        kw = {'replace_only_after_call': plain('roac', Bool),
              'rng_seed': anyv('seed')}

        def made():
            ws = any_list('new', n, sort=Real)
            c = call(choice.Choice, [items], {what: ws, **kw})
            consistent(c, n)
            given(c, n, what, to_seq(ws))
        sub_paths(made)

        def changed():
            ws = any_list('new', n, sort=Real)
            c = call(choice.Choice, [items], kw)
            flags = snap_flags(c)
            set_attr(c, what, ws)
            consistent(c, n)
            given(c, n, what, to_seq(ws))
            prove_same('flags', snap_flags(c), flags)
        sub_paths(changed)
