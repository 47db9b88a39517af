"""C05 and C06: choice without replacement."""
from .zoo import *
from .contracts import MT

WS = MT + 'weighted_shuffle'
MODES = (None, 'weights', 'cum_weights')


def fresh_weights(c):
    return SList(weights_seq(c.n, 'new_weight'))


def fresh_cum(c):
    f = Fn('new_cum', [Int], Real, lambda i: [f(i) >= 0], lambda a, b: [
        z3.Implies(z3.And(a[0] >= 0, a[0] <= b[0]), f(a[0]) <= f(b[0]))])
    return SList(SSeq(c.n, lambda i: f(zi(i)), 'list'))


# what starts a new pass over the items
def by_construction(mode):
    return AnyChoice(mode, replace=False, roac=False, history=False)


def by_reset(mode):
    c = AnyChoice(mode, replace=False, roac=False)
    method(c.obj, 'reset')
    return c


def by_seed(mode):
    c = AnyChoice(mode, replace=False, roac=False)
    method(c.obj, 'seed', anyv('other_seed'))
    return c


def by_weights(mode):
    c = AnyChoice(mode, replace=False, roac=False)
    set_attr(c.obj, 'weights', fresh_weights(c))
    return c


def by_cum_weights(mode):
    c = AnyChoice(mode, replace=False, roac=False)
    set_attr(c.obj, 'cum_weights', fresh_cum(c))
    return c


def by_no_weights(mode):
    c = AnyChoice(mode, replace=False, roac=False)
    set_attr(c.obj, plain_choice('weights', 'cum_weights'), None)
    return c


def by_replace(mode):
    c = AnyChoice(mode, replace=True, roac=None)
    set_attr(c.obj, 'replace', False)
    return c


def by_replace_twice(mode):
    """Off, some emissions, on, some emissions, off."""
    c = AnyChoice(mode, replace=False, roac=False)
    set_attr(c.obj, 'replace', True)
    call(c.obj, [])
    set_attr(c.obj, 'replace', False)
    return c


def plain_choice(a, b):
    return a if branch(plain('which', Bool)) else b


STARTS = [by_construction, by_reset, by_seed, by_weights, by_cum_weights,
          by_no_weights, by_replace, by_replace_twice]


def remaining(c):
    return zi(interp.as_num(get_attr(c.obj, 'num_unique_items')))


def drain(c, k):
    """(what a call for k values returns, the state it leaves)"""
    r = force(call(c.obj, [k]))
    return to_seq(r), snapshot(c.obj)


for _start in STARTS:
    for _mode in MODES:
        _nm = f'Choice ({_mode}) {_start.__name__}'

        @goal(f'{_nm}: a pass emits every item once', 'C05', secs=120,
              uses=WS)
        def _(start=_start, mode=_mode):
            c = started(start, mode)
            prove('no replacement', interp.znot(truth(
                get_attr(c.obj, 'replace'))))
            prove('all items remain', remaining(c) == c.n)
            r, e = attempt(lambda: call(c.obj, [c.n]))
            prove('a call for all items works', e is None, repr(e))
            if e is None:
                r = to_seq(force(r))
                prove('as many as there are items', zi(r.n) == c.n)
                is_permutation('each item once', r, c.items, c.n)
                prove('none remain', remaining(c) == 0)
                for args in ([], [1], [plain('more', Int)]):
                    if args and is_z(args[0]):
                        assume(args[0] >= 1)
                    prove_raises('nothing is left', lambda: call(
                        c.obj, args), ValueError)

        @goal(f'{_nm}: a pass may be split into calls', 'C05', secs=120,
              uses=WS)
        def _(start=_start, mode=_mode):
            c = started(start, mode)
            k, m = ints('k m', 0)
            assume(k + m <= c.n)
            after(lambda: drain(c, c.n), lambda whole: split(
                c, k, m, whole[0]))


def started(start, mode):
    """The state a start leaves; which it can't be with some weights."""
    try:
        return start(mode)
    except PyRaise as e:
        if start is by_replace_twice:
            # there may be nothing to draw with weights of 0
            prove('only with weights', mode is not None)
            prove_exc('ValueError', e.exc, ValueError)
            raise Prune()
        raise


def split(c, k, m, whole):
    """k and then m values are what k + m values would be."""
    after(lambda: drain(c, simp(k + m)), lambda both: split2(
        c, k, m, whole, *both))


def split2(c, k, m, whole, both, state):
    prove_eq('the first k + m of the pass', both, part(whole, 0, k + m))
    first = to_seq(force(call(c.obj, [k])))
    prove_eq('the first k', first, part(whole, 0, k))
    prove('n - k remain', remaining(c) == c.n - k)
    before = snapshot(c.obj)

    def more():
        r = to_seq(force(call(c.obj, [m])))
        prove_eq('the next m', r, part(whole, k, k + m))
        prove('n - k - m remain', remaining(c) == c.n - k - m)
        prove_same('state as after one call', snapshot(c.obj), state)

    def single():
        assume(m == 1)
        v = call(c.obj, [])
        prove_eq('the next one', v, whole.get(k))
        prove('n - k - 1 remain', remaining(c) == c.n - k - 1)
        prove_same('state as after one call', snapshot(c.obj), state)

    def too_many():
        x = plain('x', Int)
        assume(x > c.n - k)
        assume(m == 0)
        _, e = attempt(lambda: call(c.obj, [x]))
        prove_exc('too many raise ValueError', e, ValueError)
        prove('and use up nothing', remaining(c) == c.n - k)
        prove_same('and change nothing', snapshot(c.obj), before)

    def no_change():
        set_attr(c.obj, 'replace', False)
        set_attr(c.obj, 'replace_only_after_call', False)
        for name in ('items', 'weights', 'cum_weights', 'num_unique_items',
                     'num_unique_values', 'emits_unique_values'):
            get_attr(c.obj, name)
        prove('n - k remain still', remaining(c) == c.n - k)
        prove_eq('the next m, though set to no replacement again',
                 to_seq(force(call(c.obj, [m]))), part(whole, k, k + m))

    sub_paths(more)
    sub_paths(single)
    sub_paths(too_many)
    sub_paths(no_change)


# --- C06: no repetition within a call

def by_flag(mode):
    return AnyChoice(mode, replace=True, roac=True)


def by_both(mode):
    """Constructed with replacement off: the flag turns it on."""
    return AnyChoice(mode, replace=False, roac=True)


def by_setting(mode):
    c = AnyChoice(mode, replace=False, roac=False)
    set_attr(c.obj, 'replace_only_after_call', True)
    return c


def by_setting2(mode):
    c = AnyChoice(mode, replace=True, roac=False)
    set_attr(c.obj, 'replace_only_after_call', True)
    return c


def by_weights6(mode):
    c = AnyChoice(mode, replace=True, roac=True)
    set_attr(c.obj, 'weights', fresh_weights(c))
    return c


def by_cum6(mode):
    c = AnyChoice(mode, replace=True, roac=True)
    set_attr(c.obj, 'cum_weights', fresh_cum(c))
    return c


def by_none6(mode):
    c = AnyChoice(mode, replace=True, roac=True)
    set_attr(c.obj, plain_choice('weights', 'cum_weights'), None)
    return c


def by_restart6(mode):
    c = AnyChoice(mode, replace=True, roac=True)
    if branch(plain('seeded', Bool)):
        method(c.obj, 'seed', anyv('other_seed'))
    else:
        method(c.obj, 'reset')
    return c


for _start in (by_flag, by_both, by_setting, by_setting2, by_weights6,
               by_cum6, by_none6, by_restart6):
    for _mode in MODES:
        @goal(f'Choice ({_mode}) {_start.__name__}, replacing after each '
              'call: no repetition', 'C06', uses=WS, secs=120)
        def _(start=_start, mode=_mode):
            c = start(mode)
            w = force(get_attr(c.obj, 'weights'))
            m = ints('m', 2)
            assume(m <= c.n)
            if w is not None:
                assume(m <= pos_count(to_seq(w)))
            before = snapshot(c.obj, rng=False)
            r, e = attempt(lambda: call(c.obj, [m]))
            prove('works', e is None, repr(e))
            if e is not None:
                return
            r = to_seq(force(r))
            prove('as many as asked for', zi(r.n) == m)
            is_permutation('different positions', r, c.items, c.n, m)
            prove_same('the next call has all items',
                       snapshot(c.obj, rng=False), before)

        @goal(f'Choice ({_mode}) {_start.__name__}, replacing after each '
              'call: single values and too many', 'C06', uses=WS, secs=120)
        def _(start=_start, mode=_mode):
            c = start(mode)
            before = snapshot(c.obj, rng=False)

            def too_many():
                m = ints('m', 2)
                assume(m > c.n)
                _, e = attempt(lambda: call(c.obj, [m]))
                prove_exc('more than there are items', e, ValueError)
                prove_same('changes nothing', snapshot(c.obj, rng=False),
                           before)

            def single():
                c.positive_now()
                for args in ([], [1], [0]):
                    r, e = attempt(lambda: call(c.obj, args))
                    prove('works', e is None, repr(e))
                    prove_same('the next call has all items',
                               snapshot(c.obj, rng=False), before)
            sub_paths(too_many)
            sub_paths(single)


# --- the states the goals above start from are all there are

OPERATIONS = {
    'replace set': lambda c: set_attr(c.obj, 'replace', plain('r', Bool)),
    'replace_only_after_call set': lambda c: set_attr(
        c.obj, 'replace_only_after_call', plain('r', Bool)),
    'weights set': lambda c: set_attr(c.obj, 'weights', fresh_weights(c)),
    'cum_weights set': lambda c: set_attr(c.obj, 'cum_weights',
                                          fresh_cum(c)),
    'weights set to None': lambda c: set_attr(c.obj, 'weights', None),
    'cum_weights set to None': lambda c: set_attr(c.obj, 'cum_weights',
                                                  None),
    'reset': lambda c: method(c.obj, 'reset'),
    'seed': lambda c: method(c.obj, 'seed', anyv('other_seed')),
    'a value emitted': lambda c: call(c.obj, []),
    'values emitted': lambda c: call(c.obj, [ints('k', 0)]),
}

for _mode in MODES:
    @goal(f'Choice ({_mode}): a new one satisfies the invariant',
          ('C05', 'C06'), uses=WS, secs=120)
    def _(mode=_mode):
        c = AnyChoice(mode, history=False)
        invariant(c.obj, c.n, c.items)

    for _op in OPERATIONS:
        @goal(f'Choice ({_mode}): the invariant after {_op}',
              ('C05', 'C06'), uses=WS, secs=120)
        def _(mode=_mode, op=_op):
            c = AnyChoice(mode)
            # what raises is no matter here, but for what it leaves
            attempt(lambda: OPERATIONS[op](c))
            invariant(c.obj, c.n, c.items)
