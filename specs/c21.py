"""C21: numbers of unique values."""
from .zoo import *
from .contracts import MT

P = 'C21'
WS = MT + 'weighted_shuffle'
distinct_count = values.distinct_count


def counts(o, left, unique):
    """o has the values `left` left; unique: does it emit each only once?"""
    left = left.with_kind('list')
    d = distinct_count(left)
    prove_eq('number of unique values', get_attr(o, 'num_unique_values'), d)
    e = truth(get_attr(o, 'emits_unique_values'))
    if unique:
        prove('unique values claimed exactly if those left are different',
              zb(e) == (zi(left.n) == d))
    else:
        prove('no unique values claimed', z3.Not(zb(e)))


for _mode in (None, 'weights', 'cum_weights'):
    @goal(f'unique values: Choice ({_mode}) in any state', P, uses=WS)
    def _(mode=_mode):
        c = AnyChoice(mode)

        def run():
            if c.replacing():
                counts(c.obj, c.items, False)
            else:
                counts(c.obj, part(c.shuffled, c.idx, c.n), True)
        sub_paths(run)

    @goal(f'unique values: Choice ({_mode}) as made', P, uses=WS)
    def _(mode=_mode):
        c = AnyChoice(mode, history=False)

        def run():
            if c.replacing():
                counts(c.obj, c.items, False)
            else:
                counts(c.obj, to_seq(own(c.obj, '_shuffled')), True)
                prove('all values are left', zi(to_seq(
                    own(c.obj, '_shuffled')).n) == c.n)
        sub_paths(run)

    @goal(f'unique values: Choice ({_mode}) after its settings were changed', P,
          uses=WS)
    def _(mode=_mode):
        c = AnyChoice(mode)
        o = c.obj

        def rest():
            if interp.test(get_attr(o, 'replace')):
                counts(o, c.items, False)
            else:
                invariant(o, c.n, c.items)
                i = zi(own(o, '_shuffled_index'))
                counts(o, part(to_seq(own(o, '_shuffled')), i, c.n), True)
        w = SList(weights_seq(c.n, 'new_weight'))
        for fn in (lambda: set_attr(o, 'replace', plain('r', Bool)),
                   lambda: set_attr(o, 'replace_only_after_call',
                                    plain('r', Bool)),
                   lambda: set_attr(o, 'weights', None),
                   lambda: set_attr(o, 'weights', w),
                   lambda: set_attr(o, 'cum_weights', None),
                   lambda: method(o, 'reset'),
                   lambda: method(o, 'seed', anyv('s'))):
            sub_paths(lambda: (fn(), rest()))

        def emitted():
            k = ints('k', 0)
            if interp.test(get_attr(o, 'replace')):
                return
            assume(k <= zi(get_attr(o, 'num_unique_items')))
            call(o, [k])
            rest()
        sub_paths(emitted)


@goal('unique values: chance', P)
def _():
    p = reals('p')
    assume(z3.And(p >= 0, p <= 1))
    o = call(choice.chance, [p])
    counts(o, Lit([True, False], 'list'), False)


@goal('unique values: poisson_choice, gaussian_choice', P)
def _():
    src = any_seq('item', minlen=1)
    for fn in (choice.poisson_choice, choice.gaussian_choice):
        o = call(fn, [SList(src)])
        counts(o, src, False)


@goal('unique values: Static', P)
def _():
    v, w = anyv('value'), anyv('new')
    o = call(fixed.Static, [v])
    counts(o, Lit([v], 'list'), False)
    call(o, [ints('n', 0)])
    set_attr(o, 'value', w)
    prove_eq('one value', get_attr(o, 'num_unique_values'), 1)
    counts(o, Lit([w], 'list'), False)


for _rac in (False, True):
    @goal(f'unique values: Sequential, Iterative (reset_after_call={_rac})', P,
          uses=['fauxdoc.emitters.fixed.Iterative.make_infinite_iter'])
    def _(rac=_rac):
        src, new = any_seq('item', minlen=1), any_seq('new', minlen=1)
        o = call(fixed.Sequential, [SList(src), rac])
        counts(o, src, False)
        call(o, [ints('n', 0)])
        counts(o, src, False)
        method(o, 'reset')
        counts(o, src, False)
        set_attr(o, 'iterator_factory', factory(new))
        counts(o, new, False)
        o = call(fixed.Iterative, [factory(src), rac])
        prove('no unique values claimed', z3.Not(zb(truth(
            get_attr(o, 'emits_unique_values')))))


def number_or_none(o, want):
    """want: a number, or None if unknown."""
    r = force(get_attr(o, 'num_unique_values'))
    if want is None:
        prove('None: unknown', r is None, repr(r))
    else:
        prove('known', r is not None)
        prove_eq('number of unique values', r, want)
    prove('no unique values claimed', z3.Not(zb(truth(
        get_attr(o, 'emits_unique_values')))))


def lengths_em(tag, known):
    n = any_seq(tag + '_item')
    f = Fn(tag + '_len', [Int], Int, lambda i: [f(i) >= 0])
    items = SSeq(n.n, lambda i: f(zi(i)), 'list')
    return emitter(tag, 'nat', {'items': SList(items)} if known else None,
                   seedable=True), items


def part_em(tag, known):
    """An emitter that reports a number of unique values, or None."""
    k = ints(tag + '_unique', 0) if known else None
    return emitter(tag, 'str', {'num_unique_values': k}, seedable=True), k


def sum_of(seq, f):
    i = z3.Int(uname('idx'))
    C.idx.append(i)
    C.pc.append(z3.And(i >= 0, i < zi(seq.n)))
    try:
        size = f(seq.get(i))
    finally:
        C.idx.pop()
        C.pc.pop()
    return values.prefix_sum(i, size, seq.n).ps(seq.n)


def power(a, b):
    return zi(interp.binop('**', a, b))


for _items in (True, False):
    for _chars in (True, False):
        @goal(f'unique values: Word (lengths known: {_items}, characters: {_chars})', P)
        def _(known=_items, chars=_chars):
            ln, items = lengths_em('length', known)
            al, k = part_em('alphabet', chars)
            distinct(ln, al)
            o = call(text.Word, [ln, al], {'rng_seed': anyv('seed')})
            want = sum_of(items, lambda x: power(k, x)) \
                if known and chars else None
            number_or_none(o, want)
            call(o, [ints('n', 0)])
            number_or_none(o, want)
            method(o, 'reset')
            number_or_none(o, want)

        for _seps in ('default', True, False):
            @goal(f'unique values: Text (lengths known: {_items}, words: {_chars}, '
                  f'separators: {_seps})', P)
            def _(known=_items, words=_chars, seps=_seps):
                ln, items = lengths_em('numwords', known)
                w, k = part_em('word', words)
                s, m = part_em('sep', seps) if seps != 'default' else \
                    (None, 1)
                distinct(*[x for x in (ln, w, s) if x])
                o = call(text.Text, [ln, w, s], {'rng_seed': anyv('seed')})
                want = None
                if known and words and seps:
                    want = sum_of(items, lambda x: power(k, x) * power(
                        m, z3.If(zi(x) - 1 > 0, zi(x) - 1, 0)))
                number_or_none(o, want)
                method(o, 'reset')
                number_or_none(o, want)


@goal('unique values: other emitters', P)
def _():
    a, b = emitter('a'), emitter('b')
    distinct(a, b)
    f = user_function('f', fails=False)
    for make in (lambda: call(wrappers.WrapOne, [a, f]),
                 lambda: call(wrappers.WrapMany, [
                     SDict(conc={'x': a, 'y': b}), f])):
        def run():
            o, e = attempt(make)
            if e is not None:      # the function takes other arguments
                return
            prove('no unique values claimed', z3.Not(zb(truth(get_attr(
                o, 'emits_unique_values')))))
        sub_paths(run)
