"""C11: static, sequential and iterative emitters follow their source."""
from .zoo import *
from pyvc import lazy
from .contracts import cyclic

P = 'C11'
MII = 'fauxdoc.emitters.fixed.Iterative.make_infinite_iter'


def single(o):
    return call(o, [])


def many(o, k):
    return call(o, [k])


def from_position(r, src, p, k, name='values in order'):
    """r is the list of k values of src (starting over) from the p-th on."""
    r = force(r)
    prove('a list', isinstance(r, SList))
    prove_eq(name, r, SList(SSeq(k, lambda j: cyclic(src).get(
        simp(zi(p) + zi(j))), 'list')))


def source_cases():
    for kind in ('list', 'tuple', 'str'):
        yield kind


def follows(make, rac):
    """make() -> (emitter, the sequence of its values)"""
    o, src = make()
    start = snapshot(o)
    a, b = ints('a', 0), ints('b', 0)

    def gone(fn):
        return lambda: (fn(), snapshot(o))[1]

    if rac:
        def first():
            prove_eq('every call starts at the first value', single(o),
                     src.get(0))
            prove_same('single call: back at the start', snapshot(o), start)
        sub_paths(first)
        for fn in (lambda: method(o, 'emit'), lambda: single(o)):
            def one():
                prove_eq('starts at the first value', fn(), src.get(0))
                prove_same('back at the start', snapshot(o), start)
            sub_paths(one)
        for fn in (lambda: method(o, 'emit_many', a), lambda: many(o, a)):
            def some():
                from_position(fn(), src, 0, a)
                prove_same('bulk call: back at the start', snapshot(o),
                           start)
            sub_paths(some)
        return

    def none():
        prove_eq('no values', many(o, 0), SList(Lit([], 'list')))
        prove_same('nothing used up by a call for none', snapshot(o), start)
    sub_paths(none)

    # the state after any calls is that after one bulk call for as many
    # values: by induction over the calls
    for fn in (lambda: method(o, 'emit'), lambda: single(o)):
        def one():
            many(o, a)
            prove_eq('next value', fn(), cyclic(src).get(a))
            return snapshot(o)
        after(one, lambda s: (many(o, add(a, 1)), prove_same(
            'single call: state', s, snapshot(o))))
    for fn in (lambda: method(o, 'emit_many', b), lambda: many(o, b)):
        def some():
            from_position(many(o, a), src, 0, a, 'first values')
            from_position(fn(), src, a, b)
            return snapshot(o)
        after(some, lambda s: (many(o, add(a, b)), prove_same(
            'bulk call: state', s, snapshot(o))))

    def reset():
        many(o, a)
        method(o, 'reset')
        prove_same('reset: state', snapshot(o), start)
    sub_paths(reset)


for _rac in (False, True):
    for _kind in source_cases():
        @goal(f'Sequential of a {_kind} (reset_after_call={_rac})', P,
              uses=[MII])
        def _(rac=_rac, kind=_kind):
            def make():
                src = any_seq('item', minlen=1, kind=kind)
                o = call(fixed.Sequential, [
                    SList(src) if kind == 'list' else src, rac])
                prove_eq('items', to_seq(get_attr(o, 'items')).with_kind('list'),
                         src.with_kind('list'))
                return o, src
            follows(make, rac)

    @goal(f'Iterative (reset_after_call={_rac})', P, uses=[MII])
    def _(rac=_rac):
        def make():
            src = any_seq('item', minlen=1)
            return call(fixed.Iterative, [factory(src), rac]), src
        follows(make, rac)

    @goal(f'Iterative: new factory (reset_after_call={_rac})', P, uses=[MII])
    def _(rac=_rac):
        def make():
            old = call(fixed.Iterative, [
                factory(any_seq('old', minlen=1)), rac])
            many(old, ints('used', 0))
            src = any_seq('item', minlen=1)
            set_attr(old, 'iterator_factory', factory(src))
            return old, src
        follows(make, rac)

    @goal(f'Sequential: new factory (reset_after_call={_rac})', P,
          uses=[MII])
    def _(rac=_rac):
        def make():
            old = call(fixed.Sequential, [
                SList(any_seq('old', minlen=1)), rac])
            many(old, ints('used', 0))
            src = any_seq('item', minlen=1)
            set_attr(old, 'iterator_factory', factory(src))
            prove_eq('items of the new source', to_seq(get_attr(
                old, 'items')).with_kind('list'), src.with_kind('list'))
            return old, src
        follows(make, rac)


@goal('no values: refused', P)
def _():
    for items in ((), SList(Lit([], 'list')), ''):
        r, e = attempt(lambda: call(fixed.Sequential, [items]))
        prove_exc('Sequential', e, ValueError)
    r, e = attempt(lambda: call(fixed.Iterative, [factory(Lit([]))]))
    prove_exc('Iterative', e, ValueError)


@goal('Static', P)
def _():
    v, w = anyv('value'), anyv('new')
    n = ints('n', 0)
    o = call(fixed.Static, [v])

    def emits(x):
        state = snapshot(o)
        for fn in (lambda: single(o), lambda: method(o, 'emit')):
            prove_eq('single call', fn(), x)
        for fn in (lambda: many(o, n), lambda: method(o, 'emit_many', n)):
            prove_eq('bulk call', fn(), SList(SSeq(n, lambda j: x, 'list')))
        prove_eq('value', get_attr(o, 'value'), x)
        prove_eq('items', to_seq(get_attr(o, 'items')).with_kind('list'),
                 SList(Lit([x], 'list')))
        method(o, 'reset')
        prove_same('unchanged by emissions and reset', snapshot(o), state)
    emits(v)
    set_attr(o, 'value', w)
    emits(w)


@goal('make_infinite_iter', P, MII)
def _():
    src = any_seq('item', minlen=1)
    f = factory(src)
    it = call(fixed.Iterative.make_infinite_iter, [f])
    n, k = zi(src.n), ints('k', 0)
    prove('an iterator', isinstance(it, SIter))
    prove_eq('starts over', lazy.taken(it).get(k), cyclic(src).get(k))
