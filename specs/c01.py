"""C01: a call emits one value, or a list of exactly the number asked for."""
from .zoo import *


def count():
    m = plain('m', Int)
    assume(m >= 0)
    return m


def exactly(obj, m=None):
    """obj() works and obj(m) is a list of m values."""
    m = count() if m is None else m

    def single():
        v, e = attempt(lambda: call(obj, []))
        prove('a call without a count raises nothing', e is None, repr(e))
        prove('a call without a count gives no container of values',
              not isinstance(v, (SIter,)))

    def many():
        r, e = attempt(lambda: call(obj, [m]))
        prove('a call with a count raises nothing', e is None, repr(e))
        if e is None:
            r = force(r)
            prove('a list', isinstance(r, SList), type(r).__name__)
            if isinstance(r, SList):
                prove('as many values as asked for', zi(r.seq.n) == zi(m))

    def many_kw():
        r, e = attempt(lambda: call(obj, [], {'number': None}))
        prove('None as count raises nothing', e is None, repr(e))
    sub_paths(single)
    sub_paths(many)
    sub_paths(many_kw)


@goal('Static: counts', 'C01')
def _():
    exactly(call(fixed.Static, [anyv('value')]))


for _rac in (False, True):
    @goal(f'Sequential: counts (reset_after_call={_rac})', 'C01')
    def _(rac=_rac):
        s = call(fixed.Sequential, [any_list('item', minlen=1)],
                 {'reset_after_call': rac})
        it = own(s, '_iterator')
        p = plain('pos', Int)
        assume(p >= 0)
        it.set('pos', p)
        exactly(s)

    @goal(f'Iterative: counts (reset_after_call={_rac})', 'C01')
    def _(rac=_rac):
        s = call(fixed.Iterative, [factory(any_seq('item', minlen=1))],
                 {'reset_after_call': rac})
        p = plain('pos', Int)
        assume(p >= 0)
        own(s, '_iterator').set('pos', p)
        exactly(s)


for _mode in (None, 'weights', 'cum_weights'):
    @goal(f'Choice ({_mode}): counts with replacement', 'C01')
    def _(mode=_mode):
        c = AnyChoice(mode, replace=True, roac=False)
        c.positive()
        exactly(c.obj)

    @goal(f'Choice ({_mode}): counts with replacement after each call',
          'C01')
    def _(mode=_mode):
        c = AnyChoice(mode, replace=True, roac=True)
        c.positive()
        m = count()
        assume(m <= c.n)
        if mode is not None:
            w = to_seq(get_attr(c.obj, 'weights'))
            if not is_z(w.n):
                raise Unsupported('weights')
            k = pos_count(w)
            assume(z3.Or(m <= k, m == c.n))
        exactly(c.obj, m)

    @goal(f'Choice ({_mode}): counts without replacement', 'C01')
    def _(mode=_mode):
        c = AnyChoice(mode, replace=False, roac=False)
        assume(c.idx < c.n)
        m = count()
        assume(m <= c.n - c.idx)
        exactly(c.obj, m)


@goal('Word: counts', 'C01')
def _():
    exactly(Word_().obj)


for _roac in (None, False, True):
    @goal(f'Text: counts (words replaced only after call: {_roac})', 'C01',
          secs=120)
    def _(roac=_roac):
        nuv = ints('num_words', 0) if roac else None
        exactly(Text_('given', roac, anyv('seed'), nuv).obj)


@goal('Text: the separator if none is given', ('C01', 'C12'))
def _():
    t = Text_('default', None, anyv('seed'), None)
    sep = get_attr(t.obj, 'sep_emitter')
    prove('a static emitter', isinstance(sep, Inst) and
          sep.cls is fixed.Static)
    prove_eq('emits a space', call(sep, []), ' ')
    n = count()
    prove_eq('emits spaces', call(sep, [n]), SList(SSeq(n, lambda i: ' ')))


@goal('WrapOne: counts', 'C01')
def _():
    f = user_function(fails=False)
    src = emitter('source')
    try:
        w = call(wrappers.WrapOne, [src, f], {'rng_seed': anyv('seed')})
    except PyRaise as e:
        prove_exc('refused functions raise TypeError', e.exc, TypeError)
        return
    exactly(w)


@goal('WrapMany: counts', 'C01')
def _():
    f = user_function(fails=False)
    src, _ = sources()
    try:
        w = call(wrappers.WrapMany, [src, f], {'rng_seed': anyv('seed')})
    except PyRaise as e:
        prove_exc('refused functions raise TypeError', e.exc, TypeError)
        return
    exactly(w)


@goal('CopyFields: counts', 'C01')
def _():
    fs = fields_seq()
    for sep in (None, any_seq('sep', kind='str')):
        exactly(call(fromfields.CopyFields,
                     [SList(fs.with_kind('list')), sep]))


@goal('CopyFields of one field: counts', 'C01')
def _():
    fd = Ref(plain('field', Int), roles.FIELD)
    for sep in (None, any_seq('sep', kind='str')):
        exactly(call(fromfields.CopyFields, [fd, sep]))


for _single in (True, False):
    @goal(f'BasedOnFields ({"one field" if _single else "many fields"}): '
          'counts', 'C01')
    def _(single=_single):
        f = user_function(fails=False)
        src = Ref(plain('field', Int), roles.FIELD) if single else \
            SList(fields_seq().with_kind('list'))
        try:
            w = call(fromfields.BasedOnFields, [src, f],
                     {'rng_seed': anyv('seed')})
        except PyRaise as e:
            prove_exc('refused functions raise TypeError', e.exc, TypeError)
            return
        exactly(w)
