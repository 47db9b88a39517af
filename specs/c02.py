"""C02: reset and reseed restore the seeded starting state."""
from .zoo import *
from .contracts import MT
from .c03 import COMPOSITES, made, wrap_many
from .c20 import own_rng

P = 'C02'
WS = MT + 'weighted_shuffle'
MII = 'fauxdoc.emitters.fixed.Iterative.make_infinite_iter'


def a_seed(tag):
    s = anyv(tag)
    assume(z3.Not(V.is_VNone(s)))
    return s


def only_changes(ops, known):
    """The operations change nothing but the known places: [(object, key)]."""
    known = {(id(o), k) for o, k in known}
    for op in ops:
        for p in core.explore(lambda: attempt(op), 200):
            for cell, key in p.writes:
                if cell is C.world or isinstance(key, str) and \
                        (id(cell), key) in known:
                    continue
                raise Unsupported(f'state unknown to the contract: {key!r} '
                                  f'of {getattr(cell, "cls", cell)}')


# --- choices


def choice_state(o, n):
    """What a choice emitter's behaviour depends on."""
    need(o, 'rng', '_num_unique_items')
    rep = interp.test(get_attr(o, 'replace'))
    st = {'items': to_seq(get_attr(o, 'items')).with_kind('list'),
          'replace': rep,
          'after call': interp.test(get_attr(o, 'replace_only_after_call')),
          'rng': snapshot(o.d['rng']),
          'remaining': get_attr(o, 'num_unique_items'),
          'seed': get_attr(o, 'rng_seed')}
    for w in ('weights', 'cum_weights'):
        x = force(get_attr(o, w))
        st[w] = x if x is None else to_seq(x).with_kind('list')
    if not rep:
        sh = to_seq(own(o, '_shuffled'))
        st['order'] = part(sh, own(o, '_shuffled_index'), sh.n)
    return Snap('choice', st)


def as_made(name, o, n, cum=False):
    """o is in the state of a new object of the same configuration."""
    kw = {k: get_attr(o, k) for k in (
        'replace', 'replace_only_after_call', 'rng_seed',
        'cum_weights' if cum else 'weights')}
    new = call(choice.Choice, [get_attr(o, 'items')], kw)

    def compare():
        a = choice_state(o, n)
        b = choice_state(new, n)
        prove_same(name, a, b)
        prove(name + ': own generator', o.d['rng'] is not new.d['rng'])
    sub_paths(compare)


def stale(c):
    """What no emission depends on now may be anything."""
    o = c.obj
    if interp.test(get_attr(o, 'replace')):
        o.set(at(o, '_shuffled'), SList(any_seq('stale')))
        o.set(at(o, '_shuffled_index'), plain('stale_index', Int))


for _mode in (None, 'weights', 'cum_weights'):
    @goal(f'Choice ({_mode}): reset and seed give the state of a new object',
          P, uses=WS, secs=90)
    def _(mode=_mode):
        c = AnyChoice(mode)
        o = c.obj
        known = [(o, at(o, k)) for k in (
            'rng', 'rng_seed', '_shuffled', '_shuffled_index',
            '_num_unique_items', '_replace', '_replace_only_after_call',
            '_weights', '_cum_weights')] + [(o.d['rng'], 'state')]
        k = ints('k', 0)
        w = weights_seq(c.n, 'new')
        settings = [lambda: set_attr(o, 'replace', plain('r', Bool)),
                    lambda: set_attr(o, 'replace_only_after_call',
                                     plain('r', Bool)),
                    lambda: set_attr(o, 'weights', None),
                    lambda: set_attr(o, 'weights', SList(w))]

        def many():
            assume(z3.Or(zb(interp.test(get_attr(o, 'replace'))),
                         k <= zi(get_attr(o, 'num_unique_items'))))
            assume(z3.Or(z3.Not(zb(interp.test(get_attr(
                o, 'replace_only_after_call')))), k <= 1))
            c.positive()
            return call(o, [k])
        only_changes([many, lambda: method(o, 'reset'),
                      lambda: method(o, 'seed', a_seed('s'))] + settings,
                     known)
        cum = mode == 'cum_weights'

        def seeded(cum=cum):
            s = a_seed('s')
            set_attr(o, 'rng_seed', a_seed('older'))
            method(o, 'seed', s)
            prove_eq('seed: the seed is kept', get_attr(o, 'rng_seed'), s)
            as_made('seed', o, c.n, cum)
            method(o, 'reset')
            prove_eq('seed, reset: the seed is kept',
                     get_attr(o, 'rng_seed'), s)
            as_made('seed, reset', o, c.n, cum)

        def reset(cum=cum):
            s = a_seed('s')
            set_attr(o, 'rng_seed', s)
            method(o, 'reset')
            prove_eq('reset: the seed is kept', get_attr(o, 'rng_seed'), s)
            as_made('reset', o, c.n, cum)

        def run(fn, **kw):
            def r():
                stale(c)
                fn(**kw)
            return r
        sub_paths(run(seeded))
        sub_paths(run(reset))
        for k_, s_ in enumerate(settings):
            def changed():
                stale(c)
                s_()
                (reset if k_ % 2 else seeded)(cum and k_ < 2)
            sub_paths(changed)


# --- emitters that follow a source


def position(o):
    return snapshot(own(o, '_iterator'))


for _rac in (False, True):
    @goal(f'Iterative, Sequential (reset_after_call={_rac}): reset starts '
          'again', P, uses=MII)
    def _(rac=_rac):
        src, new = any_seq('item', minlen=1), any_seq('new', minlen=1)
        a, b = ints('a b', 0)
        for cls, arg in ((fixed.Iterative, factory(src)),
                         (fixed.Sequential, SList(src))):
            def run():
                o = call(cls, [arg, rac])
                start = position(o)
                only_changes([lambda: call(o, [a]), lambda: call(o, []),
                              lambda: method(o, 'reset')],
                             [(o, at(o, '_iterator')), (own(o, '_iterator'), 'pos')])
                if not rac:
                    # anywhere
                    own(o, '_iterator').set('pos', a)
                method(o, 'reset')
                prove_same('reset', position(o), start)
                call(o, [b])
                call(o, [])
                method(o, 'reset')
                prove_same('emissions, reset', position(o), start)
                set_attr(o, 'iterator_factory', factory(new))
                fresh = call(cls, [factory(new) if cls is fixed.Iterative
                                   else SList(new), rac])
                call(o, [b])
                method(o, 'reset')
                prove_same('new source, emissions, reset', position(o),
                           position(fresh))
            sub_paths(run)


@goal('Static: no state to restore', P)
def _():
    o = call(fixed.Static, [anyv('value')])
    only_changes([lambda: call(o, [ints('n', 0)]), lambda: call(o, []),
                  lambda: method(o, 'reset')], [])
    prove('nothing changes', True)


# --- composites: their own state; that of their parts by contract


ITSELF = Snap('itself', {})


def parts(o):
    return {k: snapshot(v, {id(o): ITSELF}) for k, v in o.d.items()
            if v is not UNDEF}


def changes(o):
    """What operations of a composite may change of its own state."""
    need(o, 'rng')
    n = ints('n', 0)
    known = [(o, 'rng'), (o, 'rng_seed'), (o, at(o, '_cache')),
             (o.d['rng'], 'state')]
    ops = [lambda: method(o, 'reset'), lambda: method(o, 'seed', a_seed('s')),
           lambda: call(o, [])]
    if not isinstance(o, Inst) or o.cls is not profile.Field:
        ops.append(lambda: call(o, [n]))
    only_changes(ops, known)


def own_state(o, start, parts_of, wrapper=False, known=False):
    """start: the state of o as made.  Reset and seed restore it from any
    state the operations can lead to."""
    need(o, 'rng')
    if not known:
        changes(o)
    skip = ('rng', 'rng_seed')

    def check(name, s):
        prove_eq(name + ': the seed', get_attr(o, 'rng_seed'), s)
        prove(name + ': state of the generator',
              o.d['rng'].d['state'] == lib.rng_state_for(s))
        now = parts(o)
        for k in sorted(set(start) | set(now)):
            if k in skip or name.startswith('seed') and k == at(o, '_cache') and \
                    not name.endswith('reset'):
                continue
            if k not in start or k not in now:
                prove(f'{name}: {k} is there', False)
            else:
                prove_same(f'{name}: {k}', now[k], start[k])
        if wrapper:
            evs = []
            call(o, [])
            for p in log_parts(events()):
                for j in range(hostint(p.n) or 0):
                    e = force(p.get(j))
                    if e[0] == 'fn':
                        evs.append(e)
            for e in evs[-1:]:
                kw = e[3]
                got = [v for k, v in kw.conc.items() if k == 'rng'] \
                    if kw.conc is not None else []
                for g in got:
                    own_rng(name, o, g)

    def anywhere():
        o.set('rng', lib.Rng(plain('state', RS)))
        remembered(o)

    def reset():
        anywhere()
        s = a_seed('s')
        set_attr(o, 'rng_seed', s)
        mark()
        method(o, 'reset')
        parts_of(s, was_reset)
        check('reset', s)

    def seed():
        anywhere()
        set_attr(o, 'rng_seed', a_seed('older'))
        s = a_seed('s')
        mark()
        method(o, 'seed', s)
        parts_of(s, was_seeded)
        check('seed', s)
        mark()
        method(o, 'reset')
        parts_of(s, was_reset)
        check('seed, reset', s)
    sub_paths(reset)
    sub_paths(seed)


for _nm, _make in COMPOSITES.items():
    @goal(f'{_nm}: reset and seed restore its state', P, secs=90)
    def _(make=_make, nm=_nm):
        r = made(make, a_seed('seed'))
        if r is None:
            return
        o, ch = r

        def parts_of(s, how):
            for nm, e in ch.items():
                how(events_of(events(), e.ident), seed_of(e), s, nm)
        own_state(o, parts(o), parts_of, nm == 'WrapOne',
                  nm.startswith('Text'))


for _sep in ('given', 'default'):
    for _roac in (None, True):
        @goal(f'Text ({_sep} separator, words replaced only after call: '
              f'{_roac}): its own state', P, secs=120)
        def _(sep=_sep, roac=_roac):
            changes(Text_(sep, roac, a_seed('seed'), ints('num', 0) if roac
                          else None).obj)
            prove('no state unknown to the contract', True)


@goal('WrapMany: reset and seed restore its state', P, secs=90)
def _():
    r = made(wrap_many, a_seed('seed'))
    if r is None:
        return
    w, log = r
    k = plain('k', Int)
    assume(z3.And(k >= 0, k < zi(log.n)))
    child = log.get(k)[1]

    def parts_of(s, how):
        evs = events_of(events(), child.ident, k,
                        lambda i: log.get(i)[1].ident)
        how(evs, seed_of(child), s, 'source')
    own_state(w, parts(w), parts_of)


@goal('BasedOnFields: reset and seed restore its state', P, secs=90)
def _():
    fs = fields_seq(tag='f')
    for src in (SList(fs.with_kind('list')),
                Ref(plain('field', Int), roles.FIELD)):
        def run():
            o = made(lambda: call(fromfields.BasedOnFields, [
                src, user_function(fails=False)],
                {'rng_seed': a_seed('seed')}))
            if o is not None:
                own_state(o, parts(o), lambda s, how: None)
        sub_paths(run)
