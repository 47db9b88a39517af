"""C04: what is emitted depends on the seed, the configuration and earlier
calls only."""
from .zoo import *
from .contracts import MT
from .c02 import a_seed, choice_state, position, stale, COMPOSITES, MII
from .c03 import made, wrap_many

P = 'C04'
WS = MT + 'weighted_shuffle'


def sources_of(x, seen, out):
    """Names of the symbols a value, or the state it consists of, mentions."""
    x = force(x)
    if id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, Snap):
        for v in x.parts.values():
            sources_of(v, seen, out)
    elif isinstance(x, (Inst, SList, SIter, lib.Rng)):
        for v in list(x.d.values()):
            if v is not UNDEF:
                sources_of(v, seen, out)
    elif isinstance(x, SDict):
        sources_of(x.log, seen, out)
    elif isinstance(x, (Lit, tuple)):
        for v in (x.items if isinstance(x, Lit) else x):
            sources_of(v, seen, out)
    elif isinstance(x, values.Concat):
        for v in x.parts:
            sources_of(v, seen, out)
    elif isinstance(x, values.Flat):
        sources_of(x.count, seen, out)
        sources_of(x.piece, seen, out)
    elif isinstance(x, SSeq):
        sources_of(x.n, seen, out)
        sources_of(x.get(z3.FreshInt('J')), seen, out)
    elif x is not None and not isinstance(x, (bool, int, float, str)):
        out |= values.symbols(x)


def determined(name, *xs):
    """No value here comes from anything but the inputs and generators with
    a state that comes from a seed given."""
    out, seen = set(), {}
    for x in xs:
        sources_of(x, seen, out)
    # ... nor decides what is done
    for c in C.pc:
        out |= values.symbols(c)
    todo, done = list(out), set(out)
    while todo:
        st = C.rng_results.get(todo.pop())
        if st is not None:
            for s in values.symbols(st):
                if s not in done:
                    done.add(s)
                    todo.append(s)
    bad = sorted(s for s in done if s.startswith('nondet!'))
    prove(f'{name}: comes from the seed, the configuration and earlier calls',
          not bad, 'unseeded or shared generator, identity' if bad else '')


def private(writes):
    """The operation changed no state that objects share."""
    for cell, key in writes:
        if any(cell is v[0] for v in C.hostcells.values()) or \
                cell is getattr(C, 'overlay_cell', None):
            raise Unsupported('state of a module or class changes')
    if C.shared_writes:
        raise Unsupported('state of a module or class changes: ' +
                          C.shared_writes[0])
    prove('nothing shared changes', True)


def emissions(o, lo=0):
    n = ints('n', lo)
    return [('call', lambda: call(o, [])), ('bulk call',
                                            lambda: call(o, [n]))]


def sound(o, ops, extra=()):
    """Every operation from here: results, events, new state."""
    determined('state', o, *extra)
    for nm, fn in ops:
        def run():
            mark()
            r, e = attempt(fn)
            determined(nm, *([r] if e is None else e.exc.args
                             if hasattr(e, 'exc') else []),
                       # as much of a generator is used by either
                       SList(events(partly=True)), o)
        for p in core.explore(run, 300):
            private(p.writes)


def relational():
    """Results of separate draws in loops are not related to each other, so
    differences found are no proof of a difference."""
    C.overapprox.append('draws in loops')


# --- choices


for _mode in (None, 'weights', 'cum_weights'):
    @goal(f'Choice ({_mode}): determined by its seed and calls', P, uses=WS,
          secs=90)
    def _(mode=_mode):
        c = AnyChoice(mode)
        o = c.obj
        c.positive()
        k = ints('k', 0)

        def many():
            assume(z3.Or(zb(interp.test(get_attr(o, 'replace'))),
                         k <= zi(get_attr(o, 'num_unique_items'))))
            assume(z3.Or(z3.Not(zb(interp.test(get_attr(
                o, 'replace_only_after_call')))), k <= 1))
            return call(o, [k])

        w = weights_seq(c.n, 'new')
        ops = [('call', lambda: call(o, [])), ('bulk call', many),
               ('reset', lambda: method(o, 'reset')),
               ('seed', lambda: method(o, 'seed', a_seed('s'))),
               ('replace', lambda: set_attr(o, 'replace', plain('r', Bool))),
               ('after call', lambda: set_attr(
                   o, 'replace_only_after_call', plain('r', Bool))),
               ('weights', lambda: set_attr(o, 'weights', SList(w)))]
        sound(o, ops)

        def drawn():
            # bulk calls that replace after each call: no item more often
            # than it is there, so from as many as have a positive weight
            set_attr(o, 'replace_only_after_call', True)
            assume(z3.And(k > 1, k <= c.n))
            mark()
            r, e = attempt(lambda: call(o, [k]))
            determined('bulk call, replacing after it', r, o)
        sub_paths(drawn)

    @goal(f'Choice ({_mode}): equal objects emit the same', P, uses=WS,
          secs=90)
    def _(mode=_mode):
        relational()
        a = AnyChoice(mode, history=False)
        c = a
        c.positive()
        a = c.obj
        s = get_attr(a, 'rng_seed')
        o = AnyChoice(mode, False, False, tag='_other')
        o.positive()
        b = c.new()

        def between():
            attempt(lambda: call(o.obj, []))
            attempt(lambda: method(o.obj, 'reset'))

        def same(name):
            prove_same(name + ': state', choice_state(a, c.n),
                       choice_state(b, c.n))
        sub_paths(lambda: same('as made'))
        k = ints('k', 0)

        def step(name, fn):
            def run():
                x = plain('state', RS)
                a.d['rng'].set('state', x)
                b.d['rng'].set('state', x)
                if not interp.test(get_attr(a, 'replace')):
                    i = plain('index', Int)
                    assume(z3.And(i >= 0, i <= c.n))
                    for z in (a, b):
                        put(z, '_shuffled_index', i)
                        put(z, '_num_unique_items', simp(c.n - i))
                r, e = attempt(lambda: fn(a))
                between()
                r2, e2 = attempt(lambda: fn(b))
                prove(name + ': both fail or none', (e is None) ==
                      (e2 is None))
                if e is None and e2 is None:
                    prove_eq(name + ': result', r, r2)
                    same(name)
            sub_paths(run)
        step('call', lambda z: call(z, []))
        step('bulk call', lambda z: call(z, [k]))
        step('reset', lambda z: method(z, 'reset'))
        s = a_seed('s')
        step('seed', lambda z: method(z, 'seed', s))


@goal('chance, poisson_choice, gaussian_choice: determined by their seed', P,
      uses=WS)
def _():
    p = reals('p')
    assume(z3.And(p > 0, p < 1))
    s = a_seed('seed')
    src = SList(any_seq('item', minlen=1))
    for nm, make in (
            ('chance', lambda: call(choice.chance, [p, s])),
            ('poisson_choice', lambda: call(choice.poisson_choice, [src],
                                            {'rng_seed': s})),
            ('gaussian_choice', lambda: call(choice.gaussian_choice, [src],
                                             {'rng_seed': s}))):
        def run():
            o = make()
            prove_eq(nm + ': seed', get_attr(o, 'rng_seed'), s)
            determined(nm, o)
        for path in core.explore(run, 300):
            private(path.writes)


# --- emitters that follow a source


for _rac in (False, True):
    @goal(f'Static, Iterative, Sequential (reset_after_call={_rac}): '
          'determined by their source', P, uses=MII)
    def _(rac=_rac):
        src = any_seq('item', minlen=1)
        k, m = ints('k m', 0)
        lst = SList(src)
        for cls, args in ((fixed.Iterative, [factory(src), rac]),
                          (fixed.Sequential, [lst, rac]),
                          (fixed.Static, [anyv('value')])):
            def run():
                a, b = call(cls, args), call(cls, args)
                sound(a, emissions(a) + [('reset',
                                          lambda: method(a, 'reset'))])

                def twins():
                    relational()
                    r = call(a, [k])
                    other = call(cls, args)
                    call(other, [m])
                    prove_eq('bulk call', r, call(b, [k]))
                    r = call(a, [])
                    call(other, [])
                    method(other, 'reset')
                    prove_eq('call', r, call(b, []))
                    if cls is not fixed.Static:
                        prove_same('position', position(a), position(b))
                sub_paths(twins)
            sub_paths(run)


# --- composites


def composite(o, seed, parts=()):
    def anywhere():
        need(o, 'rng')
        o.d['rng'].set('state', plain('state', RS))
        remembered(o)

    determined('as made', o)
    anywhere()
    ops = emissions(o) if o.cls is not profile.Field else \
        [('call', lambda: call(o, []))]
    sound(o, ops + [('reset', lambda: method(o, 'reset')),
                    ('seed', lambda: method(o, 'seed', a_seed('s')))])


def text_of(sep, roac):
    return lambda s: (Text_(sep, roac, s, ints('num', 0) if roac
                            else None).obj, None)


PARTS = {k: v for k, v in COMPOSITES.items() if not k.startswith('Text')}
for _sep in ('given', 'default'):
    for _roac in (None, True):
        PARTS[f'Text ({_sep} separator, words replaced only after call: '
              f'{_roac})'] = text_of(_sep, _roac)


for _nm, _make in PARTS.items():
    @goal(f'{_nm}: determined by its seed, parts and calls', P, secs=200)
    def _(make=_make):
        s = a_seed('seed')
        r = made(make, s)
        if r is None:
            return
        composite(r[0], s)


@goal('WrapMany: determined by its seed, parts and calls', P, secs=200)
def _():
    s = a_seed('seed')
    r = made(wrap_many, s)
    if r is not None:
        composite(r[0], s)


@goal('BasedOnFields: determined by its seed, fields and calls', P, secs=90)
def _():
    fs = fields_seq(tag='f')
    for src in (SList(fs.with_kind('list')),
                Ref(plain('field', Int), roles.FIELD)):
        def run():
            s = a_seed('seed')
            o = made(lambda: call(fromfields.BasedOnFields, [
                src, user_function(fails=False)], {'rng_seed': s}))
            if o is not None:
                composite(o, s)
        sub_paths(run)


@goal('CopyFields: determined by its fields', P, secs=90)
def _():
    for sep in (None, any_seq('sep', kind='str')):
        for src in (SList(fields_seq(tag='f').with_kind('list')),
                    Ref(plain('field', Int), roles.FIELD)):
            def run():
                o = call(fromfields.CopyFields, [src, sep])
                sound(o, emissions(o))
            sub_paths(run)


@goal('Schema: determined by its fields', P, secs=90)
def _():
    fs = fields_seq(tag='f')
    o = call(profile.Schema, [interp.Star(fs)])
    sound(o, [('call', lambda: call(o, [])),
              ('reset', lambda: method(o, 'reset_fields')),
              ('seed', lambda: method(o, 'seed_fields', anyv('s')))])


@goal('Parts made by default are the object\'s own', P)
def _():
    n, w, v = emitter('numwords'), emitter('word'), emitter('emitter')
    distinct(n, w, v)
    x = anyv('new')
    for make, names in (
            (lambda: call(text.Text, [n, w]), ['sep_emitter']),
            (lambda: call(profile.Field, ['f', v]),
             ['repeat_emitter', 'gate_emitter'])):
        for nm in names:
            def run():
                a, b = make(), make()
                p, q = get_attr(a, nm), get_attr(b, nm)
                if not (isinstance(p, Inst) and p.cls is fixed.Static):
                    raise Unsupported('default part of another class')
                was = get_attr(q, 'value')
                set_attr(p, 'value', x)
                prove_eq(nm + ' of another object', get_attr(q, 'value'),
                         was)
                prove_eq(nm + ' of an object made later',
                         get_attr(get_attr(make(), nm), 'value'), was)
            sub_paths(run)
