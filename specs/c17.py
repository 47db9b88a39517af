"""C17: a field obeys its gate and repeat emitters; C18: schemas."""
from .zoo import *
from pyvc.interp import Star
from pyvc.values import Flat, flat


def emitter(*a, **kw):
    return roles.emitter(*a, seedable=True, **kw)


def calls(em):
    return [e for e in events_of(events(), em.ident) if e[0] == 'call']


def obeys(f, gate, repeat, data, tag=''):
    """One call of the field; gate/repeat None: the defaults."""
    mark()
    r, e = attempt(lambda: call(f, []))
    prove(tag + 'raises nothing', e is None, repr(e))
    if e is not None:
        return
    evs = events()
    prove(tag + 'only its own emitters are used', isinstance(evs, Lit) and
          all(x[0] == 'call' for x in evs.items))
    cd = calls(data)
    yes = True
    if gate is not None:
        cg = calls(gate)
        prove(tag + 'gate asked once, for one value',
              len(cg) == 1 and cg[0][2] is None)
        yes = len(cg) == 1 and interp.test(cg[0][3])
    cr = calls(repeat) if repeat is not None else []
    if not yes:
        prove_eq(tag + 'closed gate: None', r, None)
        prove(tag + 'closed gate: nothing drawn', not cd and not cr)
    else:
        prove(tag + 'data drawn once', len(cd) == 1)
        n = None
        if repeat is not None:
            prove(tag + 'count drawn once, one value',
                  len(cr) == 1 and cr[0][2] is None)
            if len(cr) == 1:
                n = cr[0][3]
                if interp.test(V.is_VNone(n)):
                    n = None
                else:
                    n = V.vint(n)
        if len(cd) == 1:
            if n is None:
                prove(tag + 'one value for None', cd[0][2] is None)
            else:
                prove(tag + 'n values for a count n', cd[0][2] is not None
                      and zi(cd[0][2]) == n)
                prove(tag + 'a list', isinstance(force(r), SList))
            res = cd[0][3]
            prove_eq(tag + 'what the data emitter emitted', r,
                     SList(res) if isinstance(res, SSeq) else res)
    mark()
    for _ in range(2):
        prove_eq(tag + 'previous is what the call returned',
                 get_attr(f, 'previous'), r)
    prove(tag + 'reading it calls nothing', hostint(events().n) == 0)


def new_field(gate=True, repeat=True):
    d = emitter('data')
    g = emitter('gate') if gate else None
    r = emitter('repeat', 'optnat') if repeat else None
    distinct(*[x for x in (d, g, r) if x is not None])
    f = call(profile.Field, [anyv('name'), d],
             {'repeat': r, 'gate': g, 'rng_seed': anyv('seed'),
              'hide': plain('hide', Bool)})
    return f, d, g, r


for _g in (True, False):
    for _r in (True, False):
        @goal(f'Field call (gate {"given" if _g else "default"}, repeat '
              f'{"given" if _r else "default"})', 'C17',
              proves='fauxdoc.profile.Field.__call__' if _g and _r else ())
        def _(gg=_g, rr=_r):
            f, d, g, r = new_field(gg, rr)
            prove_eq('nothing remembered at first', get_attr(f, 'previous'),
                     None)
            # any earlier call
            put(f, '_cache', anyv('cache'))
            obeys(f, g, r, d)
            mark()
            method(f, 'reset')
            prove_eq('nothing remembered after a reset',
                     get_attr(f, 'previous'), None)
            prove('a reset calls no emitter', not [
                e for p in log_parts(events()) for e in p.items
                if e[0] == 'call'])
            obeys(f, g, r, d, 'after a reset: ')


@goal('Field call twice', 'C17')
def _():
    f, d, g, r = new_field()
    obeys(f, g, r, d, 'first call: ')
    obeys(f, g, r, d, 'second call: ')


@goal('Field call after its emitters were set', 'C17')
def _():
    f, d, g, r = new_field()
    d2, g2, r2 = emitter('data2'), emitter('gate2'), \
        emitter('repeat2', 'optnat')
    distinct(d, g, r, d2, g2, r2)
    d = d2 if branch(plain('set_d', Bool)) else d
    g = g2 if branch(plain('set_g', Bool)) else g
    r = r2 if branch(plain('set_r', Bool)) else r
    if d is d2:
        set_attr(f, 'emitter', d)
    if g is g2:
        set_attr(f, 'gate_emitter', g)
    if r is r2:
        set_attr(f, 'repeat_emitter', r)
    for nm, e in (('emitter', d), ('gate_emitter', g),
                  ('repeat_emitter', r)):
        prove(nm + ' is the one set', get_attr(f, nm) is e)
    obeys(f, g, r, d)


@goal('Field: reseeding keeps the last value', 'C17')
def _():
    f, d, g, r = new_field()
    call(f, [])
    v = get_attr(f, 'previous')
    method(f, 'seed', anyv('s'))
    prove_eq('still the last value', get_attr(f, 'previous'), v)


# --- multi_valued


def field_with_repeat(r, late):
    d, g = emitter('data'), emitter('gate')
    if late:
        r0 = emitter('repeat0', attrs={'items': NOATTR})
        f = call(profile.Field, [anyv('name'), d, r0, g])
        set_attr(f, 'repeat_emitter', r)
        return f
    return call(profile.Field, [anyv('name'), d, r, g])


for _late in (False, True):
    _w = ' (set later)' if _late else ''

    @goal(f'Field.multi_valued: unknown items{_w}', 'C17')
    def _(late=_late):
        r = emitter('repeat', 'optnat', {'items': NOATTR})
        prove('multi-valued', truth(get_attr(
            field_with_repeat(r, late), 'multi_valued')))

    for _kind in ('list', 'tuple'):
        @goal(f'Field.multi_valued: known items ({_kind}){_w}', 'C17')
        def _(late=_late, kind=_kind):
            def some():
                it = any_seq('item', kind=kind, minlen=1)
                k = plain('k', Int)
                assume(z3.And(k >= 0, k < zi(it.n),
                              z3.Not(V.is_VNone(it.get(k)))))
                v = SList(it) if kind == 'list' else it
                r = emitter('repeat', 'optnat', {'items': v})
                f = field_with_repeat(r, late)
                mark()
                prove('multi-valued if an item is not None',
                      truth(get_attr(f, 'multi_valued')))
                prove('asking calls nothing', hostint(events().n) == 0)

            def none():
                it = any_seq('item', kind=kind, axiom=None, sort=V)
                n = it.n
                g = Fn('none_item', [Int], V,
                       lambda i: [V.is_VNone(g(i))])
                it = SSeq(n, lambda i: g(zi(i)), kind)
                v = SList(it) if kind == 'list' else it
                r = emitter('repeat', 'optnat', {'items': v})
                f = field_with_repeat(r, late)
                prove('single-valued if all items are None', z3.Not(zb(
                    truth(get_attr(f, 'multi_valued')))))
            sub_paths(some)
            sub_paths(none)


@goal('Field.multi_valued: default repeat emitter', 'C17')
def _():
    f, d, g, r = new_field(repeat=False)
    prove('single-valued', z3.Not(zb(truth(get_attr(f, 'multi_valued')))))
    mark()
    v = call(f, [])


@goal('Field.multi_valued: static and sequential repeat emitters', 'C17')
def _():
    x = anyv('x')
    st = call(fixed.Static, [x])
    f = field_with_repeat(st, False)
    prove('static', zb(truth(get_attr(f, 'multi_valued'))) ==
          z3.Not(V.is_VNone(x)))
    y = anyv('y')
    set_attr(st, 'value', y)
    prove('static, value set', zb(truth(get_attr(f, 'multi_valued'))) ==
          z3.Not(V.is_VNone(y)))
    z = anyv('z')
    sq = call(fixed.Sequential, [SList(Lit([x, y, z]))])
    f = field_with_repeat(sq, False)
    prove('sequential', zb(truth(get_attr(f, 'multi_valued'))) == z3.Not(
        z3.And(V.is_VNone(x), V.is_VNone(y), V.is_VNone(z))))


# --------------------------------------------------------------------------
# C18


def schema_of(*batches, start=1):
    """Schema with some fields given at construction and others added."""
    s = call(profile.Schema, [Star(b) for b in batches[:start]])
    for b in batches[start:]:
        method(s, 'add_fields', Star(b))
    return s


def hidden(f):
    return roles.Hide(f.ident)


def each_field(fs, event, cond=None):
    i = z3.Int(uname('i'))
    f = fs.get(i)
    p = Lit([event(f)])
    return flat(i, fs.n, p if cond is None else ite(cond(f), p, Lit([])))


def value_of(f):
    return roles.elem_fn('any', 'value')(0)


def runs_all(s, fs, tag=''):
    mark()
    doc, e = attempt(lambda: call(s, []))
    prove(tag + 'raises nothing', e is None, repr(e))
    if e is not None:
        return
    evs = events()
    i = plain('i', Int)
    prove(tag + 'as many calls as fields', zi(evs.n) == zi(fs.n))

    def order():
        assume(z3.And(i >= 0, i < zi(fs.n)))
        ev = force(evs.get(i))
        prove(tag + 'event i is a call', ev[0] == 'call')
        prove(tag + 'event i concerns field i', ev[1] == fs.get(i).ident)
    sub_paths(order)
    doc = force(doc)
    prove(tag + 'a dictionary', isinstance(doc, SDict))
    if isinstance(doc, SDict):
        j = z3.Int(uname('i'))
        f = fs.get(j)
        want = flat(j, fs.n, ite(
            hidden(f), Lit([]),
            Lit([(roles.NameOf(f.ident), force(evs.get(j))[3])])))
        prove_eq(tag + 'public names and what their calls returned, in order',
                 SList(doc.log), SList(want))


def log_of(m):
    """(key, value) sequence of a mapping."""
    m = force(m)
    if isinstance(m, Inst) and isinstance(m.d.get('__base__'), SDict):
        return m.d['__base__'].log
    if isinstance(m, SDict):
        return m.log
    raise Unsupported(f'mapping {m!r}')


def partition(s, fs, tag=''):
    def pair(f):
        return (roles.NameOf(f.ident), f)
    prove_eq(tag + 'fields', SList(log_of(get_attr(s, 'fields'))),
             SList(each_field(fs, pair)))
    prove_eq(tag + 'hidden fields',
             SList(log_of(get_attr(s, 'hidden_fields'))),
             SList(each_field(fs, pair, hidden)))
    prove_eq(tag + 'public fields',
             SList(log_of(get_attr(s, 'public_fields'))),
             SList(each_field(fs, pair, lambda f: z3.Not(hidden(f)))))


@goal('Schema call', 'C18', proves='fauxdoc.profile.Schema.__call__')
def _():
    fs = fields_seq()
    s = schema_of(fs)
    runs_all(s, fs)
    runs_all(s, fs, 'again: ')


@goal('Schema: hidden and public fields', 'C18')
def _():
    fs = fields_seq()
    s = schema_of(fs)
    partition(s, fs)


@goal('Schema: fields added later are appended', 'C18')
def _():
    fs = fields_seq()
    m = plain('first', Int)
    assume(z3.And(m >= 0, m <= zi(fs.n)))
    a = SSeq(m, fs.get, 'tuple')
    b = SSeq(simp(zi(fs.n) - m), lambda i: fs.get(add(i, m)), 'tuple')
    s = schema_of(a, b)
    runs_all(s, fs)
    partition(s, fs)


@goal('Schema: a field added may replace one of the same name', 'C18')
def _():
    fs = fields_seq()
    g = Ref(plain('added', Int), roles.FIELD)
    k = plain('k', Int)
    assume(z3.And(k >= 0, k < zi(fs.n)))
    assume(roles.NameOf(fs.get(k).ident) == roles.NameOf(g.ident))
    s = schema_of(fs)
    if branch(plain('used', Bool)):
        call(s, [])
        get_attr(s, 'public_fields')
        get_attr(s, 'hidden_fields')
    method(s, 'add_fields', g)
    new = SSeq(fs.n, lambda i: ite(zi(i) == k, g, fs.get(i)), 'tuple')
    runs_all(s, new)
    partition(s, new)


@goal('Schema: a field of a new name is appended', 'C18')
def _():
    fs = fields_seq()
    n = fs.n
    idf = Fn('f_id', [Int], Int, pair=lambda a, b: [
        z3.Implies(a[0] != b[0], z3.And(
            idf(a[0]) != idf(b[0]),
            roles.NameOf(idf(a[0])) != roles.NameOf(idf(b[0]))))])
    al = SSeq(add(n, 1), lambda i: Ref(idf(zi(i)), roles.FIELD), 'tuple')
    s = schema_of(SSeq(n, al.get, 'tuple'))
    if branch(plain('used', Bool)):
        call(s, [])
        get_attr(s, 'public_fields')
        get_attr(s, 'hidden_fields')
    method(s, 'add_fields', al.get(n))
    runs_all(s, al)
    partition(s, al)


@goal('Schema: set_fields replaces all fields', 'C18')
def _():
    fs, gs = fields_seq(), fields_seq(tag='other')
    s = schema_of(fs)
    if branch(plain('used', Bool)):
        call(s, [])
        get_attr(s, 'public_fields')
        get_attr(s, 'hidden_fields')
    method(s, 'set_fields', Star(gs))
    runs_all(s, gs)
    partition(s, gs)


@goal('Schema: no fields', 'C18')
def _():
    s = call(profile.Schema, [])
    prove_eq('empty document', call(s, []), SDict({}))


@goal('Schema: hiding and showing fields later', 'C18')
def _():
    hiding(lambda name: plain(name, Bool))


@goal('Schema: hiding by values of any kind', 'C18')
def _():
    hiding(anyv)


def hiding(some):
    names = ['a', 'b', 'c']
    d = [emitter('data' + x) for x in names]
    distinct(*d)
    fs = [call(profile.Field, [x, e], {'hide': some('hide')})
          for x, e in zip(names, d)]
    s = call(profile.Schema, fs)

    def now(tag):
        h = [interp.test(get_attr(f, 'hide')) for f in fs]
        for nm, want in (('hidden_fields', True), ('public_fields', False)):
            lg = log_of(get_attr(s, nm))
            keys = [x for x, y in zip(names, h) if y == want]
            prove(f'{tag}{nm}', isinstance(lg, Lit) and
                  [p[0] for p in lg.items] == keys and
                  all(p[1] is fs[names.index(p[0])] for p in lg.items))
        mark()
        doc = force(call(s, []))
        vals = []
        for e in d:
            c = [x for x in events_of(events(), e.ident) if x[0] == 'call']
            prove(tag + 'each field called once', len(c) == 1)
            vals.append(c[0][3])
        prove_eq(tag + 'document', doc, SDict({
            x: v for x, v, y in zip(names, vals, h) if not y}))
    now('')
    for f in fs[:2]:
        set_attr(f, 'hide', some('hide2'))
    now('later: ')
    method(s, 'reset_fields')
    now('after reset: ')
