"""C03: seeding or resetting a composite reaches every component."""
from .zoo import *
from pyvc.roles import HasA, IsNoneM, MemberRole
from pyvc.values import Flat, flat
from pyvc.interp import Star


MEMBER = MemberRole('member')


def members(tag='member'):
    """Any number of objects (or None)."""
    n = plain(tag + '_count', Int)
    assume(n >= 0)
    idf = Fn(tag + '_id', [Int], Int)
    return n, SSeq(n, lambda i: Ref(idf(zi(i)), MEMBER), 'tuple')


def group_of(kind):
    n, ms = members()
    if kind == 'ObjectGroup':
        return n, ms, call(group.ObjectGroup, [Star(ms)])
    nm = Fn('key', [Int], Int, pair=lambda a, b: [
        z3.Implies(a[0] != b[0], nm(a[0]) != nm(b[0]))])
    log = SSeq(n, lambda i: (V.VStr(nm(zi(i))), ms.get(i)), 'list')
    return n, ms, call(group.ObjectMap, [SDict(log=log)])


def each(n, ms, event, cond):
    """event(member) for those members satisfying cond, in member order."""
    i = z3.Int(uname('i'))
    m = ms.get(i)
    return flat(i, n, ite(cond(m), Lit([event(m)]), Lit([])))


def has(name):
    return lambda m: z3.And(z3.Not(IsNoneM(m.ident)), HasA(m.ident, name))


for _kind in ('ObjectGroup', 'ObjectMap'):
    @goal(f'{_kind}.setattr: log', 'C03',
          proves='fauxdoc.group.GroupMixin.setattr')
    def _(kind=_kind):
        n, ms, g = group_of(kind)
        name = V.VStr(plain('name', Int))
        val = anyv('value')
        mark()
        _, e = attempt(lambda: method(g, 'setattr', name, val))
        prove('raises nothing', e is None, repr(e))
        prove_eq('set on every member that has it, once, in order',
                 SList(events()), SList(each(
                     n, ms, lambda m: ('setattr', m.ident, name, val),
                     has(name))))

    @goal(f'{_kind}.do_method: log', 'C03',
          proves='fauxdoc.group.GroupMixin.do_method')
    def _(kind=_kind):
        n, ms, g = group_of(kind)
        name = V.VStr(plain('name', Int))
        a = any_seq('arg', kind='tuple')
        nm = Fn('kw', [Int], Int, pair=lambda a, b: [
            z3.Implies(a[0] != b[0], nm(a[0]) != nm(b[0]))])
        kv = Fn('kwv', [Int], V)
        kn = ints('kwn', 0)
        k = SDict(log=SSeq(kn, lambda i: (V.VStr(nm(zi(i))), kv(zi(i)))))
        mark()
        _, e = attempt(lambda: call_method(g, 'do_method',
                                           [name, Star(a)], {'**': k}))
        prove('raises nothing', e is None, repr(e))
        prove_eq('run on every member that has it, once, in order',
                 SList(events()), SList(each(
                     n, ms, lambda m: ('invoke', m.ident, name,
                                       roles.pack([Star(a)]),
                                       roles.kpack({'**': k})),
                     has(name))))


# --- composites: a fixed number of children


def field_(seed, **kw):
    ch = {'emitter': emitter('data', **kw),
          'repeat': emitter('repeat', 'optnat', **kw),
          'gate': emitter('gate', **kw)}
    distinct(*ch.values())
    f = call(profile.Field, [anyv('name'), ch['emitter'], ch['repeat'],
                             ch['gate'], plain('hide', Bool)],
             {'rng_seed': seed})
    return f, ch


def field_set(seed):
    """A field whose emitters were set after construction."""
    f, _ = field_(seed)
    new = {'emitter': emitter('data2'), 'repeat_emitter': emitter(
        'repeat2', 'optnat'), 'gate_emitter': emitter('gate2')}
    distinct(*new.values())
    for nm, e in new.items():
        set_attr(f, nm, e)
    return f, new


def word_(seed):
    w = Word_(seed, seedable=None)
    return w.obj, {'length': w.length, 'alphabet': w.alphabet}


def text_(seed, sep):
    t = Text_(sep, None, seed, nuv='any', seedable=None)
    ch = {'numwords': t.numwords, 'word': t.word}
    if sep == 'given':
        ch['sep'] = t.sep
    return t.obj, ch


def wrap_one(seed):
    src = emitter('source')
    w = call(wrappers.WrapOne, [src, user_function(fails=False)],
             {'rng_seed': seed})
    return w, {'source': src}


COMPOSITES = {
    'Field': field_, 'Field with emitters set later': field_set,
    'Word': word_, 'Text': lambda seed: text_(seed, 'given'),
    'Text without separator': lambda seed: text_(seed, 'default'),
    'WrapOne': wrap_one,
}


def made(make, *a):
    """A new object, or None if construction was refused."""
    r, e = attempt(lambda: make(*a))
    if e is not None:
        prove_exc('only refused functions raise', e, TypeError)
        return None
    return r


for _nm, _make in COMPOSITES.items():
    @goal(f'{_nm}: reset reaches the parts', 'C03')
    def _(make=_make):
        seed = anyv('seed')
        r = made(make, seed)
        if r is None:
            return
        o, ch = r
        mark()
        method(o, 'reset')
        prove_eq('own seed kept', get_attr(o, 'rng_seed'), seed)
        for nm, e in ch.items():
            was_reset(events_of(events(), e.ident), seed_of(e), seed, nm)

    @goal(f'{_nm}: seed reaches the parts', 'C03')
    def _(make=_make):
        r = made(make, anyv('seed'))
        if r is None:
            return
        o, ch = r
        s = anyv('s')
        mark()
        method(o, 'seed', s)
        prove_eq('own seed', get_attr(o, 'rng_seed'), s)
        for nm, e in ch.items():
            was_seeded(events_of(events(), e.ident), seed_of(e), s, nm)

    if _make is field_set:
        continue

    @goal(f'{_nm}: construction gives the seed to the parts', 'C03')
    def _(make=_make):
        seed = anyv('seed')
        mark()
        r = made(make, seed)
        if r is None:
            return
        o, ch = r
        prove_eq('own seed', get_attr(o, 'rng_seed'), seed)
        for nm, e in ch.items():
            evs = events_of(events(), e.ident)
            was_reset(evs, seed_of(e), seed, nm)


# --- composites: any number of children


def wrap_many(seed):
    src, log = sources()
    w = call(wrappers.WrapMany, [src, user_function(fails=False)],
             {'rng_seed': seed})
    return w, log


@goal('WrapMany: reset and seed reach every part', 'C03')
def _():
    r = made(wrap_many, anyv('seed'))
    if r is None:
        return
    w, log = r
    k = plain('k', Int)
    assume(z3.And(k >= 0, k < zi(log.n)))
    child = log.get(k)[1]

    def idf(i):
        return log.get(i)[1].ident

    def resets():
        mark()
        method(w, 'reset')
        evs = events_of(events(), child.ident, k, idf)
        was_reset(evs, seed_of(child), get_attr(w, 'rng_seed'))

    def seeds():
        mark()
        s = anyv('s')
        method(w, 'seed', s)
        evs = events_of(events(), child.ident, k, idf)
        was_seeded(evs, seed_of(child), s)
    sub_paths(resets)
    sub_paths(seeds)


@goal('WrapMany: construction gives the seed to every part', 'C03')
def _():
    seed = anyv('seed')
    mark()
    r = made(wrap_many, seed)
    if r is None:
        return
    w, log = r
    k = plain('k', Int)
    assume(z3.And(k >= 0, k < zi(log.n)))
    child = log.get(k)[1]
    evs = events_of(events(), child.ident, k,
                    lambda i: log.get(i)[1].ident)
    was_reset(evs, seed_of(child), seed)


# --- fields of schemas and sources of fields


def all_fields(n, fs, event):
    i = z3.Int(uname('i'))
    return flat(i, n, Lit([event(fs.get(i))]))


def schema_():
    fs = fields_seq(tag='f')
    return call(profile.Schema, [Star(fs)]), fs


@goal('Schema: all fields are reset and seeded', ('C02', 'C03'))
def _():
    s, fs = schema_()
    mark()
    method(s, 'reset_fields')
    prove_eq('reset', SList(events()),
             SList(all_fields(fs.n, fs, lambda f: ('reset', f.ident))))
    mark()
    v = anyv('s')
    method(s, 'seed_fields', v)
    prove_eq('seeded', SList(events()),
             SList(all_fields(fs.n, fs, lambda f: ('seed', f.ident, v))))


for _cls in (fromfields.CopyFields, fromfields.BasedOnFields):
    @goal(f'{_cls.__name__}: all source fields are reset and seeded', 'C03')
    def _(cls=_cls):
        fs = fields_seq(tag='f')
        a = [SList(fs.with_kind('list'))]
        if cls is fromfields.BasedOnFields:
            a.append(user_function(fails=False))
        o = made(lambda: call(cls, a))
        if o is None:
            return
        mark()
        method(o, 'reset_source')
        prove_eq('reset', SList(events()),
                 SList(all_fields(fs.n, fs, lambda f: ('reset', f.ident))))
        if cls is fromfields.CopyFields:
            return
        mark()
        v = anyv('s')
        method(o, 'seed_source', v)
        prove_eq('seeded', SList(events()),
                 SList(all_fields(fs.n, fs, lambda f: ('seed', f.ident, v))))
