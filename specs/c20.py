"""C20: wrappers apply the user function once per value, to the right
arguments."""
from .zoo import *
from pyvc.values import Flat, flat
from pyvc.roles import (Prev, FIELD, NameOf, WantsRng, HasSig, Accepts)


def emitter(*a, **kw):
    return roles.emitter(*a, seedable=True, **kw)


def made(f, make):
    """The object, or None if the function was refused (which is right
    exactly if it doesn't accept the arguments)."""
    o, e = attempt(make)
    if e is not None:
        prove_exc('only TypeError is raised', e, TypeError)
        prove('refused only if it does not accept the arguments',
              z3.Not(Accepts(f.ident)))
        return None
    prove('accepted only if it accepts the arguments', Accepts(f.ident))
    return o


def fn_events(f):
    out = []
    for p in log_parts(events()):
        if isinstance(p, Lit):
            out += [e for e in p.items if e[0] == 'fn']
        else:
            raise Unsupported('event log')
    return out


def right_args(name, o, f, ev, args, kwargs):
    """The call ev of the function has these arguments, and rng exactly if
    the function has a parameter of that name."""
    prove_eq(name + ': arguments', ev[2], Lit(list(args), 'tuple'))
    kw = ev[3]
    rng = interp.test(z3.And(HasSig(f.ident), WantsRng(f.ident)))
    kw = force(kw)
    log = list(kw.conc.items()) if kw.conc is not None else None
    if log is None:
        ps = log_parts(kw.log)
        last = ps[-1].items[-1] if isinstance(ps[-1], Lit) and ps[-1].items \
            else None
        first = ps[0].items[0] if isinstance(ps[0], Lit) and ps[0].items \
            else None
        got = [x for x in (first, last) if x is not None and
               x[0] == 'rng']
        rest = SSeq(sub(kw.log.n, 1 if got else 0),
                    (lambda j: kw.log.get(add(j, 1))) if got and
                    first is not None and first[0] == 'rng' else kw.log.get)
    else:
        got = [x for x in log if x[0] == 'rng']
        rest = Lit([x for x in log if x[0] != 'rng'])
    prove(name + ': rng exactly if it is a parameter', bool(got) == rng)
    if got:
        own_rng(name, o, got[0][1])
    prove_eq(name + ': named arguments', SList(rest), SList(kwargs))


def own_rng(name, o, g):
    prove(name + ': the generator of the emitter itself',
          g is get_attr(o, 'rng'))


def called(tag, f, ev):
    prove(tag + 'the function is called', ev[0] == 'fn')
    prove(tag + 'the right function is called', ev[1] == f.ident)


def not_one(lo=0):
    m = ints('m', lo)
    assume(m != 1)
    return m


# --- one source


def wrap_one(f, src):
    distinct(f, src)
    return call(wrappers.WrapOne, [src, f], {'rng_seed': anyv('seed')})


def one_source(o, f, src, tag=''):
    def single():
        mark()
        r, e = attempt(lambda: call(o, []))
        prove(tag + 'raises nothing', e is None, repr(e))
        if e is not None:
            return
        c = events_of(events(), src.ident)
        prove(tag + 'one value drawn', len(c) == 1 and c[0][0] == 'call' and
              c[0][2] is None)
        fe = fn_events(f)
        prove(tag + 'function called once', len(fe) == 1)
        called(tag, f, fe[0])
        right_args(tag + 'single', o, f, fe[0], [c[0][3]], Lit([]))
        prove_eq(tag + 'its result is returned', r, fe[0][4])

    def many(n):
        mark()
        r, e = attempt(lambda: call(o, [n]))
        prove(tag + 'raises nothing (many)', e is None, repr(e))
        if e is not None:
            return
        ps = log_parts(events())
        prove(tag + 'values drawn before, then the function is called',
              1 <= len(ps) <= 2 and isinstance(ps[0], Lit))
        srcs = [x for x in ps[0].items if x[0] == 'call']
        if hostint(n) != 1:
            prove(tag + 'n values drawn at once', len(srcs) == 1 and
                  srcs[0][2] is not None and zi(srcs[0][2]) == zi(n))
            vals = srcs[0][3]
        else:
            vals = Lit([srcs[0][3]]) if srcs[0][2] is None else srcs[0][3]
        prove(tag + 'one call per value', zi(events().n) == zi(n) + 1)
        r = to_seq(force(r))
        prove(tag + 'one result per value', zi(r.n) == zi(n))
        k = plain('k', Int)
        assume(z3.And(k >= 0, k < zi(n)))
        ev = force(events().get(add(k, 1)))
        called(tag, f, ev)
        right_args(tag + 'many', o, f, ev, [vals.get(k)], Lit([]))
        prove_eq(tag + 'k-th result', r.get(k), ev[4])
    sub_paths(single)
    sub_paths(lambda: many(not_one()))
    sub_paths(lambda: many(1))


@goal('WrapOne', 'C20', proves='fauxdoc.emitters.wrappers.WrapOne.emit_many')
def _():
    f, src = user_function(fails=True), emitter('source')
    mark()
    o = made(f, lambda: wrap_one(f, src))
    if o is None:
        return
    # what it was tried with when it was set
    tried = [e for e in events().items if e[0] in ('fn', 'bind')]
    prove('tried once', len(tried) == 1)
    got = [e for e in events_of(events(), src.ident) if e[0] == 'call']
    if len(tried) == 1 and got:
        ev = tried[0]
        ev = ev if ev[0] == 'fn' else ev + (None,)
        # (resetting makes a new generator: only the names matter here)
        prove('tried with one value', zi(ev[2].n) == 1)
        prove('tried with rng exactly if it is a parameter',
              z3.BoolVal('rng' in (ev[3].conc or {})) ==
              z3.And(HasSig(f.ident), WantsRng(f.ident)))
    one_source(o, f, src)


@goal('WrapOne: function set later', 'C20')
def _():
    f, g = user_function('f'), user_function('g')
    src = emitter('source')
    distinct(src, f, g)
    assume(Accepts(f.ident))
    o = wrap_one(f, src)
    _, e = attempt(lambda: method(o, 'set_wrapper_function', g))
    if e is not None:
        prove_exc('refused with TypeError', e, TypeError)
        prove('refused only if it does not fit', z3.Not(Accepts(g.ident)))
        return
    prove('accepted only if it fits', Accepts(g.ident))
    one_source(o, g, src)


@goal('WrapOne: the function of the wrapper set directly', 'C20')
def _():
    f, g = user_function('f'), user_function('g')
    src = emitter('source')
    distinct(src, f, g)
    assume(z3.And(Accepts(f.ident), Accepts(g.ident)))
    o = wrap_one(f, src)
    set_attr(get_attr(o, 'wrapper'), 'function', g)
    branch(HasSig(g.ident)) and branch(WantsRng(g.ident))
    one_source(o, g, src)


@goal('WrapOne: after reset and reseeding', 'C20')
def _():
    f, src = user_function('f'), emitter('source')
    assume(Accepts(f.ident))
    o = wrap_one(f, src)
    method(o, 'seed', anyv('s'))
    one_source(o, f, src, 'after seed: ')
    method(o, 'reset')
    one_source(o, f, src, 'after reset: ')


# --- many sources


def wrap_many(f, src):
    return call(wrappers.WrapMany, [src, f], {'rng_seed': anyv('seed')})


def many_sources(o, f, log, tag=''):
    n = log.n

    def events_shape(m, per_value):
        pass

    def single():
        mark()
        r, e = attempt(lambda: call(o, []))
        prove(tag + 'raises nothing', e is None, repr(e))
        if e is not None:
            return
        evs = events()
        prove(tag + 'one call per source and one of the function',
              zi(evs.n) == zi(n) + 1)
        j = plain('j', Int)

        def drawn():
            if not branch(z3.And(j >= 0, j < zi(n))):
                return
            ev = force(evs.get(j))
            prove(tag + 'each source drawn from once', ev[0] == 'call')
            prove(tag + 'source j', ev[1] == log.get(j)[1].ident)
            prove(tag + 'for one value', ev[2] is None)
        sub_paths(drawn)
        fe = force(evs.get(n))
        called(tag, f, fe)
        right_args(tag + 'single', o, f, fe, [], SSeq(
            n, lambda j: (log.get(j)[0], force(evs.get(j))[3])))
        prove_eq(tag + 'its result is returned', r, fe[4])

    def many(m):
        mark()
        r, e = attempt(lambda: call(o, [m]))
        prove(tag + 'raises nothing (many)', e is None, repr(e))
        if e is not None:
            return
        evs = events()
        prove(tag + 'one call per source and one of the function per value',
              zi(evs.n) == zi(n) + zi(m))
        j = plain('j', Int)
        one = hostint(m) == 1

        def drawn():
            if not branch(z3.And(j >= 0, j < zi(n))):
                return
            ev = force(evs.get(j))
            prove(tag + 'each source drawn from once (many)',
                  ev[0] == 'call')
            prove(tag + 'source j (many)', ev[1] == log.get(j)[1].ident)
            prove(tag + 'for m values', zi(ev[2]) == zi(m)
                  if ev[2] is not None else one)
        sub_paths(drawn)
        r = to_seq(force(r))
        prove(tag + 'one result per value', zi(r.n) == zi(m))
        k = plain('k', Int)
        assume(z3.And(k >= 0, k < zi(m)))
        fe = force(evs.get(add(n, k)))
        called(tag, f, fe)

        def val(j):
            ev = force(evs.get(j))
            return ev[3] if ev[2] is None else ev[3].get(k)
        right_args(tag + 'many', o, f, fe, [], SSeq(
            n, lambda j: (log.get(j)[0], val(j))))
        prove_eq(tag + 'k-th result', r.get(k), fe[4])
    sub_paths(single)
    sub_paths(lambda: many(not_one()))
    sub_paths(lambda: many(1))


@goal('WrapMany', 'C20',
      proves='fauxdoc.emitters.wrappers.WrapMany.emit_many')
def _():
    f = user_function(fails=True)
    src, log = sources()
    o = made(f, lambda: wrap_many(f, src))
    if o is not None:
        many_sources(o, f, log)


@goal('WrapMany: one source under two names', 'C20')
def _():
    f, src = user_function(), emitter('source')
    distinct(f, src)
    assume(Accepts(f.ident))
    o = wrap_many(f, SDict({'a': src, 'b': src}))
    many_sources(o, f, Lit([('a', src), ('b', src)]))


@goal('WrapMany: function set later', 'C20')
def _():
    f, g = user_function('f'), user_function('g')
    src, log = sources()
    assume(Accepts(f.ident))
    o = wrap_many(f, src)
    _, e = attempt(lambda: method(o, 'set_wrapper_function', g))
    if e is not None:
        prove_exc('refused with TypeError', e, TypeError)
        prove('refused only if it does not fit', z3.Not(Accepts(g.ident)))
        return
    prove('accepted only if it fits', Accepts(g.ident))
    many_sources(o, g, log)


# --- fields


def based_on(f, src):
    return call(fromfields.BasedOnFields, [src, f],
                {'rng_seed': anyv('seed')})


def field_based(o, f, fs, tag=''):
    """fs: the fields (a single one: its value is the argument)."""
    one = hostint(fs.n) == 1

    def one_call(ev):
        called(tag, f, ev)
        if one:
            right_args(tag + 'one field', o, f, ev,
                       [Prev(fs.get(0).ident)], Lit([]))
        else:
            right_args(tag + 'fields', o, f, ev, [], SSeq(
                fs.n, lambda j: (NameOf(fs.get(j).ident),
                                 Prev(fs.get(j).ident))))

    def single():
        mark()
        r, e = attempt(lambda: call(o, []))
        prove(tag + 'raises nothing', e is None, repr(e))
        if e is not None:
            return
        prove(tag + 'no field is called', hostint(events().n) == 1)
        ev = force(events().get(0))
        one_call(ev)
        prove_eq(tag + 'its result is returned', r, ev[4])

    def many(m):
        mark()
        r, e = attempt(lambda: call(o, [m]))
        prove(tag + 'raises nothing (many)', e is None, repr(e))
        if e is not None:
            return
        prove(tag + 'called once for all', hostint(events().n) == 1)
        ev = force(events().get(0))
        one_call(ev)
        r = to_seq(force(r))
        prove(tag + 'as many as asked for', zi(r.n) == zi(m))
        k = plain('k', Int)
        assume(z3.And(k >= 0, k < zi(m)))
        prove_eq(tag + 'the same result each time', r.get(k), ev[4])
    sub_paths(single)
    sub_paths(lambda: many(not_one(1)))
    sub_paths(lambda: many(1))


BASES = {
    'one field': lambda: Lit([Ref(plain('field', Int), FIELD)], 'tuple'),
    'any number of fields': lambda: fields_seq(minlen=2),
    'no fields': lambda: Lit([], 'tuple'),
}
for _nm, _src in BASES.items():
    @goal(f'BasedOnFields: {_nm}', 'C20')
    def _(src=_src, nm=_nm):
        f = user_function(fails=True)
        fs = src()
        form = [SList(fs.with_kind('list'))]
        if nm == 'one field':
            form.append(fs.get(0))
        for a in form:
            def run():
                o = made(f, lambda: based_on(f, a))
                if o is not None:
                    field_based(o, f, fs)
            sub_paths(run)

    @goal(f'BasedOnFields: {_nm}, function set later', 'C20')
    def _(src=_src):
        f, g = user_function('f'), user_function('g')
        fs = src()
        assume(Accepts(f.ident))
        o = based_on(f, SList(fs.with_kind('list')))
        _, e = attempt(lambda: method(o, 'set_action_function', g))
        if e is not None:
            prove_exc('refused with TypeError', e, TypeError)
            prove('refused only if it does not fit',
                  z3.Not(Accepts(g.ident)))
            return
        prove('accepted only if it fits', Accepts(g.ident))
        field_based(o, g, fs)


@goal('A wrapper of another emitter given as the function', 'C20')
def _():
    f, s1, s2 = user_function('f'), emitter('s1'), emitter('s2')
    distinct(f, s1, s2)
    assume(Accepts(f.ident))
    other = call(wrappers.WrapOne, [s1, f])

    def one():
        o = call(wrappers.WrapOne, [s2, get_attr(other, 'wrapper')])
        one_source(o, f, s2)

    def fields():
        fs = fields_seq(minlen=2)
        o = call(fromfields.BasedOnFields,
                 [SList(fs.with_kind('list')), get_attr(other, 'wrapper')])
        field_based(o, f, fs)
    sub_paths(one)
    sub_paths(fields)
