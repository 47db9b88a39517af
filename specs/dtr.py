"""C14, C15, C16: date and time ranges."""
from pyvc.spec import *
from pyvc.interp import pyraise
from fauxdoc import dtrange as D
import datetime as dt

DAY = lib.DAY
KINDS = ('date', 'datetime', 'time')


def a_start(kind, name='start'):
    """Any start value."""
    t = plain(name, Int)
    if kind == 'time':
        assume(z3.And(t >= 0, t < DAY))
    return DTV(kind, t)


class SubDate(dt.date):
    pass


class SubDatetime(dt.datetime):
    pass


class SubTime(dt.time):
    pass


SUB = {'date': SubDate, 'datetime': SubDatetime, 'time': SubTime}


def a_value(kind, sub):
    """Any value of the kind, or of a subclass of it."""
    v = a_start(kind, 'v')
    v.cls = SUB[kind] if sub else None
    return v


def a_step(kind, name='step'):
    """Any step the class accepts, in microseconds, non-zero."""
    if kind == 'date':
        d = plain(name + '_days', Int)
        assume(d != 0)
        return TDV(simp(d * DAY))
    us = plain(name, Int)
    assume(us != 0)
    if kind == 'time':
        assume(z3.And(us > -DAY, us < DAY))
    return TDV(us)


def unit(kind):
    return DAY if kind == 'date' else 1


def zv(kind, t, us, i):
    """Value at index i, in the representation of DTV."""
    if kind == 'date':
        return t + i * simp(zi(us) / DAY) if False else t + i * days(us)
    if kind == 'time':
        return (t + i * us) % DAY
    return t + i * us


def days(us):
    # us is d * DAY
    return simp(us / DAY)


# a subclass that adds nothing
SubRange = type('SubRange', (D.DateOrTimeRange,),
                {'__module__': D.__name__})


class R:
    """A range made by the real constructor, and its parameters."""

    def __init__(self, kind, tag='', span=False, sub=False, cls=None):
        self.kind = kind
        self.start = a_start(kind, 'start' + tag)
        self.start.cls = SUB[kind] if sub else None
        if kind == 'date':
            self.d = plain('step_days' + tag, Int)
            assume(self.d != 0)
            self.step = TDV(simp(self.d * DAY))
        else:
            self.step = a_step(kind, 'step' + tag)
            self.d = self.step.us
        self.n = plain('length' + tag, Int)
        assume(self.n >= 0)
        if span and kind == 'time':
            # the values cover at most 24 hours
            assume(z3.And(self.n * self.d <= DAY, self.n * self.d >= -DAY))
        self.obj = call(cls or D.DateOrTimeRange,
                        [self.start, self.n, self.step])

    def raw(self, i):
        """Value at index i as an int (before wrapping, for times)."""
        return self.start.t + zi(i) * self.d

    def wrap(self, x):
        return x % DAY if self.kind == 'time' else x

    def at(self, i):
        return self.wrap(self.raw(i))


def getitem(r, i):
    return get_item(r, i)


for _k in KINDS:
    @goal(f'{_k} range: value at an index', 'C14')
    def _(kind=_k):
        r = R(kind)
        prove('length', zi(length(r.obj)) == r.n)
        i = plain('i', Int)
        v, e = attempt(lambda: getitem(r.obj, i))
        if e is not None:
            prove_exc('bad index raises IndexError', e, IndexError)
            prove('only a bad index is refused',
                  z3.Or(i >= r.n, i < -r.n))
        else:
            prove('index in range', z3.And(i < r.n, i >= -r.n))
            prove('kind of value', isinstance(v, DTV) and v.kind == kind)
            prove('value at index', v.t == r.at(z3.If(i < 0, i + r.n, i)))

    @goal(f'{_k} range: slices', 'C14', secs=120)
    def _(kind=_k):
        r = R(kind, span=True)
        a, b, s = (z3.Const(x, V) for x in ('a', 'b', 's'))
        for x in (a, b, s):
            assume(z3.Or(V.is_VNone(x), V.is_VInt(x)))
        assume(z3.Implies(V.is_VInt(s), V.vint(s) != 0))
        sl = SliceVal(a, b, s)
        got, e = attempt(lambda: getitem(r.obj, sl))
        prove('a slice is never refused', e is None, repr(e))
        if e is not None:
            return
        # the indices the slice of a list of r.n values selects
        sel = interp.get_slice(interp.make_range(0, r.n), sl)
        prove('a range', isinstance(got, Inst) and
              got.cls is D.DateOrTimeRange)
        prove('length of slice', zi(length(got)) == zi(sel.n))
        k = plain('k', Int)
        assume(z3.And(k >= 0, k < zi(sel.n)))
        v = getitem(got, k)
        prove('kind', isinstance(v, DTV) and v.kind == kind)
        prove('k-th value of slice', v.t == r.at(sel.get(k)))


def opt_int(name):
    x = z3.Const(name, V)
    assume(z3.Or(V.is_VNone(x), V.is_VInt(x)))
    return x


def membership(kind, sub, start_sub):
    r = R(kind, span=True, sub=start_sub)
    v = a_value(kind, sub)
    i, e = attempt(lambda: method(r.obj, 'index', v))
    inside, e2 = attempt(lambda: interp.test(contains(r.obj, v)))
    prove('`in` raises nothing', e2 is None, repr(e2))
    cnt, e3 = attempt(lambda: method(r.obj, 'count', v))
    prove('count raises nothing', e3 is None, repr(e3))
    if e2 is not None or e3 is not None:
        return
    prove('count is 1 or 0 as the value is in or not',
          truth(equals(cnt, 1 if inside else 0)))
    if e is None:
        prove('a value with an index is in', inside)
        prove('index within the range', z3.And(zi(i) >= 0, zi(i) < r.n))
        prove('value at its index', r.at(i) == v.t)
    else:
        prove_exc('a miss raises ValueError', e, ValueError)
        prove('a value without an index is not in', not inside)
        k = plain('k', Int)
        assume(z3.And(k >= 0, k < r.n))
        C.div_hints.append(k)
        prove('none of the values is a miss', r.at(k) != v.t)


for _k in KINDS:
    for _sub, _ssub, _what in (
            (False, False, ''), (True, False, ' of a subclass'),
            (False, True, ' (start of a subclass)')):
        @goal(f'{_k} range: membership, count and index of a value{_what}',
              'C15', secs=120)
        def _(kind=_k, sub=_sub, start_sub=_ssub):
            membership(kind, sub, start_sub)

    @goal(f'{_k} range: index within bounds', 'C15', secs=120)
    def _(kind=_k):
        r = R(kind, span=True)
        v = a_value(kind, False)
        lo, hi = opt_int('lo'), opt_int('hi')
        i, e = attempt(lambda: method(r.obj, 'index', v, lo, hi))
        sel = interp.get_slice(interp.make_range(0, r.n),
                               SliceVal(lo, hi, None))
        if e is None:
            prove('within the bounds', interp.truth(contains(sel, i)))
            prove('value at its index', r.at(i) == v.t)
        else:
            prove_exc('a miss raises ValueError', e, ValueError)
            k = plain('k', Int)
            assume(z3.And(k >= 0, k < zi(sel.n)))
            j = plain('j', Int)
            assume(j == sel.get(k))
            C.div_hints.append(j)
            if kind != 'time':
                q, rem = interp.floordivmod(v.t - r.start.t, r.d)
                lemma = z3.Implies(r.at(j) == v.t,
                                   z3.And(zi(q) == j, zi(rem) == 0))
                if prove('the index of a value is its distance', lemma):
                    assume(lemma)
            prove('none of the values within the bounds is a miss',
                  r.at(j) != v.t)

    @goal(f'{_k} range: values of other kinds', 'C15')
    def _(kind=_k):
        r = R(kind, span=True)
        others = [a_start(k2, 'o_' + k2) for k2 in KINDS if k2 != kind]
        others += [plain('num', Int), 'text', None, TDV(plain('td', Int))]
        for o in others:
            prove_raises('index of another kind of value',
                         lambda: method(r.obj, 'index', o), ValueError)
            c, e = attempt(lambda: contains(r.obj, o))
            prove('another kind of value is not in',
                  e is None and interp.znot(truth(c)), repr(e))
            c, e = attempt(lambda: method(r.obj, 'count', o))
            prove('the count of another kind of value is 0',
                  e is None and truth(equals(c, 0)), repr(e))

def equality(kind, c1, c2):
    r, q = R(kind, '1', cls=c1), R(kind, '2', cls=c2)
    eq = interp.test(equals(r.obj, q.obj))
    ne = interp.test(interp.compare('!=', r.obj, q.obj))
    prove('!= is the opposite of ==', ne != eq)
    h1 = lib.m_hash([r.obj], {})
    h2 = lib.m_hash([q.obj], {})
    if eq:
        prove('equal ranges have the same length', r.n == q.n)
        k = plain('k', Int)
        sub_paths(lambda: (assume(z3.And(k >= 0, k < r.n)), prove(
            'equal ranges have the same values', r.at(k) == q.at(k))))
        prove('equal ranges have equal hashes', truth(equals(h1, h2)))
    else:
        # a difference shows in the length, the first or second value
        prove('unequal ranges differ', z3.Or(
            r.n != q.n, z3.And(r.n > 0, r.at(0) != q.at(0)),
            z3.And(r.n > 1, r.at(1) != q.at(1))))

for _k in ('date', 'datetime'):
    for _c1, _c2, _what in (
            (None, None, ''), (SubRange, None, ' (the first of a subclass)'),
            (None, SubRange, ' (the second of a subclass)')):
        @goal(f'{_k} range: equality and hash{_what}', 'C15', secs=120)
        def _(kind=_k, c1=_c1, c2=_c2):
            equality(kind, c1, c2)

for _k in KINDS:
    @goal(f'{_k} range: never equal to something else', 'C15')
    def _(kind=_k):
        r = R(kind)
        others = [None, plain('num', Int), 'text', SList(Lit([])),
                  any_list('l'), any_seq('t', kind='tuple'), r.start, r.step]
        for o in others:
            prove('not equal', interp.znot(truth(equals(r.obj, o))))
            prove('not equal (swapped)',
                  interp.znot(truth(equals(o, r.obj))))


# --- C16: the factory

UNITS = {'microseconds': 1, 'milliseconds': 1000, 'seconds': 10 ** 6,
         'minutes': 6 * 10 ** 7, 'hours': 36 * 10 ** 8, 'days': DAY,
         'weeks': 7 * DAY}


def factory(kind, unit_name):
    a, b = a_start(kind, 'start'), a_start(kind, 'stop')
    s = plain('step', Int)
    assume(s != 0)
    if unit_name is None:
        args = [a, b] + [s]
        us = DAY if kind == 'date' else 10 ** 6
    else:
        args = [a, b, s, unit_name]
        us = UNITS[unit_name]
    step = simp(s * us)
    if kind == 'date' and us < DAY:
        # steps of dates are whole days
        d = plain('d', Int)
        assume(step == d * DAY)
        assume(d != 0)
    elif kind == 'date':
        d = simp(s * (us // DAY))
    else:
        d = step
    if kind == 'time':
        assume(z3.And(step > -DAY, step < DAY))
    r, e = attempt(lambda: call(D.dtrange, args))
    prove('the factory accepts the arguments', e is None, repr(e))
    if e is not None:
        return
    n = zi(length(r))
    # distance to go, in the direction of the step
    if kind == 'time':
        fwd = (b.t - a.t) % DAY
        dist = z3.If(d > 0, z3.If(fwd == 0, DAY, fwd),
                     z3.If(fwd == 0, z3.IntVal(DAY), DAY - fwd))
    else:
        dist = z3.If(d > 0, b.t - a.t, a.t - b.t)
    size = z3.If(d > 0, d, -d)
    prove('length is not negative', n >= 0)
    prove('the value past the last is not before stop', n * size >= dist)
    k = plain('k', Int)
    assume(z3.And(k >= 0, k < n))
    prove('all values are before stop', k * size < dist)
    v = get_item(r, k)
    prove('kind of value', isinstance(v, DTV) and v.kind == kind)
    x = a.t + k * d
    prove('k-th value', v.t == (x % DAY if kind == 'time' else x))


for _k in KINDS:
    for _u in [None] + list(UNITS):
        if _k == 'time' and _u in ('days', 'weeks'):
            continue    # the steps of times are shorter than a day
        @goal(f'dtrange of {_k}s, step in {_u or "the default unit"}',
              'C16')
        def _(kind=_k, u=_u):
            factory(kind, u)


@goal('dtrange: arguments that are refused', 'C16')
def _():
    s = plain('step', Int)
    assume(s != 0)
    for k1 in KINDS:
        for k2 in KINDS:
            if k1 != k2:
                prove_raises('different kinds', lambda: call(
                    D.dtrange, [a_start(k1, 'a'), a_start(k2, 'b'), s]),
                    ValueError)
        for unit in ('years', 'months', 'day', 'DAYS', ''):
            prove_raises(f'unknown unit {unit!r}', lambda: call(
                D.dtrange, [a_start(k1, 'a'), a_start(k1, 'b'), s, unit]),
                ValueError)
        for junk in (None, plain('num', Int), SList(Lit([]))):
            prove_raises('not a date', lambda: call(
                D.dtrange, [junk, a_start(k1, 'b'), s]), ValueError)
            prove_raises('not a date', lambda: call(
                D.dtrange, [a_start(k1, 'b'), junk, s]), ValueError)
