"""C14, C15 and C16: date/time ranges against lists of their values."""
from datetime import date, datetime, time, timedelta, timezone, tzinfo

from fauxdoc.dtrange import dtrange, DateOrTimeRange
from . import monitor, check, Bad
from .gen import *

US = 86400 * 10 ** 6
TD = timedelta


def us(t):
    return ((t.hour * 60 + t.minute) * 60 + t.second) * 10 ** 6 + \
        t.microsecond


def from_us(x):
    x %= US
    return (datetime.min + TD(microseconds=x)).time()


def value(start, step, i):
    if isinstance(start, time):
        return from_us(us(start) + i * (step // TD(microseconds=1))) \
            .replace(tzinfo=start.tzinfo)
    return start + step * i


def rnd_start(g, kind, tz=False):
    r = g.r
    if kind == 'date':
        return date(r.randint(1900, 2100), r.randint(1, 12),
                    r.randint(1, 28))
    t = time(r.choice([0, 12, 23, r.randint(0, 23)]),
             r.choice([0, 59, r.randint(0, 59)]),
             r.choice([0, 59, r.randint(0, 59)]),
             r.choice([0, 0, 999999, r.randint(0, 999999)]))
    if tz and r.random() < 0.15:
        t = t.replace(tzinfo=r.choice([timezone.utc, timezone(-TD(hours=5)),
                                       timezone(TD(minutes=330))]))
    if kind == 'time':
        return t
    return datetime.combine(rnd_start(g, "date"), t)


def rnd_step(g, kind):
    r = g.r
    if kind == 'date':
        s = TD(days=r.choice([1, 2, 7, 30, g.size(1, 400)]))
    elif kind == 'time':
        s = r.choice([TD(hours=r.randint(1, 23)), TD(minutes=1),
                      TD(seconds=r.randint(1, 86399)), TD(hours=6),
                      TD(microseconds=r.randint(1, US - 1)),
                      TD(seconds=1)])
    else:
        s = r.choice([TD(hours=r.randint(1, 99)), TD(microseconds=1),
                      TD(seconds=1), TD(days=1), TD(days=40, seconds=3),
                      TD(microseconds=r.randint(1, 10 ** 13))])
    return -s if r.random() < 0.4 else s


def rnd_range(g, kind=None, cap=60):
    """(range, start, step, length), a time range of 24 hours at most."""
    r = g.r
    kind = kind or r.choice(['date', 'datetime', 'time'])
    start, step = rnd_start(g, kind, True), rnd_step(g, kind)
    n = r.choice([0, 1, 2, 3, g.size(0, cap)])
    if kind == 'time':
        n = min(n, int(TD(days=1) / abs(step)))
    if kind == 'date' and abs(step) * n > TD(days=300000):
        n = 10
    rg = DateOrTimeRange(start, n, step)
    g.note(kind, start, step, n)
    return rg, start, step, n


@monitor('C14', 300)
def index_and_slice(g):
    r = g.r
    rg, start, step, n = rnd_range(g)
    vals = [value(start, step, i) for i in range(n)]
    check(len(rg) == n, f'length {len(rg)}')
    check(list(rg) == vals, lambda: f'{list(rg)}, not {vals}')
    check(list(reversed(rg)) == vals[::-1], 'reversed')
    for i in {0, n - 1, -1, -n, r.randint(-n - 3, n + 3), n, -n - 1,
              n + r.randint(0, 50), -n - 1 - r.randint(0, 50)}:
        try:
            want = vals[i]
        except IndexError:
            want = None
        try:
            got = rg[i]
        except IndexError:
            got = None
        check(got == want and type(got) is type(want),
              lambda: f'[{i}] is {got!r}, not {want!r}')
    for _ in range(6):
        pool = [None, 0, 1, -1, n, -n, n - 1, n + 1, -n - 1,
                r.randint(-n - 2, n + 2), 10 ** 20, -10 ** 20]
        s = slice(r.choice(pool), r.choice(pool),
                  r.choice([None, 1, -1, 2, -2, 3, -3, n or 1, -(n or 1),
                            n + 1, r.randint(1, 9), 10 ** 6]))
        want = vals[s]
        got = rg[s]
        check(isinstance(got, DateOrTimeRange), f'{s}: not a range')
        check(list(got) == want and len(got) == len(want), lambda:
              f'{s} gives {list(got)}, not {want}')
        if want:
            # a slice behaves as a range, too
            for i in {0, -1, r.randint(-len(want), len(want) - 1)}:
                check(got[i] == want[i], f'{s}, [{i}]')
            s2 = slice(r.choice(pool), r.choice(pool),
                       r.choice([None, -1, 2]))
            check(list(got[s2]) == want[s2], f'{s} then {s2}')
            check(want[0] in got and got.index(want[-1]) == len(want) - 1,
                  f'{s}: membership')


@monitor('C14', 40)
def long_time_range(g):
    """Plain indexes of ranges of times of more than 24 hours."""
    r = g.r
    start, step = rnd_start(g, 'time'), rnd_step(g, 'time')
    n = g.size(0, 500)
    g.note(start, step, n)
    rg = DateOrTimeRange(start, n, step)
    for i in {0, n - 1, n // 2, -1, -n}:
        if -n <= i < n:
            check(rg[i] == value(start, step, i % n), f'[{i}]')
    n = 10 ** r.randint(3, 8)
    i = r.randrange(n)
    check(DateOrTimeRange(start, n, step)[i] == value(start, step, i),
          f'[{i}] of {n}')


def huge_range(g):
    """A range of dates or datetimes too long to list."""
    r = g.r
    kind = r.choice(['date', 'datetime', 'datetime'])
    one = TD(days=1) if kind == 'date' else TD(microseconds=1)
    start = date(r.choice([1, 1970, r.randint(1, 5000)]), r.randint(1, 12),
                 r.randint(1, 28))
    sign = r.choice([1, 1, -1])
    if sign < 0:
        start = start.replace(year=9999)
    if kind == 'datetime':
        start = datetime.combine(start, rnd_start(g, 'time'))
    room = (type(start).max - start if sign > 0 else
            start - type(start).min) // one
    n = r.choice([10 ** 6, r.randint(1, 10 ** 7), 3650000, 10 ** 12] +
                 [r.choice(g.big) + 1 if g.big else 9])
    n = max(1, min(n, room))
    step = max(1, room // n - r.choice([0, 0, 1, r.randint(0, 9)])) \
        if r.random() < 0.7 else r.randint(1, max(1, room // n))
    g.note(kind, start, step * sign, n)
    return (DateOrTimeRange(start, n, one * (step * sign)), start,
            one * (step * sign), n)


def spots(g, n):
    r = g.r
    out = {0, 1, n - 1, n - 2, n // 2, n // 3}
    out |= {r.randrange(n) for _ in range(12)}
    out |= {b + d for b in g.big[:40] for d in (-1, 0, 1)}
    return sorted(i for i in out if 0 <= i < n)


@monitor('C14', 40)
def huge(g):
    rg, start, step, n = huge_range(g)
    check(len(rg) == n, 'length')
    for i in spots(g, n):
        want = value(start, step, i)
        check(rg[i] == want, lambda: f'[{i}] is {rg[i]}, not {want}')
        check(rg[i - n] == want, lambda: f'[{i - n}] is not {want}')
    k = g.r.choice([1, -1, 2, -3, 7])
    idx = range(n)[::k]
    sl = rg[::k]
    check(len(sl) == len(idx), f'[::{k}] has {len(sl)} values')
    for i in spots(g, len(idx)):
        check(sl[i] == value(start, step, idx[i]), lambda:
              f'[::{k}][{i}] is {sl[i]}, not {value(start, step, idx[i])}')
    a, b = sorted((g.r.randrange(n), g.r.randrange(n)))
    sl = rg[a:b]
    check(len(sl) == b - a, f'[{a}:{b}] has {len(sl)} values')
    for i in spots(g, b - a):
        check(sl[i] == value(start, step, a + i), f'[{a}:{b}][{i}]')


@monitor('C15', 40)
def huge_membership(g):
    rg, start, step, n = huge_range(g)
    one = TD(days=1) if type(start) is date else TD(microseconds=1)
    for i in spots(g, n):
        v = value(start, step, i)
        check(v in rg, lambda: f'{v} (at {i}) is not in the range')
        check(rg.index(v) == i and rg.count(v) == 1, f'index of {v}')
        if abs(step) > one and type(start).min + one < v < \
                type(start).max - one:
            for w in (v + one, v - one):
                check(w not in rg and rg.count(w) == 0,
                      lambda: f'{w} is in the range')
    for i in (-1, n):
        try:
            v = value(start, step, i)
        except OverflowError:
            continue
        check(v not in rg, lambda: f'{v} (index {i}) is in the range')
    q = DateOrTimeRange(start, n, step)
    check(rg == q and hash(rg) == hash(q), 'equal ranges')
    for q in (DateOrTimeRange(start, n - 1, step),
              DateOrTimeRange(rg[0], n, -step) if n > 1 else None):
        check(not rg == q and rg != q, 'different ranges')


@monitor('C16', 30)
def huge_factory(g):
    rg, start, step, n = huge_range(g)
    one = TD(days=1) if type(start) is date else TD(microseconds=1)
    k = g.r.choice([0, 0, 1, -1])
    try:
        stop = value(start, step, n) + k * one
    except OverflowError:
        return
    want = -((stop - start) // -step)
    unit = 'days' if type(start) is date else 'microseconds'
    got = dtrange(start, stop, step // one, unit)
    check(len(got) == want, lambda: f'{len(got)} values, not {want}')
    for i in spots(g, want):
        check(got[i] == value(start, step, i), f'[{i}]')


def probes(g, rg, vals, start, step, n):
    r = g.r
    out = list(vals[:5]) + list(vals[-5:])
    out += [value(start, step, i) for i in (-1, n, n + 1, -2)]
    one = TD(days=1) if type(start) is date else TD(microseconds=1)
    for v in list(out[:4]):
        for d in (one, -one, step / 2 if type(start) is not date else one):
            try:
                out.append(from_us(us(v) + d // TD(microseconds=1))
                           if isinstance(v, time) else v + d)
            except OverflowError:
                pass
    return out


@monitor('C15', 300)
def membership(g):
    r = g.r
    rg, start, step, n = rnd_range(g)
    vals = [value(start, step, i) for i in range(n)]
    for v in probes(g, rg, vals, start, step, n):
        if v in vals:
            i = vals.index(v)
            check(v in rg, f'{v} is not in the range')
            check(rg.count(v) == 1, f'count of {v}')
            check(rg.index(v) == i, lambda: f'index of {v}: {rg.index(v)}, '
                  f'not {i}')
            check(rg[rg.index(v)] == v, 'value at the index')
            for lo, hi in ((None, None), (i, None), (0, i + 1), (i, i + 1),
                           (i + 1, None), (0, i), (-n, None), (i - n, None),
                           (r.randint(-n, n), r.randint(-n, n))):
                try:
                    want = vals.index(v, lo or 0, n if hi is None else hi)
                except ValueError:
                    want = None
                try:
                    got = rg.index(v, lo, hi)
                except ValueError:
                    got = None
                check(got == want, f'index({v}, {lo}, {hi}) is {got}, not '
                      f'{want}')
        else:
            check(v not in rg, f'{v} is in the range')
            check(rg.count(v) == 0, f'count of {v}')
            try:
                i = rg.index(v)
            except ValueError:
                pass
            else:
                raise Bad(f'index of {v} is {i}')


class MyDate(date):
    pass


class MyDatetime(datetime):
    pass


class MyTime(time):
    pass


class MyRange(DateOrTimeRange):
    pass


def of_subclass(v):
    """An equal value whose class is a subclass."""
    if isinstance(v, datetime):
        return MyDatetime.combine(v, v.timetz())
    if isinstance(v, date):
        return MyDate(v.year, v.month, v.day)
    return MyTime(v.hour, v.minute, v.second, v.microsecond, v.tzinfo)


@monitor('C15', 60)
def subclasses(g):
    """Values equal to those of the range, but of classes of the user."""
    r = g.r
    rg, start, step, n = rnd_range(g)
    vals = [value(start, step, i) for i in range(n)]
    for v in probes(g, rg, vals, start, step, n):
        mine = of_subclass(v)
        check((mine in rg) == (v in vals), f'{mine!r} in the range')
        check(rg.count(mine) == vals.count(v), f'count of {mine!r}')
        try:
            i = rg.index(mine)
        except ValueError:
            i = None
        check(i == (vals.index(v) if v in vals else None),
              f'index of {mine!r}: {i}')
    other = DateOrTimeRange(of_subclass(start), n, step)
    check(other == rg and hash(other) == hash(rg), 'range from a subclass')
    for v in probes(g, rg, vals, start, step, n):
        check((v in other) == (v in vals) and
              other.count(v) == vals.count(v),
              f'{v!r} in the range from a value of a subclass')
    if not isinstance(start, time):
        mine = MyRange(start, n, step)
        check(mine == rg and rg == mine and hash(mine) == hash(rg),
              'range of a subclass')


def other_tz(x):
    return None if x.tzinfo else timezone.utc


@monitor('C15', 80)
def other_kinds(g):
    r = g.r
    rg, start, step, n = rnd_range(g)
    first = start
    others = [None, 0, 'x', 1.5, (), TD(1), object(), str(start), [start]]
    if isinstance(start, datetime):
        others += [start.date(), start.time(),
                   start.replace(tzinfo=other_tz(start))]
    elif isinstance(start, time):
        others += [datetime.combine(date(2000, 1, 1), start),
                   date(2000, 1, 1), start.replace(tzinfo=other_tz(start))]
    else:
        others += [time(0), time(12)]
    for v in others:
        check(v not in rg, f'{v!r} in the range')
        check(rg.count(v) == 0, f'count of {v!r}')
        try:
            i = rg.index(v)
        except ValueError:
            pass
        else:
            raise Bad(f'index of {v!r} is {i}')
        check(not rg == v and rg != v, f'equals {v!r}')
    check(rg != list(rg) and rg != tuple(rg), 'equals the list')
    for cls in (list, tuple):
        check(not (cls(rg) == rg), 'equals the list')


@monitor('C15', 300)
def equality(g):
    r = g.r
    kind = r.choice(['date', 'datetime', 'date', 'datetime', 'time'])
    a, start, step, n = rnd_range(g, kind)
    k = r.randint(0, 6)
    if k == 0:
        b = DateOrTimeRange(start, n, step)
        m = n
    elif k == 6 and kind == 'datetime':
        start = start.replace(tzinfo=timezone(TD(hours=r.randint(-3, 3))))
        a = DateOrTimeRange(start, n, step)
        b = DateOrTimeRange(start.astimezone(timezone(
            TD(hours=r.randint(-3, 3)))), n, step)
    elif k == 1:
        b = DateOrTimeRange(start, n, rnd_step(g, kind))
    elif k == 2:
        b = DateOrTimeRange(rnd_start(g, kind), n, step)
    elif k == 3:
        b = DateOrTimeRange(start, r.choice([0, 1, n]), step)
    elif k == 4 and n:
        b = a[r.choice([slice(None), slice(0, n), slice(None, None, -1),
                        slice(0, 1), slice(0, 0), slice(1, None)])]
        if r.random() < 0.5:
            b = b[::-1]
    else:
        b, *_ = rnd_range(g, kind)
    if kind == 'time' and k in (1,):
        return
    va, vb = list(a), list(b)
    g.note('other', b.start, b.step, len(b))
    if kind != 'time' or va != vb or (a.start, a.step) == (b.start, b.step):
        check((a == b) == (va == vb), lambda: f'equal: {a == b}; values '
              f'{va[:5]} and {vb[:5]}')
        check((b == a) == (va == vb), 'equality is not symmetric')
    check((a != b) == (not a == b), 'inequality')
    if a == b:
        check(hash(a) == hash(b), 'hashes of equal ranges')
        check(len({a, b}) == 1, 'set of equal ranges')
    check(a == a and hash(a) == hash(a), 'itself')


UNITS = {'microseconds': TD(microseconds=1), 'milliseconds':
         TD(milliseconds=1), 'seconds': TD(seconds=1), 'minutes':
         TD(minutes=1), 'hours': TD(hours=1), 'days': TD(days=1),
         'weeks': TD(weeks=1)}


@monitor('C16', 320)
def factory(g):
    r = g.r
    kind = r.choice(['date', 'datetime', 'time'])
    start = rnd_start(g, kind, True)
    sign = r.choice([1, 1, -1])
    if kind == 'date':
        unit = r.choice([None, 'days', 'weeks', 'hours'])
        k = r.choice([1, 2, 3, 7, 11])
        if unit == 'hours':
            k *= 24
    elif kind == 'time':
        unit = r.choice([None, 'seconds', 'minutes', 'hours',
                         'milliseconds'])
        k = {None: r.choice([3600, 1800, 7001, 43200, 86399, 900]),
             'seconds': r.choice([3600, 5000, 59]),
             'milliseconds': r.choice([3600000, 1234567]),
             'minutes': r.choice([1, 7, 90, 1439]),
             'hours': r.choice([1, 5, 23, 12])}[unit]
    else:
        unit = r.choice([None] + list(UNITS))
        k = r.choice([1, 2, 7, 60, 3600])
    k *= sign
    step = UNITS[unit or ('days' if kind == 'date' else 'seconds')] * k
    j = r.choice([0, 0, 1, 2, 5, -1, -3, g.size(0, 40)])
    off = r.choice([0, 0, 1, -1])
    if kind == 'time':
        stop = r.choice([start, rnd_start(g, 'time'),
                         from_us(us(start) + j * (step //
                                                  TD(microseconds=1)) + off)])
        stop = stop.replace(tzinfo=start.tzinfo)
        d = (us(stop) - us(start)) * sign % US or US
        n = -(-d // abs(step // TD(microseconds=1)))
    else:
        unit_off = TD(days=1) if kind == 'date' else TD(microseconds=1)
        try:
            stop = start + step * j + unit_off * off
        except OverflowError:
            return
        n = 0
        if (stop > start) == (k > 0) and stop != start:
            n = -((stop - start) // -step)
    a = start.isoformat() if r.random() < 0.4 else start
    b = stop.isoformat() if r.random() < 0.4 else stop
    if isinstance(a, str) != isinstance(start, str) and kind == 'datetime':
        a, b = start, stop
    g.note(kind, a, b, k, unit)
    rg = dtrange(a, b, k, unit) if unit is not None else \
        (dtrange(a, b, k) if k != 1 or r.random() < 0.5 else dtrange(a, b))
    want = [value(start, step, i) for i in range(min(n, 3000))]
    check(len(rg) == n, lambda: f'{len(rg)} values, not {n}')
    got = [rg[i] for i in range(min(n, 3000))]
    check(got == want, lambda: f'{got[:6]}, not {want[:6]}')
    if kind != 'time':
        for v in got[-1:]:
            check(v < stop if k > 0 else v > stop, f'{v} is not before stop')


@monitor('C16', 60)
def strings(g):
    """Datetime strings, and arguments that are refused."""
    r = g.r
    d = rnd_start(g, 'datetime').replace(microsecond=0, hour=5)
    e = d + TD(seconds=r.randint(1, 30))
    g.note(d, e)
    for a, b in ((d.isoformat(), e), (d, e.isoformat()),
                 (d.isoformat(), e.isoformat())):
        check(list(dtrange(a, b, 7)) ==
              [d + TD(seconds=7) * i
               for i in range(-(-int((e - d).total_seconds()) // 7))],
              'datetime strings')
    x = {'date': date(2020, 1, 1), 'time': time(3), 'datetime': d}
    for p in x:
        for q in x:
            if p != q:
                _refused(x[p], x[q])
                _refused(x[p].isoformat(), x[q])
    for bad in ('nonsense', '', None, 5, 'x' * 10):
        _refused(bad, x['date'])
        _refused(x['time'], bad)
    for u in ('day', 'second', 'years', 'months', '', 'x', 'DAYS'):
        for p in x:
            _refused(x[p], x[p], 1, u)


def _refused(*a):
    try:
        v = dtrange(*a)
    except ValueError:
        return
    raise Bad(f'dtrange{a} is accepted: {v!r}')


@monitor('C14', 1, once=True)
def known_long_stride(g):
    """Known finding: the stride of a slice of a long time range."""
    rg = DateOrTimeRange(time(0), 60, TD(hours=1))
    g.note('DateOrTimeRange(time(0), 60, 1 hour)[::25]')
    want = [value(time(0), TD(hours=1), i) for i in range(60)][::25]
    try:
        got = list(rg[::25])
    except ValueError as e:
        raise Bad(f'ValueError: {e}', 'time-range-over-24h-slice-stride')
    check(got == want, f'{got}, not {want}')


@monitor('C15', 1, once=True)
def known_second_lap(g):
    """Known finding: values only reached after 24 hours."""
    rg = DateOrTimeRange(time(0), 10, TD(hours=7))
    g.note('DateOrTimeRange(time(0), 10, 7 hours)')
    check(rg[4] == time(4), 'value at 4')
    check(time(4) in rg, 'time(4) is the value at index 4, but is not in the '
          'range', 'time-range-over-24h-second-lap')


class Clock(tzinfo):
    """A timezone one hour ahead of UTC, two from April to September."""

    def dst(self, d):
        return TD(hours=1 if d and 4 <= d.month <= 9 else 0)

    def utcoffset(self, d):
        return TD(hours=1) + self.dst(d)


@monitor('C15', 1, once=True)
def known_other_zone(g):
    """Known finding: values in another timezone than that of the range."""
    rg = DateOrTimeRange(datetime(2024, 3, 30, 12, tzinfo=Clock()), 5,
                         TD(days=1))
    v = datetime(2024, 4, 1, 10, tzinfo=timezone.utc)
    g.note('DateOrTimeRange(noon of 30 March 2024, 5, 1 day)')
    check(rg[2] == v and v in list(rg), 'value at 2')
    check(v in rg, 'equals the value at index 2, but is not in the range',
          'other-timezone-datetime')


@monitor('C15', 1, once=True)
def known_other_zone_time(g):
    """Known finding: times in another timezone than that of the range."""
    rg = DateOrTimeRange(time(22, tzinfo=timezone.utc), 3, TD(hours=1))
    v = time(1, tzinfo=timezone(TD(hours=2)))
    g.note('DateOrTimeRange(22:00 UTC, 3, 1 hour)')
    check(v not in list(rg), 'equality of times')
    check(v not in rg, 'equals none of the values, but is in the range',
          'other-timezone-time')


@monitor('C15', 60)
def other_zones(g):
    """Values in another timezone than that of a range of datetimes."""
    r = g.r
    rg, start, step, n = rnd_range(g, 'datetime')
    if start.tzinfo is None:
        return
    vals = [value(start, step, i) for i in range(n)]
    tz = timezone(TD(minutes=r.randint(-700, 700)))
    for v in [vals[i] for i in {0, n - 1, n // 2} if 0 <= i < n]:
        w = v.astimezone(tz)
        check(w in rg and rg.index(w) == vals.index(v) and
              rg.count(w) == 1, f'{w} is not found')
        w += TD(microseconds=1)
        check((w in rg) == (w in vals), f'membership of {w}')
