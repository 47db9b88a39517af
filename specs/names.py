"""Names of private attributes, found by what they hold.

The contracts are stated over the state of the objects.  What a private
attribute is called does not matter, so it is identified by watching real
objects of the class; an attribute that cannot be identified keeps the name
it had, and `zoo.need` finds it missing (the obligation is undecided).
"""
import random
import functools
from fauxdoc.emitters import choice, fixed
from fauxdoc import profile


def _one(found, default):
    found = sorted(set(found))
    return default if default in found or len(found) != 1 else found[0]


def _int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def _choice():
    items = [17, 23, 31, 41, 53, 67, 79]
    o = choice.Choice(items, replace=False, rng_seed=3)
    a = dict(vars(o))
    o()
    o(2)
    b = vars(o)
    set_ = [dict(vars(choice.Choice(
        items, weights=[1, 2, 3, 4, 5, 6, 7], replace=x,
        replace_only_after_call=y, rng_seed=3)))
            for x, y in ((False, False), (True, False), (True, True))]

    def holds(*values):
        return [k for k in a if all(
            type(s.get(k)) is type(v) and s.get(k) == v
            for s, v in zip(set_, values))]
    both = [k for k in a if k in b]
    return {
        '_replace': _one(holds(False, True, True), '_replace'),
        '_replace_only_after_call': _one(
            holds(False, False, True), '_replace_only_after_call'),
        '_weights': _one(holds(*[[1, 2, 3, 4, 5, 6, 7]] * 3), '_weights'),
        '_cum_weights': _one(holds(*[[1, 3, 6, 10, 15, 21, 28]] * 3),
                             '_cum_weights'),
        '_items': _one([k for k in both if isinstance(a[k], (list, tuple))
                        and list(a[k]) == items], '_items'),
        '_shuffled': _one([k for k in both if isinstance(b[k], (list, tuple))
                           and list(b[k]) != items
                           and sorted(map(str, b[k])) ==
                           sorted(map(str, items))], '_shuffled'),
        '_shuffled_index': _one([
            k for k in both if _int(a[k]) and _int(b[k])
            and (a[k], b[k]) == (0, 3)], '_shuffled_index'),
        '_num_unique_items': _one([
            k for k in both if _int(a[k]) and _int(b[k])
            and (a[k], b[k]) == (7, 4)], '_num_unique_items')}


def _iterating(make):
    def run():
        o = make()
        return {'_iterator': _one([
            k for k, v in vars(o).items() if hasattr(v, '__next__')],
            '_iterator')}
    return run


def _field():
    mark = object()
    o = profile.Field('name', fixed.Static(mark))
    before = dict(vars(o))
    o()
    return {'_cache': _one([
        k for k, v in vars(o).items() if v is mark
        and before.get(k) is not mark], '_cache')}


EXPERIMENTS = [(choice.Choice, _choice),
               (fixed.Sequential,
                _iterating(lambda: fixed.Sequential([1, 2]))),
               (fixed.Iterative,
                _iterating(lambda: fixed.Iterative(lambda: iter([1, 2])))),
               (profile.Field, _field)]


@functools.lru_cache(None)
def _names(cls):
    for base, run in EXPERIMENTS:
        if isinstance(cls, type) and issubclass(cls, base):
            st = random.getstate()
            try:
                return run()
            except Exception:       # pylint: disable=broad-except
                return {}
            finally:
                random.setstate(st)
    return {}


def at(obj, name):
    """The name the attribute `name` has in objects like obj."""
    cls = getattr(obj, 'cls', None)
    return _names(cls).get(name, name) if cls is not None else name
