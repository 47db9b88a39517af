"""Third batch of planted bugs: written from the statements of the properties."""
BUGS = [
('c01-list-result', 'C01', 'emitters/fromfields.py',
 ("        return self._action(**kwargs)\n\n    def emit_many(self, number: int) -> List[OutputT]:\n        \"\"\"Returns a list of emitted values.\n\n        Args:\n            number: See superclass.\n        \"\"\"\n        return [self.emit()] * number\n",
  "        return self._action(**kwargs)\n\n    def emit_many(self, number: int) -> List[OutputT]:\n        \"\"\"Returns a list of emitted values.\n\n        Args:\n            number: See superclass.\n        \"\"\"\n        value = self.emit()\n        return (value if isinstance(value, list) else [value]) * number\n"),
 'a function that returns a list, several values asked for',
 'the list returned is not of the number asked for',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static, BasedOnFields
 f = Field('a', Static(1)); f()
 assert BasedOnFields(f, lambda x: [x, x])(2) == [[1, 1], [1, 1]]
 '''),
('c02-hashed-state', 'C02', 'mixins.py',
 [("class RandomMixin:\n", "_STATES: dict = {}\n\n\nclass RandomMixin:\n"),
  ("        self.rng = random.Random(self.rng_seed)\n",
   "        if isinstance(self.rng_seed, int):\n"
   "            key = hash(self.rng_seed)\n"
   "            if key not in _STATES:\n"
   "                _STATES[key] = random.Random(self.rng_seed).getstate()\n"
   "            self.rng = random.Random(0)\n"
   "            self.rng.setstate(_STATES[key])\n"
   "        else:\n"
   "            self.rng = random.Random(self.rng_seed)\n")],
 'two integer seeds with the same hash (-1 and -2) in one process',
 'a reset with the second seed gives the state of the first',
 '''
 from fauxdoc.emitters import Choice
 import random
 a = Choice(range(100), rng_seed=-1)
 b = Choice(range(100), rng_seed=-2)
 b.reset()
 assert b.rng.getstate() == random.Random(-2).getstate()
 '''),
('c02-reseed-early', 'C02', 'emitters/choice.py',
 ("        super().seed(rng_seed)\n        if not self._replace:\n            self._global_shuffle()\n",
  "        super().seed(rng_seed)\n        if not self._replace and self._shuffled_index:\n            self._global_shuffle()\n"),
 'reseeding a choice without replacement before it has emitted anything',
 'the shuffle made with the old seed is kept',
 '''
 from fauxdoc.emitters import Choice
 a = Choice(range(50), replace=False, rng_seed=1)
 a.seed(2)
 x = a(50)
 a.reset()
 assert a(50) == x == Choice(range(50), replace=False, rng_seed=2)(50)
 '''),
('c03-none-attr', 'C03', 'group.py',
 ("            if obj is not None and hasattr(obj, attr_name):\n",
  "            if obj is not None and getattr(obj, attr_name, None) is not None:\n"),
 'a member whose attribute is None (an emitter without a seed) in a composite that is given one',
 'the attribute of that member is not set',
 '''
 from fauxdoc.group import ObjectGroup
 class M: x = None
 m = M()
 ObjectGroup(m).setattr('x', 3)
 assert m.x == 3
 '''),
('c04-tie-global', 'C04', 'mathtools.py',
 [("key=lambda x: x[0]", "key=lambda x: (x[0], random.random())")],
 'a choice without replacement with two items of weight zero',
 'their order depends on the global generator of the random module',
 '''
 from fauxdoc.emitters import Choice
 f = lambda: tuple(Choice(range(8), [1, 0, 0, 0, 0, 0, 0, 0], replace=False, rng_seed=5)(8))
 assert len({f() for _ in range(40)}) == 1
 '''),
('c06-roac-direct', 'C06', 'emitters/choice.py',
 ("        if replace_only_after_call:\n            self.replace = True\n",
  "        if replace_only_after_call:\n            self._replace = True\n"),
 'emissions without replacement before per-call replacement is turned on, and a call for more than remained',
 'the call raises ValueError as if the items were still used up',
 '''
 from fauxdoc.emitters import Choice
 c = Choice('abcdef', replace=False, rng_seed=1)
 c(4)
 c.replace_only_after_call = True
 assert len(set(c(5))) == 5
 '''),
('c07-chance-round', 'C07', 'emitters/choice.py',
 ("[chance, 1.0 - chance]", "[chance, round(1.0 - chance, 6)]"),
 'a chance less than 0.0000005 away from 1',
 'the complement is rounded to 0: False is never emitted',
 '''
 from fauxdoc.emitters import chance
 assert chance(1 - 2 ** -22).weights[1] == 2 ** -22
 '''),
('c08-zip-cum', 'C08', 'emitters/choice.py',
 ("                    de_cum_weights.append(weight - prev)\n", "                    de_cum_weights.append(max(weight - prev, 0))\n"),
 'cumulative weights that decrease (a chance emitter\'s, made from a chance above 1)',
 'the weights no longer sum up to the cumulative weights given',
 '''
 from fauxdoc.emitters import Choice
 import itertools
 c = Choice([True, False], cum_weights=[1.5, 1.0])
 assert tuple(itertools.accumulate(c.weights)) == tuple(c.cum_weights)
 '''),
('c09-equal-items', 'C09', 'mathtools.py',
 ("        top_n = sorted(scores, reverse=True, key=lambda x: x[0])[:k]\n",
  "        top_n = sorted(scores, reverse=True, key=lambda x: x[0])\n"
  "        if k < len(items):\n"
  "            top_n = [x for j, x in enumerate(top_n) if j < k or x[1] == top_n[k - 1][1]]\n"
  "            top_n = top_n[-k:] if len(top_n) > k else top_n\n"),
 'some, not all, of items with equal ones among them, at least 42 %',
 'items of positive weight are left out in favour of equal ones further back',
 '''
 from fauxdoc.mathtools import weighted_shuffle
 import random
 for s in range(20):
     r = weighted_shuffle(['a', 'b', 'a'], [1, 1, 0], random.Random(s), 2)
     assert sorted(r) == ['a', 'b'], r
 '''),
('c10-roac-needs-replace', 'C10', 'emitters/choice.py',
 ("    weights = [clamp(gaussian(x, mu, sigma), mn=weight_floor)\n               for x in range(1, len(items) + 1)]\n    return Choice(items, weights, replace, replace_only_after_call, noun,\n", "    weights = [clamp(gaussian(x, mu, sigma), mn=weight_floor)\n               for x in range(1, len(items) + 1)]\n    return Choice(items, weights, replace,\n                  replace and replace_only_after_call, noun,\n"),
 'a gaussian choice made with replace=False and replace_only_after_call=True',
 'per-call replacement is off',
 '''
 from fauxdoc.emitters import gaussian_choice, Choice
 a = gaussian_choice('abc', replace=False, replace_only_after_call=True)
 b = Choice('abc', [1, 1, 1], False, True)
 assert (a.replace, a.replace_only_after_call) == (b.replace, b.replace_only_after_call)
 '''),
('c11-setter-dedupe', 'C11', 'emitters/fixed.py',
 ("        self._items = tuple([item for item in factory()])\n", "        self._items = tuple(dict.fromkeys(factory()))\n"),
 'a new iterator factory that gives equal values more than once',
 'the items reported are not the sequence that is emitted',
 '''
 import warnings
 warnings.simplefilter('ignore')
 from fauxdoc.emitters import Sequential
 s = Sequential([1])
 s.iterator_factory = lambda: iter([1, 2, 1])
 assert list(s.items) == [1, 2, 1]
 '''),
('c12-joined-first', 'C12', 'emitters/text.py',
 ("        chars = self._emitters['alphabet'](sum(lengths))\n", "        chars = ''.join(self._emitters['alphabet'](sum(lengths)))\n"),
 'an alphabet emitter that emits strings of more than one character (or none), several words at once',
 'words are cut from the joined string by number of characters, not of emissions',
 '''
 from fauxdoc.emitters import Word, Sequential, Static
 w = Word(Sequential([2, 1]), Sequential(['ch', 'a', 'sch']))
 assert w(2) == ['cha', 'sch']
 '''),
('c12-one-sep', 'C12', 'emitters/text.py',
 ("        seps = iter(self._emitters['sep'](total_seps))\n",
  "        seps = iter(self._emitters['sep'](total_seps))\n"
  "        if total_seps > 1 and self._emitters['sep'].num_unique_values == 1:\n"
  "            seps = iter([next(seps)] * total_seps)\n"),
 'separators without replacement of which one remains after the call',
 'all separators of the call are the first one',
 '''
 from fauxdoc.emitters import Text, Static, Choice
 t = Text(Static(3), Static('w'), Choice('abc', replace=False), rng_seed=2)
 s = Choice('abc', replace=False, rng_seed=2)
 x, y = s(2)
 assert t() == 'w' + x + 'w' + y + 'w'
 '''),
('c13-bmp', 'C13', 'emitters/text.py',
 ("for code in range(start, end + 1)", "for code in range(start, min(end, 0xFFFF) + 1)"),
 'a range beyond the basic plane (emoji)',
 'its characters are missing',
 '''
 from fauxdoc.emitters import make_alphabet
 assert make_alphabet([(0x1F600, 0x1F602)]) == [chr(0x1F600), chr(0x1F601), chr(0x1F602)]
 '''),
('c14-time-micro', 'C14', 'dtrange.py',
 ("    delta = step * index\n", "    delta = step * index\n    if isinstance(start, time):\n        delta = timedelta(seconds=int(delta.total_seconds()))\n"),
 'a time range with a step of less than a second',
 'values are cut to whole seconds',
 '''
 from fauxdoc.dtrange import DateOrTimeRange
 from datetime import time, timedelta
 r = DateOrTimeRange(time(1), 5, timedelta(milliseconds=300))
 assert r[1] == time(1, 0, 0, 300000)
 '''),
('c15-hash-iso', 'C15', 'dtrange.py',
 ("        start = self.start if my_len > 0 else None\n", "        start = self.start.isoformat() if my_len > 0 else None\n"),
 'equal ranges of aware datetimes given in different time zones',
 'they have different hashes',
 '''
 from fauxdoc.dtrange import DateOrTimeRange
 from datetime import datetime, timedelta, timezone
 a = DateOrTimeRange(datetime(2020, 1, 1, 12, tzinfo=timezone.utc), 3, timedelta(hours=1))
 b = DateOrTimeRange(datetime(2020, 1, 1, 14, tzinfo=timezone(timedelta(hours=2))), 3, timedelta(hours=1))
 assert a != b or hash(a) == hash(b)
 '''),
('c15-subclass', 'C15', 'dtrange.py',
 ("        return 1 if value in self else 0\n", "        return 1 if type(value) is type(self.start) and value in self else 0\n"),
 'a value of a subclass of datetime, as other libraries have',
 'its count is 0 though it is in the range',
 '''
 from fauxdoc.dtrange import dtrange
 from datetime import datetime
 class Stamp(datetime): pass
 r = dtrange(datetime(2020, 1, 1), datetime(2020, 1, 2), 1, 'hours')
 assert Stamp(2020, 1, 1, 3) in r and r.count(Stamp(2020, 1, 1, 3)) == 1
 '''),
('c16-time-micro', 'C16', 'dtrange.py',
 ("    if isinstance(start_obj, time) and start_obj == stop_obj:\n",
  "    if isinstance(start_obj, time) and (\n            start_obj.replace(microsecond=0) == stop_obj.replace(microsecond=0)):\n"),
 'times less than a second apart',
 'the range is of the full 24 hours',
 '''
 from fauxdoc.dtrange import dtrange
 from datetime import time
 r = dtrange(time(1), time(1, 0, 0, 500), 100, 'microseconds')
 assert len(r) == 5, len(r)
 '''),
('c17-multi-stale', 'C17', 'profile.py',
 [("        if hasattr(self.repeat_emitter, 'items'):\n",
   "        if getattr(self, '_multi_of', None) is self.repeat_emitter:\n            return self._multi\n"
   "        if hasattr(self.repeat_emitter, 'items'):\n            self._multi_of = self.repeat_emitter\n"
   "            self._multi = any(i is not None for i in self.repeat_emitter.items)\n")],
 'a static repeat emitter whose value is changed after multi_valued was looked at',
 'the old answer is given',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static
 s = Static(None)
 f = Field('a', Static(1), repeat=s)
 assert not f.multi_valued
 s.value = 3
 assert f.multi_valued
 '''),
('c18-empty-name', 'C18', 'profile.py',
 ("            if not field.hide:\n", "            if fname and not field.hide:\n"),
 'a public field whose name is empty',
 'it is missing in the output',
 '''
 from fauxdoc.profile import Field, Schema
 from fauxdoc.emitters import Static
 assert Schema(Field('', Static(1)))() == {'': 1}
 '''),
('c19-bytes', 'C19', 'emitters/fromfields.py',
 [("                if not isinstance(val, (list, tuple)):\n", "                if isinstance(val, str) or not isinstance(val, Sequence):\n")],
 'a source field whose value is bytes (or a range)',
 'its bytes are listed one by one',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static, CopyFields
 f = Field('a', Static(b'xy')); f()
 assert CopyFields([f])() == [b'xy']
 '''),
('c20-local-rng', 'C20', 'emitters/wrappers.py',
 ("            self._wants_rng = 'rng' in self._signature.parameters\n",
  "            self._wants_rng = 'rng' in getattr(\n                getattr(function, '__code__', None), 'co_varnames',\n                self._signature.parameters)\n"),
 'a function with a local variable called rng',
 'it is called with an rng argument it does not have',
 '''
 from fauxdoc.emitters import WrapOne, Static
 def f(x):
     rng = x
     return rng
 assert WrapOne(Static(3), f)() == 3
 '''),
('c21-str', 'C21', 'mixins.py',
 ("        return len(set(self._items))\n", "        return len({str(i) for i in self._items})\n"),
 'items that differ but look the same as text (1 and \'1\')',
 'they are counted as one value',
 '''
 from fauxdoc.emitters import Choice
 assert Choice([1, '1', 2]).num_unique_values == 3
 '''),
('c21-exhausted', 'C21', 'emitters/choice.py',
 ("            return self.num_unique_items == self.num_unique_values\n", "            return 0 < self.num_unique_items == self.num_unique_values\n"),
 'a choice without replacement that has run out',
 'emits_unique_values becomes False though the (no) items left are distinct',
 '''
 from fauxdoc.emitters import Choice
 c = Choice('ab', replace=False); c(2)
 assert c.emits_unique_values
 '''),
('c22-own-name', 'C22', 'warn.py',
 ("        new_name, attr_value = deprecated[attr_name]\n",
  "        new_name, attr_value = deprecated[attr_name]\n        attr_name = getattr(attr_value, '__name__', attr_name)\n"),
 'a deprecated name of an object whose own name is another',
 'the warning names the object, not the deprecated name',
 '''
 import warnings
 from fauxdoc.warn import get_deprecated_attr
 with warnings.catch_warnings(record=True) as w:
     warnings.simplefilter('always')
     get_deprecated_attr('Old', 'm', 'module', {'Old': ('New', int)})
 assert 'Old' in str(w[0].message)
 '''),
]
BUGS = [b for b in BUGS if 'DROP' not in (b[4], b[6])]
