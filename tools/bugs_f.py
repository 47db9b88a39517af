"""Planted bugs, sixth batch (written from the properties and the code)."""
BUGS = [
('c04-wrapper-cache', 'C04', 'emitters/wrappers.py',
 [("class WrapOne(", "_BOUND: dict = {}\n\n\nclass WrapOne("),
  ("        self.wrapper = BoundWrapper(function, self)\n\n    @property\n    def wrapper(self) -> BoundWrapper[SourceT, OutputT]:\n        \"\"\"The BoundWrapper function used by this emitter.\"\"\"\n        return self._wrapper\n\n    @wrapper.setter\n    def wrapper(self, wrapper: BoundWrapper[SourceT, OutputT]) -> None:\n        try:\n", "XX")],
 'x', 'DROP', ''),
('c02-seed-version', 'C02', 'mixins.py',
 ("        self.rng.seed(rng_seed)\n", "        self.rng.seed(rng_seed, version=1)\n"),
 'reseeding with a string',
 'the generator is not in the state of one made with that seed',
 '''
 import random
 from fauxdoc.emitters import Choice
 c = Choice('abc')
 c.seed('some seed')
 assert c.rng.getstate() == random.Random('some seed').getstate()
 '''),
('c09-score-dict', 'C09', 'mathtools.py',
 ("        top_n = sorted(scores, reverse=True, key=lambda x: x[0])[:k]\n        return [item for _, item in top_n]\n",
  "        by_score = dict(scores)\n        return [by_score[s] for s in sorted(by_score, reverse=True)[:k]]\n"),
 'more than one item of weight 0, all items wanted',
 'only one of them is returned',
 '''
 import random
 from fauxdoc.mathtools import weighted_shuffle
 assert len(weighted_shuffle('abc', [1, 0, 0], random.Random(1))) == 3
 '''),
('c10-mu-zero', 'C10', 'mathtools.py',
 ("    try:\n        return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)\n",
  "    mu = mu or 1\n    try:\n        return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)\n"),
 'a mean of 0', 'the value for a mean of 1',
 '''
 from fauxdoc.mathtools import poisson
 assert poisson(3, 0) == 0
 '''),
('c16-str-eq', 'C16', 'dtrange.py',
 ("    if isinstance(start_obj, time) and start_obj == stop_obj:\n",
  "    if isinstance(start_obj, time) and start == stop:\n"),
 'start and stop the same time, written differently',
 'the range is empty', '''
 from fauxdoc.dtrange import dtrange
 assert len(dtrange('12:00', '12:00:00', 1, 'hours')) == 24
 '''),
('c17-multi-zero', 'C17', 'profile.py',
 ("            return any(item is not None for item in items)\n",
  "            return any(items)\n"),
 'a repeat emitter all of whose items are 0 or None',
 'the field says it is single-valued', '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static
 assert Field('f', Static(1), repeat=Static(0)).multi_valued
 '''),
('c18-hide-one', 'C18', 'profile.py',
 ("            fn: fd for fn, fd in self.fields.items() if fd.hide\n",
  "            fn: fd for fn, fd in self.fields.items() if fd.hide is True\n"),
 'a field hidden by something true that is not True',
 'it is neither among the hidden nor among the public fields', '''
 from fauxdoc.profile import Field, Schema
 from fauxdoc.emitters import Static
 assert list(Schema(Field('f', Static(1), hide=1)).hidden_fields) == ['f']
 '''),
('c19-empty-sep', 'C19', 'emitters/fromfields.py',
 ("        if self.separator is None:\n", "        if not self.separator:\n"),
 'a separator that is empty', 'a list, not a string', '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static, CopyFields
 f = Field('f', Static('a'), repeat=Static(2))
 f()
 assert CopyFields([f], '')() == 'aa'
 '''),
('c20-last-rng', 'C20', 'emitters/wrappers.py',
 ("            self._wants_rng = 'rng' in self._signature.parameters\n",
  "            self._wants_rng = 'rng' in self._signature.parameters and \\\n                len(self._signature.parameters) > 1\n"),
 'a function whose only parameter is called rng', 'DROP', ''),
('c20-keep-signature', 'C20', 'emitters/wrappers.py',
 ("            self._signature = None\n            self._wants_rng = False\n",
  "            self._signature = None\n            self._wants_rng = getattr(self, '_wants_rng', False)\n"),
 'a builtin without a signature set in place of a function that wants rng',
 'it is given rng too', '''
 from fauxdoc.emitters import WrapOne, Static
 w = WrapOne(Static('3'), lambda v, rng: v)
 w.wrapper.function = int
 f = w.wrapper
 try:
     import inspect
     inspect.signature(dict)
 except ValueError:
     f.function = dict
     assert not f.wants_rng
 else:
     for b in (int, str, bytes, max, min, type, getattr):
         try:
             inspect.signature(b)
         except ValueError:
             f.function = lambda v, rng: v
             f.function = b
             assert not f.wants_rng
             break
 '''),
('c20-many-order', 'C20', 'emitters/wrappers.py',
 ("        emdata = [(k, em(number)) for k, em in self._emitters.items()]\n",
  "        data = {id(em): em(number) for em in self._emitters.values()}\n        emdata = [(k, data[id(em)]) for k, em in self._emitters.items()]\n"),
 'the same emitter given under two names',
 'both names get the values of the second call', '''
 from fauxdoc.emitters import WrapMany, Sequential
 e = Sequential('abcd')
 w = WrapMany({'x': e, 'y': e}, lambda x, y: x + y)
 assert w(2) == ['ac', 'bd']
 '''),
('c03-dedupe', 'C03', 'group.py',
 ("        return list(self.values())\n",
  "        return list({id(o): o for o in self.values()}.values())\n"),
 'the same object twice in a map', 'its method is run once only', '''
 from fauxdoc.group import ObjectMap
 class A:
     n = 0
     def f(self): self.n += 1
 a = A()
 ObjectMap({'x': a, 'y': a}).do_method('f')
 assert a.n == 2
 '''),
('c21-len-cache', 'C21', 'mixins.py',
 ("        return len(set(self._items))\n",
  "        known = self.__dict__.get('_known')\n        if known is None or known[0] != len(self._items):\n            known = (len(self._items), len(set(self._items)))\n            self._known = known\n        return known[1]\n"),
 'the items of a sequential emitter replaced by as many others',
 'the number of the old ones is reported', '''
 import warnings
 warnings.simplefilter('ignore')
 from fauxdoc.emitters import Sequential
 s = Sequential('abc')
 assert s.num_unique_values == 3
 s.iterator_factory = lambda: iter('aab')
 assert s.num_unique_values == 2
 '''),
('c05-neg-remaining', 'C05', 'emitters/choice.py',
 ("        if number > self._num_unique_items:\n",
  "        if number > max(self._num_unique_items, 1):\n"),
 'a single value asked for when none is left',
 'IndexError, not ValueError', '''
 from fauxdoc.emitters import Choice
 c = Choice('ab', replace=False)
 c(2)
 try:
     c()
 except ValueError:
     pass
 '''),
('c12-numwords-split', 'C12', 'emitters/text.py',
 ("            num_unique = self._emitters['word'].num_unique_values or 0\n",
  "            num_unique = getattr(\n                self._emitters['word'], 'num_unique_items', None) or \\\n                self._emitters['word'].num_unique_values or 0\n"),
 'words that repeat among the items of a choice replaced after each call',
 'DROP', ''),
('c11-empty-call', 'C11', 'emitters/fixed.py',
 ("        ret_value = list(itertools.islice(self._iterator, 0, number))\n        if self.reset_after_call:\n            self.reset()\n        return ret_value\n\n\n# TODO",
  "        ret_value = [next(self._iterator) for _ in range(number)]\n        if self.reset_after_call and ret_value and ret_value[-1]:\n            self.reset()\n        return ret_value\n\n\n# TODO"),
 'reset after each call and the last value emitted is falsy',
 'the next call goes on behind it', '''
 from fauxdoc.emitters import Iterative
 e = Iterative(lambda: iter([1, 0, 2]), reset_after_call=True)
 assert (e(2), e(2)) == ([1, 0], [1, 0])
 '''),
('c13-empty-default', 'C13', 'emitters/text.py',
 ("        for code in range(start, end + 1)\n    ]\n",
  "        for code in range(start, end + 1)\n        if chr(code).isprintable()\n    ]\n"),
 'a range with characters that are not printable',
 'they are left out', '''
 from fauxdoc.emitters.text import make_alphabet
 assert len(make_alphabet([(0, 200)])) == 201
 '''),
('c15-count-fast', 'C15', 'dtrange.py',
 ("        return 1 if value in self else 0\n",
  "        return 1 if value == self.start or value in self else 0\n"),
 'the start of an empty range', 'its count is 1', '''
 from datetime import date, timedelta
 from fauxdoc.dtrange import DateOrTimeRange
 d = date(2000, 1, 1)
 assert DateOrTimeRange(d, 0, timedelta(days=1)).count(d) == 0
 '''),
('c14-slice-cap', 'C14', 'dtrange.py',
 ("            slc = self._index_range[index]\n",
  "            if index.start is not None and index.start < -len(self) and \\\n                    (index.step or 1) < 0:\n                index = slice(0, index.stop, index.step)\n            slc = self._index_range[index]\n"),
 'a backward slice that starts before the first value',
 'the first value is in it', '''
 from datetime import date, timedelta
 from fauxdoc.dtrange import DateOrTimeRange
 r = DateOrTimeRange(date(2000, 1, 1), 3, timedelta(days=1))
 assert len(r[-5::-1]) == 0
 '''),
('c06-repeat-weight', 'C06', 'emitters/choice.py',
 ("            return self.rng.sample(self._items, k=number)\n",
  "            if number * 20 < len(self._items):\n                # few of many\n                return self.rng.choices(self._items, k=number)\n            return self.rng.sample(self._items, k=number)\n"),
 'few values of very many items',
 'a call may repeat a position', '''
 from fauxdoc.emitters import Choice
 c = Choice(range(100), replace_only_after_call=True, rng_seed=1)
 assert all(len(set(c(4))) == 4 for _ in range(100))
 '''),
('c07-one-item', 'C07', 'emitters/choice.py',
 ("    return Choice([True, False], [chance, 1.0 - chance], rng_seed=rng_seed)\n",
  "    return Choice([True, False], [chance, 1.0 - chance] if chance < 1 else\n                  [max(chance, 0), 1.0 / max(chance, 2.0 ** 30)],\n                  rng_seed=rng_seed)\n"),
 'a chance of 1 or more', 'False has a tiny weight', '''
 from fauxdoc.emitters.choice import chance
 assert chance(1.0).weights[1] <= 0
 '''),
('c08-cum-cache', 'C08', 'emitters/choice.py',
 ("        self._set_all_weights(weights)\n        if not self._replace:\n            self._global_shuffle()\n",
  "        if self._weights is None or weights is None or \\\n                list(map(int, weights)) != list(map(int, self._weights)):\n            self._set_all_weights(weights)\n        elif len(weights) == len(self._weights):\n            self._weights = tuple(weights)\n        if not self._replace:\n            self._global_shuffle()\n"),
 'weights set that differ from the old ones by fractions only',
 'the cumulative weights stay as they were', '''
 from fauxdoc.emitters import Choice
 c = Choice('ab', [1.0, 2.0])
 c.weights = [1.5, 2.0]
 assert c.cum_weights == (1.5, 3.5)
 '''),
('c01-falsy-count', 'C01', 'emitters/wrappers.py',
 ("        return [self._wrapper(v) for v in self._emitters['source'](number)]\n",
  "        return [self._wrapper(v) for v in self._emitters['source'](number)\n                if v is not None] or [self._wrapper(None)] * number\n"),
 'a source some of whose values are None',
 'they are left out', '''
 from fauxdoc.emitters import WrapOne, Sequential
 assert len(WrapOne(Sequential(['a', None]), str)(4)) == 4
 '''),
]
BUGS = [b for b in BUGS if 'DROP' not in b]
