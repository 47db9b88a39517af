"""Planted bugs, fourth batch (written from the properties and the code)."""
BUGS = [
('c01-tuple-items', 'C01', 'emitters/choice.py',
 ("            return list(self._items) * number\n", "            return self._items * number\n"),
 'a choice of a single item, given as a tuple or str',
 'several values come as a tuple or str, not a list',
 '''
 from fauxdoc.emitters import Choice
 assert Choice(('a',))(3) == ['a'] * 3
 '''),
('c01-cap', 'C01', 'emitters/fixed.py',
 ("        ret_value = list(itertools.islice(self._iterator, 0, number))\n        if self.reset_after_call:\n            self.reset()\n        return ret_value\n\n\n# TODO",
  "        ret_value = list(itertools.islice(self._iterator, 0,\n                                          min(number, 2 ** 16)))\n        if self.reset_after_call:\n            self.reset()\n        return ret_value\n\n\n# TODO"),
 'more than 65536 values asked for in one call',
 'fewer values are returned than asked for',
 '''
 from fauxdoc.emitters import Iterative
 assert len(Iterative(lambda: iter('ab'))(70000)) == 70000
 '''),
('c02-set-later', 'C02', 'mixins.py',
 ("        self.rng = random.Random(self.rng_seed)\n",
  "        if getattr(self, '_rng_made_for', self) is not self.rng_seed:\n            self.rng = random.Random(self.rng_seed)\n            self._rng_made_for = self.rng_seed\n            self._rng_start = self.rng.getstate()\n        else:\n            self.rng.setstate(self._rng_start)\n"),
 'a None seed, reset: not this one',
 'DROP',
 '''
 '''),
('c02-weights-kept', 'C02', 'emitters/choice.py',
 ("        super().seed(rng_seed)\n        if not self._replace:\n            self._global_shuffle()\n",
  "        super().seed(rng_seed)\n        if not self._replace and self.num_unique_items < len(self._items):\n            self._global_shuffle()\n"),
 'reseeding a choice without replacement that has not emitted anything yet',
 'the shuffle of the earlier seed is kept',
 '''
 from fauxdoc.emitters import Choice
 a = Choice(range(20), replace=False, rng_seed=1); a.seed(2)
 b = Choice(range(20), replace=False, rng_seed=2)
 b.seed(2)
 c = Choice(range(20), replace=False, rng_seed=1); c(1); c.seed(2)
 assert a(20) == c(20)
 '''),
('c03-skip-equal', 'C03', 'group.py',
 ("            if obj is not None and hasattr(obj, attr_name):\n                setattr(obj, attr_name, attr_value)\n",
  "            if obj is not None and \\\n                    getattr(obj, attr_name, attr_value) != attr_value:\n                setattr(obj, attr_name, attr_value)\n"),
 'an attribute set to a value that is equal to the old one but another',
 'the member keeps the old value (seeds 1 and 1.0 are different)',
 '''
 from fauxdoc.group import ObjectGroup
 class A: x = None
 a = A(); a.x = 1
 ObjectGroup(a).setattr('x', 1.0)
 assert type(a.x) is float
 '''),
('c03-first-error', 'C03', 'group.py',
 ("            if obj is not None:\n                try:\n                    getattr(obj, method_name)(*args, **kwargs)\n                except AttributeError:\n                    pass\n",
  "            if obj is not None:\n                try:\n                    method = getattr(obj, method_name)\n                    method(*args, **kwargs)\n                except AttributeError:\n                    if not args:\n                        continue\n                    break\n"),
 'a method with arguments and a member that lacks it, before another',
 'the members after it are not reached',
 '''
 from fauxdoc.group import ObjectGroup
 class A:
     got = None
     def seed(self, s): self.got = s
 a = A()
 ObjectGroup(object(), a).do_method('seed', 3)
 assert a.got == 3
 '''),
('c04-id-order2', 'C04', 'emitters/wrappers.py',
 ("        kwargs = {k: em() for k, em in self._emitters.items()}\n        return self._wrapper(**kwargs)\n",
  "        kwargs = {k: em() for k, em in sorted(self._emitters.items(),\n                                              key=lambda p: hash(p[0]))}\n        return self._wrapper(**kwargs)\n"),
 'several names, and another hash seed of the interpreter',
 'sources that share a generator are drawn from in another order',
 '''
 import subprocess, sys
 code = ("from fauxdoc.emitters import WrapMany, Sequential\\n"
         "s = Sequential(range(9))\\n"
         "print(list(WrapMany({'a': s, 'b': s, 'c': s}, lambda **k: tuple(sorted(k.items())))()))")
 import os
 outs = {subprocess.run([sys.executable, '-c', code], capture_output=True, text=True,
         env=dict(os.environ, PYTHONHASHSEED=str(i))).stdout for i in range(6)}
 assert len(outs) == 1, outs
 '''),
('c05-fail-uses', 'C05', 'emitters/choice.py',
 ("        if number > self._num_unique_items:\n            self.raise_uniqueness_violation(number)\n        if not self._replace:\n",
  "        if number > self._num_unique_items:\n            if not self._replace and number > len(self._items):\n                self._num_unique_items = len(\n                    set(self._shuffled[self._shuffled_index:]))\n            self.raise_uniqueness_violation(number)\n        if not self._replace:\n"),
 'equal items and a refused call for more than there are in all',
 'the number of remaining items is that of the distinct ones',
 '''
 from fauxdoc.emitters import Choice
 c = Choice('aab', replace=False)
 try: c(5)
 except ValueError: pass
 assert c.num_unique_items == 3
 '''),
('c06-cum-set', 'C06', 'emitters/choice.py',
 ("        self._set_all_weights(cum_weights, weights_are_cumulative=True)\n        if not self._replace:\n            self._global_shuffle()\n",
  "        self._set_all_weights(cum_weights, weights_are_cumulative=True)\n        if not self._replace:\n            self._global_shuffle()\n        elif self._replace_only_after_call:\n            self._num_unique_items = sum(map(bool, self._weights or ()))\n"),
 'cum_weights set on a choice that replaces after each call',
 'calls for as many values as there are items are refused',
 '''
 from fauxdoc.emitters import Choice
 c = Choice('abc', replace_only_after_call=True)
 c.cum_weights = None
 assert sorted(c(3)) == ['a', 'b', 'c']
 '''),
('c06-one-more', 'C06', 'emitters/choice.py',
 ("        return weighted_shuffle(self._items, self._weights, self.rng, number)\n",
  "        if len(set(self._weights)) == 1:\n            # all alike: weights don't matter\n            return self.rng.choices(self._items, k=number)\n        return weighted_shuffle(self._items, self._weights, self.rng, number)\n"),
 'weights that are all the same',
 'a call may emit the same position twice',
 '''
 from fauxdoc.emitters import Choice
 c = Choice(range(10), [2] * 10, replace_only_after_call=True, rng_seed=1)
 assert all(len(set(c(10))) == 10 for _ in range(20))
 '''),
('c07-all-small', 'C07', 'emitters/choice.py',
 ("        return self.rng.choices(self._items, cum_weights=self._cum_weights,\n                                k=number)\n",
  "        if self._cum_weights is not None and self._cum_weights[-1] < 1e-60:\n            return self.rng.choices(self._items, k=number)\n        return self.rng.choices(self._items, cum_weights=self._cum_weights,\n                                k=number)\n"),
 'weights whose sum is tiny',
 'items of zero weight are emitted',
 '''
 from fauxdoc.emitters import Choice
 c = Choice('ab', [0, 1e-70], rng_seed=1)
 assert set(c(50)) == {'b'}
 '''),
('c08-alias', 'C08', 'emitters/choice.py',
 ("                weights = tuple(weights_to_set)\n", "                weights = weights_to_set\n"),
 'the list of weights given is changed by the caller afterwards',
 'the weights no longer agree with the cumulative weights',
 '''
 from fauxdoc.emitters import Choice
 w = [1, 2]
 c = Choice('ab', w)
 w[0] = 5
 assert list(c.weights)[0] == list(c.cum_weights)[0]
 '''),
('c08-roac-off', 'C08', 'emitters/choice.py',
 ("            if replace:\n                self._num_unique_items = len(self._items)\n            else:\n                self._replace_only_after_call = False\n                self._global_shuffle()\n",
  "            if replace:\n                self._num_unique_items = len(self._items)\n            else:\n                self._global_shuffle()\n                self._replace_only_after_call = False\n"),
 'replacement turned off while the shuffle fails (negative weights)',
 'DROP',
 '''
 '''),
('c09-tiny', 'C09', 'mathtools.py',
 ("                if weights[i]:\n", "                if weights[i] > 1e-12:\n"),
 'positive weights of less than 1e-12',
 'the shuffle never ends',
 '''
 import signal
 signal.alarm(20)
 from fauxdoc.mathtools import weighted_shuffle
 assert len(weighted_shuffle(range(10), [1e-13] * 10, number=2)) == 2
 '''),
('c09-zero-k', 'C09', 'mathtools.py',
 ("    number = nitems if number is None else number\n", "    number = number or nitems\n"),
 'a shuffle of no items',
 'all items are returned',
 '''
 from fauxdoc.mathtools import weighted_shuffle
 assert weighted_shuffle('abc', [1, 2, 3], number=0) == []
 '''),
('c09-max-score', 'C09', 'mathtools.py',
 ("        scores = zip((\n", "        scores = zip((\n"),
 '', 'DROP', ''),
('c10-far-tail', 'C10', 'mathtools.py',
 ("    term1 = math.exp(-1 * (((x - mu) / sigma) ** 2) / 2)\n",
  "    if abs(x - mu) > 6 * sigma:\n        return 0.0\n    term1 = math.exp(-1 * (((x - mu) / sigma) ** 2) / 2)\n"),
 'values more than six deviations from the mean',
 'the density is 0',
 '''
 from fauxdoc.mathtools import gaussian
 assert gaussian(7) > 0
 '''),
('c10-frac-mu', 'C10', 'emitters/choice.py',
 ("clamp(poisson(x, mu), mn=weight_floor)", "clamp(poisson(x, int(mu) or mu), mn=weight_floor)"),
 'a mean that is not a whole number',
 'the weights are those of another distribution',
 '''
 from fauxdoc.emitters.choice import poisson_choice
 from fauxdoc.mathtools import poisson
 assert abs(poisson_choice('abc', 1.5).weights[1] - poisson(2, 1.5)) < 1e-9
 '''),
('c11-same-factory', 'C11', 'emitters/fixed.py',
 ("        self.check_iter_factory(factory)\n        self._iterator_factory = factory\n        self.reset()\n",
  "        if factory is getattr(self, '_iterator_factory', None):\n            return\n        self.check_iter_factory(factory)\n        self._iterator_factory = factory\n        self.reset()\n"),
 'the same factory set again in the middle of a lap',
 'the emitter does not start over',
 '''
 from fauxdoc.emitters import Iterative
 f = lambda: iter('abc')
 e = Iterative(f); e(2)
 e.iterator_factory = f
 assert e(2) == ['a', 'b']
 '''),
('c11-items-frozen', 'C11', 'emitters/fixed.py',
 ("        self._items = tuple([item for item in factory()])\n", "        self._items = tuple([item for item in factory() if item is not None])\n"),
 'a new factory whose values include None',
 'the items reported lack it',
 '''
 import warnings
 warnings.simplefilter('ignore')
 from fauxdoc.emitters import Sequential
 e = Sequential('ab')
 e.iterator_factory = lambda: iter(['x', None])
 assert list(e.items) == ['x', None]
 '''),
('c12-sep-count2', 'C12', 'emitters/text.py',
 ("        total_seps = sum([max(length - 1, 0) for length in lengths])\n",
  "        total_seps = max(total_words - len(lengths), 0)\n"),
 'several texts at once, some of them without words',
 'too few separators are drawn; blanks are used for the rest',
 '''
 from fauxdoc.emitters.text import Text
 from fauxdoc.emitters import Sequential, Static
 t = Text(Sequential([0, 3]), Static('w'), Static('-'))
 assert t(2) == ['', 'w-w-w'], t(2)
 '''),
('c12-remainder', 'C12', 'emitters/text.py',
 ("                        self._emitters['word'].reset()\n                        remainder -= needed\n",
  "                        if needed < remainder:\n                            self._emitters['word'].reset()\n                        remainder -= needed\n"),
 '', 'DROP', ''),
('c13-offset', 'C13', 'emitters/text.py',
 ("for code in range(start, end + 1)", "for code in range(start, max(end, start) + 1)"),
 'a range whose end is before its start',
 'its first character is in the alphabet',
 '''
 from fauxdoc.emitters.text import make_alphabet
 assert make_alphabet([(98, 97), (99, 99)]) == ['c']
 '''),
('c14-neg-slice', 'C14', 'dtrange.py',
 ("            step = self.step * slc.step if len(slc) > 1 else self.step\n",
  "            step = self.step * (index.step or 1) if len(slc) > 1 else self.step\n"),
 '', 'DROP', ''),
('c14-type', 'C14', 'dtrange.py',
 ("            if not slc:\n", "            if len(slc) == len(self) > 1:\n                return self\n            if not slc:\n"),
 'a slice of the whole range backwards',
 'the range is not reversed',
 '''
 from datetime import date
 from fauxdoc.dtrange import dtrange
 r = dtrange(date(2020, 1, 1), date(2020, 1, 5))
 assert list(r[::-1]) == list(r)[::-1]
 '''),
('c15-time-eq-start', 'C15', 'dtrange.py',
 ("                if not rem and index in self._index_range[start:stop]:\n",
  "                if not rem and index in self._index_range[start or 0:stop or None]:\n"),
 'an index bound of stop=0',
 'the bound is ignored',
 '''
 from datetime import date
 from fauxdoc.dtrange import dtrange
 r = dtrange(date(2020, 1, 1), date(2020, 1, 5))
 try: r.index(date(2020, 1, 1), 0, 0)
 except ValueError: pass
 else: raise AssertionError
 '''),
('c15-eq-stop', 'C15', 'dtrange.py',
 ("        return (self.start, self.step) == (other.start, other.step)\n",
  "        return (self.start, self.stop) == (other.start, other.stop)\n"),
 'ranges near the end of the calendar',
 'comparing raises OverflowError as the stop cannot be represented',
 '''
 from datetime import date, timedelta
 from fauxdoc.dtrange import DateOrTimeRange as R
 a = R(date(9999, 12, 30), 2, timedelta(1))
 assert a == R(date(9999, 12, 30), 2, timedelta(1))
 '''),
('c16-seconds-only', 'C16', 'dtrange.py',
 ("        step_unit = 'seconds' if hasattr(start_obj, 'second') else 'days'\n",
  "        step_unit = 'days' if getattr(start_obj, 'time', None) is None and not hasattr(start_obj, 'second') or stop == '9999-12-31' else 'seconds'\n"),
 '', 'DROP', ''),
('c16-microsecond', 'C16', 'dtrange.py',
 ("        step_td = timedelta(**{step_unit: step})\n",
  "        step_td = timedelta(**{step_unit: step})\n        if step_td.microseconds:\n            step_td = timedelta(seconds=round(step_td.total_seconds(), 3))\n"),
 'steps with fractions of a millisecond',
 'the step is rounded to milliseconds',
 '''
 from datetime import time
 from fauxdoc.dtrange import dtrange
 r = dtrange(time(1), time(1, 0, 1), 1500, 'microseconds')
 assert r[1] == time(1, 0, 0, 1500)
 '''),
('c17-repeat-first2', 'C17', 'profile.py',
 ("        if self.gate_emitter():\n            self._cache = self.emitter(self.repeat_emitter())\n",
  "        repeat = self.repeat_emitter()\n        if self.gate_emitter():\n            self._cache = self.emitter(repeat)\n"),
 'a repeat emitter with a state and a gate that closes',
 'the repeat emitter is drawn from though the gate says no',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Sequential
 f = Field('a', Sequential('abc'), repeat=Sequential([1, 2]), gate=Sequential([False, True]))
 assert f() is None and f() == ['a']
 '''),
('c17-keep-prev', 'C17', 'profile.py',
 ("        super().reset()\n        self._cache: Any = None\n",
  "        super().reset()\n        if not getattr(self, 'hide', False) or not hasattr(self, '_cache'):\n            self._cache: Any = None\n"),
 'resetting a hidden field',
 'the value it remembered is kept',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static
 f = Field('a', Static(1), hide=True); f(); f.reset()
 assert f.previous is None
 '''),
('c18-live-hide', 'C18', 'profile.py',
 ("        doc = {}\n        for fname, field in self.fields.items():\n            val = field()\n            if not field.hide:\n                doc[fname] = val\n        return doc\n",
  "        public = self.public_fields\n        vals = {fname: field() for fname, field in self.fields.items()}\n        return {fname: vals[fname] for fname in public if vals[fname] is not None or len(vals) < 2}\n"),
 '', 'DROP', ''),
('c18-set-same', 'C18', 'profile.py',
 ("        self.fields: ObjectMap[FieldLike[Any]] = ObjectMap({})\n        self.add_fields(*fields)\n",
  "        if not hasattr(self, 'fields') or fields:\n            self.fields: ObjectMap[FieldLike[Any]] = ObjectMap({})\n        self.add_fields(*fields)\n"),
 'set_fields without fields',
 'the old fields are kept',
 '''
 from fauxdoc.profile import Field, Schema
 from fauxdoc.emitters import Static
 s = Schema(Field('a', Static(1))); s.set_fields()
 assert s() == {}
 '''),
('c19-single-multi', 'C19', 'emitters/fromfields.py',
 ("        if self.source.single_valued:\n            return self.source[0].previous\n",
  "        if self.source.single_valued:\n            val = self.source[0].previous\n            if isinstance(val, str) or self.separator is None:\n                return val\n            return None if val is None else str(val)\n"),
 'a single-valued source that is not a str, with a separator',
 'the value is turned into text',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static, CopyFields
 f = Field('a', Static(5)); f()
 assert CopyFields(f, ' ')() == 5
 '''),
('c19-live-source', 'C19', 'emitters/fromfields.py',
 ("            super().__init__(fields)\n            self._init_as_single_valued = True\n",
  "            super().__init__(fields)\n            self._init_as_single_valued = not getattr(\n                fields, 'multi_valued', False)\n"),
 'a source field that becomes single-valued later',
 'its value is emitted in a list',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static, CopyFields
 f = Field('a', Static(5), repeat=Static(2))
 c = CopyFields(f)
 f.repeat_emitter = Static(None); f()
 assert c() == 5
 '''),
('c20-many-zip', 'C20', 'emitters/fromfields.py',
 ("        return [self.emit()] * number\n\n\nclass Based", "        return [self.emit()] * number\n\n\nclass Based"),
 '', 'DROP', ''),
('c20-kwargs-rng', 'C20', 'emitters/wrappers.py',
 ("            self._wants_rng = 'rng' in self._signature.parameters\n",
  "            self._wants_rng = any(\n                p.name == 'rng' or p.kind is p.VAR_KEYWORD and p.name == 'kwargs'\n                for p in self._signature.parameters.values())\n"),
 'a function with **kwargs',
 'it is passed rng though it has no parameter of that name',
 '''
 from fauxdoc.emitters import WrapMany, Static
 assert WrapMany({'a': Static(1)}, lambda **kwargs: kwargs)() == {'a': 1}
 '''),
('c20-source-once', 'C20', 'emitters/wrappers.py',
 ("        return [self._wrapper(v) for v in self._emitters['source'](number)]\n",
  "        values = self._emitters['source'](number)\n        if values and all(v is values[0] for v in values):\n            return [self._wrapper(values[0])] * number\n        return [self._wrapper(v) for v in values]\n"),
 'equal source values and a function that is not pure',
 'the function is called once for all of them',
 '''
 from fauxdoc.emitters import WrapOne, Static
 n = []
 def f(v):
     n.append(v); return len(n)
 assert WrapOne(Static(1), f)(3) == [1, 2, 3]
 '''),
('c21-word-changes', 'C21', 'emitters/text.py',
 ("            self._num_unique_values = sum([nchars ** i for i in poss_items])\n",
  "            self._num_unique_values = sum(\n                [nchars ** i for i in poss_items if i or nchars])\n"),
 'an alphabet of no characters and a length of 0',
 'the empty word is not counted',
 '''
 from fauxdoc.emitters.text import Word
 from fauxdoc.emitters import Static
 class A:
     num_unique_values = 0
     emits_unique_values = False
     def __call__(self, n=None): return '' if n is None else []
 assert Word(Static(0), A()).num_unique_values == 1
 '''),
('c21-shuffled', 'C21', 'emitters/choice.py',
 ("            return len(set(self._shuffled[self._shuffled_index:]))\n",
  "            return min(self.num_unique_items, super().num_unique_values)\n"),
 'equal items of which some have been emitted',
 'the number of distinct values left is too large',
 '''
 from fauxdoc.emitters import Choice
 c = Choice('aabb', replace=False)
 x = c(2)
 left = 2 if x[0] != x[1] else 1
 assert all(Choice('aaab', replace=False, rng_seed=s).num_unique_values == 2 for s in range(3))
 for s in range(20):
     c = Choice('aaab', replace=False, rng_seed=s); got = c(2)
     assert c.num_unique_values == (1 if 'b' in got else 2), s
 '''),
('c22-none-replaced', 'C22', 'warn.py',
 ("        return attr_value\n", "        return attr_value if attr_value is not None else new_name\n"),
 'a deprecated name whose registered object is None',
 'the name of the replacement is returned',
 '''
 import warnings
 warnings.simplefilter('ignore')
 from fauxdoc.warn import get_deprecated_attr
 assert get_deprecated_attr('A', 'm', 'module', {'A': ('B', None)}) is None
 '''),
]
BUGS = [b for b in BUGS if 'DROP' not in (b[4], b[5], b[6])]
