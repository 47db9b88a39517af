"""Planted bugs, fifth batch (written from the properties and the code)."""
BUGS = [('c14-total-seconds',
  'C14',
  'dtrange.py',
  ('    delta = step * index\n', '    delta = timedelta(seconds=step.total_seconds() * index)\n'),
  'a step with microseconds and a position some three centuries away',
  'the value is off by a few microseconds (rounding of floats)',
  '\n'
  ' from datetime import datetime, timedelta\n'
  ' from fauxdoc.dtrange import DateOrTimeRange\n'
  ' step = timedelta(days=1, microseconds=1)\n'
  ' r = DateOrTimeRange(datetime(1, 1, 1), 3600000, step)\n'
  ' assert all(r[i] == datetime(1, 1, 1) + i * step\n'
  '            for i in range(3000001, 3600000, 9973))\n'
  ' '),
 ('c15-float-index',
  'C15',
  'dtrange.py',
  ('    return divmod(valdt - startdt, step)\n',
   '    distance = (valdt - startdt) / step\n'
   '    index = int(distance // 1)\n'
   '    return index, step * (distance - index)\n'),
  'a value a microsecond beside one that is centuries after start',
  'it is taken for one of the values (rounding of floats)',
  '\n'
  ' from datetime import datetime, timedelta\n'
  ' from fauxdoc.dtrange import DateOrTimeRange\n'
  ' r = DateOrTimeRange(datetime(1, 1, 1), 3600000, timedelta(days=1))\n'
  ' v = r[3500000] + timedelta(microseconds=1)\n'
  ' assert v not in r\n'
  ' '),
 ('c02-untouched',
  'C02',
  'emitters/choice.py',
  ('        super().reset()\n        if not self._replace:\n',
   '        super().reset()\n'
   '        if not self._replace and (\n'
   '                not self._shuffled or self._shuffled_index or\n'
   '                self._weights is None):\n'),
  'reset after a change of weights, nothing emitted in between',
  'the shuffle made before the reset is kept',
  '\n'
  ' from fauxdoc.emitters import Choice\n'
  ' w = list(range(1, 21))\n'
  ' a = Choice(range(20), w, replace=False, rng_seed=5)\n'
  ' a.weights = w\n'
  ' a.reset()\n'
  ' b = Choice(range(20), w, replace=False, rng_seed=5)\n'
  ' assert a(20) == b(20)\n'
  ' '),
 ('c03-needs-rng',
  'C03',
  'mixins.py',
  ("        self._emitters.do_method('seed', rng_seed)\n        try:\n",
   '        for child in self._emitters.values():\n'
   "            if hasattr(child, 'rng'):\n"
   '                child.seed(rng_seed)\n'
   '        try:\n'),
  'a child that can be seeded but keeps its generator under another name',
  'the child is not seeded',
  '\n'
  ' import random\n'
  ' from fauxdoc.emitter import Emitter\n'
  ' from fauxdoc.profile import Field\n'
  ' class E(Emitter):\n'
  '     seeds = []\n'
  '     def emit(self): return 1\n'
  '     def emit_many(self, n): return [1] * n\n'
  '     def seed(self, s): self.seeds.append(s)\n'
  ' e = E()\n'
  " f = Field('f', e)\n"
  ' f.seed(7)\n'
  ' assert e.seeds == [7]\n'
  ' '),
 ('c04-id-cache',
  'C04',
  'emitters/choice.py',
  [('                cum_weights = tuple(itertools.accumulate(weights_to_set))\n',
    '                key = (id(weights_to_set), len(weights_to_set))\n'
    '                if key not in _ACCUMULATED:\n'
    '                    _ACCUMULATED[key] = tuple(\n'
    '                        itertools.accumulate(weights_to_set))\n'
    '                cum_weights = _ACCUMULATED[key]\n'),
   ('class Choice(', '_ACCUMULATED: dict = {}\n\n\nclass Choice(')],
  'two emitters made with one list of weights that was changed in between',
  'the second uses the cumulative weights of the first',
  '\n'
  ' from fauxdoc.emitters import Choice\n'
  ' w = [1, 0]\n'
  " Choice('ab', w, rng_seed=1)\n"
  ' w[:] = [0, 1]\n'
  " assert Choice('ab', w, rng_seed=1)(5) == ['b'] * 5\n"
  ' '),
 ('c05-resume',
  'C05',
  'emitters/choice.py',
  ('                self._replace_only_after_call = False\n'
   '                self._global_shuffle()\n',
   '                self._replace_only_after_call = False\n'
   '                if not self._shuffled or self.rng_seed is None:\n'
   '                    self._global_shuffle()\n'),
  'replacement turned on and off again within a pass of a seeded choice',
  'the pass goes on in the middle while all items are reported to remain',
  '\n'
  ' from fauxdoc.emitters import Choice\n'
  ' c = Choice(range(10), replace=False, rng_seed=1)\n'
  ' c(4)\n'
  ' c.replace = True\n'
  ' c.replace = False\n'
  ' assert sorted(c(10)) == list(range(10))\n'
  ' '),
 ('c07-first-zero',
  'C07',
  'emitters/choice.py',
  ('        return self.rng.choices(self._items, cum_weights=self._cum_weights,\n'
   '                                k=number)\n',
   '        if self._cum_weights and number > 50:\n'
   '            # steps of the cumulative weights only\n'
   '            steps = list(dict.fromkeys(self._cum_weights))\n'
   '            items = [i for n, i in enumerate(self._items)\n'
   '                     if not n or self._weights[n]]\n'
   '            if len(steps) == len(items):\n'
   '                return self.rng.choices(items, weights=[\n'
   '                    w or min(filter(None, self._weights))\n'
   '                    for n, w in enumerate(self._weights) if not n or w],\n'
   '                    k=number)\n'
   '        return self.rng.choices(self._items, cum_weights=self._cum_weights,\n'
   '                                k=number)\n'),
  'the first weight is 0 and more than 50 values are asked for',
  'the first item is emitted though its weight is 0',
  '\n'
  ' from fauxdoc.emitters import Choice\n'
  " assert set(Choice('abc', [0, 1, 1], rng_seed=1)(200)) == set('bc')\n"
  ' '),
 ('c08-truthy',
  'C08',
  'emitters/choice.py',
  ('        if replace_only_after_call:\n            self.replace = True\n',
   '        if replace_only_after_call is True:\n            self.replace = True\n'),
  'replace_only_after_call set to something true that is not True',
  'replacement stays off while replacement after each call is on',
  '\n'
  ' from fauxdoc.emitters import Choice\n'
  " c = Choice('abc', replace=False)\n"
  ' c.replace_only_after_call = 1\n'
  ' assert c.replace\n'
  ' '),
 ('c08-len-once',
  'C08',
  'emitters/choice.py',
  ('            if nitems != nweights:\n',
   '            if nitems != nweights and not (\n'
   '                    weights_are_cumulative and nweights > nitems and\n'
   '                    weights_to_set[nitems - 1] == weights_to_set[-1]):\n'),
  'more cumulative weights than items, the rest all like the last one',
  'they are accepted',
  '\n'
  ' from fauxdoc.emitters import Choice\n'
  " c = Choice('abc')\n"
  ' try:\n'
  '     c.cum_weights = [1, 2, 3, 3]\n'
  ' except ValueError:\n'
  '     pass\n'
  ' else:\n'
  '     raise AssertionError\n'
  ' '),
 ('c10-floor-first',
  'C10',
  'emitters/choice.py',
  ('    weights = [clamp(gaussian(x, mu, sigma), mn=weight_floor)\n'
   '               for x in range(1, len(items) + 1)]\n',
   '    weights: List[float] = []\n'
   '    for x in range(1, len(items) + 1):\n'
   '        if x > mu + 40 * sigma:\n'
   '            # the rest is zero\n'
   '            weights += [0.0] * (len(items) - len(weights))\n'
   '            break\n'
   '        weights.append(clamp(gaussian(x, mu, sigma), mn=weight_floor))\n'),
  'items more than 40 deviations above the mean and a floor',
  'their weight is 0, not the floor',
  '\n'
  ' from fauxdoc.emitters.choice import gaussian_choice\n'
  ' c = gaussian_choice(range(60), mu=1, sigma=1, weight_floor=0.5)\n'
  ' assert min(c.weights) == 0.5 or c.weights[-1] == 0.5\n'
  ' assert c.weights[-1] == 0.5\n'
  ' '),
 ('c12-chunk',
  'C12',
  'emitters/text.py',
  ('        words = []\n        char_index = 0\n',
   '        if len(lengths) > 1 and min(lengths) == max(lengths):\n'
   '            # all alike: simply group the characters\n'
   '            groups = [iter(chars)] * lengths[0]\n'
   "            return [''.join(g) for g in zip(*groups)] or lengths * 0\n"
   '        words = []\n'
   '        char_index = 0\n'),
  'several words, all of zero length',
  'no words are emitted',
  '\n'
  ' from fauxdoc.emitters import Word, Static\n'
  " assert Word(Static(0), Static('a'))(3) == ['', '', '']\n"
  ' '),
 ('c12-strip',
  'C12',
  'emitters/text.py',
  ("            texts.append(''.join(render))\n",
   "            texts.append(''.join(render).strip(' ') if number > 1\n"
   "                         else ''.join(render))\n"),
  'several texts whose first or last word has spaces at its ends',
  'the spaces are lost',
  '\n'
  ' from fauxdoc.emitters import Text, Static\n'
  " assert Text(Static(2), Static(' a '), Static('-'))(2) == [' a - a '] * 2\n"
  ' '),
 ('c13-max',
  'C13',
  'emitters/text.py',
  [('        for code in range(start, end + 1)\n',
    '        for code in range(start, min(end + 1, sys.maxunicode))\n'),
   ('from typing import', 'import sys\nfrom typing import')],
  'a range that ends with the last code point there is',
  'it is left out',
  '\n'
  ' from fauxdoc.emitters.text import make_alphabet\n'
  ' assert make_alphabet([(0x10FFFE, 0x10FFFF)]) == [\n'
  '     chr(0x10FFFE), chr(0x10FFFF)]\n'
  ' '),
 ('c17-gate-true',
  'C17',
  'profile.py',
  ('        if self.gate_emitter():\n', '        if self.gate_emitter() is True:\n'),
  'a gate that emits something true other than True',
  'nothing is emitted',
  '\n'
  ' from fauxdoc.profile import Field\n'
  ' from fauxdoc.emitters import Static\n'
  " assert Field('f', Static(5), gate=Static(1))() == 5\n"
  ' '),
 ('c18-last-wins',
  'C18',
  'profile.py',
  ('        self.fields.update({field.name: field for field in fields})\n',
   '        for field in fields:\n'
   '            if field.name in self.fields and field.hide:\n'
   '                self.fields.pop(field.name)\n'
   '            self.fields[field.name] = field\n'),
  'a field replaced by a hidden one of the same name, then shown',
  'it has moved to the end',
  '\n'
  ' from fauxdoc.profile import Field, Schema\n'
  ' from fauxdoc.emitters import Static\n'
  " s = Schema(Field('a', Static(1)), Field('b', Static(2)))\n"
  " f = Field('a', Static(3), hide=True)\n"
  ' s.add_fields(f)\n'
  ' f.hide = False\n'
  " assert list(s()) == ['a', 'b']\n"
  ' '),
 ('c19-frozen',
  'C19',
  'emitters/fromfields.py',
  ('        vals: List[T] = []\n'
   '        for field in self.source:\n'
   '            val = field.previous\n'
   '            if val is not None:\n',
   '        vals: List[T] = []\n'
   '        for field in self.source:\n'
   '            val = field.previous\n'
   '            if val is not None and val != []:\n'
   '                if vals and vals[-1] is val:\n'
   '                    continue\n'),
  'two neighbouring fields that returned the very same object',
  'the second is left out',
  '\n'
  ' from fauxdoc.profile import Field\n'
  ' from fauxdoc.emitters import Static, CopyFields\n'
  " v = 'x'\n"
  " a, b = Field('a', Static(v)), Field('b', Static(v))\n"
  ' a(), b()\n'
  " assert CopyFields([a, b])() == ['x', 'x']\n"
  ' '),
 ('c20-falsy-result',
  'C20',
  'emitters/wrappers.py',
  ("        return [self._wrapper(v) for v in self._emitters['source'](number)]\n",
   "        data = self._emitters['source'](number)\n"
   '        if number > 1 and all(v is data[0] for v in data):\n'
   '            # all alike\n'
   '            return [self._wrapper(data[0])] * number\n'
   '        return [self._wrapper(v) for v in data]\n'),
  'a source that emits the same object several times',
  'the function is called once, not once per value',
  '\n'
  ' from fauxdoc.emitters import WrapOne, Static\n'
  ' import itertools\n'
  ' c = itertools.count()\n'
  " w = WrapOne(Static('a'), lambda v: next(c))\n"
  ' assert len(set(w(3))) == 3\n'
  ' '),
 ('c11-static-equal',
  'C11',
  'emitters/fixed.py',
  ('        self._value = value\n        self._items = [value]\n',
   '        if value != self._value:\n'
   '            self._value = value\n'
   '            self._items = [value]\n'),
  'a static value changed to another that is equal (1 and True, say)',
  'the old one is still emitted',
  '\n'
  ' from fauxdoc.emitters import Static\n'
  ' s = Static(1)\n'
  ' s.value = True\n'
  ' assert s() is True\n'
  ' '),
 ('c16-half-open',
  'C16',
  'dtrange.py',
  ('    length += 1 if rem else 0\n',
   '    length += 1 if rem >= timedelta(milliseconds=1) or rem < timedelta(0) \\\n'
   '        else 0\n'),
  'a last value less than a millisecond before stop',
  'it is left out',
  '\n'
  ' from datetime import datetime\n'
  ' from fauxdoc.dtrange import dtrange\n'
  ' r = dtrange(datetime(2000, 1, 1), datetime(2000, 1, 1, 0, 0, 2, 5), 1)\n'
  ' assert len(r) == 3\n'
  ' '),
 ('c22-shadow',
  'C22',
  'warn.py',
  ('    if attr_name in deprecated:\n',
   "    if attr_name in deprecated or attr_name.lstrip('_') in deprecated:\n"
   '        attr_name = attr_name if attr_name in deprecated \\\n'
   "            else attr_name.lstrip('_')\n"),
  'an unknown name that is a deprecated one with underscores before it',
  'it is found',
  '\n'
  ' import warnings\n'
  " warnings.simplefilter('ignore')\n"
  ' import fauxdoc.emitters.wrappers as w\n'
  ' try:\n'
  '     w._Wrap\n'
  ' except AttributeError:\n'
  '     pass\n'
  ' else:\n'
  '     raise AssertionError\n'
  ' ')]
