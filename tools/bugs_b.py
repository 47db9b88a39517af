BUGS = [
('c01-no-sources', 'C01', 'emitters/wrappers.py',
 ("""        emdata = [(k, em(number)) for k, em in self._emitters.items()]
        return [
            self._wrapper(**{k: v[i] for k, v in emdata})
            for i in range(number)
        ]
""", """        keys = list(self._emitters)
        emdata = [em(number) for em in self._emitters.values()]
        return [self._wrapper(**dict(zip(keys, vals)))
                for vals in zip(*emdata)]
"""),
 'WrapMany with an empty mapping of sources, asked for several values',
 'no values are emitted',
 '''
 from fauxdoc.emitters import WrapMany
 assert WrapMany({}, lambda: 1)(3) == [1, 1, 1]
 '''),
('c01-last-item-zero', 'C01', 'emitters/choice.py',
 ("            if number == 1:\n", "            if number == 1 or self._num_unique_items == 1:\n"),
 'a choice without replacement with one item left, asked for 0 values',
 'a list of one value is returned for a count of 0',
 '''
 from fauxdoc.emitters import Choice
 c = Choice(['a', 'b', 'c'], replace=False, rng_seed=1)
 c(2)
 assert c(0) == []
 '''),
('c02-seed-zero', 'C02', 'mixins.py',
 ("        self.rng = random.Random(self.rng_seed)\n", "        if self.rng_seed or not hasattr(self, 'rng'):\n            self.rng = random.Random(self.rng_seed)\n"),
 'a seed of 0 and emissions before the reset',
 'reset does not restore the generator',
 '''
 from fauxdoc.emitters import Choice
 c = Choice(range(1000), rng_seed=0)
 a = c(5); c.reset()
 assert c(5) == a
 '''),
('c02-same-seed', 'C02', 'emitters/choice.py',
 ("        super().seed(rng_seed)\n        if not self._replace:\n", "        unchanged = rng_seed == self.rng_seed\n        super().seed(rng_seed)\n        if not self._replace and not unchanged:\n"),
 'reseeding a choice without replacement with the seed it has, after emissions',
 'the shuffle made earlier is not discarded',
 '''
 from fauxdoc.emitters import Choice
 c = Choice(range(10), replace=False, rng_seed=3)
 a = c(4); c.seed(3)
 assert c(10)[:4] == a
 '''),
('c02-keep-cache', 'C02', 'emitters/choice.py',
 ("        if self._weights is None and number == 1:\n", "        if self._weights is None and number == 1 and not getattr(self, '_bulk', None):\n            self._bulk = self.rng.choices(self._items, k=16)[::-1]\n        if self._weights is None and number == 1 and len(self._items) > 50000:\n            return [self._bulk.pop()]\n        if self._weights is None and number == 1:\n"),
 'DROP', '', ''),
('c02-text-order', 'C02', 'emitters/text.py',
 ("""        super().seed(rng_seed)
        self._emitters.do_method('seed', self.rng_seed)

    def _get_words_iterator""", """        super().seed(rng_seed)
        if self._num_unique_values is not None:
            self._update_num_unique_vals()

    def _get_words_iterator"""),
 'DROP', '', ''),
('c03-zero-seed', 'C03', 'mixins.py',
 ("        self._emitters.setattr('rng_seed', self.rng_seed)\n        super().reset()", "        if self.rng_seed:\n            self._emitters.setattr('rng_seed', self.rng_seed)\n        super().reset()"),
 'a field (or wrapper) with a seed of 0 whose emitter has another seed',
 'the child keeps its own seed',
 '''
 from fauxdoc.emitters import Choice
 from fauxdoc.profile import Field
 c = Choice([1, 2, 3], rng_seed=7)
 Field('f', c, rng_seed=0)
 assert c.rng_seed == 0
 '''),
('c03-equal-members', 'C03', 'group.py',
 ("        return list(self.values())\n", "        objects = []\n        for obj in self.values():\n            if obj not in objects:\n                objects.append(obj)\n        return objects\n"),
 'two members of a map that are different objects but compare equal',
 'the second is skipped',
 '''
 from fauxdoc.group import ObjectMap
 class M:
     def __init__(self): self.n = 0
     def __eq__(self, other): return True
     def seed(self, s): self.n += 1
 a, b = M(), M()
 ObjectMap({'a': a, 'b': b}).do_method('seed', 1)
 assert (a.n, b.n) == (1, 1)
 '''),
('c03-hidden-last', 'C03', 'profile.py',
 ("        self.fields.do_method('seed', rng_seed)\n", "        self.public_fields.do_method('seed', rng_seed)\n        self.hidden_fields.do_method('seed', rng_seed)\n"),
 'a schema whose hidden field comes first',
 'fields are not seeded in order',
 '''
 from fauxdoc.profile import Schema
 log = []
 class F:
     def __init__(self, name, hide): self.name, self.hide = name, hide
     def seed(self, s): log.append(self.name)
 Schema(F('a', True), F('b', False)).seed_fields(1)
 assert log == ['a', 'b']
 '''),
('c04-weights-cache', 'C04', 'emitters/choice.py',
 ("    weights = [clamp(poisson(x, mu), mn=weight_floor)\n               for x in range(1, len(items) + 1)]\n", "    key = (len(items), mu)\n    if key not in _POISSON_WEIGHTS:\n        _POISSON_WEIGHTS[key] = [clamp(poisson(x, mu), mn=weight_floor)\n                                 for x in range(1, len(items) + 1)]\n    weights = _POISSON_WEIGHTS[key]\n"),
 'DROP', '', ''),
('c04-poisson-cache', 'C04', 'emitters/choice.py',
 [("def poisson_choice(", "_POISSON_WEIGHTS = {}\n\n\ndef poisson_choice("),
  ("    weights = [clamp(poisson(x, mu), mn=weight_floor)\n               for x in range(1, len(items) + 1)]\n", "    key = (len(items), mu, weight_floor > 0.01)\n    if len(items) < 20 or key not in _POISSON_WEIGHTS:\n        _POISSON_WEIGHTS[key] = [clamp(poisson(x, mu), mn=weight_floor)\n                                 for x in range(1, len(items) + 1)]\n    weights = _POISSON_WEIGHTS[key]\n")],
 'two poisson choices with the same number of items and mu but different floors',
 'weights are shared between separate objects',
 '''
 from fauxdoc.emitters import poisson_choice
 poisson_choice(range(37), mu=3)
 poisson_choice(range(37), mu=3, weight_floor=0.2)
 a = poisson_choice(range(37), mu=3, weight_floor=0.5)
 assert min(a.weights) == 0.5
 '''),
('c04-string-seed', 'C04', 'mixins.py',
 ("        self.rng = random.Random(self.rng_seed)\n", "        seed = self.rng_seed\n        if seed is not None and not isinstance(seed, (int, float)):\n            seed = hash(seed)\n        self.rng = random.Random(seed)\n"),
 'a string seed and two processes',
 'output depends on the hash seed of the process',
 '''
 import subprocess
 out = {subprocess.run([sys.executable, '-c', "import sys; sys.path.insert(0, 'src'); from fauxdoc.emitters import Choice; print(Choice(range(10**6), rng_seed='abc')(3))"], env=dict(os.environ, PYTHONHASHSEED=str(i)), capture_output=True, text=True).stdout for i in (1, 2, 3)}
 assert len(out) == 1 and out != {''}
 '''),
('c04-shared-default', 'C04', 'emitters/text.py',
 [("class Text(RandomWithChildrenMixin", "_SPACE = Static(' ')\n\n\nclass Text(RandomWithChildrenMixin"),
  ("'sep': sep_emitter or Static(' ')", "'sep': sep_emitter or _SPACE")],
 'changing the default separator emitter of another text emitter',
 'state is shared between separate text emitters',
 '''
 from fauxdoc.emitters import Text, Static
 a = Text(Static(2), Static('x')); b = Text(Static(2), Static('x'))
 a.sep_emitter.value = '-'
 assert b() == 'x x'
 '''),
('c04-id-order', 'C04', 'emitters/choice.py',
 ("        return weighted_shuffle(self._items, self._weights, self.rng, number)\n", "        if number == len(self._items) > 12:\n            return weighted_shuffle(self._items, self._weights)\n        return weighted_shuffle(self._items, self._weights, self.rng, number)\n"),
 'weights, replacement after each call, and a call asking for all items',
 'the order comes from a generator shared by everything',
 '''
 from fauxdoc.emitters import Choice
 a, b = (Choice(range(20), list(range(1, 21)), replace_only_after_call=True, rng_seed=4) for _ in 'ab')
 assert a(20) == b(20)
 '''),
('c05-replace-false-again', 'C05', 'emitters/choice.py',
 ("        if replace != self._replace:\n", "        if replace != self._replace or not replace:\n"),
 'setting replace to False when it is already False, after emissions',
 'items already emitted are emitted again',
 '''
 from fauxdoc.emitters import Choice
 c = Choice(range(10), replace=False, rng_seed=1)
 a = c(6); c.replace = False
 assert c.num_unique_items == 4
 '''),
('c05-partial', 'C05', 'emitters/choice.py',
 ("        if number > self._num_unique_items:\n            self.raise_uniqueness_violation(number)\n        if not self._replace:\n", "        if not self._replace:\n            if self._shuffled_index + number > len(self._shuffled):\n                self._shuffled_index = (len(self._shuffled) if number > 4 else\n                                        self._shuffled_index)\n                self.raise_uniqueness_violation(number)\n        elif number > self._num_unique_items:\n            self.raise_uniqueness_violation(number)\n        if not self._replace:\n"),
 'a call for too many values followed by another call',
 'the failed call uses up the remaining items',
 '''
 from fauxdoc.emitters import Choice
 c = Choice(range(10), replace=False, rng_seed=1)
 a = c(6)
 try: c(5)
 except ValueError: pass
 assert len(c(4)) == 4
 '''),
('c05-roac-off', 'C05', 'emitters/choice.py',
 ("            if replace:\n                self._num_unique_items = len(self._items)\n            else:\n                self._replace_only_after_call = False\n                self._global_shuffle()\n", "            if replace:\n                self._num_unique_items = len(self._items)\n            else:\n                self._replace_only_after_call = False\n                if self._shuffled:\n                    self._num_unique_items -= self._shuffled_index\n                else:\n                    self._global_shuffle()\n"),
 'replacement turned off, on and off again with emissions before',
 'the old shuffle goes on, minus what was emitted before',
 '''
 from fauxdoc.emitters import Choice
 c = Choice(range(10), replace=False, rng_seed=1)
 c(6); c.replace = True; c.replace = False
 assert sorted(c(10)) == list(range(10))
 '''),
('c06-sparse', 'C06', 'emitters/choice.py',
 ("            return self.rng.sample(self._items, k=number)\n", "            if number * 50 < len(self._items):\n                return self.rng.choices(self._items, k=number)\n            return self.rng.sample(self._items, k=number)\n"),
 'more than fifty times as many items as values asked for, and a collision',
 'items repeat within a call',
 '''
 from fauxdoc.emitters import Choice
 c = Choice(range(200), replace_only_after_call=True, rng_seed=1)
 for _ in range(2000):
     assert len(set(c(3))) == 3
 '''),
('c06-stale-count', 'C06', 'emitters/choice.py',
 ("        if replace_only_after_call:\n            self.replace = True\n", "        if replace_only_after_call and self._weights is None:\n            self.replace = True\n        elif replace_only_after_call:\n            self._replace = True\n"),
 'emissions without replacement, then switching to replacement after each call',
 'later calls cannot draw from all items',
 '''
 from fauxdoc.emitters import Choice
 c = Choice(range(10), [1] * 10, replace=False, rng_seed=1)
 c(6); c.replace_only_after_call = True
 assert len(c(10)) == 10
 '''),
('c06-weighted-equal', 'C06', 'emitters/choice.py',
 ("        # One call without replacement, with weights.\n", "        # One call without replacement, with weights.\n        if number < 4 and number * 10 < len(self._items):\n            values = self.rng.choices(self._items, self._weights, k=number)\n            while values[0] in values[1:]:\n                values[0] = self.rng.choices(self._items, self._weights)[0]\n            return values\n"),
 'three weighted values per call of which the last two collide',
 'an item repeats within a call',
 '''
 from fauxdoc.emitters import Choice
 c = Choice(range(40), [1] * 40, replace_only_after_call=True, rng_seed=1)
 for _ in range(2000):
     assert len(set(c(3))) == 3
 '''),
('c07-bisect-left', 'C07', 'emitters/choice.py',
 [("import itertools\n", "import bisect\nimport itertools\n"),
  ("        return self.rng.choices(self._items, cum_weights=self._cum_weights,\n                                k=number)\n", "        if self._weights is not None and self._cum_weights[-1] > 0:\n            cum = self._cum_weights\n            return [self._items[min(bisect.bisect_left(\n                        cum, self.rng.random() * (cum[-1] + 0.0)\n                    ), len(cum) - 1)] for _ in range(number)]\n        return self.rng.choices(self._items, cum_weights=self._cum_weights,\n                                k=number)\n")],
 'a first item of weight zero and a random number of exactly 0.0',
 'an item of weight zero is emitted',
 '''
 from fauxdoc.emitters import Choice
 import random
 class R(random.Random):
     def random(self): return 0.0
 c = Choice('ab', [0, 1], rng_seed=1)
 c.rng = R()
 assert c(3) == ['b'] * 3
 '''),
('c07-chance-abs', 'C07', 'emitters/choice.py',
 ("[chance, 1.0 - chance]", "[chance, 1.0 - chance if chance < 1.5 else chance]"),
 'a chance greater than 1',
 'False is emitted',
 '''
 from fauxdoc.emitters import chance
 assert all(chance(2.5, rng_seed=1)(200))
 '''),
('c08-round', 'C08', 'emitters/choice.py',
 ("                    de_cum_weights.append(weight - prev)\n", "                    de_cum_weights.append(round(weight - prev, 10))\n"),
 'cumulative weights less than 1e-10 apart',
 'weights and cumulative weights do not match',
 '''
 from fauxdoc.emitters import Choice
 c = Choice('ab', cum_weights=[1e-12, 3e-12])
 assert all(c.weights)
 '''),
('c08-empty-accepted', 'C08', 'emitters/choice.py',
 ("        if weights_to_set is not None:\n", "        if weights_to_set:\n"),
 'setting weights to an empty sequence after construction',
 'the wrong number of weights is accepted',
 '''
 from fauxdoc.emitters import Choice
 c = Choice('ab', [1, 2])
 try: c.weights = []
 except ValueError: pass
 else: raise SystemExit(1)
 assert c.weights == (1, 2)
 '''),
('c08-partial-set', 'C08', 'emitters/choice.py',
 ("        weights = None\n        cum_weights = None\n        if weights_to_set is not None:\n", "        weights = None\n        cum_weights = None\n        if weights_are_cumulative:\n            self._weights = None\n        if weights_to_set is not None:\n"),
 'setting the wrong number of cumulative weights, then looking at the weights',
 'a refused change leaves only one of the two settings',
 '''
 from fauxdoc.emitters import Choice
 c = Choice('ab', [1, 2])
 try: c.cum_weights = [1]
 except ValueError: pass
 assert c.weights == (1, 2) and c.cum_weights == (1, 3)
 '''),
('c09-sentinel', 'C09', 'mathtools.py',
 ("        top_n = sorted(scores, reverse=True, key=lambda x: x[0])[:k]\n", "        top_n = sorted(scores, reverse=True, key=lambda x: max(x[0], -1e15))[:k]\n"),
 'very small positive weights next to a weight of zero',
 'an item with zero weight comes before one with positive weight',
 '''
 from fauxdoc.mathtools import weighted_shuffle
 import random
 for s in range(20):
     assert weighted_shuffle(['z', 'a', 'b'], [0, 1e-20, 1e-20], random.Random(s))[2] == 'z'
 '''),
('c09-in-place', 'C09', 'mathtools.py',
 ("        weights = list(weights)\n", "        if not isinstance(weights, list) or len(weights) < 16:\n            weights = list(weights)\n"),
 'weights passed as a list, few items drawn',
 'the weights passed in are modified',
 '''
 from fauxdoc.mathtools import weighted_shuffle
 import random
 w = [1.0] * 20
 weighted_shuffle(range(20), w, random.Random(1), 3)
 assert w == [1.0] * 20
 '''),
('c09-lowk-overshoot', 'C09', 'mathtools.py',
 ("            needed = k - len(sample)\n            if not needed:\n                break\n            for i in rng.choices(positions, weights, k=needed):\n", "            needed = k - len(sample)\n            if needed <= 0:\n                break\n            for i in rng.choices(positions, weights, k=needed + needed // 8):\n"),
 'at least eight items drawn, without a collision in the over-draw',
 'more than k items are returned',
 '''
 from fauxdoc.mathtools import weighted_shuffle
 import random
 for s in range(50):
     assert len(weighted_shuffle(range(100), [1] * 100, random.Random(s), 16)) == 16
 '''),
('c10-clamp-zero', 'C10', 'mathtools.py',
 ("    if mx is not None and number > mx:\n", "    if mx and number > mx:\n"),
 'a maximum of 0',
 'the limit is ignored',
 '''
 from fauxdoc.mathtools import clamp
 assert clamp(5, mx=0) == 0
 '''),
('c10-gauss-tail', 'C10', 'mathtools.py',
 ("    term1 = math.exp(-1 * (((x - mu) / sigma) ** 2) / 2)\n", "    if abs(x - mu) > 8 * abs(sigma):\n        return 0.0\n    term1 = math.exp(-1 * (((x - mu) / sigma) ** 2) / 2)\n"),
 'x more than eight deviations from the mean',
 'the density is cut off',
 '''
 from fauxdoc.mathtools import gaussian
 assert gaussian(9) > 0
 '''),
('c10-seed-zero', 'C10', 'emitters/choice.py',
 ("    weights = [clamp(gaussian(x, mu, sigma), mn=weight_floor)\n", "    rng_seed = rng_seed or None\n    weights = [clamp(gaussian(x, mu, sigma), mn=weight_floor)\n"),
 'a gaussian choice with seed 0',
 'the seed is not passed on',
 '''
 from fauxdoc.emitters import gaussian_choice
 assert gaussian_choice('abc', rng_seed=0).rng_seed == 0
 '''),
('c11-bulk-rotation', 'C11', 'emitters/fixed.py',
 ("            number: See superclass (Emitter).\n        \"\"\"\n        ret_value = list(itertools.islice(self._iterator, 0, number))\n", "            number: See superclass (Emitter).\n        \"\"\"\n        cycles, number = divmod(number, 8 * len(self._items))\n        ret_value = list(self._items) * (8 * cycles)\n        ret_value.extend(itertools.islice(self._iterator, 0, number))\n"),
 'a bulk call longer than the source that does not start at the first value',
 'values are out of order',
 '''
 from fauxdoc.emitters import Sequential
 s = Sequential('abc')
 s()
 assert s(25)[:2] == ['b', 'c']
 '''),
('c11-skip-none', 'C11', 'emitters/fixed.py',
 ("            for item in factory():\n                yield item\n", "            for item in filter(lambda x: x is not None, factory()):\n                yield item\n"),
 'a source with a None value',
 'the value is skipped',
 '''
 from fauxdoc.emitters import Sequential
 assert Sequential([1, None, 2])(3) == [1, None, 2]
 '''),
('c11-first-pass-cache', 'C11', 'emitters/fixed.py',
 ("        while True:\n            for item in factory():\n                yield item\n", "        items = []\n        for item in factory():\n            items.append(item)\n            yield item\n        while True:\n            yield from items if len(items) < 4096 else items[:4096]\n"),
 'a source of more than 4096 values, second pass',
 'the second pass stops early',
 '''
 from fauxdoc.emitters import Sequential
 s = Sequential(range(5000))
 assert s(10000) == list(range(5000)) * 2
 '''),
('c11-static-items', 'C11', 'emitters/fixed.py',
 ("        self._value = value\n        self._items = [value]\n", "        if value != self._value:\n            self._items = [value]\n        self._value = value\n"),
 'changing the value to one that compares equal but is different (1 and True)',
 'the items reported are not updated',
 '''
 from fauxdoc.emitters import Static
 s = Static(1); s.value = True
 assert s.items[0] is True
 '''),
('c12-empty-word', 'C12', 'emitters/text.py',
 ("        for length in lengths:\n            words.append(''.join(chars[char_index:char_index+length]))\n            char_index += length\n        return words\n", "        for length in lengths:\n            end = char_index + length or len(chars)\n            words.append(''.join(chars[char_index:end]))\n            char_index += length\n        return words\n"),
 'a first word of length zero followed by a longer one',
 'the first word holds all the characters',
 '''
 from fauxdoc.emitters import Word, Sequential
 assert Word(Sequential([0, 2]), Sequential('ab'))(2) == ['', 'ab']
 '''),
('c12-strip', 'C12', 'emitters/text.py',
 ("            texts.append(''.join(render))\n", "            texts.append(''.join(render).strip())\n"),
 'DROP', '', ''),
('c12-sep-count', 'C12', 'emitters/text.py',
 ("        seps = iter(self._emitters['sep'](total_seps))\n", "        seps = iter(self._emitters['sep'](max(total_words - number, 0)))\n"),
 'a text of zero words next to longer ones',
 'separators are missing and replaced by spaces',
 'DROP'),
('c12-whole-rounds', 'C12', 'emitters/text.py',
 ("                        needed = clamp(num_unique, mx=remainder)\n                        for word in self._emitters['word'](needed):\n", "                        needed = clamp(num_unique, mx=remainder)\n                        for word in self._emitters['word'](\n                                needed + (needed < num_unique)):\n"),
 'words unique per call and a total that is not a multiple of their number',
 'the word emitter is asked for more words than needed',
 '''
 from fauxdoc.emitters import Text, Static
 class W:
     replace_only_after_call = True; num_unique_values = 3; asked = 0
     def __call__(self, n=None):
         self.asked += n
         return ['x'] * n
     def reset(self): pass
 w = W()
 t = Text(Static(5), w)
 t()
 assert w.asked == 5, w.asked
 '''),
('c12-lookahead', 'C12', 'emitters/text.py',
 ("        lengths = self._emitters['length'](number)\n        chars = self._emitters['alphabet'](sum(lengths))\n", "        lengths = self._emitters['length'](number)\n        if len(set(lengths)) == 1 and number > 64:\n            chars = self._emitters['alphabet'](lengths[0] * number + 1)[1:]\n        else:\n            chars = self._emitters['alphabet'](sum(lengths))\n"),
 'more than 64 words of equal length in one call',
 'a character is lost',
 '''
 from fauxdoc.emitters import Word, Sequential, Static
 w = Word(Static(2), Sequential('abc'))
 assert ''.join(w(66)) == 'abc' * 44
 '''),
('c13-surrogates2', 'C13', 'emitters/text.py',
 ("    return [\n        chr(code) for (start, end) in uchar_ranges\n        for code in range(start, end + 1)\n    ]", "    return [chr(code) for start, end in uchar_ranges\n            for code in range(start, end + 1)\n            if not 0xD800 <= code < 0xE000]"),
 'a range that includes surrogate code points',
 'code points of the range are left out',
 '''
 from fauxdoc.emitters import make_alphabet
 assert len(make_alphabet([(0xD7FF, 0xE000)])) == 0xE000 - 0xD7FF + 1
 '''),
('c13-sorted', 'C13', 'emitters/text.py',
 ("    return [\n        chr(code) for (start, end) in uchar_ranges\n", "    return [\n        chr(code) for (start, end) in sorted(uchar_ranges)\n"),
 'ranges given in descending order',
 'the ranges are reordered',
 '''
 from fauxdoc.emitters import make_alphabet
 assert make_alphabet([(98, 98), (97, 97)]) == ['b', 'a']
 '''),
('c13-overlaps', 'C13', 'emitters/text.py',
 ("    return [\n        chr(code) for (start, end) in uchar_ranges\n        for code in range(start, end + 1)\n    ]", "    return [chr(code) for code in dict.fromkeys(\n        c for start, end in uchar_ranges for c in range(start, end + 1)\n    )]"),
 'ranges that overlap',
 'characters of the overlap are listed once only',
 '''
 from fauxdoc.emitters import make_alphabet
 assert make_alphabet([(97, 98), (98, 99)]) == list('abbc')
 '''),
('c14-time-ref', 'C14', 'dtrange.py',
 ("        ref_date = date(99, 1, 1)\n", "        ref_date = date(1, 1, 3)\n"),
 'a descending time range that spans more than two days',
 'OverflowError instead of the value',
 '''
 from datetime import time, timedelta
 from fauxdoc.dtrange import DateOrTimeRange
 r = DateOrTimeRange(time(12), 100, timedelta(hours=-1))
 assert r[99] == time(9)
 '''),
('c14-slice-fast', 'C14', 'dtrange.py',
 ("            slc = self._index_range[index]\n", "            if index.step is None and index.stop is None:\n                first = max(index.start or 0, -self._length)\n                if first < 0:\n                    first += self._length\n                return type(self)(_index_to_value(first, self.start, self.step),\n                                  self._length - first, self.step)\n            slc = self._index_range[index]\n"),
 'a slice from a position past the end',
 'the slice is not empty but has a negative length',
 '''
 from datetime import date, timedelta
 from fauxdoc.dtrange import DateOrTimeRange
 r = DateOrTimeRange(date(2020, 1, 1), 5, timedelta(1))
 assert list(r[7:]) == []
 '''),
('c14-negative-index', 'C14', 'dtrange.py',
 ("            index_num = self._index_range[index]\n", "            index_num = index + self._length if index < 0 else index\n            self._index_range[index_num]\n"),
 'an index below -length, down to -2 * length',
 'a value outside the range is returned instead of IndexError',
 '''
 from datetime import date, timedelta
 from fauxdoc.dtrange import DateOrTimeRange
 r = DateOrTimeRange(date(2020, 1, 1), 5, timedelta(1))
 try: r[-7]
 except IndexError: pass
 else: raise SystemExit(1)
 '''),
('c16-float-length', 'C16', 'dtrange.py',
 ("        length, rem = _value_to_index(stop_obj, start_obj, step_td)\n    length", "        length, rem = _value_to_index(stop_obj, start_obj, step_td)\n        if step_td.microseconds == 0 and abs(rem).total_seconds() < 1e-5:\n            rem = None\n    length"),
 'a stop just a few microseconds after a value',
 'the last value is missing',
 '''
 from datetime import datetime
 from fauxdoc.dtrange import dtrange
 assert len(dtrange(datetime(2020, 1, 1), datetime(2020, 1, 1, 0, 0, 1, 3))) == 2
 '''),
('c16-unit-weeks', 'C16', 'dtrange.py',
 ("        step_td = timedelta(**{step_unit: step})\n", "        step_td = timedelta(**{step_unit: step})\n        if step_unit == 'milliseconds':\n            step_td = timedelta(microseconds=step * 100)\n"),
 'DROP', '', ''),
('c16-truthy-unit', 'C16', 'dtrange.py',
 ("    if step_unit is None:\n", "    if not step_unit:\n"),
 'an empty string as the unit',
 'the unknown unit is accepted',
 '''
 from datetime import date
 from fauxdoc.dtrange import dtrange
 try: dtrange(date(2020, 1, 1), date(2020, 1, 3), 1, '')
 except ValueError: pass
 else: raise SystemExit(1)
 '''),
('c17-items-truthy', 'C17', 'profile.py',
 ("            return any(item is not None for item in items)\n", "            return any(items)\n"),
 'DROP', '', ''),
('c17-repeat-first', 'C17', 'profile.py',
 ("        if self.gate_emitter():\n            self._cache = self.emitter(self.repeat_emitter())\n", "        number = self.repeat_emitter() if self.multi_valued else None\n        if self.gate_emitter():\n            self._cache = self.emitter(number)\n"),
 'a gate that says no and a repeat emitter with state',
 'the repeat emitter is drawn from although the gate says no',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Sequential
 f = Field('a', Sequential('abcdef'), repeat=Sequential([1, 2, 3]), gate=Sequential([False, True]))
 f()
 assert f() == ['a']
 '''),
('c17-reset-unseeded', 'C17', 'profile.py',
 ("        self._cache: Any = None\n", "        if self.rng_seed is not None or not hasattr(self, '_cache'):\n            self._cache: Any = None\n"),
 'a field without a seed that is reset after a call',
 'previous is not None after the reset',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static
 f = Field('a', Static(1)); f(); f.reset()
 assert f.previous is None
 '''),
('c17-empty-list', 'C17', 'profile.py',
 ("            self._cache = self.emitter(self.repeat_emitter())\n        else:\n            self._cache = None\n        return self._cache\n", "            value = self.emitter(self.repeat_emitter())\n            self._cache = value if value != [] else None\n            return value\n        self._cache = None\n        return self._cache\n"),
 'a repeat emitter that gives 0',
 'previous is None although the last call returned an empty list',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static
 f = Field('a', Static(1), repeat=Static(0))
 assert f() == f.previous
 '''),
('c17-same-repeat', 'C17', 'profile.py',
 ("            self._cache = self.emitter(self.repeat_emitter())\n", "            number = self.repeat_emitter()\n            if number == 1 and not self.multi_valued:\n                number = None\n            self._cache = self.emitter(number)\n"),
 'DROP', '', ''),
('c18-hidden-first', 'C18', 'profile.py',
 ("        doc = {}\n", "        for field in self.hidden_fields.values():\n            field()\n        return {fname: field() for fname, field in self.public_fields.items()}\n        doc = {}\n"),
 'a hidden field after a public one',
 'fields are not called in order',
 '''
 from fauxdoc.profile import Field, Schema
 from fauxdoc.emitters import Sequential
 s = Sequential([1, 2, 3])
 assert Schema(Field('a', s), Field('b', s, hide=True), Field('c', s))() == {'a': 1, 'c': 3}
 '''),
('c18-stale-partition', 'C18', 'profile.py',
 [("        self.fields.update({field.name: field for field in fields})\n", "        self.fields.update({field.name: field for field in fields})\n        self._hidden = [fn for fn, fd in self.fields.items() if fd.hide]\n"),
  ("        return ObjectMap({\n            fn: fd for fn, fd in self.fields.items() if not fd.hide\n        })\n", "        return ObjectMap({\n            fn: fd for fn, fd in self.fields.items() if fn not in self._hidden\n        })\n")],
 'hiding a field after it was added',
 'public_fields still lists it',
 '''
 from fauxdoc.profile import Field, Schema
 from fauxdoc.emitters import Static
 f = Field('a', Static(1))
 s = Schema(f); f.hide = True
 assert not s.public_fields
 '''),
('c18-drop-none', 'C18', 'profile.py',
 ("            if not field.hide:\n                doc[fname] = val\n", "            if not field.hide:\n                if val is None and fname in doc:\n                    continue\n                doc[field.name] = val\n"),
 'a field renamed after it was added',
 'the value is output under another name',
 'DROP'),
('c19-blank', 'C19', 'emitters/fromfields.py',
 ("            if val is not None:\n                if not isinstance(val, (list, tuple)):\n", "            if val is not None and val != '':\n                if not isinstance(val, (list, tuple)):\n"),
 'a source field that returned an empty string',
 'the value is left out',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static, CopyFields
 f = Field('a', Static('')); g = Field('b', Static('x')); f(); g()
 assert CopyFields([f, g])() == ['', 'x']
 '''),
('c19-inner-none', 'C19', 'emitters/fromfields.py',
 ("                vals.extend(val)\n", "                vals.extend(v for v in val if v is not None)\n"),
 'a multi-valued source field with None among its values',
 'the None value is left out',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static, Sequential, CopyFields
 f = Field('a', Sequential([None, 1]), repeat=Static(2)); f()
 assert CopyFields([f])() == [None, 1]
 '''),
('c19-alias', 'C19', 'emitters/fromfields.py',
 ("        vals: List[T] = []\n        for field in self.source:\n            val = field.previous\n            if val is not None:\n                if not isinstance(val, (list, tuple)):\n                    val = [val]\n                vals.extend(val)\n", "        vals: List[T] = []\n        for field in self.source:\n            val = field.previous\n            if val is not None:\n                if not isinstance(val, (list, tuple)):\n                    val = [val]\n                if vals or len(self.source) < 5:\n                    vals += val\n                else:\n                    vals = val\n"),
 'the first source field is multi-valued and another follows',
 'the list remembered by the source field is extended with the values of the others',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static, CopyFields
 f = Field('a', Static(1), repeat=Static(2)); g = Field('b', Static(2)); f(); g()
 c = CopyFields([f, g, g, g, g])
 assert c() == [1, 1, 2, 2, 2, 2] and c() == [1, 1, 2, 2, 2, 2] and f.previous == [1, 1]
 '''),
('c20-by-position', 'C20', 'emitters/wrappers.py',
 ("        emdata = [(k, em(number)) for k, em in self._emitters.items()]\n", "        emdata = [(k, em(number)) for k, em in self._emitters.items()]\n        if not self._wrapper.wants_rng and number > 8:\n            return [self._wrapper(*vals) for vals in zip(*(v for _, v in emdata))]\n"),
 'more than eight values and a function whose parameters are in another order than the sources',
 'values are passed by position instead of by name',
 '''
 from fauxdoc.emitters import WrapMany, Static
 w = WrapMany({'a': Static(1), 'b': Static(2)}, lambda b, a: (a, b))
 assert w(10) == [(1, 2)] * 10
 '''),
('c20-memo', 'C20', 'emitters/wrappers.py',
 ("        return [self._wrapper(v) for v in self._emitters['source'](number)]\n", "        values = self._emitters['source'](number)\n        if number > 4 and not self._wrapper.wants_rng \\\n                and all(v is values[0] for v in values):\n            return [self._wrapper(values[0])] * number\n        return [self._wrapper(v) for v in values]\n"),
 'a source that emits the same object for all values of a call',
 'the function is called once only',
 '''
 from fauxdoc.emitters import WrapOne, Static
 n = []
 w = WrapOne(Static(1), lambda v: n.append(1)); n.clear()
 w(6)
 assert len(n) == 6
 '''),
('c20-none-previous', 'C20', 'emitters/fromfields.py',
 ("        kwargs = {field.name: field.previous for field in self.source}\n        return", "        kwargs = {field.name: field.previous for field in self.source\n                  if field.previous is not None or len(self.source) < 4}\n        return"),
 'four or more source fields of which one returned None',
 'the value of that field is not passed',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static, BasedOnFields
 fs = [Field(n, Static(None if n == 'b' else 1)) for n in 'abcd']
 b = BasedOnFields(fs, lambda **kw: sorted(kw))
 [f() for f in fs]
 assert b() == list('abcd')
 '''),
('c20-stale-rng', 'C20', 'emitters/wrappers.py',
 [("        self.bound_to = bound_to\n", "        self.bound_to = bound_to\n        self._rng = getattr(bound_to, 'rng', None)\n"),
  ("            return self._function(*args, rng=self.bound_to.rng, **kwargs)\n", "            return self._function(*args, rng=self._rng, **kwargs)\n")],
 'DROP', '', ''),
('c21-duplicates', 'C21', 'emitters/choice.py',
 ("            return len(set(self._shuffled[self._shuffled_index:]))\n", "            return min(len(set(self._shuffled[self._shuffled_index:])\n                       | set(self._shuffled[:1])), self._num_unique_items)\n"),
 'items with duplicates, emitted in part without replacement',
 'the number of distinct remaining values is wrong',
 '''
 from fauxdoc.emitters import Choice
 c = Choice(['a', 'a', 'a', 'b', 'b', 'c', 'c', 'd'], replace=False, rng_seed=5)
 for i in range(8):
     left = ['a', 'a', 'a', 'b', 'b', 'c', 'c', 'd']
     c.reset()
     for v in (c(i) if i else []): left.remove(v)
     assert c.num_unique_values == len(set(left)), i
 '''),
('c21-equal-lengths', 'C21', 'emitters/text.py',
 ("sum([nchars ** i for i in poss_items])", "sum(\n                nchars ** i for i in sorted(set(poss_items)))"),
 'a length emitter with equal items',
 'equal lengths count once',
 '''
 from fauxdoc.emitters import Word, Choice
 assert Word(Choice([2, 2]), Choice('abc')).num_unique_values == 18
 '''),
('c21-roac-unique', 'C21', 'emitters/choice.py',
 ("        if not self._replace:\n            return self.num_unique_items == self.num_unique_values\n        return False\n", "        if not self._replace or (self._weights is not None\n                                 and self._replace_only_after_call):\n            return self.num_unique_items == self.num_unique_values\n        return False\n"),
 'a choice that replaces items after each call',
 'it claims to emit unique values',
 '''
 from fauxdoc.emitters import Choice
 assert not Choice('abc', [1, 2, 3], replace_only_after_call=True).emits_unique_values
 '''),
('c21-zero-unknown', 'C21', 'emitters/text.py',
 ("        if nchars is not None and hasattr(self._emitters['length'], 'items'):\n", "        if nchars and hasattr(self._emitters['length'], 'items'):\n"),
 'an alphabet emitter reporting 0 unique values (all emitted, without replacement)',
 'the word emitter reports None rather than a number',
 '''
 from fauxdoc.emitters import Word, Choice, Static
 class A:
     num_unique_values = 0
     def __call__(self, n=None): return []
 assert Word(Static(0), A()).num_unique_values == 1
 '''),
('c22-once', 'C22', 'warn.py',
 ("        warnings.warn(\n", "        if f'{from_obj_name}.{attr_name}' in _WARNED:\n            return attr_value\n        _WARNED.add(f'{from_obj_name}.{attr_name}')\n        warnings.warn(\n"),
 'DROP', '', ''),
('c22-warn-once', 'C22', 'warn.py',
 [("def get_deprecated_attr(", "_WARNED = set()\n\n\ndef get_deprecated_attr("),
  ("        warnings.warn(\n", "        if not new_name and attr_name in _WARNED:\n            return attr_value\n        _WARNED.add(attr_name)\n        warnings.warn(\n")],
 'getting the same deprecated name again',
 'the second access does not warn',
 '''
 import warnings
 from fauxdoc.warn import get_deprecated_attr
 with warnings.catch_warnings(record=True) as w:
     warnings.simplefilter('always')
     for _ in range(2):
         get_deprecated_attr('Zqy', 'm', 'module', {'Zqy': (None, 0)})
 assert len(w) == 2
 '''),
('c22-prefix', 'C22', 'warn.py',
 ("    if attr_name in deprecated:\n", "    attr_name = attr_name.rstrip('_') or attr_name\n    if attr_name in deprecated:\n"),
 'an unknown name that ends in an underscore',
 'the wrong name is in the error, or a deprecated object is returned',
 '''
 from fauxdoc.warn import get_deprecated_attr
 import warnings
 warnings.simplefilter('ignore')
 try: get_deprecated_attr('X_', 'm', 'module', {'X': (None, 0)})
 except AttributeError as e: assert 'X_' in str(e)
 else: raise SystemExit(1)
 '''),
]
BUGS = [b for b in BUGS if 'DROP' not in (b[4], b[6])]
