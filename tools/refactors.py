"""Development tool: edits that keep the behaviour; every check has to stay
quiet on each.  usage: refactors.py [--plan] [ID-prefix...]"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/veriftools/pyvenv/bin/python'
R = {}      # id -> [(file, old, new)]


def ref(rid, *edits):
    R[rid] = edits


G, M, X, P, E_ = ('group.py', 'mathtools.py', 'mixins.py', 'profile.py',
                  'emitter.py')
F, C, T, W, FF = ('emitters/fixed.py', 'emitters/choice.py',
                  'emitters/text.py', 'emitters/wrappers.py',
                  'emitters/fromfields.py')
D, WN = 'dtrange.py', 'warn.py'

# --- group
ref('group-loop',
    (G, '''            if obj is not None and hasattr(obj, attr_name):
                setattr(obj, attr_name, attr_value)''',
     '''            if obj is None or not hasattr(obj, attr_name):
                continue
            setattr(obj, attr_name, attr_value)'''))
ref('group-helper',
    (G, '''            if obj is not None:
                try:
                    getattr(obj, method_name)(*args, **kwargs)
                except AttributeError:
                    pass
''', '''            self._try_method(obj, method_name, args, kwargs)

    @staticmethod
    def _try_method(obj: Any, name: str, args: Any, kwargs: Any) -> None:
        if obj is None:
            return
        try:
            getattr(obj, name)(*args, **kwargs)
        except AttributeError:
            return
'''))
ref('group-filter',
    (G, '''        for obj in self.objects_iterable:
            if obj is not None and hasattr(obj, attr_name):
                setattr(obj, attr_name, attr_value)''',
     '''        for obj in [o for o in self.objects_iterable if o is not None]:
            if hasattr(obj, attr_name):
                setattr(obj, attr_name, attr_value)'''))
ref('group-iter',
    (G, 'return list(self.values())', 'return [v for v in self.values()]'))

# --- mathtools
ref('math-gauss',
    (M, '''    term1 = math.exp(-1 * (((x - mu) / sigma) ** 2) / 2)
    term2 = 1 / (math.sqrt(2 * math.pi) * sigma)
    return term1 * term2''',
     '''    z = (x - mu) / sigma
    norm = 1 / (math.sqrt(2 * math.pi) * sigma)
    return math.exp(-1 * z ** 2 / 2) * norm'''))
ref('math-poisson',
    (M, 'return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)',
     '''numerator = mu ** x * math.exp(-mu)
        return numerator / math.factorial(x)'''))
ref('math-clamp',
    (M, '''    if mn is not None and number < mn:
        return mn
    if mx is not None and number > mx:
        return mx
    return number''', '''    if not (mn is None or number >= mn):
        result = mn
    elif mx is not None and mx < number:
        result = mx
    else:
        result = number
    return result'''))
ref('math-lowk',
    (M, '''        while True:
            needed = k - len(sample)
            if not needed:
                break
            for i in''', '''        while len(sample) < k:
            needed = k - len(sample)
            for i in'''))
ref('math-lowk-continue',
    (M, '''                if weights[i]:
                    weights[i] = 0.0
                    sample.append(items[i])''',
     '''                if not weights[i]:
                    continue
                sample.append(items[i])
                weights[i] = 0.0'''))
ref('math-highk',
    (M, '''        top_n = sorted(scores, reverse=True, key=lambda x: x[0])[:k]
        return [item for _, item in top_n]''',
     '''        ranked = sorted(scores, key=lambda pair: pair[0], reverse=True)
        result = []
        for _, item in ranked[:k]:
            result.append(item)
        return result'''))
ref('math-branch',
    (M, '''    if number <= nitems * 0.42:
        return _faster_for_low_k(items, weights, rng, number)
    return _faster_for_high_k(items, weights, rng, number)''',
     '''    low = number <= nitems * 0.42
    func = _faster_for_low_k if low else _faster_for_high_k
    return func(items, weights, rng, number)'''))
ref('math-number',
    (M, 'number = nitems if number is None else number',
     '''if number is None:
        number = nitems'''))

# --- mixins
ref('mixins-seed',
    (X, '''        self.rng_seed = rng_seed
        self.rng.seed(rng_seed)
        supr''', '''        self.rng.seed(rng_seed)
        self.rng_seed = rng_seed
        supr'''))
ref('mixins-unique',
    (X, 'return len(set(self._items))',
     '''unique = set()
        for item in self._items:
            unique.add(item)
        return len(unique)'''))
ref('mixins-unique2',
    (X, 'return len(set(self._items))',
     'return len({item for item in self._items})'))
ref('mixins-supr',
    (X, '''        self._emitters.do_method('reset')
        supr = super()
        if hasattr(supr, 'reset'):
            supr.reset()''', '''        self.emitters.do_method('reset')
        parent = super()
        if not hasattr(parent, 'reset'):
            return
        parent.reset()'''))
ref('mixins-children',
    (X, '''        self._emitters: ObjectMap[EmitterLike[Any]] = ObjectMap(
            kwargs.pop('children', {})
        )''', '''        children = kwargs.pop('children', {})
        self._emitters: ObjectMap[EmitterLike[Any]] = ObjectMap(children)'''))

# --- profile
ref('profile-call',
    (P, '''        if self.gate_emitter():
            self._cache = self.emitter(self.repeat_emitter())
        else:
            self._cache = None
        return self._cache''', '''        value = None
        if self.gate_emitter():
            number = self.repeat_emitter()
            value = self.emitter(number)
        self._cache = value
        return value'''))
ref('profile-rename',
    (P, '*', 'self._cache', 'self._last_value'))
ref('profile-multi',
    (P, '''            return any(item is not None for item in items)''',
     '''            for item in items:
                if item is not None:
                    return True
            return False'''))
ref('profile-multi2',
    (P, '''            return any(item is not None for item in items)''',
     '''            return not all(item is None for item in items)'''))
ref('profile-schema',
    (P, '''        for fname, field in self.fields.items():
            val = field()
            if not field.hide:
                doc[fname] = val
        return doc''', '''        for name in self.fields:
            field = self.fields[name]
            value = field()
            if field.hide:
                continue
            doc[name] = value
        return doc'''))
ref('profile-add',
    (P, '''        self.fields.update({field.name: field for field in fields})''',
     '''        for field in fields:
            self.fields[field.name] = field'''))
ref('profile-public',
    (P, '''        return ObjectMap({
            fn: fd for fn, fd in self.fields.items() if not fd.hide
        })''', '''        public = {}
        for name, field in self.fields.items():
            if not field.hide:
                public[name] = field
        return ObjectMap(public)'''))
ref('profile-partition',
    (P, '''        return ObjectMap({
            fn: fd for fn, fd in self.fields.items() if fd.hide
        })''', '''        return self._select(True)'''),
    (P, '''        return ObjectMap({
            fn: fd for fn, fd in self.fields.items() if not fd.hide
        })''', '''        return self._select(False)

    def _select(self, hidden: bool) -> 'ObjectMap[FieldLike[Any]]':
        return ObjectMap({
            fn: fd for fn, fd in self.fields.items()
            if bool(fd.hide) == hidden
        })'''))
ref('profile-doc',
    (P, '''        doc = {}
        for fname, field in self.fields.items():
            val = field()
            if not field.hide:
                doc[fname] = val
        return doc''', '''        values = {n: (fd, fd()) for n, fd in self.fields.items()}
        return {n: val for n, (fd, val) in values.items()
                if not fd.hide}'''))
ref('profile-default',
    (P, '''            'repeat': repeat or Static(None),
            'gate': gate or Static(True)''',
     '''            'repeat': repeat if repeat else Static(None),
            'gate': gate if gate else Static(True)'''))

# --- emitter
ref('emitter-call',
    (E_, '''        if number is None:
            return self.emit()
        if number == 1:
            return [self.emit()]
        return self.emit_many(number)''', '''        if number is not None:
            if number != 1:
                return self.emit_many(number)
            return [self.emit()]
        return self.emit()'''))

# --- fixed
ref('fixed-static',
    (F, '''        return [self._value] * number''',
     '''        return [self._value for _ in range(number)]'''))
ref('fixed-static-items',
    (F, '''        self._value = value
        self._items = [value]''', '''        self._items = [value]
        self._value = value'''))
ref('fixed-yield-from',
    (F, '''            for item in factory():
                yield item''', '''            yield from factory()'''))
ref('fixed-slice',
    (F, '''list(itertools.islice(self._iterator, 0, number))''',
     '''[item for item in itertools.islice(self._iterator, number)]'''))
ref('fixed-next',
    (F, '''        ret_value = list(itertools.islice(self._iterator, 0, number))''', '''        ret_value = [next(self._iterator) for _ in range(number)]'''))
ref('fixed-helper',
    (F, '''        ret_value = next(self._iterator)
        if self.reset_after_call:
            self.reset()
        return ret_value
''', '''        ret_value = next(self._iterator)
        self._after_call()
        return ret_value

    def _after_call(self) -> None:
        if not self.reset_after_call:
            return
        self.reset()
'''))
ref('fixed-finally',
    (F, '''        ret_value = next(self._iterator)
        if self.reset_after_call:
            self.reset()
        return ret_value
''', '''        try:
            return next(self._iterator)
        finally:
            if self.reset_after_call:
                self.reset()
'''))
ref('fixed-rename', (F, '*', '._iterator_factory', '._factory'))
ref('fixed-check',
    (F, '''            next(factory())
        except StopIteration:
            raise ValueError(''', '''            iterator = factory()
            next(iterator)
        except StopIteration:
            raise ValueError('''))
ref('fixed-tuple',
    (F, '''        self._items = tuple([item for item in factory()])''',
     '''        self._items = tuple(factory())'''))

# --- choice
ref('choice-decum',
    (C, '''                de_cum_weights = []
                prev: float = 0
                for weight in cum_weights:
                    de_cum_weights.append(weight - prev)
                    prev = weight
                weights = tuple(de_cum_weights)''',
     '''                weights = tuple(
                    this - prev
                    for prev, this in zip((0,) + cum_weights, cum_weights)
                )'''))
ref('choice-decum-index',
    (C, '''                de_cum_weights = []
                prev: float = 0
                for weight in cum_weights:
                    de_cum_weights.append(weight - prev)
                    prev = weight
                weights = tuple(de_cum_weights)''',
     '''                weights = tuple(
                    cum_weights[i] - (cum_weights[i - 1] if i else 0)
                    for i in range(len(cum_weights))
                )'''))
ref('choice-cum-loop',
    (C, '''                cum_weights = tuple(itertools.accumulate(weights_to_set))
                weights = tuple(weights_to_set)''',
     '''                weights = tuple(weights_to_set)
                total: float = 0
                sums = []
                for weight in weights:
                    total += weight
                    sums.append(total)
                cum_weights = tuple(sums)'''))
ref('choice-helper',
    (C, '''        self._set_all_weights(weights)
        if not self._replace:
            self._global_shuffle()''', '''        self._set_all_weights(weights)
        self._reshuffle_if_needed()

    def _reshuffle_if_needed(self) -> None:
        if self._replace:
            return
        self._global_shuffle()'''),
    (C, '''        self._set_all_weights(cum_weights, weights_are_cumulative=True)
        if not self._replace:
            self._global_shuffle()''',
     '''        self._set_all_weights(cum_weights, weights_are_cumulative=True)
        self._reshuffle_if_needed()'''))
ref('choice-early',
    (C, '''        if replace != self._replace:
            self._replace = replace
            if replace:''', '''        if replace == self._replace:
            return
        if True:
            self._replace = replace
            if replace:'''))
ref('choice-order',
    (C, '''        self._shuffled_index = 0
        self._num_unique_items = num_items''',
     '''        self._num_unique_items = num_items
        self._shuffled_index = 0'''))
ref('choice-rename', (C, '*', '_shuffled_index', '_position'))
ref('choice-rename2', (C, '*', '_shuffled', '_order'))
ref('choice-noreplace',
    (C, '''            if number == 1:
                items = [self._shuffled[self._shuffled_index]]
            else:
                start = self._shuffled_index
                end = start + number
                items = list(self._shuffled[start:end])
            self._shuffled_index += number
            self._num_unique_items -= number
            return items''', '''            start = self._shuffled_index
            items = self._shuffled[start:start + number]
            self._shuffled_index = start + number
            self._num_unique_items -= number
            return items'''))
ref('choice-derived',
    (C, '''        return self._num_unique_items

''', '''        remaining = self._num_unique_items
        return remaining

'''))
ref('choice-emit',
    (C, '''        if not self.replace:
            return self._choice_without_replacement(1)[0]
        return self._choice_with_replacement(1)[0]''',
     '''        chooser = (self._choice_with_replacement if self._replace
                   else self._choice_without_replacement)
        return chooser(1)[0]'''))
ref('choice-emit-many',
    (C, '''        if not self._replace or (self._replace_only_after_call and number > 1):
            return self._choice_without_replacement(number)
        return self._choice_with_replacement(number)''',
     '''        unique_in_call = self._replace_only_after_call and number > 1
        if self._replace and not unique_in_call:
            return self._choice_with_replacement(number)
        return self._choice_without_replacement(number)'''))
ref('choice-poisson',
    (C, '''    weights = [clamp(poisson(x, mu), mn=weight_floor)
               for x in range(1, len(items) + 1)]''',
     '''    weights = []
    for i in range(len(items)):
        weights.append(clamp(poisson(i + 1, mu), mn=weight_floor))'''))
ref('choice-gauss',
    (C, '''    weights = [clamp(gaussian(x, mu, sigma), mn=weight_floor)
               for x in range(1, len(items) + 1)]''',
     '''    weights = [clamp(gaussian(x, mu, sigma), mn=weight_floor)
               for x, _ in enumerate(items, 1)]'''))
ref('choice-poisson-max',
    (C, '''    weights = [clamp(poisson(x, mu), mn=weight_floor)
               for x in range(1, len(items) + 1)]''',
     '''    weights = [max(poisson(x, mu), weight_floor)
               for x in range(1, len(items) + 1)]'''))
ref('choice-kw',
    (C, '''    return Choice([True, False], [chance, 1.0 - chance], rng_seed=rng_seed)''',
     '''    weights = [chance, 1.0 - chance]
    return Choice(items=[True, False], weights=weights, rng_seed=rng_seed)'''))
ref('choice-unique',
    (C, '''            return len(set(self._shuffled[self._shuffled_index:]))''',
     '''            remaining = self._shuffled[self._shuffled_index:]
            return len(set(remaining))'''))
ref('choice-unique2',
    (C, '''            return self.num_unique_items == self.num_unique_values
        return False''', '''            return self.num_unique_values == self._num_unique_items
        return False'''))
ref('choice-ones',
    (C, '''        weights = self.weights or [1] * num_items''',
     '''        weights = self._weights
        if not weights:
            weights = [1 for _ in range(num_items)]'''))
ref('choice-split',
    (C, '''        if self._weights is None and number == 1:
            return [self.rng.choice(self._items)]
        return self.rng.choices(self._items, cum_weights=self._cum_weights,
                                k=number)''',
     '''        rng = self.rng
        if number == 1 and self._weights is None:
            item = rng.choice(self._items)
            return [item]
        return rng.choices(self._items, cum_weights=self._cum_weights,
                           k=number)'''))

# --- text
ref('text-alphabet',
    (T, '''    return [
        chr(code) for (start, end) in uchar_ranges
        for code in range(start, end + 1)
    ]''', '''    chars = []
    for start, end in uchar_ranges:
        for code in range(start, end + 1):
            chars.append(chr(code))
    return chars'''))
ref('text-alphabet2',
    (T, '''    return [
        chr(code) for (start, end) in uchar_ranges
        for code in range(start, end + 1)
    ]''', '''    chars: List[str] = []
    for first, last in uchar_ranges:
        chars.extend(map(chr, range(first, last + 1)))
    return chars'''))
ref('text-word-many',
    (T, '''        words = []
        char_index = 0
        for length in lengths:
            words.append(''.join(chars[char_index:char_index+length]))
            char_index += length
        return words''', '''        words = []
        start = 0
        for length in lengths:
            end = start + length
            words.append(''.join(chars[start:end]))
            start = end
        return words'''))
ref('text-word-iter',
    (T, '''        words = []
        char_index = 0
        for length in lengths:
            words.append(''.join(chars[char_index:char_index+length]))
            char_index += length
        return words''', '''        chars_iter = iter(chars)
        return [''.join([next(chars_iter) for _ in range(length)])
                for length in lengths]'''))
ref('text-word-emit',
    (T, '''        return ''.join(self._emitters['alphabet'](self._emitters['length']()))''',
     '''        length = self.length_emitter()
        chars = self.alphabet_emitter(length)
        return ''.join(chars)'''))
ref('text-nuv',
    (T, '''            self._num_unique_values = sum([nchars ** i for i in poss_items])''',
     '''            total = 0
            for i in poss_items:
                total += nchars ** i
            self._num_unique_values = total'''))
ref('text-nuv2',
    (T, '''            self._num_unique_values = sum(nums)''',
     '''            self._num_unique_values = sum(n for n in nums)'''))
ref('text-seps',
    (T, '''        total_seps = sum([max(length - 1, 0) for length in lengths])''',
     '''        total_seps = 0
        for length in lengths:
            if length > 1:
                total_seps += length - 1'''))
ref('text-seps2',
    (T, '''        total_seps = sum([max(length - 1, 0) for length in lengths])''',
     '''        total_seps = sum(n - 1 for n in lengths if n > 0)'''))
ref('text-render',
    (T, '''            render = []
            if length:
                render.append(next(words))
                for _ in range(1, length):
                    render.extend([next(seps, ' '), next(words)])
            texts.append(''.join(render))''',
     '''            texts.append(self._render(length, words, seps))'''),
    (T, '''    def _get_words_iterator(''', '''    @staticmethod
    def _render(length: int, words: Iterator[str],
                seps: Iterator[str]) -> str:
        parts = []
        for i in range(length):
            if i:
                parts.append(next(seps, ' '))
            parts.append(next(words))
        return ''.join(parts)

    def _get_words_iterator('''))
ref('text-render-plus',
    (T, '''            render = []
            if length:
                render.append(next(words))
                for _ in range(1, length):
                    render.extend([next(seps, ' '), next(words)])
            texts.append(''.join(render))''',
     '''            text = next(words) if length else ''
            for _ in range(length - 1):
                text += next(seps, ' ')
                text += next(words)
            texts.append(text)'''))
ref('text-words-inline',
    (T, '''                        for word in self._emitters['word'](needed):
                            yield word
                        self._emitters['word'].reset()
                        remainder -= needed''',
     '''                        yield from self._emitters['word'](needed)
                        remainder -= needed
                        self._emitters['word'].reset()'''))
ref('text-words-min',
    (T, '''                        needed = clamp(num_unique, mx=remainder)''',
     '''                        needed = min(num_unique, remainder)'''))
ref('text-reset',
    (T, '*', '''        super().reset()
        self._emitters.setattr('rng_seed', self.rng_seed)
        self._emitters.do_method('reset')''',
     '''        emitters = self._emitters
        super().reset()
        emitters.setattr('rng_seed', self.rng_seed)
        emitters.do_method('reset')'''))

# --- wrappers
ref('wrap-many-args',
    (W, '''        emdata = [(k, em(number)) for k, em in self._emitters.items()]
        return [
            self._wrapper(**{k: v[i] for k, v in emdata})
            for i in range(number)
        ]''', '''        columns = {k: em(number) for k, em in self._emitters.items()}
        results = []
        for i in range(number):
            kwargs = {k: vals[i] for k, vals in columns.items()}
            results.append(self._wrapper(**kwargs))
        return results'''))
ref('wrap-many-loop',
    (W, '''        emdata = [(k, em(number)) for k, em in self._emitters.items()]
        return [
            self._wrapper(**{k: v[i] for k, v in emdata})
            for i in range(number)
        ]''', '''        emdata = []
        for key, emitter in self._emitters.items():
            emdata.append((key, emitter(number)))
        output = []
        for i in range(number):
            output.append(self._wrapper(**{k: v[i] for k, v in emdata}))
        return output'''))
ref('wrap-one-map',
    (W, '''        return [self._wrapper(v) for v in self._emitters['source'](number)]''',
     '''        values = self._emitters['source'](number)
        return list(map(self._wrapper, values))'''))
ref('wrap-one-loop',
    (W, '''        return [self._wrapper(v) for v in self._emitters['source'](number)]''',
     '''        wrapper = self._wrapper
        results = []
        for value in self._emitters['source'](number):
            results.append(wrapper(value))
        return results'''))
ref('wrap-bound-kw',
    (W, '''        if self._wants_rng:
            return self._function(*args, rng=self.bound_to.rng, **kwargs)
        return self._function(*args, **kwargs)''',
     '''        extra = {'rng': self.bound_to.rng} if self._wants_rng else {}
        return self._function(*args, **extra, **kwargs)'''))
ref('wrap-bound-kw2',
    (W, '''        if self._wants_rng:
            return self._function(*args, rng=self.bound_to.rng, **kwargs)
        return self._function(*args, **kwargs)''',
     '''        if self._wants_rng:
            kwargs['rng'] = self.bound_to.rng
        return self._function(*args, **kwargs)'''))
ref('wrap-getattr',
    (W, '''        if hasattr(function, 'function'):
            self.function = function.function
        else:
            self.function = function
''', '''        self.function = getattr(function, 'function', function)
'''))
ref('wrap-setter',
    (W, '''        try:
            wrapper.try_mock_call(self._emitters['source']())
        except TypeError:
            raise
        finally:''', '''        try:
            value = self._emitters['source']()
            wrapper.try_mock_call(value)
        finally:'''))
ref('wrap-sig',
    (W, '''            self._signature: Optional[Signature] = signature(function)
        except ValueError:
            self._signature = None
            self._wants_rng = False
        else:
            self._wants_rng = 'rng' in self._signature.parameters''',
     '''            sig: Optional[Signature] = signature(function)
        except ValueError:
            sig = None
        self._signature = sig
        self._wants_rng = sig is not None and 'rng' in sig.parameters'''))

# --- fromfields
ref('ff-copy',
    (FF, '''            val = field.previous
            if val is not None:
                if not isinstance(val, (list, tuple)):
                    val = [val]
                vals.extend(val)''', '''            val = field.previous
            if val is None:
                continue
            if isinstance(val, (list, tuple)):
                vals.extend(val)
            else:
                vals.append(val)'''))
ref('ff-copy-join',
    (FF, '''        return self.separator.join([str(v) for v in vals])''',
     '''        strings = map(str, vals)
        return self.separator.join(strings)'''))
ref('ff-copy-none',
    (FF, '''        if self.separator is None:
            return vals or None
        return''', '''        if self.separator is None:
            if not vals:
                return None
            return vals
        return'''))
ref('ff-many',
    (FF, '*', '''        return [self.emit()] * number''',
     '''        value = self.emit()
        return [value for _ in range(number)]'''))
ref('ff-based',
    (FF, '''        if len(self.source) == 1:
            return self._action(self.source[0].previous)
        kwargs = {field.name: field.previous for field in self.source}
        return self._action(**kwargs)''', '''        if len(self.source) != 1:
            kwargs = {}
            for field in self.source:
                kwargs[field.name] = field.previous
            return self._action(**kwargs)
        (only,) = self.source
        return self._action(only.previous)'''))
ref('ff-single',
    (FF, '''        if len(self) == 1 and self._init_as_single_valued:
            return not list(self)[0].multi_valued
        return False''', '''        if not self._init_as_single_valued or len(self) != 1:
            return False
        return not self[0].multi_valued'''))
ref('ff-group',
    (FF, '''        if isinstance(fields, Sequence):
            super().__init__(*fields)
            self._init_as_single_valued = False
        else:
            super().__init__(fields)
            self._init_as_single_valued = True''',
     '''        many = isinstance(fields, Sequence)
        if many:
            super().__init__(*fields)
        else:
            super().__init__(fields)
        self._init_as_single_valued = not many'''))
ref('ff-action',
    (FF, '''        if len(self.source) == 1:
            args = [self.source[0]()]
            kwargs = {}
        else:
            args = []
            kwargs = {field.name: field() for field in self.source}''',
     '''        args: List[Any] = []
        kwargs = {}
        if len(self.source) == 1:
            args.append(self.source[0]())
        else:
            for field in self.source:
                kwargs[field.name] = field()'''))

# --- dtrange
ref('dt-index',
    (D, '''        if not rem and index in self._index_range[start:stop]:''',
     '''        if rem == timedelta(0) and index in self._index_range[start:stop]:'''))
ref('dt-eq',
    (D, '''        my_len = len(self)
        other_len = len(other)
        if my_len != other_len:
            return False
        if my_len == 0:
            return True
        if my_len == 1:
            return self.start == other.start
        return (self.start, self.step) == (other.start, other.step)''',
     '''        if len(self) != len(other):
            return False
        if not len(self):
            return True
        if self.start != other.start:
            return False
        return len(self) == 1 or self.step == other.step'''))
ref('dt-hash',
    (D, '''        my_len = len(self)
        start = self.start if my_len > 0 else None
        step = self.step if my_len > 1 else None
        return hash((type(self), my_len, start, step))''',
     '''        key = [type(self), len(self)]
        if len(self) > 0:
            key.append(self.start)
        if len(self) > 1:
            key.append(self.step)
        return hash(tuple(key))'''))
ref('dt-getitem',
    (D, '''        try:
            index_num = self._index_range[index]
        except IndexError:
            raise IndexError(f'{type(self).__name__} object index out of '
                             f'range')
        return _index_to_value(index_num, self._start, self._step)''',
     '''        try:
            position = self._index_range[index]
        except IndexError:
            name = type(self).__name__
            raise IndexError(f'{name} object index out of range')
        else:
            return _index_to_value(position, self.start, self.step)'''))
ref('dt-contains',
    (D, '''        if isinstance(value, type(self.start)):
            try:
                self.index(value)
            except ValueError:
                pass
            else:
                return True
        return False''', '''        if not isinstance(value, type(self.start)):
            return False
        try:
            self.index(value)
        except ValueError:
            return False
        return True'''))
ref('dt-count',
    (D, '''        return 1 if value in self else 0''',
     '''        return int(value in self)'''))
ref('dt-length',
    (D, '''    length += 1 if rem else 0
    return DateOrTimeRange(start_obj, max(length, 0), step_td)''',
     '''    if rem:
        length = length + 1
    if length < 0:
        length = 0
    return DateOrTimeRange(start_obj, length, step_td)'''))
ref('dt-unit',
    (D, '''    if step_unit is None:
        step_unit = 'seconds' if hasattr(start_obj, 'second') else 'days\'''',
     '''    if step_unit is None:
        has_time = isinstance(start_obj, (datetime, time))
        step_unit = 'seconds' if has_time else 'days\''''))
ref('dt-parse',
    (D, '''            fromisoformat = getattr(dtype, 'fromisoformat')
            try:
                return fromisoformat(val)  # type: ignore[no-any-return]
            except ValueError:
                pass''', '''            try:
                return dtype.fromisoformat(val)
            except ValueError:
                continue'''))
ref('dt-value',
    (D, '''        if value < start and step_secs > 0:
            valdate = date(99, 1, 3)
        elif value > start and step_secs < 0:
            valdate = date(99, 1, 1)
        else:
            valdate = startdate''', '''        valdate = startdate
        if step_secs > 0:
            if value < start:
                valdate = startdate + timedelta(days=1)
        elif step_secs < 0 and value > start:
            valdate = startdate - timedelta(days=1)'''))
ref('dt-stop',
    (D, '''        if not hasattr(self, '_stop'):
            self._stop: DT = _index_to_value(len(self), self.start, self.step)
        return self._stop''',
     '''        return _index_to_value(len(self), self.start, self.step)'''))
ref('dt-slice',
    (D, '''            slc = self._index_range[index]
            if not slc:''', '''            slc = range(len(self))[index]
            if len(slc) == 0:'''))

# --- warn
ref('warn-early',
    (WN, '''    if attr_name in deprecated:
        new_name, attr_value = deprecated[attr_name]''',
     '''    entry = deprecated.get(attr_name)
    if entry is not None:
        new_name, attr_value = entry'''))


def apply(rid, root):
    for ed in R[rid]:
        f, rest = ed[0], ed[1:]
        p = f'{root}/src/fauxdoc/{f}'
        s = re.sub(r'^ *#.*\n', '', open(p).read(), flags=re.M)
        if rest[0] == '*':
            old, new = rest[1:]
            if old not in s:
                return f'not found in {f}: {old[:60]}'
            s = s.replace(old, new)
        else:
            old, new = rest
            if s.count(old) < 1:
                return f'not found in {f}: {old[:60]}'
            s = s.replace(old, new, 1)
        open(p, 'w').write(s)
    return None


PROPS = {G: '3', M: '1 2 4 6 7 9 10', X: '2 3 4 21', P: '2 3 4 17 18',
         E_: '1 5 11 12', F: '1 2 4 11 21', C: '1 2 4 5 6 7 8 10 21',
         T: '1 2 3 4 12 13 21', W: '1 2 3 4 20 22',
         FF: '1 3 4 19 20', D: '14 15 16', WN: '22'}


def one(job):
    rid, props = job
    tmp = tempfile.mkdtemp(prefix='refac_')
    out = []
    try:
        shutil.copytree('/repo', tmp + '/repo', symlinks=True)
        e = apply(rid, tmp + '/repo')
        if e:
            return rid, e
        p = subprocess.run(
            [sys.executable, '-m', 'compileall', '-q', tmp + '/repo/src'],
            capture_output=True, text=True)
        if p.returncode:
            return rid, 'does not compile'
        env = dict(os.environ, FAUXDOC_REPO=tmp + '/repo',
                   VERIF_EVIDENCE=tmp)
        for prop in props:
            t = time.time()
            p = subprocess.run([PY, 'check.py', prop], cwd=VERIF, env=env,
                               timeout=1800, capture_output=True, text=True)
            o = p.stdout.strip().split('\n')
            und = [x for x in o if x.startswith('undecided')]
            bad = [x for x in o if x.startswith(('VIOLATION', 'failed obl',
                                                 'failing case', 'monitor'))]
            s = f'{prop} rc={p.returncode} {time.time() - t:.0f}s'
            if und:
                s += f' {len(und)} undecided: {und[0][:260]}'
            if bad or p.returncode:
                s = '*** ' + s + ' ' + ' | '.join(bad)[:400] + \
                    p.stderr[-200:]
            if und or bad or p.returncode:
                out.append(s)
        return rid, '\n      '.join([f'{len(props)} checks'] + out)
    finally:
        shutil.rmtree(tmp)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    jobs = []
    for rid in R:
        if args and not any(rid.startswith(a) for a in args):
            continue
        props = sorted({int(x) for ed in R[rid] for x in
                        PROPS[ed[0]].split()})
        jobs.append((rid, ['C%02d' % x for x in props]))
    with ThreadPoolExecutor(2) as ex:
        for rid, s in ex.map(one, jobs):
            print(rid, s, flush=True)


if __name__ == '__main__':
    main()
