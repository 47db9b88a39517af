CC = 'emitters/choice.py'
TT = 'emitters/text.py'
DD = 'dtrange.py'
rw(CC, 'Choice._global_shuffle', '''
def _global_shuffle(self) -> None:
    weights = self._weights
    if weights is None:
        weights = [1 for _ in self._items]
    self._shuffled_index = 0
    self._num_unique_items = len(self._items)
    self._shuffled = weighted_shuffle(self._items, weights, self.rng)
''')
rw(CC, 'Choice._choice_without_replacement', '''
def _choice_without_replacement(self, number: int) -> List[T]:
    if number > self._num_unique_items:
        self.raise_uniqueness_violation(number)
    if self._replace:
        if self._weights is None:
            return self.rng.sample(self._items, number)
        return weighted_shuffle(self._items, self._weights, self.rng, number)
    first = self._shuffled_index
    self._shuffled_index = first + number
    self._num_unique_items -= number
    return list(self._shuffled[first:first + number])
''')
rw(CC, 'Choice._choice_without_replacement', '''
def _choice_without_replacement(self, number: int) -> List[T]:
    if number > self._num_unique_items:
        self.raise_uniqueness_violation(number)
    if self._replace:
        return self._sample(number)
    items = []
    for _ in range(number):
        items.append(self._shuffled[self._shuffled_index])
        self._shuffled_index += 1
        self._num_unique_items -= 1
    return items
''', after='''
def _sample(self, number: int) -> List[T]:
    if self._weights is None:
        return self.rng.sample(self._items, k=number)
    return weighted_shuffle(self._items, self._weights, self.rng, number)
''')
rw(CC, 'Choice._choice_without_replacement', '''
def _choice_without_replacement(self, number: int) -> List[T]:
    if number > self._num_unique_items:
        self.raise_uniqueness_violation(number)
    if not self._replace:
        start = self._shuffled_index
        items = [self._shuffled[start + k] for k in range(number)]
        self._shuffled_index += number
        self._num_unique_items = len(self._items) - self._shuffled_index
        return items
    if self._weights is None:
        return self.rng.sample(self._items, k=number)
    return weighted_shuffle(self._items, self._weights, self.rng, number)
''')
rw(CC, 'Choice._choice_with_replacement', '''
def _choice_with_replacement(self, number: int) -> List[T]:
    items = self._items
    if len(items) == 1:
        return [items[0]] * number
    if number == 1 and self._weights is None:
        return [self.rng.choice(items)]
    return self.rng.choices(items, cum_weights=self._cum_weights, k=number)
''')
rw(CC, 'Choice._choice_with_replacement', '''
def _choice_with_replacement(self, number: int) -> List[T]:
    if len(self._items) == 1:
        return [self._items[0] for _ in range(number)]
    if self._weights is None:
        if number == 1:
            return [self.rng.choice(self._items)]
        return self.rng.choices(self._items, k=number)
    return self.rng.choices(self._items, cum_weights=self._cum_weights,
                            k=number)
''')
rw(CC, 'Choice.emit', '''
def emit(self) -> T:
    draw = (self._choice_with_replacement if self._replace
            else self._choice_without_replacement)
    return draw(1)[0]
''')
rw(CC, 'Choice.emit_many', '''
def emit_many(self, number: int) -> List[T]:
    unique = not self._replace
    if self._replace_only_after_call and number > 1:
        unique = True
    if unique:
        return self._choice_without_replacement(number)
    return self._choice_with_replacement(number)
''')
rw(CC, 'Choice.emits_unique_values', '''
@property
def emits_unique_values(self) -> bool:
    return (not self._replace
            and self.num_unique_values == self.num_unique_items)
''')
rw(CC, 'Choice.num_unique_values', '''
@property
def num_unique_values(self) -> int:
    if self._replace:
        return super().num_unique_values
    remaining = self._shuffled[self._shuffled_index:]
    return len(set(remaining))
''')
rw(CC, 'Choice.num_unique_values', '''
@property
def num_unique_values(self) -> int:
    if self._replace:
        return super().num_unique_values
    seen = set()
    for k in range(self._shuffled_index, len(self._shuffled)):
        seen.add(self._shuffled[k])
    return len(seen)
''')
rw(CC, 'Choice._set_all_weights', '''
def _set_all_weights(self, weights_to_set: Optional[Sequence[float]] = None,
                     weights_are_cumulative: bool = False,
                     items: Optional[Sequence[T]] = None) -> None:
    if weights_to_set is None:
        self._weights = self._cum_weights = None
        return
    nitems = len(items or self._items)
    nweights = len(weights_to_set)
    if nitems != nweights:
        noun_phr = f"{self.noun} choices" if self.noun else "choices"
        v_phr = 'cum_weights' if weights_are_cumulative else 'weights'
        raise ValueError(
            f"Mismatched number of {noun_phr} ({nitems}) to choice {v_phr} "
            f"({nweights}). These amounts must match."
        )
    given = tuple(weights_to_set)
    if weights_are_cumulative:
        self._cum_weights = given
        self._weights = tuple(
            b - a for a, b in zip((0,) + given, given))
    else:
        self._weights = given
        self._cum_weights = tuple(itertools.accumulate(given))
''')
rw(CC, 'Choice._set_all_weights', '''
def _set_all_weights(self, weights_to_set: Optional[Sequence[float]] = None,
                     weights_are_cumulative: bool = False,
                     items: Optional[Sequence[T]] = None) -> None:
    weights: Any = None
    cum_weights: Any = None
    if weights_to_set is not None:
        self._check_number(weights_to_set, weights_are_cumulative,
                           items or self._items)
        if weights_are_cumulative:
            cum_weights = tuple(weights_to_set)
            weights = tuple(
                w if not i else w - cum_weights[i - 1]
                for i, w in enumerate(cum_weights))
        else:
            weights = tuple(weights_to_set)
            total: float = 0
            sums = []
            for w in weights:
                total += w
                sums.append(total)
            cum_weights = tuple(sums)
    self._weights = weights
    self._cum_weights = cum_weights
''', after='''
def _check_number(self, weights: Sequence[float], cumulative: bool,
                  items: Sequence[T]) -> None:
    if len(items) == len(weights):
        return
    noun_phr = f"{self.noun} choices" if self.noun else "choices"
    v_phr = 'cum_weights' if cumulative else 'weights'
    raise ValueError(
        f"Mismatched number of {noun_phr} ({len(items)}) to choice {v_phr} "
        f"({len(weights)}). These amounts must match."
    )
''')
rw(CC, 'Choice.replace:setter', '''
@replace.setter
def replace(self, replace: bool) -> None:
    if replace == self._replace:
        return
    self._replace = replace
    if not replace:
        self._replace_only_after_call = False
        self._global_shuffle()
        return
    self._num_unique_items = len(self._items)
''')
rw(CC, 'Choice.replace_only_after_call:setter', '''
@replace_only_after_call.setter
def replace_only_after_call(self, replace_only_after_call: bool) -> None:
    if replace_only_after_call:
        self.replace = True
    self._replace_only_after_call = replace_only_after_call
''')
rw(CC, 'Choice.reset', '''
def reset(self) -> None:
    super().reset()
    self._reshuffle()
''', after='''
def _reshuffle(self) -> None:
    if self._replace:
        return
    self._global_shuffle()
''')
rw(CC, 'chance', '''
def chance(chance: float, rng_seed: Any = None) -> Choice[bool]:
    outcomes = [True, False]
    weights = [chance, 1.0 - chance]
    return Choice(outcomes, weights=weights, rng_seed=rng_seed)
''')
rw(CC, 'poisson_choice', '''
def poisson_choice(items: Sequence[T], mu: int = 1, weight_floor: float = 0,
                   replace: bool = True,
                   replace_only_after_call: bool = False, noun: str = '',
                   rng_seed: Any = None) -> Choice[T]:
    weights = []
    for position, _ in enumerate(items, start=1):
        weights.append(clamp(poisson(position, mu), mn=weight_floor))
    return Choice(items, weights, replace, replace_only_after_call, noun,
                  rng_seed)
''')
rw(CC, 'gaussian_choice', '''
def gaussian_choice(items: Sequence[T], mu: float = 0, sigma: float = 1,
                    weight_floor: float = 0, replace: bool = True,
                    replace_only_after_call: bool = False, noun: str = '',
                    rng_seed: Any = None) -> Choice[T]:
    def weight(x: int) -> float:
        w = gaussian(x, mu, sigma)
        return weight_floor if w < weight_floor else w
    return Choice(items, [weight(i + 1) for i in range(len(items))], replace,
                  replace_only_after_call, noun, rng_seed)
''')
# --- text
rw(TT, 'make_alphabet', '''
def make_alphabet(uchar_ranges: Optional[Sequence[Tuple[int, int]]] = None
                  ) -> List[str]:
    if not uchar_ranges:
        uchar_ranges = _DEFAULT_RANGES
    chars: List[str] = []
    for start, end in uchar_ranges:
        for code in range(start, end + 1):
            chars.append(chr(code))
    return chars
''', top='''
_DEFAULT_RANGES = (
    (0x0021, 0x0021), (0x0023, 0x0026), (0x0028, 0x007E), (0x00A1, 0x00AC),
    (0x00AE, 0x00FF)
)
''')
rw(TT, 'make_alphabet', '''
def make_alphabet(uchar_ranges: Optional[Sequence[Tuple[int, int]]] = None
                  ) -> List[str]:
    ranges = uchar_ranges or [
        (0x0021, 0x0021), (0x0023, 0x0026), (0x0028, 0x007E),
        (0x00A1, 0x00AC), (0x00AE, 0x00FF)
    ]
    codes = itertools.chain.from_iterable(
        range(first, last + 1) for first, last in ranges)
    return list(map(chr, codes))
''', top='import itertools')
rw(TT, 'Word.emit', '''
def emit(self) -> str:
    length = self._emitters['length']()
    chars = self._emitters['alphabet'](length)
    word = ''
    for char in chars:
        word += char
    return word
''')
rw(TT, 'Word.emit_many', '''
def emit_many(self, number: int) -> List[str]:
    lengths = self._emitters['length'](number)
    chars = iter(self._emitters['alphabet'](sum(lengths)))
    return [''.join(itertools.islice(chars, n)) for n in lengths]
''', top='import itertools')
rw(TT, 'Word.emit_many', '''
def emit_many(self, number: int) -> List[str]:
    lengths = self._emitters['length'](number)
    total = sum(lengths)
    chars = self._emitters['alphabet'](total)
    words = []
    end = 0
    for length in lengths:
        start, end = end, end + length
        words.append(''.join(chars[start:end]))
    return words
''')
rw(TT, 'Word.emit_many', '''
def emit_many(self, number: int) -> List[str]:
    lengths = self._emitters['length'](number)
    ends = list(itertools.accumulate(lengths))
    chars = self._emitters['alphabet'](ends[-1] if ends else 0)
    return [''.join(chars[end - n:end]) for n, end in zip(lengths, ends)]
''', top='import itertools')
rw(TT, 'Word._update_num_unique_vals', '''
def _update_num_unique_vals(self) -> None:
    nchars = self._emitters['alphabet'].num_unique_values
    lengths = getattr(self._emitters['length'], 'items', None)
    if nchars is None or lengths is None:
        self._num_unique_values: Optional[int] = None
        return
    self._num_unique_values = sum(nchars ** n for n in lengths)
''')
rw(TT, 'Text._update_num_unique_vals', '''
def _update_num_unique_vals(self) -> None:
    self._num_unique_values: Optional[int] = None
    numwords = self._emitters['numwords']
    n_words = self._emitters['word'].num_unique_values
    n_seps = self._emitters['sep'].num_unique_values
    if n_words is None or n_seps is None or not hasattr(numwords, 'items'):
        return
    self._num_unique_values = sum(
        n_words ** n * n_seps ** (n - 1 if n > 1 else 0)
        for n in numwords.items)
''')
rw(TT, 'Text._get_words_iterator', '''
def _get_words_iterator(self, total: int) -> Iterator[str]:
    word = self._emitters['word']
    unique = 0
    if getattr(word, 'replace_only_after_call', False):
        unique = word.num_unique_values or 0
    if not unique or total <= unique:
        return iter(word(total))
    return self._words_in_rounds(total, unique)
''', after='''
def _words_in_rounds(self, total: int, size: int) -> Iterator[str]:
    left = total
    while left > 0:
        count = min(size, left)
        yield from self._emitters['word'](count)
        self._emitters['word'].reset()
        left -= count
''')
rw(TT, 'Text._get_words_iterator', '''
def _get_words_iterator(self, total: int) -> Iterator[str]:
    word_emitter = self._emitters['word']
    if getattr(word_emitter, 'replace_only_after_call', False):
        num_unique = word_emitter.num_unique_values or 0
        if num_unique and total > num_unique:
            def generator() -> Generator[str, None, None]:
                emitted = 0
                while emitted < total:
                    needed = min(num_unique, total - emitted)
                    for word in self._emitters['word'](needed):
                        yield word
                    self._emitters['word'].reset()
                    emitted += needed
            return generator()
    return iter(word_emitter(total))
''')
rw(TT, 'Text.emit_many', '''
def emit_many(self, number: int) -> List[str]:
    lengths = self._emitters['numwords'](number)
    words = self._get_words_iterator(sum(lengths))
    total_seps = sum(max(n - 1, 0) for n in lengths)
    seps = iter(self._emitters['sep'](total_seps))
    return [self._render(n, words, seps) for n in lengths]
''', after='''
@staticmethod
def _render(length: int, words: Iterator[str], seps: Iterator[str]) -> str:
    if not length:
        return ''
    parts = [next(words)]
    for _ in range(length - 1):
        parts.append(next(seps, ' '))
        parts.append(next(words))
    return ''.join(parts)
''')
rw(TT, 'Text.emit_many', '''
def emit_many(self, number: int) -> List[str]:
    lengths = self._emitters['numwords'](number)
    words = self._get_words_iterator(sum(lengths))
    total_seps = 0
    for length in lengths:
        if length > 1:
            total_seps += length - 1
    seps = iter(self._emitters['sep'](total_seps))
    texts = []
    for length in lengths:
        parts = []
        for position in range(length):
            if position > 0:
                parts.append(next(seps, ' '))
            parts.append(next(words))
        texts.append(''.join(parts))
    return texts
''')
rw(TT, 'Text.emit', '''
def emit(self) -> str:
    texts = self.emit_many(1)
    return texts[0]
''')
rw(TT, 'Text.reset', '''
def reset(self) -> None:
    super().reset()
    for emitter in self._emitters.values():
        if emitter is not None and hasattr(emitter, 'rng_seed'):
            emitter.rng_seed = self.rng_seed
    self._emitters.do_method('reset')
''')
# --- dtrange
rw(DD, '_index_to_value', '''
def _index_to_value(index: int, start: DT, step: timedelta) -> DT:
    if not isinstance(start, time):
        return start + index * step
    within_day = (index * step) % _ONE_DAY
    moment = datetime.combine(date(99, 1, 1), start) + within_day
    return moment.timetz()
''', top='_ONE_DAY = timedelta(days=1)')
rw(DD, '_value_to_index', '''
def _value_to_index(value: DT, start: DT,
                    step: timedelta) -> Tuple[int, timedelta]:
    if not isinstance(start, time):
        return divmod(value - start, step)
    day = 2
    forwards = step.total_seconds() > 0
    backwards = step.total_seconds() < 0
    if forwards and value < start:
        day += 1
    elif backwards and value > start:
        day -= 1
    distance = (datetime.combine(date(99, 1, day), value)
                - datetime.combine(date(99, 1, 2), start))
    return divmod(distance, step)
''')
rw(DD, '_value_to_index', '''
def _value_to_index(value: DT, start: DT,
                    step: timedelta) -> Tuple[int, timedelta]:
    if isinstance(start, time):
        startdate = date(99, 1, 2)
        valdate = startdate
        if step > timedelta(0) and value < start:
            valdate = startdate + timedelta(days=1)
        elif step < timedelta(0) and value > start:
            valdate = startdate - timedelta(days=1)
        difference = (datetime.combine(valdate, value)
                      - datetime.combine(startdate, start))
    else:
        difference = value - start
    return difference // step, difference % step
''')
rw(DD, 'DateOrTimeRange.__eq__', '''
def __eq__(self, other: object) -> bool:
    if not isinstance(other, type(self)):
        return NotImplemented
    n = len(self)
    if n != len(other):
        return False
    if n > 0 and self.start != other.start:
        return False
    return n < 2 or self.step == other.step
''')
rw(DD, 'DateOrTimeRange.__hash__', '''
def __hash__(self) -> int:
    n = len(self)
    if n == 0:
        key = (None, None)
    elif n == 1:
        key = (self.start, None)
    else:
        key = (self.start, self.step)
    return hash((type(self), n) + key)
''')
rw(DD, 'DateOrTimeRange.__getitem__', '''
def __getitem__(self, index: Union[int, slice]) -> Union[Sequence[DT], DT]:
    if not isinstance(index, slice):
        try:
            number = self._index_range[index]
        except IndexError:
            raise IndexError(
                f'{type(self).__name__} object index out of range') from None
        return _index_to_value(number, self.start, self.step)
    picked = self._index_range[index]
    cls = type(self)
    if len(picked) == 0:
        return cls(self.start, 0, self.step)
    factor = picked.step if len(picked) > 1 else 1
    first = _index_to_value(picked[0], self.start, self.step)
    return cls(first, len(picked), self.step * factor)
''')
rw(DD, 'DateOrTimeRange.__contains__', '''
def __contains__(self, value: object) -> bool:
    if not isinstance(value, type(self.start)):
        return False
    try:
        self.index(value)
    except ValueError:
        return False
    return True
''')
rw(DD, 'DateOrTimeRange.count', '''
def count(self, value: DT) -> int:
    return int(value in self)
''')
rw(DD, 'DateOrTimeRange.index', '''
def index(self, value: DT, start: Optional[int] = None,
          stop: Optional[int] = None) -> int:
    found = None
    if isinstance(value, type(self.start)):
        try:
            position, rest = _value_to_index(value, self.start, self.step)
        except TypeError:
            position, rest = -1, None
        if not rest and position in self._index_range[start:stop]:
            found = position
    if found is None:
        raise ValueError(f'{value} is not in range')
    return found
''')
rw(DD, 'dtrange', '''
def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
            step_unit: Optional[str] = None) -> DateOrTimeRange[DT]:
    first = _parse_user_date(start, 'start')
    last = _parse_user_date(stop, 'stop')
    if type(first) != type(last):
        raise ValueError(
            f"The 'start' and 'stop' arguments must be interpretable as the "
            f"same datetime type. The provided arguments appear to be "
            f"different types: `{type(first)}` and `{type(last)}`."
        )
    unit = step_unit
    if unit is None:
        unit = 'seconds' if hasattr(first, 'second') else 'days'
    try:
        delta = timedelta(**{unit: step})
    except TypeError:
        raise ValueError(
            "Invalid 'step_unit' argument. It must be a valid kwarg for "
            "timedelta: weeks, days, hours, minutes, seconds, or "
            "microseconds."
        )
    if isinstance(first, time) and first == last:
        begin = datetime.combine(date(99, 1, 1), first)
        if delta > timedelta(0):
            end = begin + timedelta(days=1)
        else:
            end = begin - timedelta(days=1)
        whole, rest = _value_to_index(end, begin, delta)
    else:
        whole, rest = _value_to_index(last, first, delta)
    length = whole + 1 if rest else whole
    if length < 0:
        length = 0
    return DateOrTimeRange(first, length, delta)
''')
rw(DD, '_parse_user_date', '''
def _parse_user_date(val: Union[DT, str], label: str) -> DT:
    if isinstance(val, (date, time, datetime)):
        return val
    parsed = None
    if isinstance(val, str):
        for dtype in (date, time, datetime):
            try:
                parsed = dtype.fromisoformat(val)
                break
            except ValueError:
                continue
    if parsed is None:
        raise ValueError(
            f"Cannot decipher '{label}' argument date type (`{val}`). It must "
            f"either be an instance of date, datetime, or time (from the "
            f"datetime module), or a string that the `fromisoformat` method "
            f"of one of these types can interpret."
        )
    return parsed
''')
