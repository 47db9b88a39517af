# --- group
rw('group.py', 'GroupMixin.setattr', '''
def setattr(self, attr_name: str, attr_value: Any) -> None:
    have = (o for o in self.objects_iterable
            if o is not None and hasattr(o, attr_name))
    for obj in have:
        setattr(obj, attr_name, attr_value)
''')
rw('group.py', 'GroupMixin.do_method', '''
def do_method(self, method_name: str, *args: Any, **kwargs: Any) -> None:
    for obj in self.objects_iterable:
        if obj is None:
            continue
        with contextlib.suppress(AttributeError):
            getattr(obj, method_name)(*args, **kwargs)
''', top='import contextlib')
rw('group.py', 'GroupMixin.do_method', '''
def do_method(self, method_name: str, *args: Any, **kwargs: Any) -> None:
    objects = list(self.objects_iterable)
    position = 0
    while position < len(objects):
        obj = objects[position]
        position += 1
        if obj is None:
            continue
        try:
            method = getattr(obj, method_name)
            method(*args, **kwargs)
        except AttributeError:
            continue
''')
rw('group.py', 'GroupMixin.setattr', '''
def setattr(self, attr_name: str, attr_value: Any) -> None:
    for obj in filter(lambda o: o is not None, self.objects_iterable):
        if hasattr(obj, attr_name):
            setattr(obj, attr_name, attr_value)
''')
rw('group.py', 'ObjectMap.objects_iterable', '''
@property
def objects_iterable(self) -> Iterable[T]:
    return [self[key] for key in self]
''')
rw('group.py', 'ObjectMap.objects_iterable', '''
@property
def objects_iterable(self) -> Iterable[T]:
    return tuple(obj for _, obj in self.items())
''')
# --- mathtools
rw('mathtools.py', 'gaussian', '''
def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
    z = (x - mu) / sigma
    return math.exp(-z * z / 2) / (math.sqrt(2 * math.pi) * sigma)
''')
rw('mathtools.py', 'gaussian', '''
def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
    variance = sigma ** 2
    factor = 1 / (math.sqrt(2 * math.pi) * sigma)
    return factor * math.exp(-((x - mu) ** 2) / (2 * variance))
''')
rw('mathtools.py', 'clamp', '''
def clamp(number: F, mn: Optional[F] = None, mx: Optional[F] = None) -> F:
    too_small = mn is not None and number < mn
    too_big = mx is not None and number > mx
    if too_small:
        return mn
    return mx if too_big else number
''')
rw('mathtools.py', 'clamp', '''
def clamp(number: F, mn: Optional[F] = None, mx: Optional[F] = None) -> F:
    return (mn if mn is not None and mn > number
            else mx if mx is not None and mx < number else number)
''')
rw('mathtools.py', 'poisson', '''
def poisson(x: int, mu: float = 1) -> float:
    try:
        power = mu ** x
        decay = math.exp(-mu)
        return power * decay / math.factorial(x)
    except OverflowError:
        pass
    if mu == 0:
        return 0.0
    log_p = x * math.log(mu) - mu - math.lgamma(x + 1)
    return math.exp(log_p)
''')
rw('mathtools.py', 'weighted_shuffle', '''
def weighted_shuffle(items: Sequence[T], weights: Sequence[float],
                     rng: random.Random = random.Random(),
                     number: Optional[int] = None) -> List[T]:
    nitems, nweights = len(items), len(weights)
    if nitems != nweights:
        raise ValueError(
            f"Mismatched number of choices ({nitems}) to choice weights "
            f"({nweights}). These amounts must match."
        )
    if number is None:
        number = nitems
    if number > nitems * 0.42:
        return _by_score(items, weights, rng, number)
    return _by_rejection(items, weights, rng, number)
''', top='''
def _by_rejection(items: Sequence[T], weights: Sequence[float],
                  rng: random.Random, k: int) -> List[T]:
    left = list(weights)
    indexes = range(len(items))
    sample: List[T] = []
    while len(sample) < k:
        for i in rng.choices(indexes, left, k=k - len(sample)):
            if left[i]:
                left[i] = 0.0
                sample.append(items[i])
    return sample


def _by_score(items: Sequence[T], weights: Sequence[float],
              rng: random.Random, k: int) -> List[T]:
    scored = []
    for weight, item in zip(weights, items):
        if weight:
            score = math.log(rng.random() or sys.float_info.min) / weight
        else:
            score = -math.inf
        scored.append((score, item))
    scored.sort(key=lambda pair: pair[0], reverse=True)
    return [item for _, item in scored[:k]]
''')
rw('mathtools.py', 'weighted_shuffle', '''
def weighted_shuffle(items: Sequence[T], weights: Sequence[float],
                     rng: random.Random = random.Random(),
                     number: Optional[int] = None) -> List[T]:
    if len(items) != len(weights):
        raise ValueError(
            f"Mismatched number of choices ({len(items)}) to choice weights "
            f"({len(weights)}). These amounts must match."
        )
    if number is None:
        number = len(items)

    def low() -> List[T]:
        ws = list(weights)
        picked: List[int] = []
        while True:
            missing = number - len(picked)
            if missing == 0:
                return [items[i] for i in picked]
            for i in rng.choices(range(len(items)), ws, k=missing):
                if ws[i] != 0:
                    picked.append(i)
                    ws[i] = 0.0

    def high() -> List[T]:
        def score(w: float) -> float:
            if not w:
                return -math.inf
            return math.log(rng.random() or sys.float_info.min) / w
        scores = [score(w) for w in weights]
        order = sorted(range(len(items)), key=lambda i: scores[i],
                       reverse=True)
        return [items[i] for i in order[:number]]

    return low() if number <= len(items) * 0.42 else high()
''')
# --- mixins
rw('mixins.py', 'RandomMixin.reset', '''
def reset(self) -> None:
    self.rng = random.Random(self.rng_seed)
    parent_reset = getattr(super(), 'reset', None)
    if parent_reset is not None:
        parent_reset()
''')
rw('mixins.py', 'RandomMixin.seed', '''
def seed(self, rng_seed: Any) -> None:
    self.rng_seed = rng_seed
    self.rng.seed(self.rng_seed)
    try:
        parent_seed = super().seed
    except AttributeError:
        return
    parent_seed(rng_seed)
''')
rw('mixins.py', 'RandomMixin.__init__', '''
def __init__(self, *args: Any, rng_seed: Any = None,
             **kwargs: Any) -> None:
    self.rng_seed = rng_seed
    super().__init__(*args, **kwargs)
    self.reset()
''')
rw('mixins.py', 'ItemsMixin.num_unique_values', '''
@property
def num_unique_values(self) -> int:
    unique = set()
    for item in self._items:
        unique.add(item)
    return len(unique)
''')
rw('mixins.py', 'ItemsMixin.num_unique_values', '''
@property
def num_unique_values(self) -> int:
    return len({item for item in self._items})
''')
rw('mixins.py', 'ItemsMixin.num_unique_values', '''
@property
def num_unique_values(self) -> int:
    return len(dict.fromkeys(self._items))
''')
rw('mixins.py', 'ItemsMixin.num_unique_values', '''
@property
def num_unique_values(self) -> int:
    return len(frozenset(self.items))
''')
rw('mixins.py', 'ChildrenMixin.__init__', '''
def __init__(self, *args: Any, children: Any = None,
             **kwargs: Any) -> None:
    self._emitters: ObjectMap[EmitterLike[Any]] = ObjectMap(children or {})
    super().__init__(*args, **kwargs)
''')
rw('mixins.py', 'RandomWithChildrenMixin.seed', '''
def seed(self, rng_seed: Any) -> None:
    self._emitters.do_method('seed', rng_seed)
    super().seed(rng_seed)
''')
rw('mixins.py', 'RandomWithChildrenMixin.seed', '''
def seed(self, rng_seed: Any) -> None:
    RandomMixin.seed(self, rng_seed)
    self.emitters.do_method('seed', rng_seed)
''')
# --- emitter
rw('emitter.py', 'Emitter.__call__', '''
def __call__(self,
             number: Optional[int] = None) -> Union[CT, List[CT]]:
    if number is None or number == 1:
        value = self.emit()
        return value if number is None else [value]
    return self.emit_many(number)
''')
rw('emitter.py', 'Emitter.__call__', '''
def __call__(self,
             number: Optional[int] = None) -> Union[CT, List[CT]]:
    result: Union[CT, List[CT]]
    match number:
        case None:
            result = self.emit()
        case 1:
            result = [self.emit()]
        case _:
            result = self.emit_many(number)
    return result
''')
# --- fixed
rw('emitters/fixed.py', 'Static.emit_many', '''
def emit_many(self, number: int) -> List[T]:
    return [self._value for _ in range(number)]
''')
rw('emitters/fixed.py', 'Static.emit_many', '''
def emit_many(self, number: int) -> List[T]:
    return list(itertools.repeat(self._value, max(number, 0)))
''')
rw('emitters/fixed.py', 'Iterative.make_infinite_iter', '''
@staticmethod
def make_infinite_iter(factory: Callable[[], Iterator[T]]) -> Iterator[T]:
    while True:
        iterator = factory()
        for item in iterator:
            yield item
''')
rw('emitters/fixed.py', 'Iterative.make_infinite_iter', '''
@staticmethod
def make_infinite_iter(factory: Callable[[], Iterator[T]]) -> Iterator[T]:
    return itertools.chain.from_iterable(iter(factory, object()))
''')
rw('emitters/fixed.py', 'Iterative.emit_many', '''
def emit_many(self, number: int) -> List[T]:
    values: List[T] = []
    for _ in range(number):
        values.append(next(self._iterator))
    if self.reset_after_call:
        self.reset()
    return values
''')
rw('emitters/fixed.py', 'Iterative.emit_many', '''
def emit_many(self, number: int) -> List[T]:
    values = [v for v, _ in zip(self._iterator, range(number))]
    if self.reset_after_call:
        self.reset()
    return values
''') if 0 else None
rw('emitters/fixed.py', 'Iterative.emit_many', '''
def emit_many(self, number: int) -> List[T]:
    try:
        return [next(self._iterator) for _ in range(number)]
    finally:
        if self.reset_after_call:
            self.reset()
''')
rw('emitters/fixed.py', 'Sequential.emit_many', '''
def emit_many(self, number: int) -> List[T]:
    values = list(itertools.islice(self._iterator, number))
    if not self.reset_after_call:
        return values
    self.reset()
    return values
''')
rw('emitters/fixed.py', 'Sequential.emit', '''
def emit(self) -> T:
    (value,) = self.emit_many(1)
    return value
''')
rw('emitters/fixed.py', 'Sequential.reset', '''
def reset(self) -> None:
    self._iterator = itertools.cycle(self._items)
''') if 0 else None
rw('emitters/fixed.py', 'Iterative.check_iter_factory', '''
@staticmethod
def check_iter_factory(factory: Callable[[], Iterator[T]]) -> None:
    missing = object()
    if next(factory(), missing) is missing:
        raise ValueError(
            'The provided iterator factory appears to return an empty '
            'iterator. This will result in an infinite loop while trying '
            'to emit values.'
        )
''')
rw('emitters/fixed.py', 'Static.value:setter', '''
@value.setter
def value(self, value: T) -> None:
    self._items = [value]
    self._value = value
''')
