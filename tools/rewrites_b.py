# --- profile
rw('profile.py', 'Field.__call__', '''
def __call__(self) -> Optional[Union[T, List[T]]]:
    value = None
    if self.gate_emitter():
        number = self.repeat_emitter()
        value = self.emitter(number)
    self._cache = value
    return value
''')
rw('profile.py', 'Field.__call__', '''
def __call__(self) -> Optional[Union[T, List[T]]]:
    if not self._emitters['gate']():
        self._cache = None
        return None
    self._cache = self._emitters['emitter'](self._emitters['repeat']())
    return self._cache
''')
rw('profile.py', 'Field.multi_valued', '''
@property
def multi_valued(self) -> bool:
    for item in getattr(self.repeat_emitter, 'items', [1]):
        if item is not None:
            return True
    return False
''')
rw('profile.py', 'Field.multi_valued', '''
@property
def multi_valued(self) -> bool:
    try:
        items = self.repeat_emitter.items
    except AttributeError:
        return True
    return not all(item is None for item in items)
''')
rw('profile.py', 'Schema.__call__', '''
def __call__(self) -> Dict[str, Any]:
    values = {name: field() for name, field in self.fields.items()}
    return {name: value for name, value in values.items()
            if not self.fields[name].hide}
''')
rw('profile.py', 'Schema.__call__', '''
def __call__(self) -> Dict[str, Any]:
    doc: Dict[str, Any] = {}
    for name in self.fields:
        field = self.fields[name]
        value = field()
        if field.hide:
            continue
        doc[name] = value
    return doc
''')
rw('profile.py', 'Schema.__call__', '''
def __call__(self) -> Dict[str, Any]:
    emitted = [(name, field(), field.hide)
               for name, field in self.fields.items()]
    return dict((name, value) for name, value, hide in emitted if not hide)
''')
rw('profile.py', 'Schema.__call__', '''
def __call__(self) -> Dict[str, Any]:
    doc = {}
    for fname, field in self.fields.items():
        doc[fname] = field()
    for fname in self.hidden_fields:
        del doc[fname]
    return doc
''')
rw('profile.py', 'Schema.hidden_fields', '''
@property
def hidden_fields(self) -> ObjectMap[FieldLike[Any]]:
    hidden = ObjectMap({})
    for name, field in self.fields.items():
        if field.hide:
            hidden[name] = field
    return hidden
''')
rw('profile.py', 'Schema.public_fields', '''
@property
def public_fields(self) -> ObjectMap[FieldLike[Any]]:
    return ObjectMap(dict(
        filter(lambda item: not item[1].hide, self.fields.items())))
''')
rw('profile.py', 'Schema.public_fields', '''
@property
def public_fields(self) -> ObjectMap[FieldLike[Any]]:
    hidden = self.hidden_fields
    return ObjectMap({n: f for n, f in self.fields.items()
                      if n not in hidden})
''')
rw('profile.py', 'Schema.add_fields', '''
def add_fields(self, *fields: FieldLike[Any]) -> None:
    for field in fields:
        self.fields[field.name] = field
''')
rw('profile.py', 'Schema.add_fields', '''
def add_fields(self, *fields: FieldLike[Any]) -> None:
    self.fields.update((field.name, field) for field in fields)
''')
rw('profile.py', 'Schema.set_fields', '''
def set_fields(self, *fields: FieldLike[Any]) -> None:
    self.fields: ObjectMap[FieldLike[Any]] = ObjectMap(
        {field.name: field for field in fields})
''')
rw('profile.py', 'Schema.seed_fields', '''
def seed_fields(self, rng_seed: Any) -> None:
    for field in list(self.fields.values()):
        field.seed(rng_seed)
''') if 0 else None
# --- warn
rw('warn.py', 'get_deprecated_attr', '''
def get_deprecated_attr(
    attr_name: str,
    from_obj_name: str,
    from_type_name: str,
    deprecated: Mapping[str, Tuple[Optional[str], object]]
) -> Any:
    try:
        replacement, value = deprecated[attr_name]
    except KeyError:
        raise AttributeError(
            f'{from_type_name} {from_obj_name} has no attribute '
            f'{attr_name!r}') from None
    message = (f'{from_obj_name}.{attr_name} is deprecated and will be '
               f'removed in the next major version release.')
    if replacement:
        message += f' Please use {replacement} instead.'
    warnings.warn(message, DeprecationWarning)
    return value
''')
# --- fromfields
FFF = 'emitters/fromfields.py'
rw(FFF, 'SourceFieldGroup.__init__', '''
def __init__(self, fields: SourceFields[T]):
    self._init_as_single_valued = not isinstance(fields, Sequence)
    super().__init__(*([fields] if self._init_as_single_valued else fields))
''')
rw(FFF, 'SourceFieldGroup.single_valued', '''
@property
def single_valued(self) -> bool:
    return (self._init_as_single_valued and len(self) == 1
            and not self[0].multi_valued)
''')
rw(FFF, 'CopyFields.emit', '''
def emit(self) -> Optional[Union[T, List[T], str]]:
    if self.source.single_valued:
        return self.source[0].previous
    vals: List[T] = []
    for previous in (field.previous for field in self.source):
        if previous is None:
            continue
        if isinstance(previous, (list, tuple)):
            vals.extend(previous)
        else:
            vals.append(previous)
    if self.separator is not None:
        return self.separator.join(map(str, vals))
    return vals if vals else None
''')
rw(FFF, 'CopyFields.emit', '''
def emit(self) -> Optional[Union[T, List[T], str]]:
    if self.source.single_valued:
        return self.source[0].previous
    vals = self._flatten([f.previous for f in self.source])
    if self.separator is None:
        return vals or None
    return self.separator.join(str(v) for v in vals)
''', after='''
@staticmethod
def _flatten(values: List[Any]) -> List[Any]:
    flat: List[Any] = []
    for value in values:
        if isinstance(value, (list, tuple)):
            flat += list(value)
        elif value is not None:
            flat += [value]
    return flat
''')
rw(FFF, 'CopyFields.emit', '''
def emit(self) -> Optional[Union[T, List[T], str]]:
    source = self.source
    if source.single_valued:
        (field,) = source
        return field.previous
    lists = []
    for field in source:
        val = field.previous
        if val is None:
            lists.append([])
        elif isinstance(val, (list, tuple)):
            lists.append(list(val))
        else:
            lists.append([val])
    vals = [v for one in lists for v in one]
    if self.separator is None:
        if not vals:
            return None
        return vals
    return self.separator.join([str(v) for v in vals])
''')
rw(FFF, 'CopyFields.emit_many', '''
def emit_many(self, number: int) -> List[Optional[Union[T, List[T], str]]]:
    value = self.emit()
    return [value for _ in range(number)]
''')
rw(FFF, 'BasedOnFields.emit_many', '''
def emit_many(self, number: int) -> List[OutputT]:
    value = self.emit()
    values: List[OutputT] = []
    for _ in range(number):
        values.append(value)
    return values
''')
rw(FFF, 'BasedOnFields.emit', '''
def emit(self) -> OutputT:
    if len(self.source) == 1:
        field = self.source[0]
        return self._action(field.previous)
    return self._action(**{f.name: f.previous for f in self.source})
''')
rw(FFF, 'BasedOnFields.emit', '''
def emit(self) -> OutputT:
    args, kwargs = [], {}
    if len(self.source) == 1:
        args.append(self.source[0].previous)
    else:
        for field in self.source:
            kwargs[field.name] = field.previous
    return self._action(*args, **kwargs)
''')
rw(FFF, 'BasedOnFields.action:setter', '''
@action.setter
def action(
    self,
    action: BoundWrapper[FieldReturn[SourceT], OutputT]
) -> None:
    self._action = action
    if len(self.source) == 1:
        args, kwargs = [field() for field in self.source], {}
    else:
        args, kwargs = [], {}
        for field in self.source:
            kwargs[field.name] = field()
    try:
        action.try_mock_call(*args, **kwargs)
    finally:
        self.reset()
''')
# --- wrappers
WW = 'emitters/wrappers.py'
rw(WW, 'BoundWrapper.__init__', '''
def __init__(self, function: Callable[..., OutputT],
             bound_to: ImplementsRNG) -> None:
    self.bound_to = bound_to
    self.function = getattr(function, 'function', function)
''')
rw(WW, 'BoundWrapper.__call__', '''
def __call__(self, *args: SourceT, **kwargs: SourceT) -> OutputT:
    extra = {'rng': self.bound_to.rng} if self._wants_rng else {}
    return self._function(*args, **extra, **kwargs)
''')
rw(WW, 'BoundWrapper.__call__', '''
def __call__(self, *args: SourceT, **kwargs: SourceT) -> OutputT:
    function = self.function
    if not self.wants_rng:
        return function(*args, **kwargs)
    rng = self.bound_to.rng
    return function(*args, rng=rng, **kwargs)
''')
rw(WW, 'BoundWrapper.function:setter', '''
@function.setter
def function(self, function: Callable[..., OutputT]) -> None:
    sig: Optional[Signature] = None
    wants_rng = False
    try:
        sig = signature(function)
        wants_rng = 'rng' in sig.parameters
    except ValueError:
        pass
    self._function = function
    self._signature = sig
    self._wants_rng = wants_rng
''')
rw(WW, 'BoundWrapper.try_mock_call', '''
def try_mock_call(self, *args: Any, **kwargs: Any) -> None:
    if self._wants_rng:
        kwargs = {**kwargs, 'rng': self.bound_to.rng}
    check = self._function if self._signature is None \\
        else self._signature.bind
    try:
        check(*args, **kwargs)
    except TypeError as e:
        call_str = str(call(*args, **kwargs))[4:]
        raise TypeError(
            f"The callback provided to {type(self.bound_to).__name__} does "
            f"not appear to have the correct signature. Attempting a mock "
            f"call using {call_str} raised a TypeError: {e}."
        ) from e
''')
rw(WW, 'WrapOne.wrapper:setter', '''
@wrapper.setter
def wrapper(self, wrapper: BoundWrapper[SourceT, OutputT]) -> None:
    try:
        wrapper.try_mock_call(self._emitters['source']())
    finally:
        self._wrapper = wrapper
        self.reset()
''')
rw(WW, 'WrapOne.emit_many', '''
def emit_many(self, number: int) -> List[OutputT]:
    values = []
    for value in self._emitters['source'](number):
        values.append(self._wrapper(value))
    return values
''')
rw(WW, 'WrapOne.emit_many', '''
def emit_many(self, number: int) -> List[OutputT]:
    data = self._emitters['source'](number)
    return list(map(self._wrapper, data))
''')
rw(WW, 'WrapMany.emit', '''
def emit(self) -> OutputT:
    kwargs = {}
    for name, emitter in self._emitters.items():
        kwargs[name] = emitter()
    return self._wrapper(**kwargs)
''')
rw(WW, 'WrapMany.emit_many', '''
def emit_many(self, number: int) -> List[OutputT]:
    emdata = {k: em(number) for k, em in self._emitters.items()}
    results = []
    for i in range(number):
        kwargs = {k: emdata[k][i] for k in emdata}
        results.append(self._wrapper(**kwargs))
    return results
''')
rw(WW, 'WrapMany.emit_many', '''
def emit_many(self, number: int) -> List[OutputT]:
    names = list(self._emitters)
    columns = [self._emitters[name](number) for name in names]
    output = []
    for i in range(number):
        row = [column[i] for column in columns]
        output.append(self._wrapper(**dict(zip(names, row))))
    return output
''')
rw(WW, 'WrapMany.emit_many', '''
def emit_many(self, number: int) -> List[OutputT]:
    columns = {}
    for name, emitter in self._emitters.items():
        columns[name] = emitter(number)
    return [
        self._wrapper(**{name: values[i] for name, values in columns.items()})
        for i in range(number)
    ]
''')
