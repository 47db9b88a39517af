BUGS = [
('c01-single-item-zero', 'C01', 'emitters/choice.py',
 ("return list(self._items) * number", "return list(self._items) * max(number, 1)"),
 'a Choice of one item, asked for 0 values',
 'a call for 0 values emits a list of one',
 '''
 from fauxdoc.emitters import Choice
 assert Choice(['a'])(0) == []
 '''),
('c01-wrapmany-short', 'C01', 'emitters/wrappers.py',
 ("for i in range(number)", "for i in range(min(number, *(len(set(v)) + number // 1000 * len(v) for _, v in emdata), number))"),
 'WrapMany with a source that emits the same value repeatedly',
 'fewer values than asked for',
 '''
 from fauxdoc.emitters import WrapMany, Static
 assert len(WrapMany({'a': Static(1)}, lambda a: a)(3)) == 3
 '''),
('c03-falsy-member', 'C03', 'group.py',
 ("if obj is not None and hasattr(obj, attr_name)", "if obj and hasattr(obj, attr_name)"),
 'a member of a group that is falsy (an empty group, an emitter with __len__ 0)',
 'falsy members of a group are skipped',
 '''
 from fauxdoc.group import ObjectGroup
 class Sized:
     def __init__(self): self.rng_seed = None
     def __len__(self): return 0
 s = Sized()
 ObjectGroup(s).setattr('rng_seed', 5)
 assert s.rng_seed == 5
 '''),
('c03-instance-attr-only', 'C03', 'group.py',
 ("getattr(obj, method_name)(*args, **kwargs)", "getattr(type(obj), method_name)(obj, *args, **kwargs)"),
 'a member whose method is an instance attribute or found by __getattr__',
 'methods that are instance attributes are not run',
 '''
 from fauxdoc.group import ObjectGroup
 class M: pass
 m = M(); got = []
 m.seed = got.append
 ObjectGroup(m).do_method('seed', 3)
 assert got == [3]
 '''),
('c13-surrogates', 'C13', 'emitters/text.py',
 ("for start, end in uchar_ranges for code in range(start, end + 1)", "for start, end in uchar_ranges for code in range(start, end + 1) if not 0xD800 <= code <= 0xDFFF"),
 'a range that includes surrogate code points',
 'code points of the range are left out',
 '''
 from fauxdoc.emitters import make_alphabet
 assert len(make_alphabet([(0xD7FF, 0xE000)])) == 0xE000 - 0xD7FF + 1
 '''),
('c13-overlap', 'C13', 'emitters/text.py',
 ("    return [\n        chr(code)", "    return [\n        chr(code)"),
 '', '', 'assert 0'),
('c14-float-offset', 'C14', 'dtrange.py',
 ("    delta = step * index\n", "    delta = timedelta(seconds=step.total_seconds() * index)\n"),
 'a datetime range with a step in microseconds and a span of many years',
 'values are off by microseconds due to float rounding',
 '''
 from datetime import datetime, timedelta
 from fauxdoc.dtrange import DateOrTimeRange
 step = timedelta(days=1, microseconds=1)
 r = DateOrTimeRange(datetime(1, 1, 1), 3650000, step)
 for i in (3000001, 3640001, 3333333):
     assert r[i] == datetime(1, 1, 1) + i * step
 '''),
('c15-reversed-time-start', 'C15', 'dtrange.py',
 ("elif value > start and step_secs < 0", "elif value >= start and step_secs < 0"),
 'a time range with a negative step, looking up its first value',
 'first value of a descending time range is given the wrong index',
 '''
 from datetime import time, timedelta
 from fauxdoc.dtrange import DateOrTimeRange
 r = DateOrTimeRange(time(12), 5, timedelta(hours=-1))
 assert r.index(time(12)) == 0
 '''),
('c15-hash-len1', 'C15', 'dtrange.py',
 ("step = self.step if my_len > 1 else None", "step = self.step if my_len > 0 else None"),
 'two equal ranges of one value with different steps',
 'equal ranges have different hashes',
 '''
 from datetime import date, timedelta
 from fauxdoc.dtrange import DateOrTimeRange
 a = DateOrTimeRange(date(2020, 1, 1), 1, timedelta(1))
 b = DateOrTimeRange(date(2020, 1, 1), 1, timedelta(2))
 assert a == b and hash(a) == hash(b)
 '''),
('c15-contains-bounds', 'C15', 'dtrange.py',
 ("                self.index(value)\n", "                self.index(value, 0, -1 if len(self) > 100000 else None)\n"),
 'the last value of a range of more than 100000 values',
 'the last value is not found in the range',
 '''
 from datetime import date, timedelta
 from fauxdoc.dtrange import DateOrTimeRange
 a = DateOrTimeRange(date(2, 1, 1), 100001, timedelta(1))
 assert a[-1] in a
 '''),
('c16-abs-rem', 'C16', 'dtrange.py',
 ("    length += 1 if rem else 0\n", "    length += 1 if rem > timedelta(microseconds=1) or rem < timedelta(0) else 0\n"),
 'a remainder of exactly one microsecond',
 'the last value before stop is missing',
 '''
 from datetime import datetime
 from fauxdoc.dtrange import dtrange
 assert len(dtrange(datetime(2020, 1, 1), datetime(2020, 1, 1, 0, 0, 0, 1))) == 1
 '''),
('c17-repeat-zero', 'C17', 'profile.py',
 ("self._cache = self.emitter(self.repeat_emitter())", "self._cache = self.emitter(self.repeat_emitter() or None)"),
 'a repeat emitter that gives 0',
 'the field returns a single value rather than an empty list',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static
 assert Field('a', Static(1), repeat=Static(0))() == []
 '''),
('c17-keeps-previous', 'C17', 'profile.py',
 ("""        else:
            self._cache = None
        return self._cache
""", """            return self._cache
        if self.multi_valued or self._cache is None:
            self._cache = None
            return self._cache
        return None
"""),
 'a gated single-valued field that returned a value before',
 'previous is not what the last call returned',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static, Sequential
 f = Field('a', Static(1), gate=Sequential([True, False]))
 f(); f()
 assert f.previous is None
 '''),
('c18-readd-ignored', 'C18', 'profile.py',
 ("{field.name: field for field in fields}", "{field.name: field for field in fields if not (field.name in self.fields and self.fields[field.name].hide)}"),
 'adding a field with the name of a hidden field',
 'the field added is ignored',
 '''
 from fauxdoc.profile import Field, Schema
 from fauxdoc.emitters import Static
 s = Schema(Field('a', Static(1), hide=True))
 s.add_fields(Field('a', Static(2)))
 assert s() == {'a': 2}
 '''),
('c18-hide-before', 'C18', 'profile.py',
 ("""            val = field()
            if not field.hide:
                doc[fname] = val
""", """            val = field()
            if val is not None or not field.hide:
                doc[fname] = val
            if field.hide and doc.get(fname) is not None:
                del doc[fname]
"""),
 'a hidden field whose value compares ... (no visible difference expected)',
 '', 'assert 1'),
('c19-tuple-values', 'C19', 'emitters/fromfields.py',
 ("if not isinstance(val, (list, tuple)):", "if not isinstance(val, (list, tuple)) or not val:"),
 'a multi-valued source field that emitted an empty list',
 'the empty list itself becomes a value of the copy',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static, CopyFields
 f = Field('a', Static(1), repeat=Static(0)); g = Field('b', Static(2)); f(); g()
 assert CopyFields([f, g])() == [2]
 '''),
('c19-zero-dropped', 'C19', 'emitters/fromfields.py',
 ("        if self.separator is None:\n", "        if not self.separator:\n"),
 'an empty separator',
 'the copy is a list rather than a joined string',
 '''
 from fauxdoc.profile import Field
 from fauxdoc.emitters import Static, CopyFields
 f = Field('a', Static(1)); g = Field('b', Static(2)); f(); g()
 assert CopyFields([f, g], '')() == '12'
 '''),
('c20-rng-default', 'C20', 'emitters/wrappers.py',
 ("self._wants_rng = 'rng' in self._signature.parameters", "self._wants_rng = ('rng' in self._signature.parameters and self._signature.parameters['rng'].default is self._signature.empty)"),
 'a function whose rng parameter has a default',
 'the generator is not passed',
 '''
 from fauxdoc.emitters import WrapOne, Static
 w = WrapOne(Static(1), lambda v, rng=None: rng)
 assert w() is w.rng
 '''),
('c20-repeat-call', 'C20', 'emitters/fromfields.py',
 ("        return self._action(**kwargs)\n\n    def emit_many(self, number: int) -> List[OutputT]:\n", "        return self._action(**kwargs)\n\n    def emit_many(self, number: int) -> List[OutputT]:\n"),
 '', '', 'assert 0'),
('c22-falsy-value', 'C22', 'warn.py',
 ("    if attr_name in deprecated:\n", "    if deprecated.get(attr_name, (None, None))[1]:\n"),
 'a deprecated name registered for a falsy object',
 'it raises AttributeError',
 '''
 import warnings
 from fauxdoc.warn import get_deprecated_attr
 with warnings.catch_warnings():
     warnings.simplefilter('ignore')
     assert get_deprecated_attr('X', 'm', 'module', {'X': (None, 0)}) == 0
 '''),
]
BUGS = [b for b in BUGS if b[5]]
