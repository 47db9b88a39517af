"""Contracts of the objects that come from outside (rely conditions).

An opaque object is a Ref; every use made of it is an event in C.world:

  ('call', ident, count, result)      an emitter or field was called
  ('reset', ident), ('seed', ident, s), ('setattr', ident, name, value)
  ('fn', ident, args, kwargs, result) a user function was called
"""
import z3

from . import core, interp, lib
from .core import (C, Fn, Int, Bool, Real, V, PyRaise, Unsupported, assume,
                   branch, fresh, plain, prove, uname)
from .values import *
from .values import UNDEF
from .interp import NOATTR, force, pyraise
from .lib import log_event

IsTuple = interp.IsTuple


def name_id(name):
    return z3.IntVal(lib.hash_const(name))


def name_v(name):
    return V.VStr(name_id(name)) if isinstance(name, str) else name


class Role:
    cls = None

    def __init__(self, tag):
        self.tag = tag

    def getattr(self, r, name):
        raise Unsupported(f'attribute {name} of {self.tag}')

    def hasattr(self, r, name):
        return self.getattr(r, name) is not NOATTR

    def setattr(self, r, name, val):
        raise Unsupported(f'setting attribute {name} of {self.tag}')

    def call(self, r, args, kwargs):
        raise Unsupported(f'call of {self.tag}')

    def truth(self, r):
        return True

    def isinstance(self, r, cls):
        if cls is object:
            return True
        if isinstance(cls, type) or hasattr(cls, '__origin__'):
            return False
        raise Unsupported(f'isinstance of {self.tag}')

    def is_none(self, r):
        return False

    def length(self, r):
        pyraise(TypeError, 'object has no len()')

    def contains(self, r, x):
        pyraise(TypeError, 'argument is not iterable')

    def iterate(self, r):
        pyraise(TypeError, 'object is not iterable')

    def next(self, r):
        pyraise(TypeError, 'object is not an iterator')

    def getitem(self, r, i):
        pyraise(TypeError, 'object is not subscriptable')

    def callable(self, r):
        return True

    def signature(self, r):
        raise Unsupported('signature')

    def as_dict(self, r):
        return None

    def as_v(self, r):
        return V.VRef(r.ident)


def method(fn, name=''):
    return ModelMethod(fn, name)


# --------------------------------------------------------------------------
# Emitters


def elem_fn(kind, base):
    """Function Int -> value of the kind, all unknown."""
    if kind == 'nat':
        f = Fn(base, [Int], Int, lambda j: [f(j) >= 0])
        return lambda j: f(zi(j))
    if kind == 'str':
        f = Fn(base, [Int], Int)
        return lambda j: V.VStr(f(zi(j)))
    if kind == 'optnat':
        f = Fn(base, [Int], V, lambda j: [
            z3.Or(V.is_VNone(f(j)),
                  z3.And(V.is_VInt(f(j)), V.vint(f(j)) >= 0))])
        return lambda j: f(zi(j))
    f = Fn(base, [Int], V)
    return lambda j: f(zi(j))


class EmitterRole(Role):
    """An emitter: what EmitterLike promises.

    attrs: name -> value for attributes it has, NOATTR for those it lacks;
    those not listed are unknown to the code's contract (Unsupported).
    """

    def __init__(self, tag, kind='any', attrs=None, seedable=None):
        super().__init__(tag)
        self.kind = kind
        self.attrs = dict(attrs or {})
        # None: it may or may not have a seed of its own
        self.seedable = seedable

    def has_seed(self, r):
        if self.seedable is not None:
            return self.seedable
        return branch(z3.Function('has_seed', Int, Bool)(r.ident))

    def getattr(self, r, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == 'reset':
            return method(lambda a, k: log_event('reset', r.ident))
        if name == 'seed':
            if not self.has_seed(r):
                return NOATTR
            return method(lambda a, k: log_event(
                'seed', r.ident, lib.kwbind(['rng_seed'], a, k, {})[0]))
        if name == 'rng_seed':
            if not self.has_seed(r):
                return NOATTR
            return z3.Function('own_seed', Int, V)(r.ident)
        if name == 'emit':
            return method(lambda a, k: self.call(r, [], {}))
        if name == 'emit_many':
            return method(lambda a, k: self.call(r, a, k))
        if name == 'emits_unique_values':
            return z3.Function('emits_unique', Int, Bool)(r.ident)
        if name == 'num_unique_values':
            x = z3.Function('num_unique', Int, V)(r.ident)
            assume(z3.Or(V.is_VNone(x),
                         z3.And(V.is_VInt(x), V.vint(x) >= 0)))
            return x
        if name in ('items', 'replace_only_after_call', 'function'):
            return NOATTR
        raise Unsupported(f'attribute {name} of {self.tag}')

    def setattr(self, r, name, val):
        log_event('setattr', r.ident, name, val)

    def call(self, r, args, kwargs):
        n = force(lib.kwbind(['number'], args, kwargs, {'number': None})[0])
        if is_z(n) and n.sort() == V:
            n = None if branch(V.is_VNone(n)) else zi(n)
        f = elem_fn(self.kind, self.tag)
        if n is None:
            v = f(0)
            if is_z(v):
                lib_fact(v, self.kind)
            log_event('call', r.ident, None, v)
            return v
        n = zi(n) if not isinstance(n, int) else n
        prove(f'{self.tag} is asked for a count of 0 or more', zi(n) >= 0)
        assume(zi(n) >= 0)
        s = SSeq(norm(n), f, 'list')
        log_event('call', r.ident, norm(n), s)
        return SList(s)


def lib_fact(v, kind):
    if kind == 'nat' and v.sort() == Int:
        if not C.idx:
            assume(v >= 0)


def emitter(tag, kind='any', attrs=None, seedable=None):
    return Ref(plain(tag, Int), EmitterRole(tag, kind, attrs, seedable))


def distinct(*refs):
    assume(z3.Distinct(*[r.ident for r in refs]))


# --------------------------------------------------------------------------
# Fields


Prev = z3.Function('previous', Int, V)
Hide = z3.Function('hide', Int, Bool)
Multi = z3.Function('multi_valued', Int, Bool)
NameOf = z3.Function('name_of', Int, V)


class FieldRole(Role):
    def getattr(self, r, name):
        if name == 'previous':
            return Prev(r.ident)
        if name == 'hide':
            return Hide(r.ident)
        if name == 'multi_valued':
            return Multi(r.ident)
        if name == 'name':
            return NameOf(r.ident)
        if name == 'reset':
            return method(lambda a, k: log_event('reset', r.ident))
        if name == 'seed':
            return method(lambda a, k: log_event(
                'seed', r.ident, lib.kwbind(['rng_seed'], a, k, {})[0]))
        if name == 'rng_seed':
            return z3.Function('own_seed', Int, V)(r.ident)
        raise Unsupported(f'attribute {name} of a field')

    def setattr(self, r, name, val):
        log_event('setattr', r.ident, name, val)

    def call(self, r, args, kwargs):
        if args or kwargs:
            pyraise(TypeError, 'a field takes no arguments')
        v = elem_fn('any', 'value')(0)
        log_event('call', r.ident, None, v)
        return v


FIELD = FieldRole('field')


# --------------------------------------------------------------------------
# Members of groups


HasA = z3.Function('has_attribute', Int, V, Bool)
IsNoneM = z3.Function('is_none', Int, Bool)


class MemberRole(Role):
    """Any object, or None."""

    def __init__(self, tag, may_be_none=True):
        super().__init__(tag)
        self.may_be_none = may_be_none

    def is_none(self, r):
        return IsNoneM(r.ident) if self.may_be_none else False

    def truth(self, r):
        t = z3.Function('truth_of', Int, Bool)(r.ident)
        if self.may_be_none:
            return z3.And(t, z3.Not(IsNoneM(r.ident)))
        return t

    def getattr(self, r, name):
        name = name_v(name)
        if not branch(HasA(r.ident, name)):
            return NOATTR
        return method(lambda a, k: self.invoke(r, name, a, k))

    def invoke(self, r, name, a, k):
        s = [x if isinstance(x, Star_) else x for x in a]
        log_event('invoke', r.ident, name, pack(s), kpack(k))
        return None

    def setattr(self, r, name, val):
        log_event('setattr', r.ident, name_v(name), val)


Star_ = interp.Star


def pack(args):
    parts = []
    for a in args:
        parts.append(a.seq if isinstance(a, Star_) else Lit([a]))
    return concat(parts, 'tuple') if parts else Lit([], 'tuple')


def kpack(k):
    if '**' in k:
        rest = [(x, y) for x, y in k.items() if x != '**']
        return SDict(log=concat([k['**'].log, Lit(rest)]))
    return SDict(dict(k))


# --------------------------------------------------------------------------
# User functions


WantsRng = z3.Function('has_rng_parameter', Int, Bool)
HasSig = z3.Function('has_signature', Int, Bool)
Accepts = z3.Function('accepts_arguments', Int, Bool)


class FunctionRole(Role):
    def __init__(self, tag='function', fails=False):
        super().__init__(tag)
        self.fails = fails      # may a call raise TypeError?

    def getattr(self, r, name):
        if name == 'function':
            return NOATTR
        raise Unsupported(f'attribute {name} of a user function')

    def signature(self, r):
        if not branch(HasSig(r.ident)):
            pyraise(ValueError, 'no signature found')
        return Ref(r.ident, SIGNATURE)

    def call(self, r, args, kwargs):
        if self.fails and not branch(Accepts(r.ident)):
            log_event('fn', r.ident, pack(args), kpack(kwargs), None)
            pyraise(TypeError, 'wrong arguments')
        v = elem_fn('any', 'result')(0)
        log_event('fn', r.ident, pack(args), kpack(kwargs), v)
        return v


class SignatureRole(Role):
    def getattr(self, r, name):
        if name == 'parameters':
            return Ref(r.ident, PARAMETERS)
        if name == 'bind':
            def bind(a, k):
                log_event('bind', r.ident, pack(a), kpack(k))
                if not branch(Accepts(r.ident)):
                    pyraise(TypeError, 'wrong arguments')
                return None
            return method(bind)
        raise Unsupported(f'attribute {name} of a signature')


class ParametersRole(Role):
    def contains(self, r, x):
        if x == 'rng':
            return WantsRng(r.ident)
        raise Unsupported('parameter other than rng')

    def truth(self, r):
        raise Unsupported('truth of parameters')


SIGNATURE = SignatureRole('signature')
PARAMETERS = ParametersRole('parameters')


def user_function(tag='fn', fails=True):
    return Ref(plain(tag, Int), FunctionRole(tag, fails))


# --------------------------------------------------------------------------
# Iterator factories


class FactoryRole(Role):
    """Every call gives a new iterator over the same finite sequence."""

    def __init__(self, seq):
        super().__init__('factory')
        self.seq = seq

    def call(self, r, args, kwargs):
        if args or kwargs:
            pyraise(TypeError, 'the factory takes no arguments')
        it = SIter(self.seq)
        it.hint = True      # an iterator over a sequence
        return it


def factory(seq):
    return Ref(plain('factory', Int), FactoryRole(seq))
