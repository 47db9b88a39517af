"""Contracts of the builtins and library functions the code uses (trusted)."""
import ast
import builtins
import collections
import contextlib
import collections.abc
import copy as _copy
import datetime as _dt
import inspect
import itertools
import math
import operator
import random as _random
import sys
import types
import unittest.mock
import warnings

import z3

from . import core
from .core import (C, Cell, Fn, Int, Bool, Real, V, RS, Rule, RULES, PyRaise,
                   Unsupported, assume, branch, fresh, plain, simp, uname,
                   valid, zb)
from .values import *
from .interp import *
from .interp import NOATTR, CONTAINER_BASES, class_lookup, znot
from . import interp, lazy, prelude

NONE_VALUE = object()
US = 1000000
DAY = 86400 * US


# --------------------------------------------------------------------------
# Random generators


RInit = z3.Function('rng_init', V, RS)
RNext = z3.Function('rng_next', RS, Int, RS)


class Rng(Cell, SV):
    def __init__(self, state):
        super().__init__()
        self.d['state'] = state


def seed_term(seed):
    seed = force(seed)
    if seed is None:
        return None
    v = to_v(seed)
    if v is None:
        if isinstance(seed, str):
            return V.VStr(z3.IntVal(hash_const(seed)))
        raise Unsupported('seed')
    return v


_hc = {}


def hash_const(s):
    return _hc.setdefault(s, len(_hc) + 1000)


def rng_state_for(seed):
    t = seed_term(seed)
    if t is None:
        return z3.Const(uname('nondet!rng'), RS)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED or \
            t.num_args() == 0 and not t.eq(V.VNone):
        if not branch(znot(V.is_VNone(t))):
            return z3.Const(uname('nondet!rng'), RS)
    return RInit(t)


def advance(rng, amount=1):
    rng.set('state', RNext(rng.d['state'], zi(amount)))


def state_fn(base, rng, argsorts, sort, axiom=None, pair=None):
    """Function symbol of a random result, tied to the generator state."""
    st = rng.d['state']
    f = Fn(base, argsorts, sort, axiom, pair)
    C.rng_results[f.f.name()] = st
    return f


def draw(kind, rng, args, make):
    """make(), or what it was for an equal draw from an equal state."""
    st = rng.d['state']
    if C.idx:
        return make()
    for k2, st2, a2, r in C.draws:
        if k2 == kind and len(a2) == len(args) and \
                (st2.get_id() == st.get_id() or core.valid(st2 == st)) and \
                all(same_arg(x, y) for x, y in zip(a2, args)):
            return r
    r = make()
    C.draws.append((kind, st, args, r))
    return r


def same_arg(x, y):
    if isinstance(x, SSeq) or isinstance(y, SSeq):
        return isinstance(x, SSeq) and isinstance(y, SSeq) and \
            seq_valid_equal(x, y)
    return core.valid(zi(x) == zi(y))


RandomOf = z3.Function('random_of', RS, Real)


def _random_rule():
    r = Rule()
    r.unary = lambda st: [RandomOf(st) >= 0, RandomOf(st) < 1]
    RULES['random_of'] = r


_random_rule()


def rng_random(rng):
    t = RandomOf(rng.d['state'])
    advance(rng)
    return t


def rng_choice(rng, seq):
    s = as_sequence(seq)
    n = s.n
    if not branch(zi(n) > 0):
        pyraise(IndexError, 'Cannot choose from an empty sequence')
    ix = draw('pick', rng, [n], lambda: state_fn(
        'pick', rng, [Int], Int,
        lambda j: [ix(j) >= 0, z3.Implies(zi(n) > 0, ix(j) < zi(n))]))
    advance(rng)
    return s.get(ix(z3.IntVal(0)))


def as_sequence(x):
    x = force(x)
    if isinstance(x, str):
        return Lit(list(x))
    if isinstance(x, Inst) and '__base__' in x.d:
        x = x.d['__base__']
    s = listlike(x)
    if s is None:
        if isinstance(x, SSeq):
            return x
        if is_z(x) and x.sort() == V:
            raise Unsupported('sequence expected')
        pyraise(TypeError, 'population must be a sequence')
    return s


def rng_choices(rng, population, weights=None, cum_weights=None, k=1):
    s = as_sequence(population)
    n = s.n
    k = as_num(k)
    if k is None or is_real(k):
        pyraise(TypeError, 'k must be an int')
    weights, cum_weights = force(weights), force(cum_weights)
    count = k if isinstance(k, int) and k >= 0 else \
        norm(z3.If(zi(k) < 0, z3.IntVal(0), zi(k)))
    if cum_weights is None and weights is None:
        if not branch(zi(n) > 0):
            if branch(zi(count) == 0):
                return SList(Lit([]))
            pyraise(IndexError, 'Cannot choose from an empty sequence')
        ix = draw('picks', rng, [n], lambda: state_fn(
            'picks', rng, [Int], Int,
            lambda j: [ix(j) >= 0, z3.Implies(zi(n) > 0, ix(j) < zi(n))]))
    else:
        if weights is not None and cum_weights is not None:
            pyraise(TypeError, 'Cannot specify both weights and cumulative '
                    'weights')
        if cum_weights is not None:
            cs = to_seq(cum_weights)
            cum = lambda j: zr(as_num(cs.get(j)))
            wn = cs.n
        else:
            ws = to_seq(weights)
            wn = ws.n
            acc = accumulate_seq(ws)
            cum = lambda j: zr(acc.get(j))
        if not branch(zi(wn) == zi(n)):
            pyraise(ValueError, 'The number of weights does not match the '
                    'population')
        if not branch(zi(n) > 0):
            pyraise(IndexError, 'list index out of range')
        last = sub(n, 1)
        total = cum(last)
        zt = zr(total)
        if not branch(zt > 0):
            pyraise(ValueError, 'Total of weights must be greater than zero')
        u = draw('u', rng, [], lambda: state_fn('u', rng, [Int], Real))

        def ax(j):
            i = ix(j)
            x = u(j) * zt
            out = [i >= 0, i < zi(n), u(j) >= 0, u(j) < 1,
                   z3.Implies(zt > 0, z3.And(x >= 0, x < zt))]
            # bisect_right(cum, x, 0, n - 1)
            out.append(z3.Implies(i > 0, cum(simp(i - 1)) <= x))
            out.append(z3.Implies(i < zi(last), x < cum(i)))
            return out
        # for n == 2 the search looks at cum[0] only, also if the cumulative
        # weights are not sorted; the facts above are those of the result
        # of the binary search for any cum_weights
        ix = draw('weighted picks', rng, [n, SSeq(wn, cum)], lambda: state_fn(
            'picks', rng, [Int], Int, ax))
    advance(rng, simp(zi(count)))
    r = SSeq(norm(count), lambda j: s.get(ix(zi(j))), 'list')
    r.pick = ix
    return SList(r)


def permutation(n, base='perm', rng=None, upto=None, reg=None):
    """Injective function on 0..n-1 (a bijection with its inverse)."""
    nn = zi(n)
    P = Fn(base, [Int], Int)
    Q = Fn(base + '_inv', [Int], Int)
    outer = P.outer
    no = len(outer)

    def sub_(e, o):
        return z3.substitute(e, *zip(outer, o)) if no else e

    def pu(*a):
        o, k = a[:no], a[no]
        m = sub_(nn, o)
        p = P.f(*o, k)
        return [z3.Implies(z3.And(k >= 0, k < m),
                           z3.And(p >= 0, p < m, Q.f(*o, p) == k))]

    def qu(*a):
        o, k = a[:no], a[no]
        m = sub_(nn, o)
        q = Q.f(*o, k)
        return [z3.Implies(z3.And(k >= 0, k < m),
                           z3.And(q >= 0, q < m, P.f(*o, q) == k))]
    r = Rule()
    r.unary = pu
    RULES[P.f.name()] = r
    r = Rule()
    r.unary = qu
    RULES[Q.f.name()] = r
    if rng is not None:
        C.rng_results[P.f.name()] = rng.d['state']
    P.inverse = Q
    C.inverses[P.f.name()] = Q
    return P, Q


def rng_sample(rng, population, k, counts=None):
    if counts is not None:
        raise Unsupported('sample with counts')
    population = force(population)
    if isinstance(population, (SSet, SDict)):
        pyraise(TypeError, 'Population must be a sequence')
    s = as_sequence(population)
    k = as_num(k)
    if k is None or is_real(k):
        pyraise(TypeError, 'k must be an int')
    if not branch(z3.And(zi(k) >= 0, zi(k) <= zi(s.n))):
        pyraise(ValueError, 'Sample larger than population or is negative')
    P, Q = draw('sample', rng, [s.n, k],
                lambda: permutation(s.n, 'sample', rng))
    advance(rng, simp(zi(k)))
    return SList(SSeq(norm(k), lambda j: s.get(P(zi(j))), 'list'))


def rng_shuffle(rng, x):
    x = force(x)
    if not isinstance(x, SList):
        raise Unsupported('shuffle')
    s = x.seq
    P, Q = draw('shuffle', rng, [s.n],
                lambda: permutation(s.n, 'shuffle', rng))
    advance(rng, simp(zi(s.n)))
    x.set('seq', SSeq(s.n, lambda j: s.get(P(zi(j))), 'list'))


def rng_int(rng, lo, hi):
    """lo <= result < hi"""
    r = draw('int', rng, [lo, hi], lambda: fresh('rint', Int))
    C.rng_results[r.decl().name()] = rng.d['state']
    if not branch(zi(lo) < zi(hi)):
        pyraise(ValueError, 'empty range')
    if r.num_args():
        rule = Rule()
        outer = list(C.idx)
        body = z3.And(r >= zi(lo), r < zi(hi))
        rule.unary = lambda *a: [z3.substitute(body, *zip(outer, a))]
        RULES[r.decl().name()] = rule
    else:
        assume(z3.And(r >= zi(lo), r < zi(hi)))
    advance(rng)
    return r


def kwbind(names, args, kwargs, defaults):
    out = dict(zip(names, args))
    if len(args) > len(names):
        pyraise(TypeError, 'too many arguments')
    for k, v in kwargs.items():
        if k not in names or k in out:
            pyraise(TypeError, f'unexpected argument {k}')
        out[k] = v
    for k in names:
        if k not in out:
            if k not in defaults:
                pyraise(TypeError, f'missing argument {k}')
            out[k] = defaults[k]
    return [out[k] for k in names]


def rng_attr(rng, name):
    def m(fn):
        return ModelMethod(fn, 'Random.' + name)
    if name == 'random':
        return m(lambda a, k: rng_random(rng))
    if name == 'choice':
        return m(lambda a, k: rng_choice(rng, *kwbind(['seq'], a, k, {})))
    if name == 'choices':
        def f(a, k):
            for x in k:
                if x not in ('population', 'weights', 'cum_weights', 'k'):
                    pyraise(TypeError, x)
            if len(a) > 2:
                pyraise(TypeError, 'too many positional arguments')
            p = kwbind(['population', 'weights'], a,
                       {x: y for x, y in k.items()
                        if x in ('population', 'weights')},
                       {'weights': None})
            return rng_choices(rng, p[0], p[1], k.get('cum_weights'),
                               k.get('k', 1))
        return m(f)
    if name == 'sample':
        return m(lambda a, k: rng_sample(
            rng, *kwbind(['population', 'k'], a,
                         {x: y for x, y in k.items() if x != 'counts'}, {}),
            counts=k.get('counts')))
    if name == 'shuffle':
        return m(lambda a, k: rng_shuffle(rng, a[0]))
    if name == 'randint':
        return m(lambda a, k: rng_int(rng, a[0], add(a[1], 1)))
    if name == 'randrange':
        def f(a, k):
            if len(a) == 1:
                return rng_int(rng, 0, a[0])
            if len(a) == 2:
                return rng_int(rng, a[0], a[1])
            raise Unsupported('randrange with step')
        return m(f)
    if name == 'seed':
        def f(a, k):
            s = kwbind(['a', 'version'], a, k, {'a': None, 'version': 2})
            if hostint(s[1]) != 2:
                raise Unsupported('seed of another version')
            rng.set('state', rng_state_for(s[0]))
        return m(f)
    if name == 'uniform':
        def f(a, k):
            u = rng_random(rng)
            return zr(a[0]) + (zr(a[1]) - zr(a[0])) * u
        return m(f)
    if name == 'getstate':
        return m(lambda a, k: rng.d['state'])
    if name == 'setstate':
        return m(lambda a, k: rng.set('state', a[0]))
    if hasattr(_random.Random, name):
        raise Unsupported('Random.' + name)
    return None


# --------------------------------------------------------------------------
# Lists and dicts


def list_append(lst, v):
    if isinstance(lst, SList):
        lst.set('seq', concat([lst.seq, Lit([freeze_elem(v)])]))
        return
    raise Unsupported('append to a shared or summarised list')


def freeze_elem(v):
    return v


def list_method(lst, name):
    def m(fn):
        return ModelMethod(fn, 'list.' + name)
    if name == 'append':
        return m(lambda a, k: list_append(lst, a[0]))
    if name == 'extend':
        def ext(a, k):
            s = to_seq(a[0])
            if s.n is INF:
                raise Unsupported('infinite extend')
            lst.set('seq', concat([lst.seq, s.with_kind('list')]))
        return m(ext)
    if name == 'copy':
        return m(lambda a, k: SList(lst.seq))
    if name == 'clear':
        return m(lambda a, k: lst.set('seq', Lit([])))
    if name == 'insert':
        def ins(a, k):
            s = lst.seq
            p = norm_bound(a[0], s.n, 0)
            lst.set('seq', concat([seq_slice(s, 0, p), Lit([a[1]]),
                                   seq_slice(s, p, s.n)]))
        return m(ins)
    if name == 'pop':
        def pop(a, k):
            s = lst.seq
            i = a[0] if a else -1
            if not branch(zi(s.n) > 0):
                pyraise(IndexError, 'pop from empty list')
            v = index_seq(s, i)
            hi = hostint(i)
            if hi == -1:
                lst.set('seq', seq_slice(s, 0, sub(s.n, 1)))
            elif hi == 0:
                lst.set('seq', seq_slice(s, 1, s.n))
            else:
                i = as_num(i)
                if branch(zi(i) < 0):
                    i = norm(zi(i) + zi(s.n))
                lst.set('seq', concat([seq_slice(s, 0, i),
                                       seq_slice(s, add(i, 1), s.n)]))
            return v
        return m(pop)
    if name == 'reverse':
        def rev(a, k):
            s = lst.seq
            lst.set('seq', reverse_seq(s))
        return m(rev)
    if name == 'sort':
        def srt(a, k):
            r = m_sorted([lst], k)
            lst.set('seq', r.seq)
        return m(srt)
    if name in ('index', 'count', 'remove'):
        return seq_method(lst.seq, name)
    if name == '__len__':
        return m(lambda a, k: lst.seq.n)
    if name == '__getitem__':
        return m(lambda a, k: interp.get_item(lst, a[0]))
    if name == '__setitem__':
        return m(lambda a, k: interp.set_item(lst, a[0], a[1]))
    if name == '__iter__':
        return m(lambda a, k: m_iter([lst], {}))
    if name == '__contains__':
        return m(lambda a, k: contains(lst, a[0]))
    if hasattr(list, name):
        raise Unsupported('list.' + name)
    return None


def seq_method(s, name):
    def m(fn):
        return ModelMethod(fn, 'sequence.' + name)
    if name == '__len__':
        return m(lambda a, k: s.n)
    if name == '__getitem__':
        return m(lambda a, k: interp.get_item(s, a[0]))
    if name == '__iter__':
        return m(lambda a, k: SIter(s))
    if name == '__contains__':
        return m(lambda a, k: contains(s, a[0]))
    if name == 'index':
        def idx(a, k):
            if isinstance(s, SRange):
                if not branch(zb(contains(s, a[0]))):
                    pyraise(ValueError, 'not in range')
                q, r = floordivmod(sub(as_num(a[0]), s.start), s.step)
                return norm(q)
            n = hostint(s.n)
            if n is not None and n <= 16 and len(a) == 1:
                for j in range(n):
                    if branch(zb(equals(s.get(j), a[0]))):
                        return j
                pyraise(ValueError, 'not in list')
            raise Unsupported('index of a sequence of unknown length')
        return m(idx)
    if name == 'count' and isinstance(s, SRange):
        return m(lambda a, k: ite(zb(contains(s, a[0])), 1, 0))
    if isinstance(s, SRange) and name in ('start', 'stop', 'step'):
        return getattr(s, name)
    return None


def reverse_seq(s):
    if isinstance(s, Lit):
        return Lit(list(reversed(s.items)))
    if s.n is INF:
        raise Unsupported('reversal of an infinite sequence')
    return SSeq(s.n, lambda i: s.get(sub(sub(s.n, 1), i)), 'list')


def dict_set(d, k, v):
    k = force(k)
    hk = hostkey(k)
    log = d.log
    if hk is not None and d.conc is not None:
        items = list(log.items)
        for j, (kk, _) in enumerate(items):
            if kk == hk[0] and type(kk) is type(hk[0]) or kk == hk[0]:
                items[j] = (kk, v)
                break
        else:
            items.append((hk[0], v))
        d.set('log', Lit(items))
        return
    if hk is not None:
        k = hk[0]
    d.set('log', concat([log, Lit([(k, v)])]))


def del_item(d, k):
    d, k = force(d), force(k)
    if isinstance(d, Inst) and '__base__' in d.d:
        d = d.d['__base__']
    if isinstance(d, SDict) and d.conc is not None:
        hk = hostkey(k)
        if hk is not None:
            items = [p for p in d.log.items if p[0] != hk[0]]
            if len(items) == len(d.log.items):
                pyraise(KeyError, hk[0])
            d.set('log', Lit(items))
            return
    if isinstance(d, SDict):
        ent = dict_entries(d)
        j = interp.find_key(ent, k)
        if j is None:
            pyraise(KeyError, k)
        d.set('log', without(ent, j))
        return
    raise Unsupported('del item')


def without(seq, j):
    """The sequence without its element j."""
    return SSeq(sub(seq.n, 1), lambda i: ite_get(seq, i, j), seq.kind)


def ite_get(seq, i, j):
    c = simp(zi(i) < zi(j))
    h = core.as_bool_host(c)
    if h is not None:
        return seq.get(i if h else add(i, 1))
    return seq.get(z3.If(c, zi(i), zi(i) + 1))


def as_sdict(m):
    m = force(m)
    if isinstance(m, Inst) and '__base__' in m.d:
        m = m.d['__base__']
    return m if isinstance(m, SDict) else None


def dict_update(d, *ms, **kw):
    for m in ms:
        s = as_sdict(m)
        if s is None:
            if isinstance(m, Ref):
                s = m.role.as_dict(m)
        if s is not None:
            if s.conc is not None:
                for k, v in s.conc.items():
                    dict_set(d, k, v)
            else:
                d.set('log', concat([d.log, s.log]))
            continue
        seq = to_seq(m)
        n = hostint(seq.n)
        if n is not None:
            for j in range(n):
                p = to_seq(seq.get(j))
                dict_set(d, p.get(0), p.get(1))
        else:
            d.set('log', concat([d.log, SSeq(
                seq.n, lambda j: tuple_of(seq.get(j)), 'list')]))
    for k, v in kw.items():
        dict_set(d, k, v)


def tuple_of(x):
    if isinstance(x, tuple):
        return x
    s = to_seq(x)
    return (s.get(0), s.get(1))


def dict_method(d, name):
    def m(fn):
        return ModelMethod(fn, 'dict.' + name)
    if name == 'items':
        return m(lambda a, k: dict_entries(d).with_kind('items'))
    if name == 'values':
        def vals(a, k):
            e = dict_entries(d)
            if isinstance(e, Lit):
                return Lit([p[1] for p in e.items], 'items')
            return SSeq(e.n, lambda i: e.get(i)[1], 'items')
        return m(vals)
    if name == 'keys':
        return m(lambda a, k: to_seq(d).with_kind('items'))
    if name == '__iter__':
        return m(lambda a, k: SIter(to_seq(d)))
    if name == '__len__':
        return m(lambda a, k: length(d))
    if name == '__contains__':
        return m(lambda a, k: contains(d, a[0]))
    if name == '__getitem__':
        return m(lambda a, k: interp.get_item(d, a[0]))
    if name == '__setitem__':
        return m(lambda a, k: dict_set(d, a[0], a[1]))
    if name == 'get':
        def get(a, k):
            a[1:], k.get('default')     # perhaps not needed
            f, v = dict_lookup(d, a[0])
            if branch(zb(f)):
                return v
            return a[1] if len(a) > 1 else k.get('default')
        return m(get)
    if name == 'pop':
        def pop(a, k):
            a[1:]           # perhaps not needed
            hk = hostkey(force(a[0]))
            if hk is None or d.conc is None:
                raise Unsupported('pop from symbolic dict')
            if hk[0] in d.conc:
                v = d.conc[hk[0]]
                d.set('log', Lit([p for p in d.log.items if p[0] != hk[0]]))
                return v
            if len(a) > 1:
                return a[1]
            pyraise(KeyError, hk[0])
        return m(pop)
    if name == 'update':
        return m(lambda a, k: dict_update(d, *a, **k))
    if name == 'setdefault':
        def sd(a, k):
            a[1:]           # perhaps not needed
            f, v = dict_lookup(d, a[0])
            if branch(zb(f)):
                return v
            v = a[1] if len(a) > 1 else None
            dict_set(d, a[0], v)
            return v
        return m(sd)
    if name == 'copy':
        return m(lambda a, k: SDict(log=d.log))
    if name == 'clear':
        return m(lambda a, k: d.set('log', Lit([])))
    if hasattr(collections.OrderedDict, name):
        raise Unsupported('dict.' + name)
    return None


def container_method(inst, owner, name):
    if owner in CONTAINER_BASES or owner.__module__ in (
            '_collections_abc', 'collections.abc', 'collections', 'typing'):
        if '__base__' not in inst.d:
            return None
        base = inst.d['__base__']
        if name == '__init__':
            def init(a, k):
                if isinstance(base, SDict):
                    dict_update(base, *a, **k)
                elif a and a[0] is not None:
                    s = to_seq(a[0])
                    base.set('seq', s.with_kind('list'))
            return ModelMethod(init, owner.__name__ + '.__init__')
        if name == 'copy':
            raise Unsupported('copy of container subclass')
        if isinstance(base, SDict):
            return dict_method(base, name)
        if name in ('__getitem__',) and isinstance(base, SList):
            def gi(a, k):
                i = force(a[0])
                if isinstance(i, SliceVal):
                    raise Unsupported('slice of UserList subclass')
                return interp.get_item(base, i)
            return ModelMethod(gi)
        if name == 'data':
            return base
        return list_method(base, name)
    return None


def descriptor(attr, inst):
    return None


# --------------------------------------------------------------------------
# Strings


def opaque_str(base='str'):
    return Lit([V.VStr(fresh('opq_' + base, Int))], 'str')


def to_str(x):
    x = force(x)
    if is_strlike(x):
        return x
    if x is None or isinstance(x, (bool, int, float)):
        return str(x)
    if is_z(x):
        if x.sort() == V and valid(z3.Or(V.is_VStr(x), V.is_VChr(x))):
            return Lit([x], 'str')
        v = to_v(x)
        if v is not None:
            return Lit([core.StrOf(v)], 'str')
    if isinstance(x, type):
        return str(x)
    if isinstance(x, DTV):
        return dt_text(x, 'str')
    if isinstance(x, Inst):
        f = class_lookup(x.cls, '__str__')
        if f is not None and is_repo_func(f[1]):
            return call(f[1], [x])
    return opaque_str('str')


def to_repr(x):
    x = force(x)
    if isinstance(x, str):
        return repr(x)
    if is_strlike(x):
        q = Lit([V.VChr(z3.IntVal(39))], 'str')
        return concat([q, x, q], 'str')
    return to_str(x) if not isinstance(x, (Inst, Ref)) else opaque_str('repr')


def _str_rule():
    r = Rule()
    r.unary = lambda v: [
        z3.Implies(z3.Or(V.is_VStr(v), V.is_VChr(v)), core.StrOf(v) == v)]
    RULES['str_of'] = r


_str_rule()


def word_of(x):
    """A str element as a word; TypeError if it is not a str."""
    x = force(x)
    if is_strlike(x):
        return str_seq(x)
    if is_z(x) and x.sort() == V:
        return Lit([x], 'str')
    if x is None or isinstance(x, (int, float, tuple, SList)) or is_z(x):
        pyraise(TypeError, 'sequence item: expected str instance')
    raise Unsupported(f'join of {type(x).__name__}')


def str_join(sep, it):
    seq = to_seq(it)
    if seq.n is INF:
        raise Unsupported('join of an infinite iterator')
    sepw = str_seq(sep)
    n = hostint(seq.n)
    if n is not None and n <= 24:
        parts = []
        for k in range(n):
            if k:
                parts.append(sepw)
            parts.append(word_of(seq.get(k)))
        if all(isinstance(p, Lit) and not p.items for p in parts):
            return ''
        return concat(parts, 'str')
    i = z3.Int(uname('idx'))
    w = generic(i, seq.n, lambda: word_of(seq.get(i)))
    if w is core.Fork:
        words = each(seq, word_of)
        w = generic(i, seq.n, lambda: str_seq(words.get(i)))
        if w is core.Fork:
            raise Unsupported('join')
    if hostint(sepw.n) == 0:
        return flat(i, seq.n, w, kind='str')
    if not branch(zi(seq.n) > 0):
        return ''
    first = subst(w, [(i, 0)])
    rest = subst(w, [(i, i + 1)])
    return concat([first, flat(i, norm(sub(seq.n, 1)),
                               concat([sepw, rest], 'str'), kind='str')],
                  'str')


def str_method(s, name):
    def m(fn):
        return ModelMethod(fn, 'str.' + name)
    if name == 'join':
        return m(lambda a, k: str_join(s, a[0]))
    if name == '__len__':
        return m(lambda a, k: length(s))
    if isinstance(s, str) and hasattr(str, name):
        def nat(a, k):
            if all(isinstance(x, (str, int, type(None))) for x in a) and \
                    all(isinstance(x, (str, int)) for x in k.values()):
                try:
                    r = getattr(s, name)(*a, **k)
                except ValueError as e:
                    pyraise(ValueError, str(e))
                return SList(Lit(r)) if isinstance(r, list) else r
            if name == 'format':
                return opaque_str('fmt')
            raise Unsupported('str.' + name)
        return m(nat)
    if name == 'format':
        return m(lambda a, k: opaque_str('fmt'))
    if hasattr(str, name):
        raise Unsupported('str.' + name + ' of a symbolic string')
    return None


# --------------------------------------------------------------------------
# date and time


KINDS = {'date': _dt.date, 'datetime': _dt.datetime, 'time': _dt.time}


class SecsVal(SV):
    """Result of timedelta.total_seconds() (exact)."""

    def __init__(self, us):
        self.us = us


def lift_dt(x):
    if isinstance(x, _dt.timedelta):
        return TDV((x.days * 86400 + x.seconds) * US + x.microseconds)
    if isinstance(x, _dt.datetime):
        if x.tzinfo is not None:
            raise Unsupported('aware datetime')
        return DTV('datetime', x.toordinal() * DAY + _tod(x))
    if isinstance(x, _dt.date):
        return DTV('date', x.toordinal())
    if isinstance(x, _dt.time):
        return DTV('time', _tod(x))
    return None


def _tod(x):
    return ((x.hour * 60 + x.minute) * 60 + x.second) * US + x.microsecond


def ediv(a, b):
    """floor division by a positive constant"""
    if isinstance(a, int):
        return a // b
    return norm(zi(a) / b)


def emod(a, b):
    if isinstance(a, int):
        return a % b
    return norm(zi(a) % b)


def dt_text(x, what, a=(), k={}):
    """The text of a value: a function of it, and not more is known."""
    if a or k:
        return opaque_str(what)
    return Lit([V.VStr(z3.Function(f'opq_{what}_{x.kind}', Int, Int)(
        zi(x.t)))], 'str')


def dt_attr(x, name):
    host = x.cls or KINDS[x.kind]
    if not hasattr(host, name):
        return NOATTR

    def m(fn):
        return ModelMethod(fn, f'{x.kind}.{name}')
    if name == 'tzinfo' or name == 'fold':
        return NONE_VALUE if name == 'tzinfo' else 0
    if name in ('min', 'max', 'resolution'):
        return lift_dt(getattr(host, name))
    t = x.t if x.kind != 'date' else None
    if x.kind == 'datetime':
        if name in ('time', 'timetz'):
            return m(lambda a, k: DTV('time', emod(t, DAY)))
        if name == 'date':
            return m(lambda a, k: DTV('date', ediv(t, DAY)))
    if x.kind in ('datetime', 'time'):
        tod = emod(t, DAY)
        if name == 'hour':
            return ediv(tod, 3600 * US)
        if name == 'minute':
            return emod(ediv(tod, 60 * US), 60)
        if name == 'second':
            return emod(ediv(tod, US), 60)
        if name == 'microsecond':
            return emod(tod, US)
        if name == 'replace':
            return m(lambda a, k: dt_replace(x, a, k))
    if name in ('weekday', 'isoweekday'):
        o = x.t if x.kind == 'date' else ediv(t, DAY)
        return m(lambda a, k: emod(add(o, 6), 7) if name == 'weekday' else
                 add(emod(add(o, 6), 7), 1))
    if name == 'toordinal':
        return m(lambda a, k: x.t if x.kind == 'date' else ediv(t, DAY))
    if name == 'isoformat':
        return m(lambda a, k: dt_text(x, 'iso', a, k))
    if name in ('year', 'month', 'day'):
        return z3.Function('opq_' + name, Int, Int)(
            zi(x.t if x.kind == 'date' else ediv(t, DAY)))
    if name in ('combine', 'fromordinal', 'fromisoformat', 'today', 'now'):
        return lift(getattr(host, name))
    raise Unsupported(f'{x.kind}.{name}')


def dt_replace(x, a, k):
    """Another time of day (positional arguments of times only)."""
    names = ('hour', 'minute', 'second', 'microsecond')
    k = dict(k)
    if a and x.kind != 'time' or len(a) > 4:
        raise Unsupported('replace')
    k.update(zip(names, a))
    if k.pop('tzinfo', None) is not None or k.pop('fold', 0) != 0 or \
            any(n not in names for n in k):
        raise Unsupported('replace')
    tod = 0
    for n, top, unit in zip(names, (24, 60, 60, US),
                            (3600 * US, 60 * US, US, 1)):
        v = dt_attr(x, n)
        if n in k:
            v = as_num(k[n])
            if v is None or isinstance(v, float) or \
                    is_z(v) and v.sort() == Real:
                pyraise(TypeError, 'integer required')
            if not branch(z3.And(zi(v) >= 0, zi(v) < top)):
                pyraise(ValueError, 'out of range')
        tod = add(tod, mul(v, unit))
    return DTV(x.kind, tod if x.kind == 'time' else
               add(sub(x.t, emod(x.t, DAY)), tod), x.cls)


def td_attr(x, name):
    def m(fn):
        return ModelMethod(fn, 'timedelta.' + name)
    if name == 'total_seconds':
        return m(lambda a, k: SecsVal(x.us))
    if name == 'days':
        return ediv(x.us, DAY)
    if name == 'seconds':
        return ediv(emod(x.us, DAY), US)
    if name == 'microseconds':
        return emod(x.us, US)
    if name in ('min', 'max', 'resolution'):
        return lift_dt(getattr(_dt.timedelta, name))
    return NOATTR


def secs_of(x):
    """Number of microseconds of a number of seconds, or None."""
    if isinstance(x, SecsVal):
        return x.us
    if isinstance(x, bool):
        return None
    if isinstance(x, int):
        return x * US
    if isinstance(x, float) and (x * US).is_integer():
        return int(x * US)
    if is_z(x) and x.sort() == Int:
        return norm(x * US)
    return None


def binop_special(op, a, b):
    if isinstance(a, SecsVal) or isinstance(b, SecsVal):
        if op in ('+', '-'):
            x, y = secs_of(a), secs_of(b)
            if x is not None and y is not None:
                return SecsVal(add(x, y) if op == '+' else sub(x, y))
        if op == '%' and isinstance(a, SecsVal):
            y = secs_of(b)
            if y is not None:
                q, r = floordivmod(a.us, y)
                return SecsVal(norm(r))
        if op == '//' and isinstance(a, SecsVal):
            y = secs_of(b)
            if y is not None:
                q, r = floordivmod(a.us, y)
                return norm(q)
        if op == '*':
            s, k = (a, b) if isinstance(a, SecsVal) else (b, a)
            if hostint(k) is not None or (is_z(k) and k.sort() == Int):
                return SecsVal(mul(s.us, k))
        if op == '/':
            x, y = secs_of(a), secs_of(b)
            if x is not None and y is not None:
                if branch(zi(y) == 0):
                    pyraise(ZeroDivisionError, 'float division by zero')
                return zr(zi(x)) / zr(zi(y))
        raise Unsupported('arithmetic on seconds')
    if isinstance(a, (DTV, TDV)) or isinstance(b, (DTV, TDV)):
        if isinstance(a, DTV) and isinstance(b, DTV):
            if op == '-' and a.kind == b.kind and a.kind != 'time':
                d = sub(a.t, b.t)
                return TDV(mul(d, DAY) if a.kind == 'date' else d)
            pyraise(TypeError, f'unsupported operand type(s) for {op}')
        if isinstance(a, DTV) and isinstance(b, TDV) or \
                isinstance(a, TDV) and isinstance(b, DTV) and op == '+':
            x, d = (a, b) if isinstance(a, DTV) else (b, a)
            if op not in ('+', '-') or x.kind == 'time':
                pyraise(TypeError, f'unsupported operand type(s) for {op}')
            if x.kind == 'datetime':
                t = add(x.t, d.us) if op == '+' else sub(x.t, d.us)
                if getattr(x, 'ref', False):
                    # counted from a fixed date: may leave the calendar
                    if not branch(z3.And(zi(t) >= DAY,
                                         zi(t) < 3652060 * DAY)):
                        pyraise(OverflowError, 'date value out of range')
                r = DTV('datetime', t, x.cls)
                r.ref = getattr(x, 'ref', False)
                return r
            days = days_of(d)
            if op == '-':
                days = neg(days_of(d))
            return DTV('date', add(x.t, days), x.cls)
        if isinstance(a, TDV) and isinstance(b, TDV):
            if op == '+':
                return TDV(add(a.us, b.us))
            if op == '-':
                return TDV(sub(a.us, b.us))
            if op in ('//', '%'):
                q, r = td_divmod(a, b)
                return q if op == '//' else r
            if op == '/':
                if branch(zi(b.us) == 0):
                    pyraise(ZeroDivisionError, 'division by zero')
                return zr(zi(a.us)) / zr(zi(b.us))
            pyraise(TypeError, f'unsupported operand type(s) for {op}')
        t, k = (a, b) if isinstance(a, TDV) else (b, a)
        if isinstance(t, TDV):
            if op == '*':
                kk = as_num(k)
                if kk is not None and not is_real(kk):
                    return TDV(mul(t.us, kk))
                if kk is not None:
                    raise Unsupported('timedelta times float')
                pyraise(TypeError, 'timedelta *')
            if op == '//' and t is a:
                kk = as_num(k)
                if kk is not None and not is_real(kk):
                    q, r = floordivmod(t.us, kk)
                    return TDV(norm(q))
        if as_num(k) is not None or k is None or isinstance(k, (str, tuple)):
            if op == '/' and isinstance(a, TDV):
                raise Unsupported('timedelta division')
            pyraise(TypeError, f'unsupported operand type(s) for {op}')
        raise Unsupported('date arithmetic')
    return None


def neg(x):
    return -x if isinstance(x, int) else norm(-zi(x))


def days_of(d):
    """timedelta.days (floor)."""
    us = d.us
    if isinstance(us, int):
        return us // DAY
    # whole days: c * DAY
    w = whole_days(us)
    return w if w is not None else norm(zi(us) / DAY)


def whole_days(us):
    """k if us is syntactically k * DAY."""
    e = simp(zi(us))
    if z3.is_int_value(e):
        return e.as_long() // DAY if e.as_long() % DAY == 0 else None
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
        ch = e.children()
        if z3.is_int_value(ch[0]) and ch[0].as_long() % DAY == 0:
            r = z3.IntVal(ch[0].as_long() // DAY)
            for c in ch[1:]:
                r = r * c
            return norm(r)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD:
        parts = [whole_days(c) for c in e.children()]
        if all(p is not None for p in parts):
            r = 0
            for p in parts:
                r = add(r, p)
            return r
    return None


def td_divmod(a, b):
    q, r = floordivmod(a.us, b.us)
    return norm(q), TDV(norm(r))


def equals_special(a, b):
    if isinstance(a, SecsVal) or isinstance(b, SecsVal):
        x, y = secs_of(a), secs_of(b)
        if x is None or y is None:
            raise Unsupported('comparison of seconds')
        return zi(x) == zi(y)
    if isinstance(a, HashVal) and isinstance(b, HashVal):
        return zb(equals(a.of, b.of))
    if isinstance(a, (DTV, TDV)) != isinstance(b, (DTV, TDV)):
        o = b if isinstance(a, (DTV, TDV)) else a
        if not (is_z(o) and o.sort() == V):
            return False
    if isinstance(a, ExtReal) or isinstance(b, ExtReal):
        raise Unsupported('== on -inf')
    return None


class HashVal(SV):
    """hash(x): equal for equal x."""

    def __init__(self, of):
        self.of = of


def ext(x):
    if isinstance(x, ExtReal):
        return x
    if isinstance(x, float) and x == -math.inf:
        return ExtReal(z3.BoolVal(True), z3.RealVal(0))
    if isinstance(x, Ite):
        a, b = ext(x.a), ext(x.b)
        if a is None or b is None:
            return None
        return ExtReal(z3.If(x.c, a.neg, b.neg), z3.If(x.c, a.val, b.val))
    n = as_num(x)
    if n is None:
        return None
    return ExtReal(z3.BoolVal(False), zr(n))


def order_special(op, a, b):
    if isinstance(a, SecsVal) or isinstance(b, SecsVal):
        x, y = secs_of(a), secs_of(b)
        if x is None or y is None:
            raise Unsupported('comparison of seconds')
        return interp.zcmp(op, zi(x), zi(y))
    if isinstance(a, DTV) and isinstance(b, DTV):
        if a.kind != b.kind:
            pyraise(TypeError, "can't compare")
        return interp.zcmp(op, zi(a.t), zi(b.t))
    if isinstance(a, TDV) and isinstance(b, TDV):
        return interp.zcmp(op, zi(a.us), zi(b.us))
    if isinstance(a, (DTV, TDV)) or isinstance(b, (DTV, TDV)):
        pyraise(TypeError, "can't compare")
    if isinstance(a, ExtReal) or isinstance(b, ExtReal):
        x, y = ext(a), ext(b)
        if x is None or y is None:
            raise Unsupported('comparison with -inf')
        lt = z3.And(z3.Not(y.neg), z3.Or(x.neg, x.val < y.val))
        gt = z3.And(z3.Not(x.neg), z3.Or(y.neg, x.val > y.val))
        return {'<': lt, '>': gt, '<=': z3.Not(gt), '>=': z3.Not(lt)}[op]
    if isinstance(a, SSet) or isinstance(b, SSet):
        raise Unsupported('set comparison')
    if isinstance(a, (SList, SSeq)) or isinstance(b, (SList, SSeq)):
        raise Unsupported('ordering of sequences')
    if (is_z(a) and a.sort() == V) or (is_z(b) and b.sort() == V):
        for x in (a, b):
            if is_z(x) and x.sort() == V and not valid(
                    z3.Or(V.is_VInt(x), V.is_VReal(x), V.is_VBool(x))):
                raise Unsupported('ordering of opaque values')
    return None


def getattr_model(obj, name):
    """Attribute of a modelled object; None if not modelled here."""
    r = None
    if isinstance(obj, SList):
        r = list_method(obj, name)
    elif isinstance(obj, SDict):
        r = dict_method(obj, name)
    elif isinstance(obj, str) or (isinstance(obj, SSeq) and
                                  obj.kind == 'str'):
        r = str_method(obj, name)
    elif isinstance(obj, tuple):
        r = seq_method(Lit(obj, 'tuple'), name)
    elif isinstance(obj, SSeq):
        r = seq_method(obj, name)
        if r is None and obj.kind == 'list' and hasattr(list, name):
            raise Unsupported('mutation of a summarised list')
    elif isinstance(obj, Rng):
        r = rng_attr(obj, name)
    elif isinstance(obj, DTV):
        r = dt_attr(obj, name)
        return r
    elif isinstance(obj, TDV):
        return td_attr(obj, name)
    elif isinstance(obj, SIter):
        if name == '__next__':
            return ModelMethod(lambda a, k: m_next([obj], {}))
        if name == '__iter__':
            return ModelMethod(lambda a, k: obj)
        if name == '__length_hint__':
            # iterators over sequences have it, generators and others not
            if not getattr(obj, 'hint', False):
                return NOATTR
            return ModelMethod(lambda a, k: sub(lazy.state(obj)[0].n,
                                                lazy.state(obj)[1]))
    elif isinstance(obj, SliceVal):
        if name in ('start', 'stop', 'step'):
            v = getattr(obj, name)
            return NONE_VALUE if v is None else v
        if name == 'indices':
            return ModelMethod(
                lambda a, k: tuple(interp.slice_indices(
                    interp.resolve_slice(obj), as_num(a[0]))))
    elif isinstance(obj, ExcVal):
        if name == 'args':
            return obj.args
    elif isinstance(obj, SSet):
        if name in ('__len__',):
            return ModelMethod(lambda a, k: length(obj))
        if name == 'add':
            return ModelMethod(lambda a, k: obj.set('seq', concat(
                [obj.seq.with_kind('list'), Lit([a[0]])])))
        if name == 'update':
            def upd(a, k):
                for x in a:
                    x = to_seq(x)
                    if x.n is INF:
                        raise Unsupported('infinite update')
                    obj.set('seq', concat([obj.seq.with_kind('list'),
                                           x.with_kind('list')]))
            return ModelMethod(upd)
        if name == 'copy':
            return ModelMethod(lambda a, k: SSet(obj.seq))
    elif isinstance(obj, SecsVal):
        if name == 'is_integer':
            return ModelMethod(lambda a, k: zi(emod(obj.us, US)) == 0)
    if r is not None:
        return r
    if isinstance(obj, SV) or is_z(obj):
        host = class_of(obj)
        if host is not None and name == '__class__':
            return host
        if is_z(obj) and obj.sort() == V:
            kinds = (int, float, str, list, tuple, type(None))
        else:
            kinds = (host,) if isinstance(host, type) else \
                (int, float, str, list, tuple, dict, set)
        if any(hasattr(k, name) for k in kinds):
            raise Unsupported(f'attribute {name} of {type(obj).__name__}')
        return NOATTR
    return None


def setattr_model(obj, name, val):
    if isinstance(obj, Rng):
        raise Unsupported('attribute of Random')
    return False


# --------------------------------------------------------------------------
# Types


def class_of(x):
    """Host class of a value, or None if not determined."""
    x = force(x)
    if isinstance(x, Inst):
        return x.cls
    if is_z(x):
        s = x.sort()
        return {Int: int, Bool: bool, Real: float}.get(s)
    if isinstance(x, SList):
        return list
    if isinstance(x, SDict):
        return dict
    if isinstance(x, SSet):
        return set
    if isinstance(x, SSeq):
        return {'list': list, 'tuple': tuple, 'str': str,
                'range': range, 'items': type({}.items())}[x.kind]
    if isinstance(x, SIter):
        return types.GeneratorType
    if isinstance(x, DTV):
        return x.cls or KINDS[x.kind]
    if isinstance(x, TDV):
        return _dt.timedelta
    if isinstance(x, SecsVal):
        return float
    if isinstance(x, ExtReal):
        return float
    if isinstance(x, Rng):
        return _random.Random
    if isinstance(x, SliceVal):
        return slice
    if isinstance(x, ExcVal):
        return x.cls
    if isinstance(x, (FuncVal, Partial)):
        return types.FunctionType
    if isinstance(x, (BoundMethod, ModelMethod)):
        return types.MethodType
    if isinstance(x, Ref):
        return getattr(x.role, 'cls', None)
    if isinstance(x, SV):
        return None
    return type(x)


def isinstance_(x, cls):
    """host bool or z3 Bool"""
    x, cls = force(x), force(cls)
    if isinstance(cls, tuple):
        rs = [isinstance_(x, c) for c in cls]
        if any(r is True for r in rs):
            return True
        rs = [zb(r) for r in rs if r is not False]
        return z3.Or(*rs) if rs else False
    if isinstance(cls, SSeq) and hostint(cls.n) is not None:
        return isinstance_(x, tuple(cls.get(k)
                                    for k in range(hostint(cls.n))))
    if isinstance(cls, TypeOf):
        raise Unsupported('isinstance of unknown type')
    if not isinstance(cls, type) and not hasattr(cls, '__instancecheck__'):
        if isinstance(cls, types.UnionType):
            return isinstance_(x, cls.__args__)
        raise Unsupported('isinstance')
    if isinstance(x, Ref):
        return x.role.isinstance(x, cls)
    if is_z(x) and x.sort() == V:
        rs = []
        if issubclass(int, cls):
            rs.append(V.is_VInt(x))
        if issubclass(bool, cls):
            rs.append(V.is_VBool(x))
        if issubclass(float, cls):
            rs.append(V.is_VReal(x))
        if issubclass(str, cls):
            rs += [V.is_VStr(x), V.is_VChr(x)]
        if issubclass(type(None), cls):
            rs.append(V.is_VNone(x))
        if issubclass(list, cls):
            rs.append(z3.And(V.is_VSeq(x),
                             z3.Not(interp.IsTuple(V.vseq(x)))))
        if issubclass(tuple, cls):
            rs.append(z3.And(V.is_VSeq(x), interp.IsTuple(V.vseq(x))))
        if cls is object:
            return True
        if cls not in (int, bool, float, str, type(None), list, tuple):
            # an object of some other class may be an instance of it
            rs.append(z3.And(V.is_VRef(x), z3.Function(
                'isa_' + getattr(cls, '__qualname__', str(cls)), V,
                Bool)(x)))
        return z3.Or(*rs) if rs else False
    c = class_of(x)
    if c is None:
        raise Unsupported(f'isinstance of {type(x).__name__}')
    try:
        return issubclass(c, cls)
    except TypeError as e:
        raise Unsupported(f'isinstance: {e}')


def construct(cls, args, kwargs):
    """cls(*args, **kwargs)"""
    m = CLASSES.get(cls)
    if m is not None:
        C.lib_used.add(cls.__qualname__)
        return interp.call_model(m, args, kwargs, cls.__qualname__)
    if issubclass(cls, BaseException):
        if is_repo_class(cls):
            return ExcVal(cls, args)
        return ExcVal(cls, args)
    if is_repo_class(cls) or issubclass(cls, (collections.UserList,)):
        if getattr(cls, '__abstractmethods__', None):
            pyraise(TypeError, f"Can't instantiate abstract class "
                    f'{cls.__name__}')
        inst = Inst(cls)
        if issubclass(cls, dict):
            inst.d['__base__'] = SDict()
        elif issubclass(cls, collections.UserList):
            inst.d['__base__'] = SList(Lit([]))
        elif issubclass(cls, (list, tuple, str, int, float, set)):
            raise Unsupported('subclass of builtin')
        nw = class_lookup(cls, '__new__')
        if nw is not None and is_repo_func(getattr(nw[1], '__func__',
                                                   nw[1])):
            raise Unsupported('__new__')
        q = f'{cls.__module__}.{cls.__qualname__}'
        con = interp.CONTRACTS.get(q)
        if con is not None and C.current_target != q:
            C.contracts_used.add(q)
            return con(cls, list(args), kwargs)
        init = class_lookup(cls, '__init__')
        if init is not None:
            f = interp.bind_attr(init[0], init[1], inst, '__init__')
            call(f, args, kwargs)
        return inst
    if cls is type(unittest.mock.call):
        return opaque_str('call')
    raise Unsupported(f'construction of {cls.__qualname__}')


# --------------------------------------------------------------------------
# Builtins


def m_len(a, k):
    return length(a[0])


def m_range(a, k):
    a = [as_num(x) for x in a]
    if any(x is None or is_real(x) for x in a):
        pyraise(TypeError, 'range of non-int')
    if len(a) == 1:
        return make_range(0, a[0], 1)
    return make_range(*a)


def m_isinstance(a, k):
    return isinstance_(a[0], a[1])


def m_issubclass(a, k):
    return issubclass(a[0], a[1])


def m_hasattr(a, k):
    if not isinstance(a[1], str):
        if isinstance(force(a[0]), Ref):
            return force(a[0]).role.hasattr(force(a[0]), a[1])
        raise Unsupported('symbolic attribute name')
    return has_attr(a[0], a[1])


def m_getattr(a, k):
    a[2:]           # perhaps not needed
    obj = force(a[0])
    if not isinstance(a[1], str):
        if isinstance(obj, Ref):
            r = obj.role.getattr(obj, a[1])
            if r is NOATTR:
                if len(a) > 2:
                    return a[2]
                pyraise(AttributeError, 'no attribute')
            return r
        raise Unsupported('symbolic attribute name')
    try:
        r = interp.find_attr(obj, a[1])
    except PyRaise as e:
        if len(a) > 2 and issubclass(e.exc.cls, AttributeError):
            return a[2]
        raise
    if r is NOATTR:
        if len(a) > 2:
            return a[2]
        pyraise(AttributeError, f'no attribute {a[1]!r}')
    return r


def m_setattr(a, k):
    if not isinstance(a[1], str):
        if isinstance(force(a[0]), Ref):
            force(a[0]).role.setattr(force(a[0]), a[1], a[2])
            return
        raise Unsupported('symbolic attribute name')
    interp.set_attr(a[0], a[1], a[2])


def m_sum(a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    seq = to_seq(a[0])
    n = hostint(seq.n) if seq.n is not INF else None
    if seq.n is INF:
        raise Unsupported('sum of an infinite iterator')
    if n is not None and n <= 24:
        r = start
        for j in range(n):
            r = interp.binop('+', r, seq.get(j))
        return r
    return interp.binop('+', start, total(seq))


def total(seq):
    """Sum of a finite sequence of numbers."""
    n = hostint(seq.n)
    if n is not None and n <= 24:
        r = 0
        for j in range(n):
            r = interp.binop('+', r, seq.get(j))
        return r
    if isinstance(seq, Concat):
        r = 0
        for p in seq.parts:
            r = interp.binop('+', r, total(p))
        return r
    cases = getattr(seq, 'cases', None)
    if cases is not None:
        c, a, b = cases
        a, b = total(a), total(b)
        if is_real(a) or is_real(b):
            return z3.If(c, zr(a), zr(b))
        return z3.If(c, zi(a), zi(b))
    if isinstance(seq, Flat) and seq.hs is None:
        # piece by piece
        bound = seq.bound if seq.bound is not None else seq.count
        e = generic(seq.i, bound, lambda: total(seq.piece))
        if e is not core.Fork:
            real = is_real(e)
            P = prefix_sum(seq.i, zr(e) if real else zi(e), bound, real)
            return norm(P.ps(seq.count))
    return prefix_of(seq)(seq.n)


def generic(i, n, fn):
    """fn() at the generic index 0 <= i < n, or Fork"""
    def at():
        C.idx.append(i)
        C.pc.append(z3.And(i >= 0, i < zi(n)) if n is not INF else i >= 0)
        return fn()
    return core.uniform(at)


def each(seq, fn):
    """The values of fn for the elements, forks taken for each alone."""
    from . import loops
    out = SList(Lit([]))
    loops.iterate(SIter(seq), lambda x: list_append(out, fn(x)))
    return out.seq


def prefix_of(seq):
    """t -> sum of the first t elements (numbers)."""
    i = z3.Int(uname('idx'))

    def number(x):
        x = as_num(force(x))
        if x is None:
            raise Unsupported('sum of non-numbers')
        return x
    e = generic(i, seq.n, lambda: number(seq.get(i)))
    if e is core.Fork:
        nums = each(seq, number)
        e = generic(i, seq.n, lambda: as_num(nums.get(i)))
        if e is core.Fork or e is None:
            raise Unsupported('sum')
    real = is_real(e)
    P = prefix_sum(i, zr(e) if real else zi(e), seq.n, real)
    return lambda t: norm(P.ps(t))


def accumulate_seq(seq):
    n = hostint(seq.n)
    if n is not None and n <= 24:
        out = []
        r = None
        for j in range(n):
            r = seq.get(j) if r is None else interp.binop('+', r, seq.get(j))
            out.append(r)
        return Lit(out)
    P = prefix_of(seq)
    return SSeq(seq.n, lambda j: P(add(j, 1)), 'list')


def _minmax(a, k, op):
    if set(k) - {'default', 'key'}:
        pyraise(TypeError, 'unexpected keyword')
    key = k.get('key')
    if len(a) == 1:
        seq = to_seq(a[0])
        n = hostint(seq.n) if seq.n is not INF else None
        if n is None:
            if key is not None:
                raise Unsupported('max of unknown length')
            if not branch(zi(seq.n) > 0):
                if 'default' in k:
                    return k['default']
                pyraise(ValueError, 'arg is an empty sequence')
            w = fresh('argm', Int)
            assume(z3.And(w >= 0, w < zi(seq.n)))
            v = as_num(seq.get(w))
            J = z3.FreshInt('K')
            e = generic(J, seq.n, lambda: as_num(seq.get(J)))
            if e is core.Fork:
                raise Unsupported('max')
            if v is None or e is None:
                raise Unsupported('max of non-numbers')
            fact = (e <= v) if op == '>' else (e >= v)
            C.frules.append(core.ForallRule(
                lambda t: z3.Implies(z3.And(t >= 0, t < zi(seq.n)),
                                     z3.substitute(fact, (J, t))),
                interp.triggers_of(e, J), [z3.IntVal(0)]))
            return v
        xs = [seq.get(j) for j in range(n)]
        if not xs:
            if 'default' in k:
                return k['default']
            pyraise(ValueError, 'arg is an empty sequence')
    else:
        xs = a
    r = xs[0]
    for x in xs[1:]:
        p = call(key, [x]) if key is not None else x
        q = call(key, [r]) if key is not None else r
        c = interp.compare(op, p, q)
        r = ite(zb(c), x, r)
    return r


def m_max(a, k):
    return _minmax(a, k, '>')


def m_min(a, k):
    return _minmax(a, k, '<')


def m_any(a, k):
    x = force(a[0])
    if lazy.one_by_one(x):
        return lazy.search(x, interp.test)[0]
    seq = lazy.taken(x)
    n = hostint(seq.n)
    if n is not None and n <= 24:
        for j in range(n):
            if interp.test(seq.get(j)):
                return True
        return False
    return exists_in(seq, lambda e: truth(e))


def m_all(a, k):
    x = force(a[0])
    if lazy.one_by_one(x):
        return not lazy.search(x, lambda v: not interp.test(v))[0]
    seq = lazy.taken(x)
    n = hostint(seq.n)
    if n is not None and n <= 24:
        for j in range(n):
            if not interp.test(seq.get(j)):
                return False
        return True
    r = exists_in(seq, lambda e: znot(truth(e)))
    return znot(r)


def m_list(a, k):
    if not a:
        return SList(Lit([]))
    s = to_seq(a[0])
    if s.n is INF:
        raise Unsupported('list of an infinite iterator')
    return SList(s.with_kind('list'))


def m_tuple(a, k):
    if not a:
        return ()
    x = force(a[0])
    if isinstance(x, tuple):
        return x
    s = to_seq(x)
    if s.n is INF:
        raise Unsupported('tuple of an infinite iterator')
    if isinstance(s, Lit):
        return tuple(s.items)
    return s.with_kind('tuple')


def m_set(a, k):
    return SSet(to_seq(a[0]) if a else Lit([]))


def m_dict(a, k):
    d = SDict()
    dict_update(d, *a, **k)
    return d


def m_iter(a, k):
    x = force(a[0])
    if len(a) > 1:
        return interp.call(prelude.iter_until, list(a), {})
    if isinstance(x, SIter):
        return x
    if isinstance(x, Inst):
        return lazy.of_object(x)
    it = lazy.over(SIter(to_seq(x)), x)
    it.hint = True
    return it


def hopeful(more):
    """Assume that an iterator does not run out? (For candidates of
    invariants only.)"""
    if C.optimistic and not C.opt_used and not core.valid(more):
        C.opt_used = True
    if C.optimistic and C.opt_used and core.feasible(more):
        C.opt_facts.append(more)
        assume(more)
        return True
    return False


def m_next(a, k):
    a[1:]           # perhaps not needed
    it = force(a[0])
    if isinstance(it, Ref):
        return it.role.next(it)
    if not isinstance(it, SIter):
        if isinstance(it, Inst):
            return interp.call_method(it, '__next__', [])
        pyraise(TypeError, 'object is not an iterator')
    if not isinstance(getattr(it, 'node', None), ast.FunctionDef) and \
            lazy.impure(it):
        found, v = lazy.search(it, lambda v: True)
        if found:
            return v
        if len(a) > 1:
            return a[1]
        pyraise(StopIteration)
    seq, pos = lazy.bits(it)
    if seq.n is INF:
        it.set('pos', add(pos, 1))
        return seq.get(pos)
    more = zi(pos) < zi(seq.n)
    if hopeful(more):
        it.set('pos', add(pos, 1))
        return seq.get(pos)
    if branch(more):
        it.set('pos', add(pos, 1))
        return seq.get(pos)
    if len(a) > 1:
        return a[1]
    pyraise(StopIteration)


def zip_star(outer):
    """zip(*outer): transposition."""
    def no_values():
        return SIter(Lit([]))
    if branch(zi(outer.n) == 0):
        return no_values()
    j = z3.FreshInt('J')
    n = to_seq(outer.get(j)).n
    if n is INF:
        raise Unsupported('zip of infinite iterables')
    if str(j) in symbols(n):
        raise Unsupported('zip of sequences of different lengths')
    return SIter(SSeq(n, lambda i: SSeq(
        outer.n, lambda m: to_seq(outer.get(m)).get(i), 'tuple'), 'list'))


def m_zip(a, k):
    a = interp.flatten_args(a)
    if any(isinstance(x, interp.Star) for x in a):
        if len(a) > 1 or k:
            raise Unsupported('zip')
        return zip_star(a[0].seq)
    a = [force(x) for x in a]
    if k.get('strict'):
        raise Unsupported('zip strict')
    if any(isinstance(x, SIter) for x in a):
        return lazy.zipped(a)
    seqs = [to_seq(x) for x in a]
    if not seqs:
        return SIter(Lit([]))
    if all(isinstance(s, Lit) for s in seqs):
        return lazy.over(
            SIter(Lit(list(zip(*[s.items for s in seqs])))), *a)
    n = INF
    for s in seqs:
        if s.n is INF:
            continue
        n = s.n if n is INF else (
            n if same(n, s.n) else norm(zmin(n, s.n)))
    return lazy.over(SIter(SSeq(
        n, lambda i: tuple(s.get(i) for s in seqs), 'list')), *a)


def m_enumerate(a, k):
    st = a[1] if len(a) > 1 else k.get('start', 0)
    x = force(a[0])
    if isinstance(x, SIter):
        return lazy.enumerated(x, st)
    s = to_seq(x)
    if isinstance(s, Lit):
        return lazy.over(SIter(Lit(
            [(add(st, j), v) for j, v in enumerate(s.items)])), x)
    return lazy.over(SIter(SSeq(
        s.n, lambda i: (add(st, i), s.get(i)), 'list')), x)


def m_map(a, k):
    from . import loops
    f = a[0]
    seqs = a[1:]
    src = seqs[0] if len(seqs) == 1 else m_zip(seqs, {})
    return lazy.Lazy(lambda action: loops.iterate(
        src, lambda x: action(call(f, [x] if len(seqs) == 1 else list(x)))))


def m_filter(a, k):
    from . import loops
    f, src = a

    def run(action):
        def body(x):
            if interp.test(call(f, [x]) if f is not None else x):
                action(x)
        loops.iterate(src, body)
    return lazy.Lazy(run)


def m_reversed(a, k):
    it = lazy.over(SIter(reverse_seq(to_seq(a[0]))), force(a[0]))
    it.hint = True
    return it


def m_sorted(a, k):
    seq = to_seq(a[0])
    key = k.get('key')
    rev = k.get('reverse', False)
    rev = branch(truth(rev)) if not isinstance(rev, bool) else rev
    n = seq.n
    if n is INF:
        raise Unsupported('sorted of an infinite iterator')
    P, Q = permutation(n, 'sorted')
    J = z3.FreshInt('K')
    e = seq.get(J)
    if key is not None:
        kv = generic(J, n, lambda: call(key, [e]))
        if kv is core.Fork:
            kv = each(seq, lambda x: call(key, [x])).get(J)
    else:
        kv = e
        if isinstance(e, tuple) and len(e) > 1:
            # ties are decided by the further components
            if branch(fresh('tie', Bool)):
                pyraise(TypeError, "'<' not supported between items")
            kv = e[0]
        elif is_z(e) and e.sort() == V:
            raise Unsupported('sorting of opaque values')
    kx = ext(kv) if not isinstance(kv, (tuple, DTV, TDV)) else None
    if kx is not None and not P.outer:
        def at(t):
            return ExtReal(z3.substitute(zb(kx.neg), (J, t)),
                           z3.substitute(kx.val, (J, t)))

        def pair(x, y):
            tx, ty = x[0], y[0]
            lo, hi = at(P(tx)), at(P(ty))
            if rev:
                lo, hi = hi, lo
            le = order_special('<=', lo, hi)
            return [z3.Implies(z3.And(0 <= tx, tx < ty, ty < zi(n)), le)]
        RULES[P.f.name()].pair = pair
    return SList(SSeq(n, lambda i: seq.get(P(zi(i))), 'list'))


def m_abs(a, k):
    x = force(a[0])
    if isinstance(x, TDV):
        return TDV(norm(z3.If(zi(x.us) < 0, -zi(x.us), zi(x.us))))
    if isinstance(x, SecsVal):
        return SecsVal(norm(z3.If(zi(x.us) < 0, -zi(x.us), zi(x.us))))
    n = as_num(x)
    if n is None:
        pyraise(TypeError, 'bad operand type for abs()')
    if isinstance(n, (int, float)):
        return abs(n)
    return norm(z3.If(n < 0, -n, n))


def m_divmod(a, k):
    x, y = force(a[0]), force(a[1])
    if isinstance(x, TDV) and isinstance(y, TDV):
        return td_divmod(x, y)
    return (interp.binop('//', x, y), interp.binop('%', x, y))


def m_bool(a, k):
    return interp.truth(a[0]) if a else False


def m_int(a, k):
    if not a:
        return 0
    x = force(a[0])
    if isinstance(x, (str, float)):
        try:
            return int(x)
        except (ValueError, OverflowError) as e:
            pyraise(type(e), str(e))
    if isinstance(x, SecsVal):
        us = zi(x.us)
        return norm(z3.If(us >= 0, us / US, -((-us) / US)))
    n = as_num(x)
    if n is None:
        if x is None or isinstance(x, tuple):
            pyraise(TypeError, 'int() argument')
        raise Unsupported('int()')
    if is_real(n):
        r = zr(n)
        return norm(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
    return norm(zi(n))


def m_float(a, k):
    x = force(a[0])
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, str):
        return float(x)
    n = as_num(x)
    if n is None:
        raise Unsupported('float()')
    return zr(n)


def m_str(a, k):
    return to_str(a[0]) if a else ''


def m_repr(a, k):
    return to_repr(a[0])


def m_type(a, k):
    if len(a) != 1:
        raise Unsupported('type()')
    x = force(a[0])
    c = class_of(x)
    if c is None or isinstance(x, Ref):
        return TypeOf(x)
    return c


def m_hash(a, k):
    x = force(a[0])
    if isinstance(x, Inst):
        f = class_lookup(x.cls, '__hash__')
        if f is not None:
            if f[1] is None:
                pyraise(TypeError, 'unhashable type')
            if not isinstance(f[1], types.FunctionType):
                raise Unsupported('hash of an object')
            return call_method(x, '__hash__', [], {})
    elif isinstance(x, (SList, SDict)):
        pyraise(TypeError, 'unhashable type')
    return HashVal(freeze(x))


def m_callable(a, k):
    x = force(a[0])
    if isinstance(x, Ref):
        return x.role.callable(x)
    if isinstance(x, Inst):
        return class_lookup(x.cls, '__call__') is not None
    if x is None or isinstance(x, (int, float, str, tuple, SList, SDict)) \
            or is_z(x):
        return False
    return True


def m_chr(a, k):
    x = as_num(a[0])
    if isinstance(x, int):
        try:
            return chr(x)
        except (ValueError, OverflowError) as e:
            pyraise(type(e), str(e))
    return Lit([V.VChr(zi(x))], 'str')


def m_ord(a, k):
    x = force(a[0])
    if isinstance(x, str):
        return ord(x)
    w = str_seq(x)
    c = w.get(0)
    if branch(V.is_VChr(c)):
        return V.vchr(c)
    raise Unsupported('ord of opaque string')


def m_slice(a, k):
    if len(a) == 1:
        return SliceVal(None, a[0], None)
    if len(a) == 2:
        return SliceVal(a[0], a[1], None)
    return SliceVal(*a)


def m_round(a, k):
    x = as_num(a[0])
    if isinstance(x, (int, float)) and all(isinstance(y, int) for y in a[1:]):
        return round(x, *a[1:])
    if is_z(x) and x.sort() == Int:
        return x
    raise Unsupported('round')


def m_pow(a, k):
    return interp.binop('**', a[0], a[1])


def m_id(a, k):
    return z3.Const(uname('nondet!id'), Int)


def m_print(a, k):
    list(a), list(k)
    return None


def m_property(a, k):
    raise Unsupported('property()')


# math

Exp = z3.Function('exp', Real, Real)
Log = z3.Function('log', Real, Real)
Sqrt = z3.Function('sqrt', Real, Real)
Fact = z3.Function('factorial', Int, Int)
LGamma = z3.Function('lgamma', Real, Real)


def _math_rules():
    r = Rule()
    r.unary = lambda x: [Exp(x) > 0]
    RULES['exp'] = r
    r = Rule()
    r.unary = lambda x: [z3.Implies(z3.And(x > 0, x < 1), Log(x) < 0),
                         z3.Implies(x == 1, Log(x) == 0),
                         z3.Implies(x > 1, Log(x) > 0)]
    RULES['log'] = r
    r = Rule()
    r.unary = lambda x: [z3.Implies(x > 0, Sqrt(x) > 0),
                         z3.Implies(x == 0, Sqrt(x) == 0)]
    RULES['sqrt'] = r
    r = Rule()
    r.unary = lambda x: [Fact(x) >= 1]
    RULES['factorial'] = r


_math_rules()


def _num(x):
    n = as_num(x)
    if n is None:
        if isinstance(force(x), ExtReal):
            raise Unsupported('math on -inf')
        pyraise(TypeError, 'must be real number')
    return n


def m_exp(a, k):
    x = _num(a[0])
    if isinstance(x, (int, float)):
        return Exp(zr(x))
    return Exp(simp(zr(x)))


def m_log(a, k):
    x = _num(a[0])
    if len(a) > 1:
        raise Unsupported('log with base')
    if not branch(zr(x) > 0):
        pyraise(ValueError, 'math domain error')
    return Log(simp(zr(x)))


def m_sqrt(a, k):
    x = _num(a[0])
    if not branch(zr(x) >= 0):
        pyraise(ValueError, 'math domain error')
    return Sqrt(simp(zr(x)))


def m_factorial(a, k):
    x = _num(a[0])
    if is_real(x):
        pyraise(TypeError, 'not an integer')
    if isinstance(x, int):
        if x < 0:
            pyraise(ValueError, 'factorial() not defined')
        return math.factorial(x)
    if not branch(zi(x) >= 0):
        pyraise(ValueError, 'factorial() not defined')
    return Fact(simp(zi(x)))


def m_lgamma(a, k):
    return LGamma(simp(zr(_num(a[0]))))


def m_ceil(a, k):
    x = _num(a[0])
    if isinstance(x, (int, float)):
        return math.ceil(x)
    if x.sort() == Int:
        return x
    return norm(-z3.ToInt(-x))


def m_floor(a, k):
    x = _num(a[0])
    if isinstance(x, (int, float)):
        return math.floor(x)
    if x.sort() == Int:
        return x
    return norm(z3.ToInt(x))


def m_mpow(a, k):
    x, y = _num(a[0]), _num(a[1])
    return interp.PowR(zr(x), zr(y)) if hostint(y) is None else \
        interp.binop('**', zr(x), y)


# itertools


def i_islice(a, k):
    it = force(a[0])
    args = [None if force(x) is None else as_num(x) for x in a[1:]]
    if len(args) == 1:
        start, stop, step = 0, args[0], None
    else:
        start, stop = args[0], args[1]
        step = args[2] if len(args) > 2 else None
        if start is None:
            start = 0
    if step is not None and hostint(step) != 1:
        raise Unsupported('islice with step')
    for x in (start, stop):
        if x is None:
            continue
        if isinstance(x, int):
            if x < 0:
                pyraise(ValueError, 'islice() indices must be >= 0')
        elif not branch(zi(x) >= 0):
            pyraise(ValueError, 'islice() indices must be >= 0')
    if not isinstance(it, SIter):
        return lazy.over(SIter(
            sliced(to_seq(it), 0, start, stop, False)[0]), it)

    def make(full):
        src, pos = lazy.bits(it)
        seq, after = sliced(src, pos, start, stop, True)
        return seq, [(it, after)]

    def run(action):
        if not branch(zi(stop) > 0):
            return

        def body(j, x):
            action(x)
            if interp.test(zi(add(j, 1)) >= zi(stop)):
                raise lazy.Found()
        try:
            lazy.counting(it, body)
        except lazy.Found:
            pass
    return lazy.Lazy(run if hostint(start) == 0 and stop is not None
                     else None, make)


def sliced(src, pos, start, stop, iterator):
    """(elements of a slice, position after it)"""
    if stop is None:
        if src.n is INF:
            return lazy.rest(src, add(pos, start)), lazy.GONE
        return lazy.rest(src, norm(zmin(add(pos, start), src.n))), src.n
    if src.n is INF:
        lo = add(pos, start)
        cnt = norm(z3.If(zi(stop) > zi(start), zi(stop) - zi(start),
                         z3.IntVal(0))) if not (
            hostint(start) == 0) else stop
        return SSeq(norm(cnt), lambda i: src.get(add(lo, i)), 'list'), \
            add(pos, zmax(start, stop) if hostint(start) != 0 else stop)
    avail = sub(src.n, pos)
    hi = stop if iterator and hopeful(
        zi(stop) <= zi(avail)) else norm(zmin(stop, avail))
    lo = norm(zmin(start, hi)) if hostint(start) != 0 else 0
    return seq_slice(src, add(pos, lo), add(pos, hi)), norm(add(pos, hi))


def i_chain(a, k):
    from . import loops
    a = [force(x) for x in a]
    if any(isinstance(x, SIter) for x in a):
        def run(action):
            for x in a:
                loops.iterate(x, action)
        return lazy.Lazy(run)
    return lazy.over(SIter(concat([to_seq(x).with_kind('list') for x in a],
                                  'list')), *a)


def i_cycle(a, k):
    s = lazy.taken(a[0])
    if s.n is INF:
        return SIter(s)
    if not branch(zi(s.n) > 0):
        return SIter(Lit([]))
    n = zi(s.n)

    def get(j):
        _, r = interp.DivF(zi(j), n), interp.ModF(simp(zi(j)), simp(n))
        return s.get(r)
    return SIter(SSeq(INF, get, 'list'))


def i_repeat(a, k):
    x = a[0]
    times = a[1] if len(a) > 1 else k.get('times')
    if times is None:
        return SIter(SSeq(INF, lambda i: x, 'list'))
    t = as_num(times)
    return SIter(SSeq(norm(zmax(t, 0)), lambda i: x, 'list'))


def i_count(a, k):
    st = a[0] if a else 0
    stp = a[1] if len(a) > 1 else 1
    return SIter(SSeq(INF, lambda i: add(st, mul(i, stp)), 'list'))


def i_accumulate(a, k):
    func = a[1] if len(a) > 1 else k.get('func')
    if func not in (None, operator.add) or k.get('initial') is not None:
        raise Unsupported('accumulate with function')
    return SIter(accumulate_seq(lazy.taken(a[0])))


def i_takewhile(a, k):
    raise Unsupported('takewhile')


# datetime


def d_timedelta(a, k):
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes',
             'hours', 'weeks']
    for x in k:
        if x not in names:
            pyraise(TypeError, f'{x!r} is an invalid keyword argument')
    vals = kwbind(names, a, k, {n: 0 for n in names})
    unit = {'days': DAY, 'seconds': US, 'microseconds': 1,
            'milliseconds': 1000, 'minutes': 60 * US, 'hours': 3600 * US,
            'weeks': 7 * DAY}
    us = 0
    for n, v in zip(names, vals):
        v = force(v)
        if isinstance(v, SecsVal):
            # may be off by rounding
            raise Unsupported('timedelta of a float')
        v = as_num(v)
        if v is None:
            pyraise(TypeError, 'unsupported type for timedelta')
        if isinstance(v, float):
            us = add(us, (lambda t: (t.days * 86400 + t.seconds) * US +
                          t.microseconds)(_dt.timedelta(**{n: v})))
            continue
        if is_real(v):
            raise Unsupported('timedelta of a float')
        us = add(us, mul(v, unit[n]))
    return TDV(us)


def d_date(a, k):
    if all(isinstance(x, int) for x in list(a) + list(k.values())):
        return lift_dt(_dt.date(*a, **k))
    raise Unsupported('date of symbolic values')


def d_datetime(a, k):
    if all(isinstance(x, int) for x in list(a) + list(k.values())):
        return lift_dt(_dt.datetime(*a, **k))
    raise Unsupported('datetime of symbolic values')


def d_time(a, k):
    if all(isinstance(x, int) for x in list(a) + list(k.values())):
        return lift_dt(_dt.time(*a, **k))
    raise Unsupported('time of symbolic values')


def d_combine(a, k):
    d, t = force(a[0]), force(a[1])
    if not isinstance(d, DTV) or not isinstance(t, DTV) or \
            t.kind != 'time' or d.kind == 'time':
        pyraise(TypeError, 'combine')
    days = d.t if d.kind == 'date' else ediv(d.t, DAY)
    r = DTV('datetime', add(mul(days, DAY), t.t))
    r.ref = hostint(days) is not None
    return r


def d_fromordinal(a, k):
    return DTV('date', as_num(a[0]))


# warnings


def w_warn(a, k):
    m, cat, _, _ = kwbind(['message', 'category', 'stacklevel', 'source'],
                          a, {x: y for x, y in k.items()
                              if x != 'skip_file_prefixes'},
                          {'category': None, 'stacklevel': 1,
                           'source': None})
    log_event('warn', m, cat)


def log_event(kind, *args):
    w = C.world
    lazy.apart(args[0] if args else None)
    w.set('seq', concat([w.seq, Lit([(kind,) + tuple(args)])]))


# inspect


def s_signature(a, k):
    f = force(a[0])
    if isinstance(f, Ref):
        return f.role.signature(f)
    raise Unsupported('signature of a known function')


CLASSES = {
    bool: m_bool, int: m_int, float: m_float, str: m_str, list: m_list,
    tuple: m_tuple, dict: m_dict, set: m_set, frozenset: m_set,
    range: m_range, slice: m_slice, zip: m_zip, enumerate: m_enumerate,
    map: m_map, filter: m_filter, reversed: m_reversed, type: m_type,
    itertools.islice: i_islice, itertools.chain: i_chain,
    itertools.cycle: i_cycle, itertools.repeat: i_repeat,
    itertools.count: i_count, itertools.accumulate: i_accumulate,
    _dt.timedelta: d_timedelta, _dt.date: d_date, _dt.datetime: d_datetime,
    _dt.time: d_time,
    collections.OrderedDict: m_dict,
    _random.Random: lambda a, k: Rng(rng_state_for(
        kwbind(['x'], a, k, {'x': None})[0])),
    contextlib.suppress: lambda a, k: Suppress(tuple(a)),
    object: lambda a, k: Inst(object),
}

class Suppress:
    def __init__(self, types):
        self.types = types


MODELS = {
    len: m_len, isinstance: m_isinstance, issubclass: m_issubclass,
    hasattr: m_hasattr, getattr: m_getattr, setattr: m_setattr, sum: m_sum,
    max: m_max, min: m_min, any: m_any, all: m_all, iter: m_iter,
    next: m_next, sorted: m_sorted, abs: m_abs, divmod: m_divmod,
    repr: m_repr, hash: m_hash, callable: m_callable, chr: m_chr,
    ord: m_ord, round: m_round, pow: m_pow, id: m_id, print: m_print,
    math.exp: m_exp, math.log: m_log, math.sqrt: m_sqrt,
    math.factorial: m_factorial, math.lgamma: m_lgamma,
    math.ceil: m_ceil, math.floor: m_floor, math.pow: m_mpow,
    math.fsum: m_sum,
    _dt.datetime.combine: d_combine, _dt.date.fromordinal: d_fromordinal,
    warnings.warn: w_warn, inspect.signature: s_signature,
    operator.add: lambda a, k: interp.binop('+', *a),
    operator.sub: lambda a, k: interp.binop('-', *a),
    operator.mul: lambda a, k: interp.binop('*', *a),
    operator.itemgetter: lambda a, k: ModelMethod(
        lambda b, kk: interp.get_item(b[0], a[0])),
    operator.attrgetter: lambda a, k: ModelMethod(
        lambda b, kk: interp.get_attr(b[0], a[0])),
}


def model_of(f):
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m
    s = getattr(f, '__self__', None)
    if isinstance(s, _random.Random):
        name = f.__name__

        def via(a, k):
            return call(rng_attr(lift(s), name), a, k)
        return via
    if f is unittest.mock.call:
        return lambda a, k: opaque_str('call')
    if f is itertools.chain.from_iterable or (
            getattr(f, '__self__', None) is itertools.chain and
            getattr(f, '__name__', '') == 'from_iterable'):
        def cfi(a, k):
            from . import loops
            src = a[0]

            def joined():
                out = SList(Lit([]))
                try:
                    loops.iterate(src, lambda x: out.set(
                        'seq', concat([out.seq,
                                       to_seq(x).with_kind('list')])))
                except interp.Diverge:
                    pass
                return out.seq

            def run(action):
                loops.iterate(src, lambda x: loops.iterate(x, action))
            return lazy.Lazy(run, joined=joined)
        return cfi
    import functools
    if f is functools.reduce:
        def red(a, k):
            from . import loops
            fr = interp.Frame({}, None)
            if len(a) < 3:
                s_ = lazy.taken(a[1])
                if not branch(zi(s_.n) > 0):
                    pyraise(TypeError, 'reduce() of empty sequence')
                fr.d['acc'] = s_.get(0)
                src = seq_slice(s_, 1, s_.n)
            else:
                fr.d['acc'] = a[2]
                src = a[1]
            loops.iterate(src, lambda x: fr.set(
                'acc', call(a[0], [interp.lookup(fr, 'acc'), x])))
            return interp.lookup(fr, 'acc')
        return red
    if f is functools.partial:
        return lambda a, k: Partial(a[0], a[1:], k)
    if f is _copy.copy:
        def cp(a, k):
            x = force(a[0])
            if isinstance(x, SList):
                return SList(x.seq)
            if isinstance(x, SDict):
                return SDict(log=x.log)
            if isinstance(x, (tuple, str, int)) or x is None:
                return x
            raise Unsupported('copy.copy')
        return cp
    return None


def lift_special(obj):
    if isinstance(obj, _random.Random):
        key = id(obj)
        if key not in C.hostcells:
            r = Rng(z3.Const(uname('nondet!shared_rng'), RS))
            r.stamp = 0
            C.hostcells[key] = (r, obj)
            C.shared_rngs.append(r)
        return C.hostcells[key][0]
    r = lift_dt(obj)
    if r is not None:
        return r
    if isinstance(obj, range):
        return SRange(obj.start, obj.stop, obj.step, len(obj))
    if isinstance(obj, (set, frozenset)):
        key = id(obj)
        if key not in C.hostcells:
            c = SSet(Lit([lift(x) for x in obj]))
            c.stamp = 0
            c.shared = isinstance(obj, set)
            C.hostcells[key] = (c, obj)
        return C.hostcells[key][0]
    return None


def dict_fromkeys(keys, value=None):
    d = SDict()
    s = to_seq(keys)
    if s.n is INF:
        raise Unsupported('infinite dict')
    n = hostint(s.n)
    if n is not None and all(hostkey(force(s.get(j))) for j in range(n)):
        for j in range(n):
            dict_set(d, s.get(j), value)
    else:
        d.set('log', SSeq(s.n, lambda i: (s.get(i), value), 'list'))
    return d


def call_native(f, args, kwargs):
    """A host function on host values only."""
    ok = (bool, int, float, str, type(None))

    def host(x):
        return isinstance(x, ok) or isinstance(x, tuple) and \
            all(host(y) for y in x)
    name = getattr(f, '__qualname__', getattr(f, '__name__', str(f)))
    mod = getattr(f, '__module__', '') or ''
    if name == 'dict.fromkeys' and \
            f.__self__ in (dict, collections.OrderedDict):
        return dict_fromkeys(*args)
    if mod in ('math', 'builtins', 'operator', '_operator') and \
            all(host(x) for x in args) and \
            all(host(x) for x in kwargs.values()):
        try:
            return lift(f(*args, **kwargs))
        except Exception as e:
            pyraise(type(e), str(e))
    raise Unsupported(f'call of {mod}.{name}')
