"""Goals (contracts and properties) and how they are discharged."""
import os
import sys
import time
import traceback

import z3

from . import core, values, interp, lib, loops
from .core import *
from .core import _subapps
from .values import *
from .values import UNDEF
from .interp import (call, call_method, equals, truth, get_attr, set_attr,
                     has_attr, get_item, length, to_seq, force, identical,
                     NOATTR, find_attr, BoundMethod, contains)

RESETS = []           # called before every goal
GOALS = {}            # name -> Goal
CONTRACT_GOALS = {}   # qualified name of a function -> goal names


class Goal:
    def __init__(self, name, fn, props, proves, limit, secs, uses):
        self.name, self.fn, self.props = name, fn, props
        self.proves, self.limit, self.secs = proves, limit, secs
        self.uses = uses


def goal(name, props=(), proves=(), limit=300, secs=60, uses=()):
    """Register a goal.

    props: properties the goal is part of; proves: functions whose call-site
    contract it discharges; uses: call-site contracts the goal may use (their
    goals become part of the same properties).
    """
    props = (props,) if isinstance(props, str) else tuple(props)
    proves = (proves,) if isinstance(proves, str) else tuple(proves)
    uses = (uses,) if isinstance(uses, str) else tuple(uses)

    def deco(fn):
        assert name not in GOALS, name
        GOALS[name] = Goal(name, fn, props, proves, limit, secs, uses)
        for q in proves:
            CONTRACT_GOALS.setdefault(q, []).append(name)
        return fn
    return deco


class GoalResult:
    """Outcome of a goal: plain data (crosses a process boundary)."""

    def __init__(self, name):
        self.name = name
        self.obligations = []     # (name, status, backend, secs, detail)
        self.models = []          # (obligation, {symbol: value}, text)
        self.error = None         # outside the verifier's reach
        self.paths = 0
        self.functions = []
        self.contracts = []
        self.lib = []
        self.solver_time = 0.0
        self.queries = 0
        self.smt = []
        self.secs = 0.0

    @property
    def failed(self):
        return [o for o in self.obligations if o[1] != 'proved']


def run_goal(name, secs=None, smt=False, tb=False):
    g = GOALS[name]
    C.reset()
    C.solver_time = 0.0
    C.queries = 0
    values.reset_registries()
    core.clear_caches()
    for f in RESETS:
        f()
    C.goal = name
    C.touched = []
    if smt:
        C.smt_dump = []
    res = GoalResult(name)
    t = time.time()
    C.deadline = t + (secs or g.secs)
    try:
        def thunk():
            C.world = SList(Lit([]))
            C.hostcells = {}
            C.shared_writes = []
            C.rng_results = {}
            C.draws = []
            C.shared_rngs = []
            C.overapprox = []
            C.div_hints = []
            C.optimistic = False
            C.overflow = False
            C.current_target = g.proves[0] if g.proves else None
            try:
                g.fn()
            except PyRaise as e:
                r, m, _ = core.solve(C.pc)
                if r == z3.unsat:
                    return
                if tb:
                    traceback.print_exc(limit=-2)
                C.obligations.append(core.Obligation(
                    f'{name}: raises no {e.exc.cls.__name__}',
                    'refuted' if r == z3.sat and not C.overapprox
                    else 'unknown', m, repr(e.exc)[:300]))
        for _ in core.explore(thunk, g.limit):
            res.paths += 1
        if not C.obligations:
            res.error = 'vacuous: no obligation was generated'
        elif C.touched:
            # proved from the state at import only
            res.error = 'Unsupported: state of a module or class changes: ' \
                + C.touched[0][:100]
    except Unsupported as e:
        if tb:
            traceback.print_exc(limit=-2)
        res.error = f'{type(e).__name__}: {e}'
    except RecursionError:
        res.error = 'recursion limit'
    except z3.Z3Exception as e:
        if tb:
            traceback.print_exc(limit=-2)
        res.error = f'z3: {e}'
    except Exception as e:
        if tb:
            traceback.print_exc(limit=-2)
        res.error = f'internal: {type(e).__name__}: {e} at ' + \
            traceback.format_exc(limit=-2).replace('\n', ' | ')[-400:]
    for o in C.obligations:
        res.obligations.append((o.name, o.status, o.backend,
                                round(o.secs, 4), o.detail))
        if o.model is not None and o.status == 'refuted':
            res.models.append((o.name, model_ints(o.model),
                               str(o.model)[:1500]))
    res.functions = sorted(C.functions)
    res.contracts = sorted(C.contracts_used)
    res.lib = sorted(C.lib_used)
    res.solver_time = C.solver_time
    res.queries = C.queries
    res.smt = C.smt_dump or []
    res.secs = time.time() - t
    return res


def model_ints(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            if z3.is_int_value(v):
                out[d.name().split('!')[0]] = v.as_long()
            elif z3.is_rational_value(v):
                out[d.name().split('!')[0]] = float(v.as_fraction())
    return out


# --------------------------------------------------------------------------
# Helpers for writing goals


def ints(names, lo=None, hi=None):
    out = []
    for n in names.split():
        x = plain(n, Int)
        if lo is not None:
            assume(x >= lo)
        if hi is not None:
            assume(x <= hi)
        out.append(x)
    return out if len(out) > 1 else out[0]


def reals(names):
    out = [plain(n, Real) for n in names.split()]
    return out if len(out) > 1 else out[0]


def anyv(name):
    return plain(name, V)


def any_seq(name, n=None, kind='list', minlen=0, sort=V, axiom=None):
    """A sequence of unknown elements (and length, if not given)."""
    if n is None:
        n = plain(name + '_n', Int)
        assume(n >= minlen)
    f = Fn(name + '_e', [Int], sort, axiom)
    return SSeq(n, lambda i: f(zi(i)), kind)


def any_list(name, n=None, minlen=0, sort=V, axiom=None):
    return SList(any_seq(name, n, 'list', minlen, sort, axiom))


def sub_paths(fn):
    """Run fn on all paths from here, forgetting its effects."""
    for _ in core.explore(fn, 200):
        pass


def prove_eq(name, a, b):
    """Obligations that a and b are equal values (lists or tuples alike)."""
    sub_paths(lambda: _prove_eq(name, a, b))


def _listy(x):
    if isinstance(x, SList):
        return x.seq
    if isinstance(x, tuple):
        return Lit(list(x), 'tuple')
    if isinstance(x, SSeq):
        return x
    if isinstance(x, Inst) and isinstance(x.d.get('__base__'), SList):
        return x.d['__base__'].seq
    return None


def _prove_eq(name, a, b):
    a, b = force(a), force(b)
    if values.same(a, b):
        prove(name, True)
        return
    if values.is_strlike(a) or values.is_strlike(b):
        if not isinstance(a, (str, SSeq)) and not (is_z(a) and
                                                   a.sort() == V):
            prove(name, False, f'{a!r} is not {b!r}')
            return
        if not isinstance(b, (str, SSeq)) and not (is_z(b) and
                                                   b.sort() == V):
            prove(name, False, f'{a!r} is not {b!r}')
            return
        if isinstance(a, str) and isinstance(b, str):
            prove(name, a == b, f'{a!r} == {b!r}')
            return
        a, b = values.str_seq(a), values.str_seq(b)
    sa, sb = _listy(a), _listy(b)
    if sa is not None and sb is not None:
        if sa is sb:
            prove(name, True)
            return
        if sa.n is INF or sb.n is INF:
            prove(name + ' (endless)', sa.n is INF and sb.n is INF)
        else:
            prove(name + ' (length)', zi(sa.n) == zi(sb.n))
        ha = None if sa.n is INF else hostint(sa.n)
        hb = None if sb.n is INF else hostint(sb.n)
        if ha is not None and hb is not None and ha == hb and ha <= 12:
            for k in range(ha):
                _prove_eq(f'{name}[{k}]', sa.get(k), sb.get(k))
            return

        def element():
            k = plain('k', Int)
            assume(k >= 0)
            if sa.n is not INF:
                assume(k < zi(sa.n))
            if sb.n is not INF:
                assume(k < zi(sb.n))
            _prove_eq(name + '[k]', sa.get(k), sb.get(k))
        sub_paths(element)
        return
    if sa is not None or sb is not None:
        prove(name, False, f'{type(a).__name__} vs {type(b).__name__}')
        return
    if isinstance(a, SDict) and isinstance(b, SDict):
        if a.conc is not None and b.conc is not None:
            prove(name + ' (keys)', list(a.conc) == list(b.conc),
                  f'{list(a.conc)} vs {list(b.conc)}')
            for k in a.conc:
                if k in b.conc:
                    _prove_eq(f'{name}[{k!r}]', a.conc[k], b.conc[k])
            return
        _prove_eq(name, a.log, b.log)
        return
    f = values.eq_formula(a, b)
    if f is None:
        if isinstance(a, (SV, z3.ExprRef)) or isinstance(b, (SV,
                                                             z3.ExprRef)):
            if isinstance(a, lib.Rng) and isinstance(b, lib.Rng):
                prove(name, a.d['state'] == b.d['state'])
                return
            if type(a) is not type(b):
                prove(name, False,
                      f'{type(a).__name__} vs {type(b).__name__}')
                return
            prove(name, truth(equals(a, b)))
            return
        prove(name, a == b)
        return
    prove(name, f)


def prove_raises(name, fn, *classes):
    """fn() raises one of classes on every path; returns nothing."""
    def run():
        try:
            fn()
        except PyRaise as e:
            prove(name, isinstance(e.exc.cls, type) and
                  issubclass(e.exc.cls, classes), repr(e.exc))
            return
        prove(name, False, 'no exception is raised')
    sub_paths(run)


def attempt(fn):
    """(value, None) or (None, ExcVal)."""
    try:
        return fn(), None
    except PyRaise as e:
        return None, e.exc


def prove_exc(name, exc, *classes):
    prove(name, exc is not None and issubclass(exc.cls, classes),
          repr(exc))


def method(obj, name, *args, **kwargs):
    return call_method(obj, name, list(args), kwargs)


def events(partly=False):
    """What has been done with opaque objects since mark().

    partly: the events of a generator may include some after the last element
    taken from it."""
    if not partly and C.world.d.get('partly'):
        raise Unsupported('events of a generator used in part')
    return C.world.seq


def mark():
    """Forget the events so far (returns them)."""
    e = C.world.seq
    C.world.set('seq', Lit([]))
    C.world.set('partly', [])
    return e
