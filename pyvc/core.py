"""Core of the deductive verifier: symbolic values, path exploration, solver.

The verifier is a verification-condition generator for the Python subset the
code in /repo uses.  It interprets the *real* AST of the real functions over
symbolic values.  Every obligation is a quantifier-free formula handed to z3
(cvc5 as second back end in the thorough tier).  Quantified facts (contracts of
functions, prefix sums, permutations, ...) are instantiated by the rule engine
below, so that an `unsat` answer never depends on quantifier heuristics.
"""
import itertools
import math
import time
from fractions import Fraction

import z3

# --------------------------------------------------------------------------
# Exceptions used for control


class Unsupported(Exception):
    """The code (or a specification) is outside the verifier's reach."""


class Prune(Exception):
    """The current path is infeasible."""


class Budget(Unsupported):
    """Too many paths or too much time."""


class PyRaise(Exception):
    """The interpreted program raised an exception."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


# --------------------------------------------------------------------------
# Sorts

Int, Bool, Real = z3.IntSort(), z3.BoolSort(), z3.RealSort()

_V = z3.Datatype('V')
_V.declare('VNone')
_V.declare('VInt', ('vint', Int))
_V.declare('VBool', ('vbool', Bool))
_V.declare('VReal', ('vreal', Real))
_V.declare('VStr', ('vstr', Int))
_V.declare('VChr', ('vchr', Int))
_V.declare('VSeq', ('vseq', Int))
_V.declare('VRef', ('vref', Int))
_V.declare('VOth', ('voth', Int))
V = _V.create()
RS = z3.DeclareSort('RngState')

SeqLen = z3.Function('seq_len', Int, Int)          # length of the list VSeq(id)
SeqAt = z3.Function('seq_at', Int, Int, V)         # its elements
OthTruth = z3.Function('other_truth', Int, Bool)   # truth value of other objects
PyEq = z3.Function('py_eq', V, V, Bool)            # == of other objects
StrEmpty = z3.Function('str_empty', Int, Bool)
StrOf = z3.Function('str_of', V, V)                # str(x), as an opaque string
DistinctRank = None


# --------------------------------------------------------------------------
# Context


class Level:
    def __init__(self):
        self.prefix = []
        self.trace = []
        self.todo = []


class Ctx:
    def __init__(self):
        self.reset()
        self.solver_time = 0.0
        self.queries = 0
        self.feas_queries = 0

    def reset(self):
        self.pc = []
        self.journal = []
        self.idx = []
        self.levels = []
        self.stamp = 0
        self.frules = []
        self.names = itertools.count()
        self.obligations = []
        self.goal = None
        self.deadline = None
        self.overapprox = []      # reasons why a refutation may be spurious
        self.functions = set()    # functions interpreted
        self.contracts_used = set()
        self.lib_used = set()
        self.thorough = False
        self.smt_dump = None
        self.world = None
        self.depth = 0
        self.hostcells = {}
        self.shared_rngs = []
        self.shared_writes = []
        self.touched = []         # writes to state of modules and classes
        self.exc_stack = []
        self.rng_results = {}
        self.draws = []
        self.inverses = {}        # of permutations
        self.current_target = None
        self.overflow = False
        self.overlay_cell = None
        self.loop_spec = None
        self.div_hints = []
        self.optimistic = False
        self.opt_used = False
        self.opt_facts = []


C = Ctx()


def check_deadline():
    if C.deadline is not None and time.time() > C.deadline:
        raise Budget('time budget of the goal used up')


class Missing:
    def __repr__(self):
        return '<missing>'


MISSING = Missing()


class Cell:
    """Mutable state; all writes are journaled."""
    shared = False      # state of a module or class

    def __init__(self):
        C.stamp += 1
        self.stamp = C.stamp
        self.d = {}

    def set(self, key, val):
        if self.shared:
            C.touched.append(f'{type(self).__name__} {key}')
        C.journal.append((self, key, self.d.get(key, MISSING)))
        self.d[key] = val

    def delete(self, key):
        if self.shared:
            C.touched.append(f'{type(self).__name__} {key}')
        C.journal.append((self, key, self.d.get(key, MISSING)))
        self.d.pop(key, None)

    def get(self, key, default=None):
        return self.d.get(key, default)


def undo(mark):
    j = C.journal
    while len(j) > mark:
        cell, key, old = j.pop()
        if old is MISSING:
            cell.d.pop(key, None)
        else:
            cell.d[key] = old


def uname(base):
    return f'{base}!{next(C.names)}'


def plain(base, sort):
    """A constant that is no function of the enclosing loop indices."""
    return z3.Const(uname(base), sort)


def fresh(base, sort):
    """Fresh symbol; inside a loop body a function of the loop indices."""
    if not C.idx:
        return plain(base, sort)
    f = z3.Function(uname(base), *([Int] * len(C.idx)), sort)
    return f(*C.idx)


class Fn:
    """Fresh function symbol (implicitly also of the enclosing loop indices).

    axiom(*args) -> list of facts about self(*args), instantiated wherever an
    application of the symbol occurs.
    """

    def __init__(self, base, argsorts, sort, axiom=None, pair=None):
        self.outer = list(C.idx)
        self.f = z3.Function(uname(base), *([Int] * len(self.outer)),
                             *argsorts, sort)
        n = len(self.outer)
        outer = self.outer

        def lift(fn, k):
            def unary(*args):
                o = args[:n]
                out = []
                for fact in fn(*args[n:]):
                    if isinstance(fact, bool):
                        fact = z3.BoolVal(fact)
                    out.append(z3.substitute(fact, *zip(outer, o))
                               if n else fact)
                return out
            return unary
        if axiom is not None or pair is not None:
            rule = Rule()
            if axiom is not None:
                rule.unary = lift(axiom, 1)
            if pair is not None:
                def pr(a, b):
                    if any(x.get_id() != y.get_id()
                           for x, y in zip(a[:n], b[:n])):
                        return []
                    out = []
                    for fact in pair(a[n:], b[n:]):
                        out.append(z3.substitute(fact, *zip(outer, a[:n]))
                                   if n else fact)
                    return out
                rule.pair = pr
            RULES[self.f.name()] = rule

    def __call__(self, *args):
        return self.f(*self.outer, *args)


# --------------------------------------------------------------------------
# Rules (bounded instantiation of quantified facts)


class Rule:
    unary = None
    pair = None


RULES = {}


class ForallRule:
    """fact(t) holds for all t; instantiated at the terms in arg position of
    the trigger symbols (name, position), and at the terms in `at`."""

    def __init__(self, fact, triggers=(), at=()):
        self.fact = fact
        self.triggers = set(triggers)
        self.at = list(at)
        self.cache = {}

    def inst(self, t):
        r = self.cache.get(t.get_id())
        if r is None:
            r = (t, self.fact(t))
            self.cache[t.get_id()] = r
        return r[1]


def _subapps(e, seen, out):
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        if z3.is_app(x):
            if x.num_args():
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.append(x)
                stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())


def seq_rules():
    r = Rule()
    r.unary = lambda i: [SeqLen(i) >= 0]
    RULES['seq_len'] = r


seq_rules()


_apps = {}        # formula id -> (formula, its uninterpreted applications)
_unary = {}       # (rule, application id) -> facts
_pairs = {}
_cache = {}       # solved queries


def clear_caches():
    for c in (_apps, _unary, _pairs, _cache):
        c.clear()


def apps_of(f):
    """[(id, application, symbol, arguments)] of the formula f."""
    r = _apps.get(f.get_id())
    if r is None:
        out = []
        _subapps(f, {}, out)
        r = (f, [(x.get_id(), x, x.decl().name(), x.children())
                 for x in out])
        _apps[f.get_id()] = r
    return r[1]


def _facts(fs):
    return [f for f in fs if not z3.is_true(f)]


def instantiate(assertions, rounds, cap=3000):
    done = set()
    seen = set()
    byname = {}
    todo = assertions
    total = []
    totalids = set()
    for rnd in range(rounds):
        apps = []
        for f in todo:
            for a in apps_of(f):
                if a[0] not in seen:
                    seen.add(a[0])
                    apps.append(a)
        new = []
        for xid, x, nm, args in apps:
            rule = RULES.get(nm)
            if rule is not None:
                if rule.unary is not None:
                    key = (rule, xid)
                    fs = _unary.get(key)
                    if fs is None or fs[0] is not rule.unary:
                        fs = (rule.unary, _facts(rule.unary(*args)), x)
                        _unary[key] = fs
                    new.extend(fs[1])
                if rule.pair is not None:
                    for yid, y in byname.get(nm, []):
                        key = (rule, xid, yid)
                        fs = _pairs.get(key)
                        if fs is None or fs[0] is not rule.pair:
                            fs = (rule.pair, _facts(rule.pair(args, y)) +
                                  _facts(rule.pair(y, args)), args, y)
                            _pairs[key] = fs
                        new.extend(fs[1])
                    byname.setdefault(nm, []).append((xid, args))
            for k, fr in enumerate(C.frules):
                for pos, t in enumerate(args):
                    if (nm, pos) in fr.triggers:
                        key = (k, t.get_id())
                        if key not in done:
                            done.add(key)
                            new.append(fr.inst(t))
        if rnd == 0:
            for k, fr in enumerate(C.frules):
                for t in fr.at:
                    key = (k, t.get_id())
                    if key not in done:
                        done.add(key)
                        new.append(fr.inst(t))
        todo = []
        for f in new:
            i = f.get_id()
            if i not in totalids and not z3.is_true(f):
                totalids.add(i)
                todo.append(f)
                total.append(f)
        if not todo:
            break
        if len(total) > cap:
            total = total[:cap]
            break
    return total


def solve(assertions, timeout_ms=8000, rounds=4):
    """Returns (result, model, solver)."""
    t = time.time()
    inst = instantiate(assertions, rounds)
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    s.set('random_seed', 1)
    s.add(*assertions)
    s.add(*inst)
    r = s.check()
    C.solver_time += time.time() - t
    C.queries += 1
    return r, (s.model() if r == z3.sat else None), s


_feas_cache = {}


def feasible(cond):
    """May `cond` hold on the current path? (True if unknown)"""
    check_deadline()
    C.feas_queries += 1
    r, _, _ = solve(C.pc + [cond], timeout_ms=1500, rounds=3)
    return r != z3.unsat


def simp(e):
    return z3.simplify(e, som=False)


def as_bool_host(c):
    """Host bool if the z3 Bool is literally true/false, else None."""
    if isinstance(c, bool):
        return c
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return None


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def assume(c):
    c = zb(c)
    if not z3.is_true(c):
        C.pc.append(c)
        if z3.is_false(simp(c)):
            raise Prune()


def branch(cond):
    """Fork on a condition; returns a host bool."""
    if isinstance(cond, bool):
        return cond
    c = simp(cond)
    h = as_bool_host(c)
    if h is not None:
        return h
    if not C.levels:
        raise Unsupported('branch outside of exploration')
    lv = C.levels[-1]
    pos = len(lv.trace)
    if pos < len(lv.prefix):
        d = lv.prefix[pos]
    else:
        # literal occurrence on the path condition?
        d = None
        cid = c.get_id()
        for f in C.pc:
            if f.get_id() == cid:
                d = True
                break
        if d is None:
            nc = simp(z3.Not(c))
            nid = nc.get_id()
            for f in C.pc:
                if f.get_id() == nid:
                    d = False
                    break
        if d is None:
            ft = feasible(c)
            ff = feasible(z3.Not(c))
            if ft and ff:
                lv.todo.append(lv.trace + [False])
                d = True
            elif not ft and not ff:
                raise Prune()
            else:
                d = ft
        lv.prefix = lv.trace + [d]
    lv.trace.append(d)
    C.pc.append(c if d else z3.Not(c))
    return d


class Fork:
    """uniform: the value differs by path"""


def uniform(fn):
    """fn() if it takes no fork (else Fork, without effects).

    For values at a generic index: what holds on one of the paths there need
    not hold at every index.
    """
    lv = Level()
    mark, npc, nfr = len(C.journal), len(C.pc), len(C.frules)
    nidx, nlev = len(C.idx), len(C.levels)
    C.levels.append(lv)
    try:
        v = fn()
    except (PyRaise, Prune):
        v = Fork
    finally:
        del C.levels[nlev:]
        del C.idx[nidx:]
    if lv.todo or len(C.journal) > mark:
        v = Fork
    if v is Fork:
        undo(mark)
        del C.frules[nfr:]
    del C.pc[npc:]
    return v


def choose(n):
    """Fork n ways without a condition; returns the index."""
    if n <= 1:
        return 0
    lv = C.levels[-1]
    pos = len(lv.trace)
    if pos < len(lv.prefix):
        d = lv.prefix[pos]
    else:
        for k in range(n - 1, 0, -1):
            lv.todo.append(lv.trace + [k])
        d = 0
        lv.prefix = lv.trace + [d]
    lv.trace.append(d)
    return d


class Path:
    def __init__(self, pc, outcome, value, writes, frules):
        self.pc = pc
        self.outcome = outcome
        self.value = value
        self.writes = writes
        self.frules = frules

    def cond(self):
        return z3.And(*self.pc) if len(self.pc) != 1 else self.pc[0]


def explore(thunk, limit=400):
    """Run thunk on every feasible path.

    Yields a Path per path; the state it left is in place while the caller
    handles the path in `on_path` style (generator), and undone afterwards.
    """
    lv = Level()
    lv.todo = [[]]
    count = 0
    while lv.todo:
        check_deadline()
        count += 1
        if count > limit:
            raise Budget(f'more than {limit} paths')
        lv.prefix = lv.todo.pop()
        lv.trace = []
        mark, npc, nfr = len(C.journal), len(C.pc), len(C.frules)
        nidx, nlev = len(C.idx), len(C.levels)
        stamp = C.stamp
        C.levels.append(lv)
        try:
            try:
                val = thunk()
                out = 'ok'
            except Prune:
                out = None
            except PyRaise:
                if feasible(z3.BoolVal(True)):
                    raise
                out = None
            if out is not None:
                del C.levels[nlev:]
                writes = {}
                for cell, key, old in C.journal[mark:]:
                    if cell.stamp <= stamp:
                        writes[(cell, key)] = cell.d.get(key, MISSING)
                yield Path(C.pc[npc:], out, val, writes, C.frules[nfr:])
        finally:
            undo(mark)
            del C.pc[npc:]
            del C.frules[nfr:]
            del C.idx[nidx:]
            del C.levels[nlev:]


# --------------------------------------------------------------------------
# Obligations


class Obligation:
    def __init__(self, name, status, model=None, detail='', secs=0.0,
                 backend='z3'):
        self.name = name
        self.status = status      # proved | refuted | unknown
        self.model = model
        self.detail = detail
        self.secs = secs
        self.backend = backend


CVC5 = '/usr/bin/cvc5'


def prove(name, goal, detail=''):
    """Record the obligation that goal holds on the current path."""
    check_deadline()
    t = time.time()
    full = f'{C.goal}: {name}' if C.goal else name
    h = as_bool_host(goal)
    if h is None:
        goal = zb(goal)
        g = simp(goal)
        h = as_bool_host(g)
    if h is True:
        ob = Obligation(full, 'proved', backend='simplifier')
        C.obligations.append(ob)
        return True
    neg = z3.BoolVal(True) if h is False else z3.Not(goal)
    model = None
    status = 'unknown'
    for rounds, tmo in ((3, 4000), (5, 12000)):
        r, model, s = solve(C.pc + [neg], timeout_ms=tmo, rounds=rounds)
        if r == z3.unsat:
            status = 'proved'
            break
        if r == z3.sat:
            status = 'refuted'
        else:
            status = 'unknown'
    if status == 'proved' and C.smt_dump is not None:
        C.smt_dump.append((full, s.to_smt2()))
    if status == 'refuted' and mentions_opaque(C.pc + [neg]):
        # hangs on the text of something that is not modelled
        status = 'unknown'
        detail += ' (refuted only for texts that are not modelled)'
    if status == 'refuted' and len(constants([neg], 'distinct!')) > 1:
        status = 'unknown'
        detail += ' (compares numbers of distinct values)'
    if status == 'refuted' and C.overapprox:
        status = 'unknown'
        detail += ' (refuted only under an over-approximation: ' + \
            '; '.join(C.overapprox[:3]) + ')'
    C.obligations.append(Obligation(full, status, model, detail,
                                    time.time() - t))
    return status == 'proved'


def mentions_opaque(fs):
    return bool(constants(fs, 'opq_'))


def constants(fs, prefix):
    """Names of the symbols of the formulas that begin with prefix."""
    seen, names = set(), set()
    todo = list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
        elif z3.is_app(e):
            if e.decl().name().startswith(prefix):
                names.add(e.decl().name())
            todo += e.children()
    return names


def valid(goal, rounds=3, timeout_ms=2500):
    """Side query: does goal hold on the current path? (no obligation)"""
    h = as_bool_host(goal)
    if h is None:
        goal = simp(zb(goal))
        h = as_bool_host(goal)
    if h is not None:
        return h
    r, _, _ = solve(C.pc + [z3.Not(goal)], timeout_ms=timeout_ms,
                    rounds=rounds)
    return r == z3.unsat
