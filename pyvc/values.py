"""Symbolic values and the operations on them."""
import math
from fractions import Fraction

import z3

from . import core
from .core import (C, Cell, Fn, Int, Bool, Real, V, RS, RULES, Rule, Prune,
                   PyRaise, Unsupported, SeqLen, SeqAt, OthTruth, StrEmpty,
                   StrOf, as_bool_host, assume, branch, fresh, plain, prove,
                   simp, uname, valid, zb, _subapps)


class SV:
    """A symbolic value that is not a z3 expression."""


class Undef(SV):
    def __repr__(self):
        return '<undefined>'


UNDEF = Undef()


class Ite(SV):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


INF = 'inf'


class SSeq(SV):
    """Immutable sequence value: length and element function.

    kind: 'list', 'tuple', 'str', 'range', 'items'
    A 'str' is a word over opaque tokens of sort V (free monoid).
    """

    def __init__(self, n, getf, kind='list', tag=None):
        self.n = n
        self.getf = getf
        self.kind = kind
        self.tag = tag

    def get(self, i):
        return self.getf(i)

    def concrete(self):
        return isinstance(self.n, int)

    def with_kind(self, kind):
        s = SSeq(self.n, self.getf, kind, self.tag)
        return s


class Lit(SSeq):
    def __init__(self, items, kind='list'):
        self.items = list(items)
        super().__init__(len(self.items), None, kind)

    def get(self, i):
        if isinstance(i, int):
            return self.items[i] if 0 <= i < len(self.items) else UNDEF
        i = simp(i)
        if z3.is_int_value(i):
            k = i.as_long()
            if 0 <= k < len(self.items):
                return self.items[k]
        if not self.items:
            return UNDEF
        r = self.items[-1]
        for k in range(len(self.items) - 2, -1, -1):
            r = ite(i == k, self.items[k], r)
        return r

    def with_kind(self, kind):
        return Lit(self.items, kind)


class Concat(SSeq):
    def __init__(self, parts, kind='list'):
        flat = []
        for p in parts:
            if isinstance(p, Concat):
                flat.extend(p.parts)
            else:
                flat.append(p)
        merged = []
        for p in flat:
            if isinstance(p, Lit) and merged and isinstance(merged[-1], Lit):
                merged[-1] = Lit(merged[-1].items + p.items, kind)
            elif isinstance(p.n, int) and p.n == 0 and p.tag is None:
                continue
            else:
                merged.append(p)
        self.parts = merged
        n = 0
        for p in merged:
            if p.n is INF:
                n = INF
                break
            n = add(n, p.n)
        super().__init__(n, None, kind)

    def get(self, i):
        if not self.parts:
            return UNDEF
        off = 0
        offs = []
        for p in self.parts:
            offs.append(off)
            if p.n is INF:
                break
            off = add(off, p.n)
        parts = self.parts[:len(offs)]
        if isinstance(i, int) and all(isinstance(o, int) for o in offs):
            for p, o in zip(reversed(parts), reversed(offs)):
                if i >= o:
                    return p.get(i - o)
        # literal hit?
        for p, o in zip(parts, offs):
            k = simp(zi(i) - zi(o))
            if z3.is_int_value(k) and isinstance(p.n, int) and \
                    0 <= k.as_long() < p.n:
                return p.get(k.as_long())
        r = parts[-1].get(sub(i, offs[-1]))
        for p, o in list(zip(parts, offs))[-2::-1]:
            r = ite(zi(i) < zi(add(o, p.n)), p.get(sub(i, o)), r)
        return r

    def with_kind(self, kind):
        c = Concat([], kind)
        c.parts = self.parts
        c.n = self.n
        return c


def concat(parts, kind='list'):
    c = Concat(parts, kind)
    if not c.parts:
        return Lit([], kind)
    if len(c.parts) == 1:
        return c.parts[0].with_kind(kind)
    return c


class SList(Cell, SV):
    """Mutable list."""

    def __init__(self, seq):
        super().__init__()
        self.d['seq'] = seq

    @property
    def seq(self):
        return self.d['seq']


class SIter(Cell, SV):
    def __init__(self, seq, pos=0):
        super().__init__()
        self.d['seq'] = seq
        self.d['pos'] = pos


class SDict(Cell, SV):
    """Insertion-ordered dict: the sequence of its (key, value) insertions.

    With literal host keys the log is kept free of duplicates; otherwise a
    later insertion overrides an earlier one with an equal key.
    """

    def __init__(self, conc=None, log=None):
        super().__init__()
        if log is None:
            log = Lit(list((conc or {}).items()))
        self.d['log'] = log

    @property
    def log(self):
        return self.d['log']

    @property
    def conc(self):
        log = self.d['log']
        if isinstance(log, Lit) and all(
                isinstance(p, tuple) and _hostable(p[0]) for p in log.items):
            return dict(log.items)
        return None


def _hostable(k):
    if k is None or isinstance(k, (str, bool, int, float, type)):
        return True
    return isinstance(k, tuple) and all(_hostable(x) for x in k)


class SSet(Cell, SV):
    """Set of the elements of a sequence of insertions."""

    def __init__(self, seq):
        super().__init__()
        self.d['seq'] = seq

    @property
    def seq(self):
        return self.d['seq']


class Inst(Cell, SV):
    """Instance of a class of the code under verification."""

    def __init__(self, cls):
        super().__init__()
        self.cls = cls
        self.owner = None

    def __repr__(self):
        return f'<{self.cls.__name__}>'


class Ref(SV):
    """Opaque object from outside (an emitter, field, function, ...)."""

    def __init__(self, ident, role):
        self.ident = ident
        self.role = role


class ExcVal(SV):
    def __init__(self, cls, args=(), cause=None):
        self.cls = cls
        self.args = tuple(args)
        self.cause = cause

    def __repr__(self):
        return f'{self.cls.__name__}{self.args}'


class FuncVal(SV):
    """Closure over an AST node."""

    def __init__(self, node, frame, name):
        self.node = node
        self.frame = frame
        self.name = name
        self.defaults = []
        self.kwdefaults = {}


class BoundMethod(SV):
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class ModelMethod(SV):
    """Method of a modelled object: call(args, kwargs)."""

    def __init__(self, fn, name=''):
        self.fn = fn
        self.name = name


class Partial(SV):
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class SliceVal(SV):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class ExtReal(SV):
    """Real or minus infinity."""

    def __init__(self, neg, val):
        self.neg, self.val = neg, val


class DTV(SV):
    """date (days), datetime or time (microseconds); naive."""

    def __init__(self, kind, t, cls=None):
        self.kind, self.t = kind, t
        self.cls = cls      # a subclass, if it is of one


class TDV(SV):
    """timedelta in microseconds."""

    def __init__(self, us):
        self.us = us


class SRange(SSeq):
    def __init__(self, start, stop, step, n):
        self.start, self.stop, self.step = start, stop, step
        super().__init__(n, None, 'range')

    def get(self, i):
        if isinstance(self.step, int) and self.step == 1:
            return add(self.start, i)
        return add(self.start, mul(i, self.step))

    def with_kind(self, kind):
        return SSeq(self.n, self.get, kind)


class TypeOf(SV):
    """type(x) of an opaque object."""

    def __init__(self, obj):
        self.obj = obj


# --------------------------------------------------------------------------
# Elementary helpers


def is_z(x):
    return isinstance(x, z3.ExprRef)


def zi(x):
    """To z3 Int."""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if is_z(x):
        if x.sort() == Int:
            return x
        if x.sort() == Bool:
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if x.sort() == V:
            if branch(V.is_VInt(x)):
                return V.vint(x)
            if branch(V.is_VBool(x)):
                return z3.If(V.vbool(x), z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f'not an int: {x!r}')


def zr(x):
    if isinstance(x, (bool, int)):
        return z3.RealVal(int(x))
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported('infinite or nan constant')
        return z3.RealVal(Fraction(x))
    if is_z(x):
        if x.sort() == Real:
            return x
        if x.sort() == Int:
            return z3.ToReal(x)
        if x.sort() == Bool:
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        if x.sort() == V:
            if branch(V.is_VReal(x)):
                return V.vreal(x)
            return z3.ToReal(zi(x))
    raise Unsupported(f'not a number: {x!r}')


def hostint(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if is_z(x) and x.sort() == Int:
        s = simp(x)
        if z3.is_int_value(s):
            return s.as_long()
    return None


def norm(x):
    """Host value for a z3 literal."""
    if is_z(x):
        x = simp(x)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return simp(zi(a) + zi(b))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return simp(zi(a) - zi(b))


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return simp(zi(a) * zi(b))


def zmin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    return z3.If(zi(b) < zi(a), zi(b), zi(a))


def zmax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    return z3.If(zi(b) > zi(a), zi(b), zi(a))


def is_num(x):
    return isinstance(x, (int, float)) or \
        (is_z(x) and x.sort() in (Int, Real, Bool))


_refs = {}


def to_v(x):
    """To sort V, or None if not possible."""
    if x is None:
        return V.VNone
    if isinstance(x, bool):
        return V.VBool(z3.BoolVal(x))
    if isinstance(x, int):
        return V.VInt(z3.IntVal(x))
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        return V.VReal(zr(x))
    if is_z(x):
        s = x.sort()
        if s == V:
            return x
        if s == Int:
            return V.VInt(x)
        if s == Bool:
            return V.VBool(x)
        if s == Real:
            return V.VReal(x)
        return None
    if isinstance(x, str) and len(x) == 1:
        return V.VChr(z3.IntVal(ord(x)))
    if isinstance(x, SSeq) and x.kind == 'str' and hostint(x.n) == 1:
        g = x.get(0)
        return g if is_z(g) and g.sort() == V else None
    if isinstance(x, Ref) and getattr(x.role, 'as_v', None):
        return x.role.as_v(x)
    return None


def str_seq(x):
    """A str value as a word of tokens."""
    if isinstance(x, str):
        return Lit([V.VChr(z3.IntVal(ord(c))) for c in x], 'str')
    if isinstance(x, SSeq) and x.kind == 'str':
        return x
    if is_z(x) and x.sort() == V:
        return Lit([x], 'str')
    raise Unsupported(f'not a str: {x!r}')


def is_strlike(x):
    return isinstance(x, str) or (isinstance(x, SSeq) and x.kind == 'str')


def freeze(x):
    """Immutable snapshot of mutable containers (for storing in a summary)."""
    if isinstance(x, SList):
        return freeze(x.seq)
    if isinstance(x, tuple):
        return tuple(freeze(y) for y in x)
    if isinstance(x, Lit):
        return Lit([freeze(y) for y in x.items], x.kind)
    if isinstance(x, SDict):
        return x
    return x


def same(a, b):
    """Syntactically the same value."""
    if a is b:
        return True
    if is_z(a) and is_z(b):
        return a.get_id() == b.get_id()
    if type(a) is type(b) and isinstance(a, (bool, int, float, str)):
        return a == b
    return False


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    h = as_bool_host(c)
    if h is not None:
        return a if h else b
    if same(a, b):
        return a
    if a is UNDEF or b is UNDEF:
        return Ite(c, a, b)
    if isinstance(a, Ite) or isinstance(b, Ite):
        return Ite(c, a, b)
    if is_z(a) and is_z(b) and a.sort() == b.sort():
        return z3.If(c, a, b)
    if is_num(a) and is_num(b):
        ab = isinstance(a, bool) or (is_z(a) and a.sort() == Bool)
        bb = isinstance(b, bool) or (is_z(b) and b.sort() == Bool)
        if ab and bb:
            return z3.If(c, zb(a), zb(b))
        if not ab and not bb:
            isf = lambda x: isinstance(x, float) or \
                (is_z(x) and x.sort() == Real)
            if isf(a) or isf(b):
                if a == -math.inf if isinstance(a, float) else False:
                    return ExtReal(c, zr(b))
                if b == -math.inf if isinstance(b, float) else False:
                    return ExtReal(z3.Not(c), zr(a))
                return z3.If(c, zr(a), zr(b))
            return z3.If(c, zi(a), zi(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if is_strlike(a) and is_strlike(b):
        a, b = str_seq(a), str_seq(b)
    if isinstance(a, SSeq) and isinstance(b, SSeq) and a.kind == b.kind and \
            a.n is not INF and b.n is not INF:
        r = SSeq(norm(z3.If(c, zi(a.n), zi(b.n))),
                 lambda i: _elem(c, a.get(i), b.get(i)), a.kind)
        r.cases = (c, a, b)
        return r
    if isinstance(a, DTV) and isinstance(b, DTV) and a.kind == b.kind:
        return DTV(a.kind, z3.If(c, zi(a.t), zi(b.t)))
    if isinstance(a, TDV) and isinstance(b, TDV):
        return TDV(z3.If(c, zi(a.us), zi(b.us)))
    if isinstance(a, Ref) and isinstance(b, Ref) and a.role is b.role and \
            is_z(a.ident) and is_z(b.ident):
        return Ref(z3.If(c, a.ident, b.ident), a.role)
    if not is_strlike(a) and not is_strlike(b):
        va, vb = to_v(a), to_v(b)
        if va is not None and vb is not None:
            return z3.If(c, va, vb)
    return Ite(c, a, b)


def _elem(c, x, y):
    """Element at a valid index (undefined where that index is not valid)."""
    return y if x is UNDEF else x if y is UNDEF else ite(c, x, y)


def force(x):
    """Resolve an Ite by branching."""
    while isinstance(x, Ite):
        x = x.a if branch(x.c) else x.b
    return x


# --------------------------------------------------------------------------
# Substitution of index terms


def subst(x, pairs):
    if x is None or isinstance(x, (bool, int, float, str, type)):
        return x
    if is_z(x):
        ps = [(a, zi(b)) for a, b in pairs]
        return z3.substitute(x, *ps)
    if isinstance(x, tuple):
        return tuple(subst(y, pairs) for y in x)
    if isinstance(x, Undef):
        return x
    if isinstance(x, Ite):
        return ite(subst(x.c, pairs), subst(x.a, pairs), subst(x.b, pairs))
    if isinstance(x, Lit):
        return Lit([subst(y, pairs) for y in x.items], x.kind)
    if isinstance(x, Concat):
        c = Concat([subst(p, pairs) for p in x.parts], x.kind)
        return c
    if isinstance(x, SSeq):
        n = x.n if isinstance(x.n, (int, str)) else norm(subst(x.n, pairs))

        def getf(j):
            J = z3.FreshInt('J')
            e = x.get(J)
            return subst(e, list(pairs) + [(J, j)])
        if isinstance(x, SRange):
            return SRange(subst(x.start, pairs), subst(x.stop, pairs),
                          subst(x.step, pairs), n)
        return SSeq(n, getf, x.kind, x.tag)
    if isinstance(x, DTV):
        return DTV(x.kind, subst(x.t, pairs), x.cls)
    if isinstance(x, TDV):
        return TDV(subst(x.us, pairs))
    if isinstance(x, ExtReal):
        return ExtReal(subst(x.neg, pairs), subst(x.val, pairs))
    if isinstance(x, Ref):
        return Ref(subst(x.ident, pairs) if is_z(x.ident) else x.ident,
                   x.role)
    if isinstance(x, SList):
        return subst(x.seq, pairs)
    if isinstance(x, SDict):
        return SDict(log=subst(x.log, pairs))
    if isinstance(x, SSet):
        return SSet(subst(x.seq, pairs))
    if isinstance(x, Inst):
        syms = symbols(x)
        if any(a.decl().name() in syms for a, _ in pairs):
            y = Inst(x.cls)
            y.d = {k: subst(v, pairs) for k, v in x.d.items()}
            return y
        return x
    if isinstance(x, (BoundMethod,)):
        return BoundMethod(x.func, subst(x.self_, pairs))
    return x


def symbols(x, depth=0, seen=None):
    """Names of the constants occurring in a value."""
    if seen is None:
        seen = set()
    out = set()
    if x is None or isinstance(x, (bool, int, float, str, type)) or depth > 8:
        return out
    if is_z(x):
        stack = [x]
        vis = set()
        while stack:
            e = stack.pop()
            if e.get_id() in vis:
                continue
            vis.add(e.get_id())
            if z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(e.decl().name())
                stack.extend(e.children())
        return out
    if id(x) in seen:
        return out
    seen.add(id(x))

    def rec(y):
        return symbols(y, depth + 1, seen)
    if isinstance(x, tuple):
        for y in x:
            out |= rec(y)
    elif isinstance(x, Ite):
        out |= rec(x.c) | rec(x.a) | rec(x.b)
    elif isinstance(x, Lit):
        for y in x.items:
            out |= rec(y)
    elif isinstance(x, Concat):
        for y in x.parts:
            out |= rec(y)
            if y.tag:
                out.add(y.tag)
    elif isinstance(x, SSeq):
        if is_z(x.n):
            out |= rec(x.n)
        if x.tag:
            out.add(x.tag)
        J = z3.FreshInt('J')
        s = rec(x.get(J))
        s.discard(J.decl().name())
        out |= s
    elif isinstance(x, DTV):
        out |= rec(x.t)
    elif isinstance(x, TDV):
        out |= rec(x.us)
    elif isinstance(x, ExtReal):
        out |= rec(x.neg) | rec(x.val)
    elif isinstance(x, Ref):
        out |= rec(x.ident) if is_z(x.ident) else set()
    elif isinstance(x, SDict):
        out |= rec(x.log)
    elif isinstance(x, (SList, SIter, Inst)):
        for y in x.d.values():
            out |= rec(y)
    elif isinstance(x, SSet):
        out |= rec(x.seq)
    elif isinstance(x, BoundMethod):
        out |= rec(x.self_)
    elif isinstance(x, FuncVal):
        pass
    return out


# --------------------------------------------------------------------------
# Prefix sums and flattened sequences


class PSInfo:
    pass


_ps_registry = []    # list of PSInfo (per goal)


def reset_registries():
    _ps_registry.clear()
    _dc_registry.clear()
    for k in [k for k in RULES if '!' in k]:
        del RULES[k]


def needs(i, bound, fact):
    """(does fact hold for index i on this path, the parts of the path
    condition it needs)"""
    npc = len(C.pc)
    rng = [i >= 0]
    if bound is not None and bound is not INF:
        rng.append(i < zi(bound))
    fr = C.frules
    pc = C.pc
    try:
        C.frules, C.pc = [], list(rng)
        if valid(fact):
            return True, []
        # without index-dependent parts (they are about one iteration)
        C.pc = rng + pc
        s = z3.Solver()
        s.set('timeout', 2500)
        s.set('random_seed', 1)
        goal = C.pc + [z3.Not(fact)]
        s.add(*core.instantiate(goal, 3))
        s.add(*rng, z3.Not(fact))
        names = {}
        for f in pc:
            b = z3.Bool(f'pc{f.get_id()}')
            if b.decl().name() in names:
                continue
            names[b.decl().name()] = f
            s.assert_and_track(f, b)
        C.queries += 1
        if s.check() != z3.unsat:
            return False, []
        used = [names[b.decl().name()] for b in s.unsat_core()]
        if any(i.decl().name() in symbols(f) for f in used):
            return False, []
        return True, used
    finally:
        C.frules, C.pc = fr, pc


def transient(e):
    """Symbols of one analysis of a loop only (nothing else equals them)."""
    return frozenset(x for x in symbols(e)
                     if x.startswith(('gen!', 'rec!')))


DivF = z3.Function('floordiv', Int, Int, Int)
ModF = z3.Function('floormod', Int, Int, Int)


def prefix_sum(i, size, bound, real=False):
    """Function t -> sum(size(i:=s) for s < t), 0 <= t <= bound.

    `i` is the generic index constant, `size` a z3 Int/Real term over i.
    """
    size = simp(zr(size) if real else zi(size))
    outer = [x for x in C.idx if x.get_id() != i.get_id()]
    for info in _ps_registry:
        if info.real != real or len(info.outer) != len(outer):
            continue
        other = z3.substitute(info.size, (info.i, i),
                              *zip(info.outer, outer))
        if other.get_id() == size.get_id() or \
                same(simp(other), size):
            info.extend(bound, i, outer)
            return info.bind(outer)
    mine = transient(size)
    for info in _ps_registry:
        if info.real != real or len(info.outer) != len(outer) or \
                info.transient != mine:
            continue
        other = z3.substitute(info.size, (info.i, i),
                              *zip(info.outer, outer))
        npc = len(C.pc)
        C.pc.append(i >= 0)
        if bound is not None and bound is not INF:
            C.pc.append(i < zi(bound))
        try:
            eq = valid(other == size)
        finally:
            del C.pc[npc:]
        if eq:
            info.extend(bound, i, outer)
            return info.bind(outer)
    info = PSInfo()
    info.i, info.size, info.outer, info.real = i, size, outer, real
    info.bound = bound
    info.transient = mine
    zero = z3.RealVal(0) if real else z3.IntVal(0)
    # domains t <= bound the facts are stated for; facts that need the path
    # condition are only stated under it
    def domain(b):
        """(bound, size >= 0?, if, endless sum?, if)"""
        endless = (False, []) if b is not None and b is not INF else \
            needs(i, b, size >= 1)
        return (b, *needs(i, b, size >= 0), *endless)
    info.doms = [domain(bound)]
    srt = Real if real else Int
    no = len(outer)
    F = z3.Function(uname('ps'), *([Int] * (no + 1)), srt)
    info.F = F

    def sz(o, t):
        return z3.substitute(size, (i, t), *zip(outer, o))

    def gd(o, guards):
        return [z3.substitute(f, *zip(outer, o)) if no else f
                for f in guards]

    # is the size independent of the index?
    const = i.decl().name() not in symbols(size)

    def inb(o, t, bound):
        if bound is None or bound is INF:
            return z3.BoolVal(True)
        b = zi(bound)
        return t <= (z3.substitute(b, *zip(outer, o)) if no else b)

    def unary(*args):
        o, t = args[:no], args[no]
        out = [z3.Implies(t == 0, F(*o, t) == zero)]
        if not z3.is_int_value(t):
            out.append(z3.Implies(t == 1, F(*o, t) == sz(o, z3.IntVal(0))))
        for bd, nonneg, guards, _, _ in info.doms:
            if nonneg:
                out.append(z3.Implies(
                    z3.And(t >= 0, inb(o, t, bd), *gd(o, guards)),
                    F(*o, t) >= 0))
        if z3.is_int_value(t) and 0 < t.as_long() <= 6:
            s = zero
            for k in range(t.as_long()):
                s = s + sz(o, z3.IntVal(k))
            out.append(F(*o, t) == s)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD and \
                any(z3.is_int_value(c) and c.as_long() == 1
                    for c in t.children()):
            p = simp(t - 1)
            out.append(z3.Implies(p >= 0, F(*o, t) == F(*o, p) + sz(o, p)))
        if const and not real:
            out.append(F(*o, t) == t * sz(o, t))
        return out

    def pair(x, y):
        ox, tx, oy, ty = x[:no], x[no], y[:no], y[no]
        if any(a.get_id() != b.get_id() for a, b in zip(ox, oy)):
            return []
        out = []
        d = simp(ty - tx)
        if z3.is_int_value(d) and d.as_long() == 1:
            out.append(z3.Implies(tx >= 0,
                                  F(*ox, ty) == F(*ox, tx) + sz(ox, tx)))
        out.append(z3.Implies(tx == ty, F(*ox, tx) == F(*ox, ty)))
        out.append(z3.Implies(z3.And(tx >= 0, ty == tx + 1),
                              F(*ox, ty) == F(*ox, tx) + sz(ox, tx)))
        for bd, nonneg, guards, _, _ in info.doms:
            if nonneg:
                out.append(z3.Implies(
                    z3.And(0 <= tx, tx < ty, inb(oy, ty, bd),
                           *gd(ox, guards)),
                    F(*ox, tx) + sz(ox, tx) <= F(*ox, ty)))
        return out

    # index of the block containing position k of the flattened sequence
    B = z3.Function(uname('blk'), *([Int] * (no + 1)), Int)
    info.B = B

    def bunary(*args):
        o, k = args[:no], args[no]
        b = B(*o, k)
        out = []
        for bound, _, guards, endless, guards2 in info.doms:
            if bound is None or bound is INF:
                # is there a k-th element at all?
                if not endless:
                    continue
                guards = guards + guards2
                g = k >= 0
                up = z3.BoolVal(True)
            else:
                bb = z3.substitute(zi(bound), *zip(outer, o)) if no \
                    else zi(bound)
                g = z3.And(k >= 0, k < F(*o, bb))
                up = b < bb
            out.append(z3.Implies(z3.And(g, *gd(o, guards)), z3.And(
                0 <= b, up, F(*o, b) <= k, k < F(*o, b) + sz(o, b),
                F(*o, b + 1) == F(*o, b) + sz(o, b))))
            if const and not real:
                # blocks of the same size
                out.append(z3.Implies(z3.And(g, *gd(o, guards)), z3.And(
                    b == DivF(k, sz(o, b)),
                    F(*o, b) == k - ModF(k, sz(o, b)))))
        return out

    def rules():
        rule = Rule()
        rule.unary, rule.pair = unary, pair
        RULES[F.name()] = rule
        brule = Rule()
        brule.unary = bunary
        RULES[B.name()] = brule

    def extend(b2, i2, outer2):
        """The sum is also used up to b2."""
        if outer2 and is_z(b2):
            b2 = z3.substitute(b2, *zip(outer2, outer))
        for bd, *_ in info.doms:
            if bd is b2 or bd is None or is_z(bd) and is_z(b2) and \
                    simp(bd).eq(simp(b2)) or not is_z(bd) and \
                    not is_z(b2) and bd == b2:
                return
        if len(info.doms) > 4:
            return
        info.doms.append(domain(b2))
        rules()
    info.extend = extend
    rules()

    def bind(outer_now):
        def ps(t):
            return F(*outer_now, zi(t))

        def blk(k):
            return B(*outer_now, zi(k))
        r = PSInfo()
        r.ps, r.blk, r.info = ps, blk, info
        return r
    info.bind = bind
    _ps_registry.append(info)
    return info.bind(outer)


class Flat(SSeq):
    """Concatenation over 0 <= t < count of piece(t) (a sequence over the
    generic index i)."""

    def __init__(self, i, count, piece, bound=None, kind='list'):
        self.i, self.count, self.piece, self.bound = i, count, piece, bound
        size = piece.n
        hs = hostint(size)
        self.hs = hs
        if hs is not None:
            n = INF if count is INF else mul(hs, count)
            self.ps = None
        else:
            self.ps = prefix_sum(i, size, bound if bound is not None
                                 else (None if count is INF else count))
            if bound is INF and count is not INF:
                # an endless loop left after so many iterations
                self.ps.info.extend(count, i, [
                    x for x in C.idx if x.get_id() != i.get_id()])
            n = INF if count is INF else norm(self.ps.ps(count))
        super().__init__(n, None, kind)

    def get(self, k):
        if self.hs is not None:
            if self.hs == 0:
                return UNDEF
            if self.hs == 1:
                return subst(self.piece.get(0), [(self.i, k)])
            if isinstance(k, int):
                return subst(self.piece.get(k % self.hs),
                             [(self.i, k // self.hs)])
            q = simp(zi(k) / self.hs)
            J = z3.FreshInt('J')
            return subst(self.piece.get(J),
                         [(self.i, q), (J, simp(zi(k) - q * self.hs))])
        b = self.ps.blk(k)
        J = z3.FreshInt('J')
        return subst(self.piece.get(J),
                     [(self.i, b), (J, zi(k) - self.ps.ps(b))])

    def with_kind(self, kind):
        f = Flat.__new__(Flat)
        f.__dict__.update(self.__dict__)
        f.kind = kind
        return f


def flat(i, count, piece, bound=None, kind='list'):
    if hostint(piece.n) == 0:
        return Lit([], kind)
    return Flat(i, count, piece, bound, kind)


# --------------------------------------------------------------------------
# Number of distinct elements


_dc_registry = []


def distinct_count(seq):
    """len(set(seq)): symbol shared by sequences that are provably equal."""
    if isinstance(seq, Lit):
        items = seq.items
        vs = [to_v(x) for x in items]
        if all(v is not None for v in vs):
            r = z3.IntVal(0)
            for k, v in enumerate(vs):
                r = r + z3.If(z3.Or(*[v == w for w in vs[:k]])
                              if k else z3.BoolVal(False),
                              z3.IntVal(0), z3.IntVal(1))
            return norm(r)
    for s, sym, npc in _dc_registry:
        if s is seq or seq_valid_equal(s, seq):
            n = zi(seq.n)
            assume(z3.And(sym >= 0, sym <= n, z3.Implies(n > 0, sym >= 1)))
            return sym
    if seq.n is not INF and all_distinct(seq):
        return seq.n
    sym = fresh('distinct', Int)
    n = zi(seq.n)
    assume(z3.And(sym >= 0, sym <= n, z3.Implies(n > 0, sym >= 1)))
    _dc_registry.append((seq, sym, len(C.pc)))
    return sym


def all_distinct(seq):
    a, b = plain('a', Int), plain('b', Int)
    npc = len(C.pc)
    C.pc.append(z3.And(0 <= a, a < b, b < zi(seq.n)))
    try:
        e = eq_formula(seq.get(a), seq.get(b))
        return e is not None and valid(z3.Not(e))
    finally:
        del C.pc[npc:]


def seq_valid_equal(a, b):
    if a is b:
        return True
    if a.n is INF or b.n is INF:
        return False
    if not valid(zi(a.n) == zi(b.n)):
        return False
    k = plain('k', Int)
    npc = len(C.pc)
    C.pc.append(z3.And(k >= 0, k < zi(a.n)))
    try:
        x, y = a.get(k), b.get(k)
        e = eq_formula(x, y)
        return e is not None and valid(e)
    finally:
        del C.pc[npc:]


def eq_formula(x, y):
    """Equality as a formula, or None if not expressible without branching."""
    if same(x, y):
        return z3.BoolVal(True)
    if is_num(x) and is_num(y):
        isf = lambda v: isinstance(v, float) or (is_z(v) and v.sort() == Real)
        isb = lambda v: isinstance(v, bool) or (is_z(v) and v.sort() == Bool)
        if isf(x) or isf(y):
            return zr(x) == zr(y)
        if isb(x) and isb(y):
            return zb(x) == zb(y)
        return zi(x) == zi(y)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        es = [eq_formula(p, q) for p, q in zip(x, y)]
        return None if any(e is None for e in es) else \
            z3.And(*es) if es else z3.BoolVal(True)
    if is_strlike(x) and is_strlike(y):
        x, y = str_seq(x), str_seq(y)
        if hostint(x.n) == 1 and hostint(y.n) == 1:
            return eq_formula(x.get(0), y.get(0))
        return None
    if isinstance(x, Ref) and isinstance(y, Ref):
        if is_z(x.ident) and is_z(y.ident):
            return x.ident == y.ident
        return z3.BoolVal(x.ident is y.ident)
    if isinstance(x, DTV) and isinstance(y, DTV) and x.kind == y.kind:
        return zi(x.t) == zi(y.t)
    if isinstance(x, TDV) and isinstance(y, TDV):
        return zi(x.us) == zi(y.us)
    if is_z(x) and is_z(y) and x.sort() == y.sort():
        return x == y
    if is_strlike(x) or is_strlike(y):
        if is_z(x) or is_z(y):
            vx, vy = to_v(x), to_v(y)
            if vx is not None and vy is not None:
                return vx == vy
        return None
    vx, vy = to_v(x), to_v(y)
    if vx is not None and vy is not None:
        return vx == vy
    return None
