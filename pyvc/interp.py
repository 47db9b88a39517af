"""Symbolic interpreter for the real AST of the functions under contract."""
import ast
import builtins
import collections
import enum
import os
import types

import math

import z3

from . import core
from .core import (C, Cell, Int, Bool, Real, V, MISSING, Prune, PyRaise,
                   Unsupported, assume, branch, check_deadline, zb,
                   as_bool_host)
from .values import *
from .values import (_ps_registry)
from . import values as VAL


class ReturnSig(Exception):
    def __init__(self, val):
        self.val = val


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class LoopExit(Exception):
    """Condition of a while loop became false."""


class Diverge(Exception):
    """Infinite loop whose only lasting effect is what it yields."""


class Star:
    def __init__(self, seq):
        self.seq = seq


class StarStar:
    def __init__(self, d):
        self.d = d


class Frame(Cell):
    def __init__(self, globs, parent=None, cls=None, name=''):
        super().__init__()
        self.globs = globs
        self.parent = parent
        self.cls = cls
        self.name = name
        self.nonlocals = set()
        self.globals_decl = set()
        self.locals = set()
        self.on_yield = None
        self.self_ = None
        self.closure = {}


class SuperProxy(SV):
    def __init__(self, inst, after):
        self.inst, self.after = inst, after


# --------------------------------------------------------------------------
# Source access: the AST of the function that runs


_src_cache = {}


class _Index:
    def __init__(self, path):
        with open(path, encoding='utf-8') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text, path)
        self.funcs = {}
        for node in ast.walk(self.tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                line = node.lineno
                if getattr(node, 'decorator_list', None):
                    line = min([d.lineno for d in node.decorator_list]
                               + [line])
                name = getattr(node, 'name', '<lambda>')
                self.funcs.setdefault((name, line), []).append(node)


def source_index(path):
    if path not in _src_cache:
        _src_cache[path] = _Index(path)
    return _src_cache[path]


def ast_of(func):
    code = func.__code__
    idx = source_index(code.co_filename)
    nodes = idx.funcs.get((code.co_name, code.co_firstlineno))
    if not nodes or len(nodes) != 1:
        raise Unsupported(f'no unique source for {func.__qualname__}')
    return nodes[0]


# packages whose code is interpreted
OWN = {'fauxdoc'}


def is_repo_func(f):
    return isinstance(f, types.FunctionType) and \
        (getattr(f, '__module__', '') or '').split('.')[0] in OWN


def is_repo_class(c):
    return isinstance(c, type) and \
        (getattr(c, '__module__', '') or '').split('.')[0] in OWN


def qual(f):
    return f'{f.__module__}.{f.__qualname__}'


def local_names(node):
    """Names assigned in a function body (not in nested functions)."""
    out, nonl, glob = set(), set(), set()
    has_yield = [False]

    def target(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp,
                          ast.SetComp, ast.DictComp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    target(m.target)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            has_yield[0] = True
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            target(n.target)
        elif isinstance(n, ast.For):
            target(n.target)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.withitem) and n.optional_vars:
            target(n.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    return out - nonl - glob, nonl, glob, has_yield[0]


_ln_cache = {}


def fn_info(node):
    r = _ln_cache.get(id(node))
    if r is None:
        r = (local_names(node), node)
        _ln_cache[id(node)] = r
    return r[0]


# --------------------------------------------------------------------------
# Exceptions of the interpreted program


def pyraise(cls, *args):
    raise PyRaise(ExcVal(cls, args))


# --------------------------------------------------------------------------
# Host objects


_hostcells = {}


def overlay():
    if getattr(C, 'overlay_cell', None) is None:
        C.overlay_cell = Cell()
        C.overlay_cell.stamp = 0
        C.overlay_cell.shared = True
    return C.overlay_cell


def lift(obj):
    """Host object to symbolic value."""
    if obj is None or isinstance(obj, (bool, int, float, str)):
        return obj
    if isinstance(obj, (SV, z3.ExprRef)):
        return obj
    if isinstance(obj, tuple):
        if hasattr(type(obj), 'n_sequence_fields'):
            return obj      # such as sys.float_info: read by attribute
        return tuple(lift(x) for x in obj)
    from . import lib
    r = lib.lift_special(obj)
    if r is not None:
        return r
    if type(obj) in (list, dict, collections.OrderedDict):
        key = id(obj)
        if key not in C.hostcells:
            if type(obj) is list:
                c = SList(Lit([lift(x) for x in obj]))
            else:
                c = SDict({k: lift(v) for k, v in obj.items()})
            c.stamp = 0
            c.shared = True
            C.hostcells[key] = (c, obj)
        return C.hostcells[key][0]
    if is_repo_class(type(obj)) and hasattr(obj, '__dict__') and \
            not isinstance(obj, (BaseException, enum.Enum)):
        key = id(obj)
        if key not in C.hostcells:
            c = Inst(type(obj))
            c.stamp = 0
            C.hostcells[key] = (c, obj)
            if isinstance(obj, collections.UserList):
                raise Unsupported('list-like object of a module')
            for k, v in vars(obj).items():
                c.d[k] = lift(v)
            c.shared = True
        return C.hostcells[key][0]
    return obj


# --------------------------------------------------------------------------
# Truth, comparison, arithmetic


def truth(x):
    x = force(x)
    if x is None:
        return False
    if isinstance(x, (bool, int, float, str)):
        return bool(x)
    if is_z(x):
        s = x.sort()
        if s == Bool:
            return x
        if s == Int:
            return x != 0
        if s == Real:
            return x != 0
        if s == V:
            return z3.Or(
                z3.And(V.is_VInt(x), V.vint(x) != 0),
                z3.And(V.is_VBool(x), V.vbool(x)),
                z3.And(V.is_VReal(x), V.vreal(x) != 0),
                z3.And(V.is_VStr(x), z3.Not(core.StrEmpty(V.vstr(x)))),
                V.is_VChr(x), V.is_VRef(x),
                z3.And(V.is_VSeq(x), core.SeqLen(V.vseq(x)) != 0),
                z3.And(V.is_VOth(x), core.OthTruth(V.voth(x))))
        raise Unsupported('truth value of a symbol of sort ' + str(s))
    if isinstance(x, tuple):
        return bool(x)
    if isinstance(x, SSeq):
        if x.n is INF:
            return True
        h = hostint(x.n)
        return h != 0 if h is not None else zi(x.n) != 0
    if isinstance(x, (SList, SDict, SSet)):
        return truth_len(length(x))
    if isinstance(x, Inst):
        f = class_lookup(x.cls, '__bool__')
        if f is not None:
            return truth(call_method(x, '__bool__', []))
        f = class_lookup(x.cls, '__len__')
        if f is not None:
            return truth_len(length(x))
        return True
    if isinstance(x, Ref):
        return x.role.truth(x)
    if isinstance(x, TDV):
        return zi(x.us) != 0
    if isinstance(x, DTV):
        return True
    if isinstance(x, (FuncVal, BoundMethod, ModelMethod, Partial, type,
                      SIter, types.FunctionType)):
        return True
    from . import lib
    if isinstance(x, lib.SecsVal):
        return zi(x.us) != 0
    if isinstance(x, ExtReal):
        return z3.Or(x.neg, x.val != 0)
    if isinstance(x, types.ModuleType) or callable(x):
        return True
    raise Unsupported(f'truth value of {type(x).__name__}')


def truth_len(n):
    h = hostint(n)
    return h != 0 if h is not None else zi(n) != 0


def test(x):
    return branch(truth(x))


def numeric(x):
    return isinstance(x, (int, float)) or \
        (is_z(x) and x.sort() in (Int, Real, Bool))


def as_num(x):
    """Number (host, Int or Real) from a value, branching on V."""
    x = force(x)
    if is_z(x) and x.sort() == V:
        if branch(V.is_VInt(x)):
            return V.vint(x)
        if branch(V.is_VReal(x)):
            return V.vreal(x)
        if branch(V.is_VBool(x)):
            return z3.If(V.vbool(x), z3.IntVal(1), z3.IntVal(0))
        return None
    if numeric(x):
        return x
    return None


def is_real(x):
    return isinstance(x, float) or (is_z(x) and x.sort() == Real)


def equals(a, b):
    """a == b as host bool or z3 Bool (may branch)."""
    a, b = force(a), force(b)
    if a is b:
        return True
    if isinstance(a, Inst):
        r = try_dunder(a, '__eq__', [b])
        if r is not NotImplemented:
            return truth(r)
        if isinstance(b, Inst):
            r = try_dunder(b, '__eq__', [a])
            if r is not NotImplemented:
                return truth(r)
        return a is b
    if isinstance(b, Inst):
        r = try_dunder(b, '__eq__', [a])
        return truth(r) if r is not NotImplemented else False
    if is_z(a) and a.sort() == V and isinstance(b, (SList, SSeq)) and \
            not is_strlike(b):
        if not branch(V.is_VSeq(a)):
            return False
        a = vseq_as_seq(a)
    if is_z(b) and b.sort() == V and isinstance(a, (SList, SSeq)) and \
            not is_strlike(a):
        if not branch(V.is_VSeq(b)):
            return False
        b = vseq_as_seq(b)
    if isinstance(a, SList):
        if isinstance(b, SSeq) and b.kind != 'list':
            return False
        if isinstance(b, tuple):
            return False
        a = a.seq.with_kind('list')
    if isinstance(b, SList):
        if isinstance(a, SSeq) and a.kind != 'list':
            return False
        if isinstance(a, tuple):
            return False
        b = b.seq.with_kind('list')
    if isinstance(a, tuple) and isinstance(b, SSeq):
        a = Lit(a, 'tuple')
    if isinstance(b, tuple) and isinstance(a, SSeq):
        b = Lit(b, 'tuple')
    if is_strlike(a) and is_strlike(b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        a, b = str_seq(a), str_seq(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = [equals(x, y) for x, y in zip(a, b)]
        if any(x is False for x in r):
            return False
        return z3.And(*[zb(x) for x in r]) if r else True
    if isinstance(a, SSeq) and isinstance(b, SSeq):
        if a.kind != b.kind:
            return False
        if a.n is INF or b.n is INF:
            raise Unsupported('comparison of infinite sequences')
        if not branch(zi(a.n) == zi(b.n)):
            return False
        n = hostint(a.n)
        if n is None:
            n = hostint(b.n)
        if n is not None and n <= 16:
            r = []
            for k in range(n):
                e = equals(a.get(k), b.get(k))
                if e is False:
                    return False
                r.append(zb(e))
            return z3.And(*r) if r else True
        raise Unsupported('equality of sequences of unknown length')
    if isinstance(a, (SSeq, SList, tuple)) != \
            isinstance(b, (SSeq, SList, tuple)) and \
            not (is_z(a) or is_z(b)):
        return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.ident is b.ident:
            return True
        e = eq_formula(a, b)
        return e
    if isinstance(a, SDict) and isinstance(b, SDict) and \
            a.conc is not None and b.conc is not None:
        if set(a.conc) != set(b.conc):
            return False
        r = [equals(a.conc[k], b.conc[k]) for k in a.conc]
        if any(x is False for x in r):
            return False
        return z3.And(*[zb(x) for x in r]) if r else True
    if isinstance(a, DTV) and isinstance(b, DTV):
        if a.kind != b.kind:
            return False
        return zi(a.t) == zi(b.t)
    if isinstance(a, TDV) and isinstance(b, TDV):
        return zi(a.us) == zi(b.us)
    if type(a) is type(b) and isinstance(a, (str, bool, int, float)):
        return a == b
    if isinstance(a, type) or isinstance(b, type) or \
            isinstance(a, types.ModuleType):
        return a is b
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        return a == b
    from . import lib
    r = lib.equals_special(a, b)
    if r is not None:
        return r
    if numeric(a) and numeric(b):
        if is_real(a) or is_real(b):
            if isinstance(a, float) and (a in (float('inf'), -float('inf'))) \
                    or isinstance(b, float) and b in (float('inf'),
                                                      -float('inf')):
                return False
            return zr(a) == zr(b)
        if is_z(a) and a.sort() == Bool and (isinstance(b, bool) or
                                             is_z(b) and b.sort() == Bool):
            return a == zb(b)
        if is_z(b) and b.sort() == Bool and isinstance(a, bool):
            return b == zb(a)
        return zi(a) == zi(b)
    if (is_z(a) and a.sort() == V) or (is_z(b) and b.sort() == V):
        va, vb = to_v(a), to_v(b)
        if va is None or vb is None:
            # a symbolic name and a literal one
            x, y = (a, b) if is_z(a) else (b, a)
            if isinstance(y, str) and len(y) > 1 and z3.is_app(x) and \
                    x.decl().name() == 'VStr':
                return V.vstr(x) == lib.hash_const(y)
            if a is None or b is None or isinstance(a, (str, SDict, Inst)) \
                    or isinstance(b, (str, SDict, Inst)):
                raise Unsupported('comparison of an opaque value')
            raise Unsupported('comparison of an opaque value')
        return opaque_equal(va, vb)
    if a is None or b is None:
        return False
    if is_z(a) and is_z(b) and a.sort() == b.sort():
        return a == b
    if isinstance(a, Ref) or isinstance(b, Ref):
        return False
    if type(a) is not type(b):
        return False
    raise Unsupported(f'== on {type(a).__name__} and {type(b).__name__}')


def opaque_equal(a, b):
    """a == b for opaque values: identical ones are equal (reflexivity is
    assumed of ==), numbers are equal by value whatever their type, and
    objects of unknown kind may be equal to anything."""
    if a.eq(b):
        return True
    if a.get_id() > b.get_id():
        a, b = b, a
    num = lambda x: z3.Or(V.is_VInt(x), V.is_VBool(x), V.is_VReal(x))
    val = lambda x: z3.If(V.is_VInt(x), z3.ToReal(V.vint(x)), z3.If(
        V.is_VBool(x), z3.If(V.vbool(x), z3.RealVal(1), z3.RealVal(0)),
        V.vreal(x)))
    odd = lambda x: z3.Or(V.is_VOth(x), V.is_VRef(x), V.is_VSeq(x))
    return z3.simplify(z3.Or(
        a == b, z3.And(num(a), num(b), val(a) == val(b)),
        z3.And(z3.Or(odd(a), odd(b)), core.PyEq(a, b))))


def vseq_as_seq(v):
    i = V.vseq(v)
    return SSeq(core.SeqLen(i), lambda k: core.SeqAt(i, zi(k)), 'list')


def znot(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def identical(a, b):
    a, b = force(a), force(b)
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if y is None or isinstance(y, bool):
            if is_z(x) and x.sort() == V:
                return x == to_v(y)
            if is_z(x) and x.sort() == Bool and isinstance(y, bool):
                return x == zb(y)
            if isinstance(x, Ref) and y is None:
                return x.role.is_none(x)
            if is_z(x):
                return False
            return x is y
    if isinstance(a, Ref) and isinstance(b, Ref):
        return eq_formula(a, b)
    if is_z(a) and is_z(b) and a.sort() == b.sort():
        return a == b
    return False


CMPOPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
          ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'isnot',
          ast.In: 'in', ast.NotIn: 'notin'}


def zcmp(op, x, y):
    return {'<': lambda: x < y, '<=': lambda: x <= y,
            '>': lambda: x > y, '>=': lambda: x >= y}[op]()


def compare(op, a, b):
    if op == '==':
        return equals(a, b)
    if op == '!=':
        a, b = force(a), force(b)
        return znot(equals(a, b))
    if op == 'is':
        return identical(a, b)
    if op == 'isnot':
        return znot(identical(a, b))
    if op == 'in':
        return contains(b, a)
    if op == 'notin':
        return znot(contains(b, a))
    a, b = force(a), force(b)
    from . import lib
    r = lib.order_special(op, a, b)
    if r is not None:
        return r
    if isinstance(a, tuple) and isinstance(b, tuple):
        if not a or not b:
            return {'<': len(a) < len(b), '<=': len(a) <= len(b),
                    '>': len(a) > len(b), '>=': len(a) >= len(b)}[op]
        if branch(zb(equals(a[0], b[0]))):
            return compare(op, a[1:], b[1:])
        return compare(op if op in '<>' else op[0], a[0], b[0])
    x, y = as_num(a), as_num(b)
    if x is None or y is None:
        if (a is None or b is None or isinstance(a, (str, tuple)) or
                isinstance(b, (str, tuple))):
            if isinstance(a, str) and isinstance(b, str):
                return zcmp(op, a, b)
            pyraise(TypeError, f"'{op}' not supported")
        raise Unsupported(
            f'{op} on {type(a).__name__} and {type(b).__name__}')
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return zcmp(op, x, y)
    for p, q, flip in ((x, y, False), (y, x, True)):
        if isinstance(p, float) and p in (float('inf'), -float('inf')):
            lo = p < 0
            r = {'<': lo, '<=': lo, '>': not lo, '>=': not lo}[op]
            return r if not flip else not r
    if is_real(x) or is_real(y):
        return zcmp(op, zr(x), zr(y))
    return zcmp(op, zi(x), zi(y))


DivF = z3.Function('floordiv', Int, Int, Int)
ModF = z3.Function('floormod', Int, Int, Int)
# of the lists VSeq(id): is it a tuple rather than a list?
IsTuple = z3.Function('is_tuple', Int, Bool)
PowI = z3.Function('int_pow', Int, Int, Int)
PowR = z3.Function('real_pow', Real, Real, Real)


def _install_arith_rules():
    def ax(a, b):
        q, r = DivF(a, b), ModF(a, b)
        out = [z3.Implies(b != 0, a == b * q + r),
               z3.Implies(b > 0, z3.And(0 <= r, r < b)),
               z3.Implies(b < 0, z3.And(b < r, r <= 0))]
        # exact quotients named by the goal (a theorem about integers)
        for j in C.div_hints:
            out.append(z3.Implies(z3.And(b != 0, a == b * j),
                                  z3.And(q == j, r == 0)))
        return out
    rule = core.Rule()
    rule.unary = ax
    core.RULES['floordiv'] = rule
    rule2 = core.Rule()
    rule2.unary = ax
    core.RULES['floormod'] = rule2
    p = core.Rule()
    p.unary = lambda a, b: [
        z3.Implies(b == 0, PowI(a, b) == 1),
        z3.Implies(b == 1, PowI(a, b) == a),
        z3.Implies(z3.And(a >= 0, b >= 0), PowI(a, b) >= 0),
        z3.Implies(z3.And(a >= 1, b >= 0), PowI(a, b) >= 1),
        z3.Implies(z3.And(a == 0, b > 0), PowI(a, b) == 0)]
    core.RULES['int_pow'] = p
    p = core.Rule()
    p.unary = lambda a, b: [
        z3.Implies(b == 0, PowR(a, b) == 1),
        z3.Implies(b == 1, PowR(a, b) == a),
        z3.Implies(a > 0, PowR(a, b) > 0),
        z3.Implies(z3.And(a == 0, b > 0), PowR(a, b) == 0)]
    core.RULES['real_pow'] = p


def too_large(*xs):
    """May an operation on these numbers overflow? (If the goal asks for
    it, both cases are looked at.)"""
    if not C.overflow:
        return False
    big = any(is_z(x) and x.sort() == Int and _grows(x) for x in xs)
    return big and branch(plain('overflow', Bool))


def _grows(x):
    todo = [x]
    while todo:
        t = todo.pop()
        if t.decl().name() in ('int_pow', 'factorial'):
            return True
        todo.extend(t.children())
    return False


_install_arith_rules()


def floordivmod(x, y):
    """Python's // and % on ints."""
    if isinstance(x, int) and isinstance(y, int):
        if y == 0:
            pyraise(ZeroDivisionError, 'division by zero')
        return divmod(x, y)
    hy = hostint(y)
    if hy is not None and hy > 0:
        a = zi(x)
        return simp(a / hy), simp(a % hy)
    if branch(zi(y) == 0):
        pyraise(ZeroDivisionError, 'division by zero')
    a, b = simp(zi(x)), simp(zi(y))
    # c*a // c*b == a // b and c*a % c*b == c * (a % b), for c > 0
    c = math.gcd(content(a), content(b))
    if c > 1:
        a, b = over(a, c), over(b, c)
    return DivF(a, b), simp(c * ModF(a, b))


def content(e):
    """Greatest common divisor of the coefficients of a sum."""
    if z3.is_int_value(e):
        return abs(e.as_long())
    if z3.is_add(e):
        return math.gcd(*[content(x) for x in e.children()])
    if z3.is_mul(e) and z3.is_int_value(e.arg(0)):
        return abs(e.arg(0).as_long())
    return 1


def over(e, c):
    """e / c, all of whose coefficients are divisible by c."""
    if z3.is_int_value(e):
        return z3.IntVal(e.as_long() // c)
    if z3.is_add(e):
        return z3.Sum([over(x, c) for x in e.children()])
    return simp(z3.IntVal(e.arg(0).as_long() // c) *
                z3.Product(e.children()[1:]))


def is_str(x):
    return z3.Or(V.is_VStr(x), V.is_VChr(x))


def binop(op, a, b):
    a, b = force(a), force(b)
    from . import lib
    r = lib.binop_special(op, a, b)
    if r is not None:
        return r
    if isinstance(a, Inst) or isinstance(b, Inst):
        names = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv'}
        if isinstance(a, Inst) and op in names:
            r = try_dunder(a, f'__{names[op]}__', [b])
            if r is not NotImplemented:
                return r
        raise Unsupported('operator on object')
    if op == '+':
        if is_strlike(a) and is_strlike(b):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return concat([str_seq(a), str_seq(b)], 'str')
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        la, lb = listlike(a), listlike(b)
        if la is not None and lb is not None and la.kind == lb.kind:
            r = concat([la, lb], la.kind)
            return SList(r) if la.kind == 'list' else r
        va, vb = [is_z(x) and x.sort() == V for x in (a, b)]
        if (va or is_strlike(a)) and (vb or is_strlike(b)):
            other = [x for x, v in ((a, va), (b, vb))
                     if v and not core.valid(is_str(x))]
            if len(other) == 2:
                raise Unsupported('+ of unknown values')
            for x in other:
                if not branch(is_str(x)):
                    C.overapprox.append('+ of an unknown value and a str')
                    pyraise(TypeError, 'unsupported operand type(s) for +')
            return concat([str_seq(a), str_seq(b)], 'str')
    if op == '*':
        for x, k in ((a, b), (b, a)):
            if isinstance(x, tuple):
                x = Lit(x, 'tuple')
            if is_strlike(x) or listlike(x) is not None:
                if isinstance(x, str) and isinstance(k, int):
                    return x * k
                kk = as_num(k)
                if kk is None or is_real(kk):
                    pyraise(TypeError, "can't multiply sequence by non-int")
                base = str_seq(x) if is_strlike(x) else listlike(x)
                return repeat(base, kk)
    if op == '%' and isinstance(a, str):
        if isinstance(b, (str, int, float)) or (
                isinstance(b, tuple) and
                all(isinstance(t, (str, int, float)) for t in b)):
            return a % b
        return lib.opaque_str('fmt')
    x, y = as_num(a), as_num(b)
    if x is None or y is None:
        if a is None or b is None or isinstance(a, (str, tuple)) or \
                isinstance(b, (str, tuple)):
            pyraise(TypeError, f'unsupported operand type(s) for {op}')
        raise Unsupported(
            f'{op} on {type(a).__name__} and {type(b).__name__}')
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        try:
            return {'+': lambda: x + y, '-': lambda: x - y,
                    '*': lambda: x * y, '/': lambda: x / y,
                    '//': lambda: x // y, '%': lambda: x % y,
                    '**': lambda: x ** y}[op]()
        except ZeroDivisionError as e:
            pyraise(ZeroDivisionError, str(e))
        except OverflowError as e:
            pyraise(OverflowError, str(e))
        except KeyError:
            pass
        if isinstance(x, int) and isinstance(y, int):
            return {'&': lambda: x & y, '|': lambda: x | y,
                    '^': lambda: x ^ y, '<<': lambda: x << y,
                    '>>': lambda: x >> y}[op]()
        raise Unsupported('operator ' + op)
    real = is_real(x) or is_real(y)
    if op in '+-*' and len(op) == 1:
        c = zr if real else zi
        if real and too_large(x, y):
            pyraise(OverflowError, 'int too large to convert to float')
        x, y = c(x), c(y)
        return norm(x + y if op == '+' else x - y if op == '-' else x * y)
    if op == '/':
        if branch(zr(y) == 0):
            pyraise(ZeroDivisionError, 'division by zero')
        if too_large(x, y):
            pyraise(OverflowError, 'int too large to convert to float')
        return zr(x) / zr(y)
    if op in ('//', '%'):
        if real:
            raise Unsupported('floor division of reals')
        q, r = floordivmod(x, y)
        return norm(q if op == '//' else r)
    if op == '**':
        hy = hostint(y) if not real or not is_real(y) else None
        if hy is not None and 0 <= hy <= 3:
            one = zr(1) if is_real(x) else zi(1)
            xx = zr(x) if is_real(x) else zi(x)
            r = one
            for _ in range(hy):
                r = r * xx
            return norm(r)
        if real:
            if C.overflow and branch(plain('overflow', Bool)):
                pyraise(OverflowError, 'Numerical result out of range')
            return PowR(zr(x), zr(y))
        return PowI(zi(x), zi(y))
    raise Unsupported('operator ' + op)


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
          ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
          ast.LShift: '<<', ast.RShift: '>>'}


def repeat(seq, k):
    kind = seq.kind
    h = hostint(k)
    sn = hostint(seq.n)
    if h is not None and h <= 16:
        r = concat([seq] * max(h, 0), kind)
    elif sn == 0:
        r = seq
    elif sn == 1:
        r = SSeq(norm(z3.If(zi(k) > 0, zi(k), z3.IntVal(0))),
                 lambda i: seq.get(0), kind)
    else:
        i = z3.Int(core.uname('idx'))
        n = norm(z3.If(zi(k) > 0, zi(k), z3.IntVal(0)))
        r = flat(i, n, seq, kind=kind)
    return SList(r) if kind == 'list' else r


# --------------------------------------------------------------------------
# Sequences


def listlike(x):
    """The sequence value of a list/tuple/range-like value, or None."""
    if isinstance(x, SList):
        return x.seq.with_kind('list')
    if isinstance(x, tuple):
        return Lit(x, 'tuple')
    if isinstance(x, SSeq):
        return x
    return None


def length(x):
    x = force(x)
    if isinstance(x, (str, tuple)):
        return len(x)
    if isinstance(x, SList):
        return x.seq.n
    if isinstance(x, SSeq):
        if x.n is INF:
            raise Unsupported('length of an infinite sequence')
        return x.n
    if isinstance(x, SDict):
        if x.conc is not None:
            return len(x.conc)
        try:
            return dict_entries(x).n
        except Unsupported:
            return distinct_count(keys_of(x.log))
    if isinstance(x, SSet):
        return distinct_count(x.seq)
    if isinstance(x, Inst):
        return call_method(x, '__len__', [])
    if isinstance(x, Ref):
        return x.role.length(x)
    if is_z(x) and x.sort() == V:
        if branch(V.is_VSeq(x)):
            return core.SeqLen(V.vseq(x))
        raise Unsupported('len of opaque value')
    if x is None or isinstance(x, (int, float)) or is_z(x):
        pyraise(TypeError, 'object has no len()')
    if isinstance(x, SIter):
        pyraise(TypeError, 'object has no len()')
    raise Unsupported(f'len of {type(x).__name__}')


def seq_slice(seq, lo, hi):
    """seq[lo:hi] for 0 <= lo <= hi <= n already normalised."""
    kind = seq.kind
    if isinstance(seq, Lit) and isinstance(lo, int) and isinstance(hi, int):
        return Lit(seq.items[lo:hi], kind)
    n = sub(hi, lo)
    if hostint(lo) == 0:
        return SSeq(norm(n), seq.get, kind)
    return SSeq(norm(n), lambda i: seq.get(add(lo, i)), kind)


def norm_bound(b, n, default):
    """Normalise a slice bound for step 1."""
    if b is None:
        return default
    b = as_num(b)
    if b is None or is_real(b):
        pyraise(TypeError, 'slice indices must be integers')
    if isinstance(b, int) and isinstance(n, int):
        return max(0, min(n, b + n if b < 0 else b))
    zb_, zn = zi(b), zi(n)
    if core.valid(z3.And(zb_ >= 0, zb_ <= zn), rounds=2, timeout_ms=800):
        return norm(b)
    return norm(z3.If(zb_ < 0,
                      z3.If(zb_ + zn < 0, z3.IntVal(0), zb_ + zn),
                      z3.If(zb_ > zn, zn, zb_)))


RLen = z3.Function('range_len', Int, Int, Int, Int)


def _range_rule():
    def ax(a, b, s):
        L = RLen(a, b, s)
        return [L >= 0,
                z3.Implies(z3.And(s > 0, b <= a), L == 0),
                z3.Implies(z3.And(s > 0, b > a),
                           z3.And(L >= 1, (L - 1) * s < b - a,
                                  b - a <= L * s)),
                z3.Implies(z3.And(s < 0, b >= a), L == 0),
                z3.Implies(z3.And(s < 0, b < a),
                           z3.And(L >= 1, (L - 1) * s > b - a,
                                  b - a >= L * s))]
    r = core.Rule()
    r.unary = ax
    core.RULES['range_len'] = r


_range_rule()


def make_range(a, b, s=1):
    if all(isinstance(x, int) for x in (a, b, s)):
        if s == 0:
            pyraise(ValueError, 'range() arg 3 must not be zero')
        return SRange(a, b, s, len(range(a, b, s)))
    hs = hostint(s)
    if hs == 1:
        d = sub(b, a)
        if core.valid(zi(d) >= 0, rounds=2, timeout_ms=800):
            return SRange(a, b, 1, norm(d))
        return SRange(a, b, 1, norm(z3.If(zi(d) > 0, zi(d), z3.IntVal(0))))
    if hs is not None and hs != 0:
        if hs > 0:
            n = (zi(b) - zi(a) + (hs - 1)) / hs
        else:
            n = (zi(a) - zi(b) + (-hs - 1)) / (-hs)
        return SRange(a, b, hs, norm(z3.If(n > 0, n, z3.IntVal(0))))
    if branch(zi(s) == 0):
        pyraise(ValueError, 'range() arg 3 must not be zero')
    return SRange(a, b, s, RLen(simp(zi(a)), simp(zi(b)), simp(zi(s))))


def slice_indices(sl, n):
    """slice.indices(n)."""
    step = 1 if sl.step is None else as_num(sl.step)
    if isinstance(step, int) and step == 0 or \
            (is_z(step) and branch(zi(step) == 0)):
        pyraise(ValueError, 'slice step cannot be zero')
    pos = branch(zi(step) > 0)
    zn = zi(n)
    if pos:
        lo, hi, ds, de = z3.IntVal(0), zn, z3.IntVal(0), zn
    else:
        lo, hi, ds, de = z3.IntVal(-1), zn - 1, zn - 1, z3.IntVal(-1)

    def bound(b, d):
        if b is None:
            return norm(d)
        b = as_num(b)
        if b is None or is_real(b):
            pyraise(TypeError, 'slice indices must be integers or None')
        b = zi(b)
        return norm(z3.If(b < 0, z3.If(b + zn < lo, lo, b + zn),
                          z3.If(b > hi, hi, b)))
    return bound(sl.start, ds), bound(sl.stop, de), step


def resolve_slice(sl):
    """Resolve V-typed (maybe None) bounds."""
    def r(x):
        x = force(x)
        if is_z(x) and x.sort() == V:
            if branch(V.is_VNone(x)):
                return None
            return as_num(x)
        return x
    return SliceVal(r(sl.start), r(sl.stop), r(sl.step))


def get_slice(seq, sl):
    sl = resolve_slice(sl)
    kind = seq.kind
    if isinstance(seq, SRange):
        a, b, s = slice_indices(sl, seq.n)
        if hostint(seq.start) == 0 and hostint(seq.step) == 1:
            return make_range(a, b, s)
        start = seq.get(a)
        return make_range(start, seq.get(b), mul(seq.step, s))
    if sl.step is None or hostint(sl.step) == 1:
        if seq.n is INF:
            raise Unsupported('slice of infinite sequence')
        lo = norm_bound(sl.start, seq.n, 0)
        hi = norm_bound(sl.stop, seq.n, seq.n)
        if isinstance(lo, int) and isinstance(hi, int):
            hi = max(lo, hi)
        elif hostint(lo) == 0:
            pass
        elif not core.valid(zi(lo) <= zi(hi), rounds=2, timeout_ms=800):
            hi = norm(z3.If(zi(hi) < zi(lo), zi(lo), zi(hi)))
        return seq_slice(seq, lo, hi)
    a, b, s = slice_indices(sl, seq.n)
    r = make_range(a, b, s)
    if isinstance(seq, Lit) and isinstance(r.n, int) and \
            isinstance(a, int) and isinstance(s, int):
        return Lit([seq.items[a + k * s] for k in range(r.n)], kind)
    return SSeq(r.n, lambda i: seq.get(r.get(i)), kind)


def index_seq(seq, i, what='list'):
    """seq[i] with IndexError and negative indices."""
    i = as_num(i)
    if i is None or is_real(i):
        pyraise(TypeError, 'indices must be integers or slices')
    n = seq.n
    if isinstance(i, int) and isinstance(n, int):
        if -n <= i < n:
            return seq.get(i % n if n else 0)
        pyraise(IndexError, f'{what} index out of range')
    if n is INF:
        raise Unsupported('index into infinite sequence')
    zi_, zn = zi(i), zi(n)
    if not branch(z3.And(zi_ >= -zn, zi_ < zn)):
        pyraise(IndexError, f'{what} index out of range')
    if branch(zi_ >= 0):
        return seq.get(i)
    return seq.get(norm(zi_ + zn))


def hostkey(k):
    """Host key for a concrete dict, or None."""
    if k is None or isinstance(k, (str, bool, int, float, type)):
        return (k,)
    if isinstance(k, tuple):
        ks = [hostkey(x) for x in k]
        if all(x is not None for x in ks):
            return (tuple(x[0] for x in ks),)
        return None
    if is_z(k):
        n = norm(k)
        if not is_z(n):
            return (n,)
    return None


def distinct_keys(log):
    a, b = core.plain('a', Int), core.plain('b', Int)
    npc = len(C.pc)
    C.pc.append(z3.And(0 <= a, a < b, b < zi(log.n)))
    try:
        x, y = log.get(a), log.get(b)
        if not (isinstance(x, tuple) and isinstance(y, tuple)):
            return False
        e = eq_formula(x[0], y[0])
        return e is not None and core.valid(z3.Not(e))
    finally:
        del C.pc[npc:]


def int_args(x):
    """Integers the value x is a function of."""
    todo, out = ([x] if is_z(x) else []), {}
    while todo:
        t = todo.pop()
        if t.sort() == Int and not z3.is_int_value(t):
            out[t.get_id()] = t
        todo.extend(t.children())
    return list(out.values())[::-1]


def picked_by(entries, key, t):
    """(condition, index) of the element of source index t, if only that
    one of a filtered sequence may have this key."""
    from . import loops
    test = loops.filtered(entries)
    if test is None:
        return None
    n = zi(entries.count) if entries.count is not INF else None
    e = entries.piece.get(0)
    if not isinstance(e, tuple):
        return None
    g = eq_formula(e[0], key)
    if g is None:
        return None
    at = lambda u: z3.substitute(g, (entries.i, u))
    u = core.plain('u', Int)
    if not core.valid(z3.And(t >= 0, True if n is None else t < n, at(t))):
        return None
    npc = len(C.pc)
    C.pc.append(z3.And(u >= 0, True if n is None else u < n, u != t, at(u)))
    try:
        if core.feasible(z3.BoolVal(True)):
            return None
    finally:
        del C.pc[npc:]
    return zb(test(t)), norm(entries.ps.ps(t))


def find_key(entries, key):
    """Index of the entry with this key, or None (decides by branching)."""
    n = hostint(entries.n)
    if n is not None and n <= 8:
        for j in range(n):
            if branch(zb(equals(key, entries.get(j)[0]))):
                return j
        return None
    if entries.n is INF:
        raise Unsupported('endless dict')

    def f(t):
        e = entries.get(t)
        if not isinstance(e, tuple):
            return None
        return eq_formula(e[0], key)
    i = z3.Int(core.uname('i'))
    g = f(i)
    if g is None:
        raise Unsupported('key of a symbolic dict')
    zn = zi(entries.n)
    if C.idx:
        # decided only if the answer is the same on every path
        k = core.plain('k', Int)
        npc = len(C.pc)
        C.pc.append(z3.And(k >= 0, k < zn, f(k)))
        try:
            if not core.feasible(z3.BoolVal(True)):
                return None
        finally:
            del C.pc[npc:]
        for t in int_args(key):
            if core.valid(z3.And(t >= 0, t < zn, f(t))):
                return t
            # of the elements picked by a condition, only this may have it
            j = picked_by(entries, key, t)
            if j is not None:
                return j[1] if branch(j[0]) else None
        raise Unsupported('lookup in a symbolic dict within a loop')
    if core.choose(2) == 0:
        k = core.fresh('found', Int)
        core.assume(z3.And(k >= 0, k < zn))
        core.assume(f(k))
        if not core.feasible(z3.BoolVal(True)):
            raise core.Prune()
        return k
    C.frules.append(core.ForallRule(
        lambda t: z3.Implies(z3.And(t >= 0, t < zn), z3.Not(f(t))),
        triggers_of(g, i), [z3.IntVal(0), simp(zn - 1)]))
    if not core.feasible(z3.BoolVal(True)):
        raise core.Prune()
    return None


def keys_of(log):
    return SSeq(log.n, lambda i: log.get(i)[0], 'list')


def dict_entries(d):
    """Entries (k, v) with distinct keys, as a sequence."""
    if d.conc is not None:
        return Lit(list(d.conc.items()))
    log = d.log
    if distinct_keys(log):
        return log
    parts = log.parts if isinstance(log, Concat) else [log]
    cur = None
    for p in parts:
        if isinstance(p, Lit):
            for k, v in p.items:
                j = None if cur is None else find_key(cur, k)
                if cur is None:
                    cur = Lit([(k, v)])
                elif j is None:
                    cur = concat([cur, Lit([(k, v)])])
                elif isinstance(cur, Lit) and isinstance(j, int):
                    items = list(cur.items)
                    items[j] = (items[j][0], v)
                    cur = Lit(items)
                else:
                    cur = replaced(cur, j, v)
        else:
            if not distinct_keys(p):
                raise Unsupported('dict with possibly repeated keys')
            if cur is None:
                cur = p
            elif distinct_keys(concat([cur, p])):
                cur = concat([cur, p])
            else:
                raise Unsupported(
                    'iteration over a dict with possibly repeated keys')
    cur = cur if cur is not None else Lit([])
    if not C.idx:
        d.set('log', cur)
    return cur


def replaced(seq, j, v):
    def get(i):
        e = seq.get(i)
        c = zi(i) == zi(j)
        h = core.as_bool_host(simp(c))
        if h is not None:
            return (e[0], v) if h else e
        return (e[0], ite(c, v, e[1]))
    return SSeq(seq.n, get, seq.kind)


def dict_lookup(d, k):
    """(found: bool/z3, value)."""
    if d.conc is not None:
        hk = hostkey(k)
        if hk is not None:
            if hk[0] in d.conc:
                return True, d.conc[hk[0]]
            # symbolic keys are never stored in concrete dicts
            return False, None
        for kk in d.conc:
            if branch(zb(equals(k, kk))):
                return True, d.conc[kk]
        return False, None
    ent = dict_entries(d)
    j = find_key(ent, k)
    if j is None:
        return False, None
    return True, ent.get(j)[1]


def contains(container, x):
    container = force(container)
    x_ = force(x)
    if isinstance(container, SIter):
        from . import lazy
        if lazy.one_by_one(container):
            return lazy.search(container, lambda v: test(compare('==', x, v)))[0]
        container = lazy.taken(container)
    if isinstance(container, str) and isinstance(x_, str):
        return x_ in container
    if isinstance(container, SDict):
        if container.conc is not None:
            return dict_lookup(container, x_)[0]
        fn = getattr(container, 'contains_fn', None)
        if fn is not None:
            return fn(x_)
        if not distinct_keys(container.log):
            try:
                dict_entries(container)
            except Unsupported:
                return contains(keys_of(container.log), x_)
        return dict_lookup(container, x_)[0]
    if isinstance(container, SRange):
        i = as_num(x_)
        if i is None:
            return False
        if is_real(i):
            raise Unsupported('real in range')
        i = zi(i)
        st, sp, n = zi(container.start), container.step, zi(container.n)
        if hostint(sp) == 1:
            return z3.And(i >= st, i < st + n)
        k = core.plain('k', Int)
        # i in range <=> exists k: decided by the witness floordiv
        q, r = floordivmod(norm(i - st), sp)
        return z3.And(zi(r) == 0, zi(q) >= 0, zi(q) < n)
    if isinstance(container, Inst):
        f = class_lookup(container.cls, '__contains__')
        if f is not None:
            return truth(call_method(container, '__contains__', [x_]))
        raise Unsupported('in on object')
    if isinstance(container, Ref):
        return container.role.contains(container, x_)
    if isinstance(container, SSet):
        container = container.seq
    if isinstance(container, (types.MappingProxyType, collections.abc.Mapping)
                  ) and not isinstance(container, SV):
        hk = hostkey(x_)
        if hk is not None:
            return hk[0] in container
    s = listlike(container)
    if s is None:
        s2 = container if isinstance(container, SSeq) else None
        if s2 is None:
            raise Unsupported(f'in on {type(container).__name__}')
        s = s2
    n = hostint(s.n) if s.n is not INF else None
    if n is not None and n <= 16:
        r = [zb(equals(s.get(k), x_)) for k in range(n)]
        return z3.Or(*r) if r else False
    return exists_in(s, lambda e: equals(e, x_))


def exists_in(s, pred):
    """Bool b with b <=> exists k < n: pred(s[k])."""
    b = core.fresh('ex', Bool)
    k = z3.FreshInt('K')
    outer = list(C.idx)
    p = core.uniform(lambda: pred(s.get(k)))
    if p is core.Fork:
        raise Unsupported('search decided by a fork')
    p = zb(p)
    if branch(b):
        w = core.fresh('witness', Int)
        assume(z3.And(w >= 0, w < zi(s.n)))
        assume(z3.substitute(p, (k, w)))
        return True
    n = zi(s.n)
    trig = triggers_of(p, k)
    C.frules.append(core.ForallRule(
        lambda t: z3.Implies(z3.And(t >= 0, t < n),
                             z3.Not(z3.substitute(p, (k, t)))), trig,
        [z3.IntVal(0)]))
    return False


def triggers_of(e, k):
    """(symbol, position) pairs whose argument is exactly k in e."""
    out = set()
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for pos, a in enumerate(x.children()):
                    if a.get_id() == k.get_id():
                        out.add((x.decl().name(), pos))
            stack.extend(x.children())
    return out


def to_seq(x):
    """All the elements an iteration over x yields (consumes iterators)."""
    x = force(x)
    if isinstance(x, str):
        return Lit(list(x))
    if isinstance(x, tuple):
        return Lit(list(x))
    if isinstance(x, SList):
        return x.seq
    if isinstance(x, SIter):
        from . import lazy
        return lazy.all_of(x)
    if isinstance(x, SSeq):
        return x
    if isinstance(x, SDict):
        e = dict_entries(x)
        if isinstance(e, Lit):
            return Lit([p[0] for p in e.items])
        return SSeq(e.n, lambda i: e.get(i)[0])
    if isinstance(x, SSet):
        raise Unsupported('iteration over a set')
    if isinstance(x, Inst):
        f = class_lookup(x.cls, '__iter__')
        if f is not None:
            from . import lazy
            return to_seq(lazy.of_object(x))
        pyraise(TypeError, 'object is not iterable')
    if isinstance(x, Ref):
        return x.role.iterate(x)
    if is_z(x) and x.sort() == V:
        if branch(V.is_VSeq(x)):
            return vseq_as_seq(x)
        raise Unsupported('iteration over an opaque value')
    if x is None or isinstance(x, (int, float)) or is_z(x):
        pyraise(TypeError, 'object is not iterable')
    if isinstance(x, type) and hasattr(x, '__iter__'):
        return Lit(list(x))
    raise Unsupported(f'iteration over {type(x).__name__}')


# --------------------------------------------------------------------------
# Attributes


CONTAINER_BASES = (collections.OrderedDict, dict, collections.UserList,
                   collections.UserDict, list)


def class_lookup(cls, name, after=None):
    """(owner, attribute) along the MRO, skipping up to `after`."""
    mro = cls.__mro__
    if after is not None:
        mro = mro[mro.index(after) + 1:]
    for c in mro:
        if name in c.__dict__:
            if c is object and name in ('__eq__', '__init__', '__hash__',
                                        '__len__', '__bool__', '__repr__',
                                        '__str__', '__setattr__',
                                        '__getattribute__', '__ne__',
                                        '__init_subclass__', '__new__'):
                return (c, c.__dict__[name]) if name in (
                    '__init__',) else None
            return c, c.__dict__[name]
    return None


def bind_attr(owner, attr, inst, name):
    from . import lib
    if isinstance(attr, staticmethod):
        return attr.__func__
    if isinstance(attr, classmethod):
        return BoundMethod(attr.__func__, inst.cls)
    if isinstance(attr, property):
        if attr.fget is None:
            pyraise(AttributeError, f'unreadable attribute {name}')
        return call(attr.fget, [inst])
    if isinstance(attr, types.FunctionType):
        if is_repo_func(attr):
            return BoundMethod(attr, inst)
        m = lib.container_method(inst, owner, name)
        if m is not None:
            return m
        if owner.__module__ == 'collections.abc' or \
                owner.__module__ == '_collections_abc':
            return BoundMethod(attr, inst)
        raise Unsupported(f'method {owner.__name__}.{name}')
    m = lib.container_method(inst, owner, name)
    if m is not None:
        return m
    if owner is object and name == '__init__':
        return ModelMethod(lambda a, k: None, 'object.__init__')
    if hasattr(attr, '__get__') and not isinstance(attr, type):
        f = lib.descriptor(attr, inst)
        if f is not None:
            return f
        raise Unsupported(f'descriptor {owner.__name__}.{name}')
    return lift(attr)


NOATTR = object()


def find_attr(obj, name):
    """Attribute value or NOATTR (may run property code)."""
    from . import lib
    obj = force(obj)
    if isinstance(obj, Inst):
        found = class_lookup(obj.cls, name)
        if found is not None:
            owner, attr = found
            if isinstance(attr, property):
                return bind_attr(owner, attr, obj, name)
        if name in obj.d:
            return obj.d[name]
        if name == '__class__':
            return obj.cls
        if name == '__dict__':
            raise Unsupported('__dict__')
        if found is not None:
            key = (id(found[0]), name)
            ov = overlay().d.get(key, MISSING)
            if ov is not MISSING:
                return ov
            return bind_attr(found[0], found[1], obj, name)
        if name == 'data' and '__base__' in obj.d:
            return obj.d['__base__']
        ga = class_lookup(obj.cls, '__getattr__')
        if ga is not None:
            return call(ga[1], [obj, name])
        return NOATTR
    if isinstance(obj, SuperProxy):
        found = class_lookup(obj.inst.cls, name, obj.after)
        if found is None:
            return NOATTR
        return bind_attr(found[0], found[1], obj.inst, name)
    if isinstance(obj, Ref):
        return obj.role.getattr(obj, name)
    r = lib.getattr_model(obj, name)
    if r is not None:
        return r if r is not lib.NONE_VALUE else None
    if isinstance(obj, FuncVal):
        if name in ('__name__', '__qualname__'):
            return obj.name
        return NOATTR
    if isinstance(obj, BoundMethod):
        if name == '__self__':
            return obj.self_
        if name == '__func__':
            return obj.func
        if hasattr(obj.func, name):
            return lift(getattr(obj.func, name))
        return NOATTR
    if isinstance(obj, (SV, z3.ExprRef)):
        return NOATTR
    key = (id(obj), name)
    ov = overlay().d.get(key, MISSING)
    if ov is not MISSING:
        return ov
    if hasattr(obj, name):
        return lift(getattr(obj, name))
    return NOATTR


def get_attr(obj, name):
    r = find_attr(obj, name)
    if r is NOATTR:
        pyraise(AttributeError,
                f'{type(obj).__name__} object has no attribute {name!r}')
    return r


def has_attr(obj, name):
    obj = force(obj)
    if isinstance(obj, Ref):
        return obj.role.hasattr(obj, name)
    try:
        return find_attr(obj, name) is not NOATTR
    except PyRaise as e:
        if isinstance(e.exc.cls, type) and issubclass(e.exc.cls,
                                                      AttributeError):
            return False
        raise


def set_attr(obj, name, val):
    obj = force(obj)
    if isinstance(obj, Inst):
        found = class_lookup(obj.cls, name)
        if found is not None and isinstance(found[1], property):
            if found[1].fset is None:
                pyraise(AttributeError,
                        f'property {name!r} has no setter')
            call(found[1].fset, [obj, val])
            return
        if class_lookup(obj.cls, '__setattr__') is not None:
            raise Unsupported('__setattr__')
        if name == 'data' and '__base__' in obj.d:
            obj.set('__base__', val)
            return
        obj.set(name, val)
        return
    if isinstance(obj, Ref):
        obj.role.setattr(obj, name, val)
        return
    from . import lib
    if lib.setattr_model(obj, name, val):
        return
    if isinstance(obj, FuncVal):
        raise Unsupported('attribute of function')
    if isinstance(obj, SV) or is_z(obj):
        pyraise(AttributeError, f'cannot set attribute {name!r}')
    # class, module or function object: state shared between objects
    overlay().set((id(obj), name), val)
    C.shared_writes.append(f'{getattr(obj, "__name__", obj)}.{name}')


def try_dunder(inst, name, args):
    found = class_lookup(inst.cls, name)
    if found is None:
        return NotImplemented
    owner, attr = found
    if owner is object:
        return NotImplemented
    f = bind_attr(owner, attr, inst, name)
    return call(f, args)


def call_method(obj, name, args, kwargs=None):
    return call(get_attr(obj, name), args, kwargs or {})


# --------------------------------------------------------------------------
# Calls


CONTRACTS = {}     # qualified name -> contract(args, kwargs) or None


class Args(list):
    """Arguments of a modelled function; those it looks at are noted."""

    def __init__(self, xs):
        super().__init__(xs)
        self.seen = set()

    def __getitem__(self, i):
        if isinstance(i, slice):
            self.seen.update(range(len(self))[i])
        else:
            self.seen.add(i if i >= 0 else i + len(self))
        return super().__getitem__(i)

    def all_seen(self):
        self.seen.update(range(len(self)))
        return self

    def __iter__(self):
        self.all_seen()
        return super().__iter__()

    def __add__(self, o):
        return list(self) + list(o)

    def __radd__(self, o):
        return list(o) + list(self)


class KwArgs(dict):
    def __init__(self, d):
        super().__init__(d)
        self.seen = set()

    def __getitem__(self, k):
        self.seen.add(k)
        return super().__getitem__(k)

    def get(self, k, d=None):
        self.seen.add(k)
        return super().get(k, d)

    def pop(self, k, *d):
        self.seen.add(k)
        return super().pop(k, *d)

    def __contains__(self, k):
        self.seen.add(k)
        return super().__contains__(k)

    def __iter__(self):
        self.seen.update(super().keys())
        return super().__iter__()

    def items(self):
        self.seen.update(super().keys())
        return super().items()

    def keys(self):
        self.seen.update(super().keys())
        return super().keys()

    def values(self):
        self.seen.update(super().keys())
        return super().values()


def call_model(fn, args, kwargs, name):
    """A model; arguments it does not look at are not modelled."""
    a, k = Args(args), KwArgs(kwargs)
    r = fn(a, k)
    if len(a.seen) < len(args) or any(x not in k.seen for x in kwargs):
        raise Unsupported(f'arguments of {name}')
    return r


def call(f, args, kwargs=None):
    check_deadline()
    kwargs = dict(kwargs or {})
    f = force(f)
    from . import lib
    if isinstance(f, BoundMethod):
        return call(f.func, [f.self_] + list(args), kwargs)
    if isinstance(f, ModelMethod):
        return call_model(f.fn, args, kwargs, f.name)
    if isinstance(f, Partial):
        kw = dict(f.kwargs)
        kw.update(kwargs)
        return call(f.func, list(f.args) + list(args), kw)
    if isinstance(f, FuncVal):
        return call_funcval(f, args, kwargs)
    if isinstance(f, Ref):
        return f.role.call(f, args, kwargs)
    if isinstance(f, Inst):
        found = class_lookup(f.cls, '__call__')
        if found is None:
            pyraise(TypeError, 'object is not callable')
        return call(bind_attr(found[0], found[1], f, '__call__'), args,
                    kwargs)
    if isinstance(f, type):
        return lib.construct(f, args, kwargs)
    m = lib.model_of(f)
    if m is not None:
        C.lib_used.add(getattr(f, '__qualname__', str(f)))
        return call_model(m, args, kwargs, getattr(f, '__name__', str(f)))
    if is_repo_func(f) or (isinstance(f, types.FunctionType) and
                           f.__module__ in ('_collections_abc', 'pyvc.prelude')):
        q = qual(f)
        con = CONTRACTS.get(q)
        if con is not None and C.current_target != q:
            C.contracts_used.add(q)
            return con(f, list(args), kwargs)
        return call_host(f, args, kwargs)
    if f is None or isinstance(f, (int, float, str, tuple)) or is_z(f):
        pyraise(TypeError, 'object is not callable')
    r = lib.call_native(f, args, kwargs)
    return r


def flatten_args(args):
    out = []
    for a in args:
        if isinstance(a, Star):
            n = hostint(a.seq.n) if a.seq.n is not INF else None
            if n is not None:
                out.extend(a.seq.get(k) for k in range(n))
            else:
                out.append(a)
        else:
            out.append(a)
    return out


def bind_params(a, args, kwargs, defaults, kwdefaults, name):
    """Bind call arguments to ast.arguments; returns dict name -> value."""
    args = flatten_args(args)
    kwargs = dict(kwargs)
    out = {}
    pos = [p.arg for p in a.posonlyargs + a.args]
    ponly = {p.arg for p in a.posonlyargs}
    rest = list(args)
    for p in pos:
        if rest and not isinstance(rest[0], Star):
            out[p] = rest.pop(0)
        elif rest and isinstance(rest[0], Star):
            raise Unsupported('unpacking an argument list of unknown length')
        else:
            break
    if rest:
        if a.vararg is None:
            pyraise(TypeError, f'{name}() takes too many arguments')
        if any(isinstance(r, Star) for r in rest):
            parts = [r.seq if isinstance(r, Star) else Lit([r])
                     for r in rest]
            out[a.vararg.arg] = concat(parts, 'tuple')
        else:
            out[a.vararg.arg] = tuple(rest)
    elif a.vararg is not None:
        out[a.vararg.arg] = ()
    kwo = [p.arg for p in a.kwonlyargs]
    extra = {}
    for k, v in kwargs.items():
        if k == '**':
            if a.kwarg is None:
                raise Unsupported('unpacking unknown keywords')
            extra['**'] = v
            continue
        if (k in pos and k not in ponly) or k in kwo:
            if k in out:
                pyraise(TypeError,
                        f'{name}() got multiple values for argument {k!r}')
            out[k] = v
        elif a.kwarg is not None:
            extra[k] = v
        else:
            pyraise(TypeError,
                    f'{name}() got an unexpected keyword argument {k!r}')
    if a.kwarg is not None:
        if '**' in extra:
            ss = extra.pop('**')
            if extra:
                raise Unsupported('mixed keyword unpacking')
            out[a.kwarg.arg] = ss
        else:
            out[a.kwarg.arg] = SDict(extra)
    nd = len(defaults)
    for k, p in enumerate(pos):
        if p not in out:
            j = k - (len(pos) - nd)
            if j < 0:
                pyraise(TypeError, f'{name}() missing argument {p!r}')
            out[p] = defaults[j]
    for p in kwo:
        if p not in out:
            if p not in kwdefaults:
                pyraise(TypeError, f'{name}() missing argument {p!r}')
            out[p] = kwdefaults[p]
    return out


def call_host(f, args, kwargs):
    node = ast_of(f)
    C.functions.add(qual(f))
    defaults = [lift(x) for x in (f.__defaults__ or ())]
    kwd = {k: lift(v) for k, v in (f.__kwdefaults__ or {}).items()}
    bound = bind_params(node.args, args, kwargs, defaults, kwd, f.__name__)
    closure = {}
    cls = None
    if f.__closure__:
        for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
            try:
                closure[nm] = cell.cell_contents
            except ValueError:
                pass
        cls = closure.get('__class__')
    fr = Frame(f.__globals__, None, cls, f.__qualname__)
    fr.closure = closure
    return run_body(node, fr, bound)


def call_funcval(f, args, kwargs):
    node = f.node
    bound = bind_params(node.args, args, kwargs, f.defaults, f.kwdefaults,
                        f.name)
    fr = Frame(f.frame.globs, f.frame, f.frame.cls, f.name)
    return run_body(node, fr, bound)


def run_body(node, fr, bound):
    C.depth += 1
    if C.depth > 60:
        C.depth -= 1
        raise Unsupported('recursion')
    try:
        loc, nonl, glob, gen = fn_info(node)
        fr.locals = loc | set(bound)
        fr.nonlocals = nonl
        fr.globals_decl = glob
        for k, v in bound.items():
            fr.d[k] = v
        a = node.args
        first = (a.posonlyargs + a.args)[:1]
        if first:
            fr.self_ = fr.d.get(first[0].arg)
        if isinstance(node, ast.Lambda):
            return ev(node.body, fr)
        if gen:
            from . import lazy
            return lazy.Lazy(lambda action: run_generator(node, fr, action),
                             node=node, frames=chain_of(fr))
        try:
            exec_block(node.body, fr)
        except ReturnSig as r:
            return r.val
        return None
    finally:
        C.depth -= 1


def chain_of(fr):
    out = []
    while fr is not None:
        out.append(fr)
        fr = fr.parent
    return out


def run_generator(node, fr, action):
    C.depth += 1
    try:
        fr.on_yield = action
        exec_block(node.body, fr)
    except ReturnSig:
        pass
    except PyRaise as p:
        if issubclass(p.exc.cls, StopIteration):
            pyraise(RuntimeError, 'generator raised StopIteration')
        raise
    finally:
        C.depth -= 1


# --------------------------------------------------------------------------
# Names


def lookup(fr, name):
    f = fr
    while f is not None:
        if name in f.d:
            v = f.d[name]
            if isinstance(v, Ite):
                v = force(v)
            if v is UNDEF:
                pyraise(UnboundLocalError, name)
            from .loops import Poison
            if isinstance(v, Poison):
                raise v.error()
            return v
        if name in f.closure:
            return lift(f.closure[name])
        if name in f.locals and f is fr:
            pyraise(UnboundLocalError, name)
        f = f.parent
    key = ('globals', id(fr.globs), name)
    ov = overlay().d.get(key, MISSING)
    if ov is not MISSING:
        return ov
    if name in fr.globs:
        return lift(fr.globs[name])
    if hasattr(builtins, name):
        return getattr(builtins, name)
    pyraise(NameError, name)


def store(fr, name, val):
    if name in fr.globals_decl:
        overlay().set(('globals', id(fr.globs), name), val)
        C.shared_writes.append(f'global {name}')
        return
    if name in fr.nonlocals:
        f = fr.parent
        while f is not None:
            if name in f.d or name in f.locals:
                f.set(name, val)
                return
            f = f.parent
        raise Unsupported('nonlocal ' + name)
    fr.set(name, val)


# --------------------------------------------------------------------------
# Expressions


def ev(e, fr):
    m = _EV.get(type(e))
    if m is None:
        raise Unsupported('expression ' + type(e).__name__)
    return m(e, fr)


def ev_const(e, fr):
    return e.value


def ev_name(e, fr):
    return lookup(fr, e.id)


def ev_attr(e, fr):
    return get_attr(ev(e.value, fr), e.attr)


def ev_call(e, fr):
    if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
        if fr.cls is None:
            f = fr
            while f is not None and f.cls is None:
                f = f.parent
            if f is None:
                raise Unsupported('super()')
            return SuperProxy(f.self_, f.cls)
        return SuperProxy(fr.self_, fr.cls)
    f = ev(e.func, fr)
    args, kwargs = [], {}
    for a in e.args:
        if isinstance(a, ast.Starred):
            s = ev(a.value, fr)
            args.append(Star(to_seq(s)))
        else:
            args.append(ev(a, fr))
    for k in e.keywords:
        v = ev(k.value, fr)
        if k.arg is None:
            v = force(v)
            if isinstance(v, Inst) and '__base__' in v.d:
                v = v.d['__base__']
            if isinstance(v, SDict) and v.conc is not None:
                for kk, vv in v.conc.items():
                    if not isinstance(kk, str):
                        pyraise(TypeError, 'keywords must be strings')
                    if kk in kwargs:
                        pyraise(TypeError, 'multiple values for keyword')
                    kwargs[kk] = vv
            elif isinstance(v, SDict):
                kwargs['**'] = v
            else:
                raise Unsupported('** of a non-dict')
        else:
            if k.arg in kwargs:
                pyraise(TypeError, 'multiple values for keyword')
            kwargs[k.arg] = v
    return call(f, flatten_args(args), kwargs)


def ev_binop(e, fr):
    a = ev(e.left, fr)
    b = ev(e.right, fr)
    return binop(BINOPS.get(type(e.op), '?'), a, b)


def ev_unary(e, fr):
    v = force(ev(e.operand, fr))
    if isinstance(e.op, ast.Not):
        return znot(truth(v))
    if isinstance(e.op, ast.USub):
        if isinstance(v, TDV):
            return TDV(norm(-zi(v.us)))
        n = as_num(v)
        if n is None:
            raise Unsupported('unary minus')
        return norm(-n)
    if isinstance(e.op, ast.UAdd):
        return v
    if isinstance(e.op, ast.Invert) and isinstance(v, int):
        return ~v
    raise Unsupported('unary operator')


def ev_boolop(e, fr):
    isand = isinstance(e.op, ast.And)
    v = None
    for k, x in enumerate(e.values):
        v = ev(x, fr)
        if k == len(e.values) - 1:
            return v
        t = branch(truth(v))
        if t != isand:
            return v
    return v


def ev_compare(e, fr):
    left = ev(e.left, fr)
    res = None
    for k, (op, c) in enumerate(zip(e.ops, e.comparators)):
        right = ev(c, fr)
        r = compare(CMPOPS[type(op)], left, right)
        if len(e.ops) == 1:
            return r
        if k < len(e.ops) - 1:
            if not branch(zb(r)):
                return False
        res = r
        left = right
    return res


def ev_ifexp(e, fr):
    return ev(e.body, fr) if test(ev(e.test, fr)) else ev(e.orelse, fr)


def ev_list(e, fr):
    parts = []
    for x in e.elts:
        if isinstance(x, ast.Starred):
            parts.append(to_seq(ev(x.value, fr)))
        else:
            parts.append(Lit([ev(x, fr)]))
    return SList(concat(parts, 'list'))


def ev_tuple(e, fr):
    parts = []
    for x in e.elts:
        if isinstance(x, ast.Starred):
            s = to_seq(ev(x.value, fr))
            n = hostint(s.n) if s.n is not INF else None
            if n is None:
                raise Unsupported('unpacking in tuple')
            parts.extend(s.get(k) for k in range(n))
        else:
            parts.append(ev(x, fr))
    return tuple(parts)


def ev_dict(e, fr):
    d = SDict()
    for k, v in zip(e.keys, e.values):
        if k is None:
            from . import lib
            lib.dict_update(d, ev(v, fr))
            continue
        kk = ev(k, fr)
        from . import lib
        lib.dict_set(d, kk, ev(v, fr))
    return d


def ev_set(e, fr):
    return SSet(Lit([ev(x, fr) for x in e.elts]))


def ev_subscript(e, fr):
    v = ev(e.value, fr)
    return get_item(v, ev(e.slice, fr))


def get_item(v, i):
    v, i = force(v), force(i)
    if isinstance(v, str):
        if isinstance(i, int):
            try:
                return v[i]
            except IndexError as ex:
                pyraise(IndexError, str(ex))
        v = str_seq(v)
    if isinstance(v, SDict):
        found, val = dict_lookup(v, i)
        if not branch(zb(found)):
            pyraise(KeyError, i)
        return val
    if isinstance(v, Inst):
        return call_method(v, '__getitem__', [i])
    if isinstance(v, Ref):
        return v.role.getitem(v, i)
    if is_z(v) and v.sort() == V:
        if branch(V.is_VSeq(v)):
            v = vseq_as_seq(v)
        else:
            raise Unsupported('subscript of an opaque value')
    if isinstance(v, type):
        return v         # Generic[T]
    s = listlike(v)
    if s is None and isinstance(v, SSeq):
        s = v
    if s is None:
        if v is None or isinstance(v, (int, float)):
            pyraise(TypeError, 'object is not subscriptable')
        if isinstance(v, SIter):
            pyraise(TypeError, 'object is not subscriptable')
        raise Unsupported(f'subscript of {type(v).__name__}')
    if isinstance(i, SliceVal):
        r = get_slice(s, i)
        if isinstance(v, tuple) and isinstance(r, Lit):
            return tuple(r.items)
        if isinstance(v, SList):
            return SList(r)
        return r
    if is_strlike(s):
        x = index_seq(s, i, 'string')
        return Lit([x], 'str')
    return index_seq(s, i, s.kind)


def ev_slice(e, fr):
    return SliceVal(ev(e.lower, fr) if e.lower else None,
                    ev(e.upper, fr) if e.upper else None,
                    ev(e.step, fr) if e.step else None)


def ev_joined(e, fr):
    parts = []
    for v in e.values:
        if isinstance(v, ast.Constant):
            parts.append(v.value)
        else:
            parts.append(ev_formatted(v, fr))
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    return concat([str_seq(p) for p in parts], 'str')


def ev_formatted(v, fr):
    from . import lib
    x = ev(v.value, fr)
    if v.format_spec is not None:
        return lib.opaque_str('fmt')
    if v.conversion == 114:
        return lib.to_repr(x)
    return lib.to_str(x)


def ev_lambda(e, fr):
    f = FuncVal(e, fr, '<lambda>')
    f.defaults = [ev(d, fr) for d in e.args.defaults]
    f.kwdefaults = {p.arg: ev(d, fr) for p, d in
                    zip(e.args.kwonlyargs, e.args.kw_defaults)
                    if d is not None}
    return f


def ev_named(e, fr):
    v = ev(e.value, fr)
    assign(e.target, v, fr)
    return v


def ev_yield(e, fr):
    v = ev(e.value, fr) if e.value is not None else None
    if fr.on_yield is None:
        raise Unsupported('yield')
    fr.on_yield(v)
    return None


def ev_yieldfrom(e, fr):
    from . import loops
    loops.iterate(ev(e.value, fr), fr.on_yield)
    return None


def comp_frame(fr):
    inner = Frame(fr.globs, fr, fr.cls, '<comp>')
    inner.self_ = fr.self_
    inner.locals = set()
    return inner


def run_comp(gens, fr, action, inner=None, first=MISSING):
    """Comprehension: nested loops with conditions."""
    from . import loops
    if inner is None:
        inner = comp_frame(fr)

    def level(k):
        if k == len(gens):
            action(inner)
            return
        g = gens[k]
        if g.is_async:
            raise Unsupported('async comprehension')
        if k == 0 and first is not MISSING:
            src = first
        else:
            src = ev(g.iter, inner if k else fr)

        def body():
            for c in g.ifs:
                if not test(ev(c, inner)):
                    return
            level(k + 1)
        loops.iterate(src, lambda x: (assign(g.target, x, inner), body()),
                      body_nodes=None)
    level(0)


def ev_listcomp(e, fr):
    from . import lib
    out = SList(Lit([]))
    run_comp(e.generators, fr,
             lambda f: lib.list_append(out, ev(e.elt, f)))
    return out


def ev_genexp(e, fr):
    from . import lazy
    first = ev(e.generators[0].iter, fr)
    inner = comp_frame(fr)
    return lazy.Lazy(
        lambda action: run_comp(e.generators, fr,
                                lambda f: action(ev(e.elt, f)), inner, first),
        node=e, frames=chain_of(inner))


def ev_setcomp(e, fr):
    from . import lib
    out = SList(Lit([]))
    run_comp(e.generators, fr,
             lambda f: lib.list_append(out, ev(e.elt, f)))
    return SSet(out.seq)


def ev_dictcomp(e, fr):
    from . import lib
    out = SDict()

    def act(f):
        k = ev(e.key, f)
        lib.dict_set(out, k, ev(e.value, f))
    run_comp(e.generators, fr, act)
    return out


_EV = {
    ast.Constant: ev_const, ast.Name: ev_name, ast.Attribute: ev_attr,
    ast.Call: ev_call, ast.BinOp: ev_binop, ast.UnaryOp: ev_unary,
    ast.BoolOp: ev_boolop, ast.Compare: ev_compare, ast.IfExp: ev_ifexp,
    ast.List: ev_list, ast.Tuple: ev_tuple, ast.Dict: ev_dict,
    ast.Set: ev_set, ast.Subscript: ev_subscript, ast.Slice: ev_slice,
    ast.JoinedStr: ev_joined, ast.Lambda: ev_lambda,
    ast.NamedExpr: ev_named, ast.Yield: ev_yield,
    ast.YieldFrom: ev_yieldfrom, ast.ListComp: ev_listcomp,
    ast.GeneratorExp: ev_genexp, ast.SetComp: ev_setcomp,
    ast.DictComp: ev_dictcomp, ast.FormattedValue: ev_formatted,
}


# --------------------------------------------------------------------------
# Statements


def assign(t, v, fr):
    if isinstance(t, ast.Name):
        store(fr, t.id, v)
    elif isinstance(t, (ast.Tuple, ast.List)):
        v = force(v)
        s = to_seq(v)
        if any(isinstance(x, ast.Starred) for x in t.elts):
            k = [isinstance(x, ast.Starred) for x in t.elts].index(True)
            after = len(t.elts) - k - 1
            n = s.n
            for j in range(k):
                assign(t.elts[j], s.get(j), fr)
            assign(t.elts[k].value, SList(seq_slice(s, k, sub(n, after))), fr)
            for j in range(after):
                assign(t.elts[k + 1 + j], s.get(add(sub(n, after), j)), fr)
            return
        if s.n is INF:
            pyraise(ValueError, 'too many values to unpack')
        if not branch(zi(s.n) == len(t.elts)):
            pyraise(ValueError, 'wrong number of values to unpack')
        for j, x in enumerate(t.elts):
            assign(x, s.get(j), fr)
    elif isinstance(t, ast.Attribute):
        set_attr(ev(t.value, fr), t.attr, v)
    elif isinstance(t, ast.Subscript):
        set_item(ev(t.value, fr), ev(t.slice, fr), v)
    else:
        raise Unsupported('assignment target')


def set_item(obj, i, v):
    from . import lib
    obj, i = force(obj), force(i)
    if isinstance(obj, SList):
        s = obj.seq
        if isinstance(i, SliceVal):
            i = resolve_slice(i)
            if i.step is None:
                lo = norm_bound(i.start, s.n, 0)
                hi = norm_bound(i.stop, s.n, s.n)
                obj.set('seq', concat([seq_slice(s, 0, lo), to_seq(v),
                                       seq_slice(s, hi, s.n)]))
                return
            raise Unsupported('assignment to extended slice')
        i = as_num(i)
        n = s.n
        if isinstance(i, int) and isinstance(n, int):
            if not -n <= i < n:
                pyraise(IndexError, 'list assignment index out of range')
            items = [s.get(k) for k in range(n)]
            items[i] = v
            obj.set('seq', Lit(items))
            return
        if not branch(z3.And(zi(i) >= -zi(n), zi(i) < zi(n))):
            pyraise(IndexError, 'list assignment index out of range')
        if not branch(zi(i) >= 0):
            i = norm(zi(i) + zi(n))
        u = SSeq(n, lambda k: ite(zi(k) == zi(i), v, s.get(k)), 'list')
        u.update = (s, i, v)
        obj.set('seq', u)
        return
    if isinstance(obj, SDict):
        lib.dict_set(obj, i, v)
        return
    if isinstance(obj, Inst):
        call_method(obj, '__setitem__', [i, v])
        return
    if isinstance(obj, (tuple, str)) or (isinstance(obj, SSeq) and
                                         obj.kind in ('tuple', 'str')):
        pyraise(TypeError, 'object does not support item assignment')
    if isinstance(obj, SSeq):
        raise Unsupported('mutation of a shared or summarised list')
    raise Unsupported('item assignment')


def exec_block(stmts, fr):
    for s in stmts:
        ex(s, fr)


def ex(s, fr):
    m = _EX.get(type(s))
    if m is None:
        raise Unsupported('statement ' + type(s).__name__)
    m(s, fr)


def ex_expr(s, fr):
    if isinstance(s.value, ast.Constant):
        return
    ev(s.value, fr)


def ex_assign(s, fr):
    v = ev(s.value, fr)
    for t in s.targets:
        assign(t, v, fr)


def ex_annassign(s, fr):
    if s.value is not None:
        assign(s.target, ev(s.value, fr), fr)


def ex_augassign(s, fr):
    from . import lib
    op = BINOPS.get(type(s.op), '?')
    t = s.target
    if isinstance(t, ast.Name):
        cur = lookup(fr, t.id)

        def put(v):
            store(fr, t.id, v)
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, fr)
        cur = get_attr(o, t.attr)

        def put(v):
            set_attr(o, t.attr, v)
    else:
        o = ev(t.value, fr)
        i = ev(t.slice, fr)
        cur = get_item(o, i)

        def put(v):
            set_item(o, i, v)
    v = ev(s.value, fr)
    cur = force(cur)
    if isinstance(cur, SList) and op == '+':
        cur.set('seq', concat([cur.seq, to_seq(v)]))
        put(cur)
        return
    put(binop(op, cur, v))


def ex_return(s, fr):
    raise ReturnSig(ev(s.value, fr) if s.value is not None else None)


def ex_if(s, fr):
    if test(ev(s.test, fr)):
        exec_block(s.body, fr)
    else:
        exec_block(s.orelse, fr)


def ex_for(s, fr):
    from . import loops
    src = ev(s.iter, fr)

    def body(x):
        assign(s.target, x, fr)
        try:
            exec_block(s.body, fr)
        except ContinueSig:
            pass
    try:
        loops.iterate(src, body, body_nodes=s.body)
    except BreakSig:
        return
    exec_block(s.orelse, fr)


def ex_while(s, fr):
    from . import loops
    try:
        loops.run_while(s, fr)
    except BreakSig:
        return
    exec_block(s.orelse, fr)


def make_exc(v):
    v = force(v)
    if isinstance(v, ExcVal):
        return v
    if isinstance(v, type) and issubclass(v, BaseException):
        return ExcVal(v, ())
    if isinstance(v, Inst) and issubclass(v.cls, BaseException):
        return ExcVal(v.cls, ())
    raise Unsupported('raise of a non-exception')


def ex_raise(s, fr):
    if s.exc is None:
        if not C.exc_stack:
            pyraise(RuntimeError, 'No active exception to reraise')
        raise PyRaise(C.exc_stack[-1])
    e = make_exc(ev(s.exc, fr))
    if s.cause is not None:
        ev(s.cause, fr)
    raise PyRaise(e)


def exc_matches(exc, t):
    t = force(t)
    ts = t if isinstance(t, tuple) else (t,)
    for c in ts:
        if isinstance(c, type) and issubclass(exc.cls, c):
            return True
    return False


def ex_try(s, fr):
    from . import lazy

    def final():
        exec_block(s.finalbody, fr)
    try:
        try:
            exec_block(s.body, fr)
        except PyRaise as p:
            for h in s.handlers:
                if h.type is None or exc_matches(p.exc, ev(h.type, fr)):
                    if h.name:
                        store(fr, h.name, p.exc)
                    C.exc_stack.append(p.exc)
                    try:
                        exec_block(h.body, fr)
                    finally:
                        C.exc_stack.pop()
                    break
            else:
                raise
        else:
            exec_block(s.orelse, fr)
    except (PyRaise, ReturnSig, BreakSig, ContinueSig):
        if s.finalbody:
            final()
        raise
    except lazy.Through:
        if s.finalbody:
            raise Unsupported('finally of a generator left unfinished')
        raise
    if s.finalbody:
        final()


def ex_with(s, fr):
    _with(s.items, s.body, fr)


def _with(items, body, fr):
    if not items:
        exec_block(body, fr)
        return
    from . import lib
    m = force(ev(items[0].context_expr, fr))
    target = items[0].optional_vars
    if isinstance(m, lib.Suppress):
        if target is not None:
            assign(target, None, fr)
        try:
            _with(items[1:], body, fr)
        except PyRaise as p:
            if not exc_matches(p.exc, m.types):
                raise
        return
    if not isinstance(m, Inst) or class_lookup(m.cls, '__exit__') is None:
        raise Unsupported('with ' + type(m).__name__)
    entered = try_dunder(m, '__enter__', [])
    if target is not None:
        assign(target, entered, fr)

    def leave(*args):
        return try_dunder(m, '__exit__', list(args))
    try:
        _with(items[1:], body, fr)
    except PyRaise as p:
        if not test(leave(p.exc.cls, p.exc, None)):
            raise
        return
    except (ReturnSig, BreakSig, ContinueSig):
        leave(None, None, None)
        raise
    leave(None, None, None)


def ex_match(s, fr):
    x = force(ev(s.subject, fr))
    for case in s.cases:
        if matches(case.pattern, x, fr) and (
                case.guard is None or test(ev(case.guard, fr))):
            exec_block(case.body, fr)
            return


def matches(p, x, fr):
    if isinstance(p, ast.MatchValue):
        return branch(zb(equals(x, ev(p.value, fr))))
    if isinstance(p, ast.MatchSingleton):
        return branch(zb(identical(x, p.value)))
    if isinstance(p, ast.MatchOr):
        return any(matches(q, x, fr) for q in p.patterns)
    if isinstance(p, ast.MatchAs):
        if p.pattern is not None and not matches(p.pattern, x, fr):
            return False
        if p.name:
            store(fr, p.name, x)
        return True
    if isinstance(p, ast.MatchClass) and not p.kwd_patterns and \
            not p.patterns:
        from . import lib
        return test(lib.m_isinstance([x, ev(p.cls, fr)], {}))
    if isinstance(p, ast.MatchSequence) and (
            isinstance(x, tuple) or listlike(x) is not None) and \
            not any(isinstance(q, ast.MatchStar) for q in p.patterns):
        seq = to_seq(x)
        if not branch(zi(seq.n) == len(p.patterns)):
            return False
        return all(matches(q, seq.get(k), fr)
                   for k, q in enumerate(p.patterns))
    raise Unsupported('pattern ' + type(p).__name__)


def ex_funcdef(s, fr):
    f = FuncVal(s, fr, s.name)
    f.defaults = [ev(d, fr) for d in s.args.defaults]
    f.kwdefaults = {p.arg: ev(d, fr) for p, d in
                    zip(s.args.kwonlyargs, s.args.kw_defaults)
                    if d is not None}
    if s.decorator_list:
        raise Unsupported('decorated nested function')
    store(fr, s.name, f)


def ex_assert(s, fr):
    if not test(ev(s.test, fr)):
        pyraise(AssertionError)


def ex_pass(s, fr):
    pass


def ex_break(s, fr):
    raise BreakSig()


def ex_continue(s, fr):
    raise ContinueSig()


def ex_delete(s, fr):
    from . import lib
    for t in s.targets:
        if isinstance(t, ast.Name):
            fr.delete(t.id)
        elif isinstance(t, ast.Subscript):
            lib.del_item(ev(t.value, fr), ev(t.slice, fr))
        elif isinstance(t, ast.Attribute):
            o = force(ev(t.value, fr))
            if isinstance(o, Inst) and t.attr in o.d:
                o.delete(t.attr)
            else:
                pyraise(AttributeError, t.attr)
        else:
            raise Unsupported('del')


def ex_import(s, fr):
    import importlib
    for a in s.names:
        m = importlib.import_module(a.name)
        if a.asname:
            store(fr, a.asname, m)
        else:
            store(fr, a.name.split('.')[0],
                  importlib.import_module(a.name.split('.')[0]))


def ex_importfrom(s, fr):
    import importlib
    pkg = fr.globs.get('__package__')
    m = importlib.import_module('.' * s.level + (s.module or ''), pkg)
    for a in s.names:
        store(fr, a.asname or a.name, lift(getattr(m, a.name)))


def ex_scope(s, fr):
    pass


_EX = {
    ast.Expr: ex_expr, ast.Assign: ex_assign, ast.AnnAssign: ex_annassign,
    ast.AugAssign: ex_augassign, ast.Return: ex_return, ast.If: ex_if,
    ast.For: ex_for, ast.While: ex_while, ast.Raise: ex_raise,
    ast.With: ex_with, ast.Match: ex_match, ast.Try: ex_try, ast.FunctionDef: ex_funcdef, ast.Assert: ex_assert,
    ast.Pass: ex_pass, ast.Break: ex_break, ast.Continue: ex_continue,
    ast.Delete: ex_delete, ast.Import: ex_import,
    ast.ImportFrom: ex_importfrom, ast.Nonlocal: ex_scope,
    ast.Global: ex_scope,
}
