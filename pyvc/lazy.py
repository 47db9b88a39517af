"""Iterators whose elements are computed when they are asked for.

Generators, generator expressions, map, filter and iterators over other
iterators are evaluated at the first use.  If all elements are used at once
(list, sum, a loop over the iterator), they are evaluated as the use asks for
them; a part of them is only taken from an iterator without effects (other
than on the iterators it draws from, which are not used again).
"""
import ast

from . import core
from .core import C, Cell, PyRaise, Unsupported, explore
from .values import *
from .interp import (BreakSig, ContinueSig, Diverge, Frame, ReturnSig,
                     force, seq_slice)
from . import interp, prelude

NEW, GONE = SV(), SV()


class Lazy(SIter):
    """run(action): do the action for every element;
    make(full): (elements, [(iterator, position after all elements)])."""

    def __init__(self, run=None, make=None, node=None, frames=(),
                 joined=None):
        super().__init__(NEW, 0)
        self.joined = joined
        self.run, self.make = run, make
        self.node, self.frames = node, frames


class Through(Exception):
    """Something raised by the body of a loop, on its way through the
    generator the loop is over."""

    def __init__(self, owner, signal):
        self.owner, self.signal = owner, signal


class Found(BreakSig):
    def __init__(self, value=None):
        self.value = value


def over(it, *sources):
    """The iterator it, made from the elements of lists or dicts."""
    it.over = tuple(x for x in sources if isinstance(x, (SList, SDict)))
    it.since = [(c, c.d['seq' if isinstance(c, SList) else 'log'])
                for c in it.over]
    return it


def is_new(it):
    return isinstance(it, Lazy) and it.d['seq'] is NEW


def state(it):
    """(elements, position) of an iterator in use."""
    from .loops import Poison
    seq, pos = it.d['seq'], it.d['pos']
    for x in (seq, pos):
        if isinstance(x, Poison):
            raise x.error()
    if pos is GONE or seq is NEW or seq is GONE:
        raise Unsupported('iterator used again after a part of it was')
    for c, old in getattr(it, 'since', ()):
        if c.d['seq' if isinstance(c, SList) else 'log'] is not old:
            raise Unsupported('changed while an iterator over it is used')
    if 'since' in it.d:
        stale(it, *it.d['since'])
    return seq, pos


def stale(it, stamp, mark):
    """Has anything the elements depend on changed since their evaluation?"""
    names = {n.id for n in ast.walk(it.node) if isinstance(n, ast.Name)}
    cells = None
    for cell, key, _ in C.journal[mark:]:
        if cell.stamp > stamp or isinstance(cell, SIter):
            continue
        if isinstance(cell, Frame):
            if cell in it.frames[1:] and key in names:
                raise Unsupported('variable of a generator in use changed')
            continue
        if cells is None:
            cells = reach(it.frames, names)
        if cell in cells:
            raise Unsupported('state of a generator in use changed')


def reach(frames, names):
    out = set()
    todo = [f.d[n] for f in frames for n in names if n in f.d]
    while todo:
        v = todo.pop()
        if isinstance(v, (list, tuple)):
            todo.extend(v)
        elif isinstance(v, dict):
            todo.extend(v.values())
        elif isinstance(v, Lit):
            todo.extend(v.items)
        elif isinstance(v, FuncVal):
            names_ = {n.id for n in ast.walk(v.node)
                      if isinstance(n, ast.Name)}
            f = v.frame
            while f is not None:
                if (id(f), v.name) not in out:
                    out.add((id(f), v.name))
                    todo.extend(f.d[n] for n in names_ if n in f.d)
                f = f.parent
        elif isinstance(v, Cell):
            if v not in out:
                out.add(v)
                todo.extend(v.d.values())
        elif hasattr(v, '__dict__') and isinstance(v, SV):
            if id(v) not in out:
                out.add(id(v))
                todo.extend(vars(v).values())
    return out


def whole(it, full):
    """Compute all elements of a new iterator."""
    from . import lib
    start, mark = C.stamp, len(C.journal)
    if it.make is not None and not (full and impure(it)):
        seq, after = it.make(full)
        for s, p in after:
            s.set('pos', p)
    elif it.joined is not None:
        seq = it.joined()
    else:
        out = SList(Lit([]))
        it.set('seq', Lit([]))
        it.set('pos', GONE)
        try:
            it.run(lambda x: lib.list_append(out, x))
        except Diverge:
            pass
        except PyRaise:
            it.set('pos', 0)
            raise
        seq = out.seq
    it.set('seq', seq)
    it.set('pos', 0)
    if not full:
        for cell in {c: 1 for c, _, _ in C.journal[mark:]}:
            if isinstance(cell, SIter) and cell is not it and \
                    cell.stamp <= start:
                cell.set('pos', GONE)
    if it.node is not None:
        it.set('since', (C.stamp, len(C.journal) + 1))


def effects(it):
    """What computing all elements changes, iterators aside; None if it
    cannot be done, or may raise."""
    def thunk():
        try:
            whole(it, False)
        except PyRaise:
            return False
        return True
    own = set(it.frames[:1])
    try:
        paths = list(explore(thunk))
    except core.Budget:
        raise
    except Unsupported:
        if it.run is None:
            raise
        return None
    if not all(p.value for p in paths):
        return None
    return {c for p in paths for c, _ in p.writes
            if not isinstance(c, SIter) and c not in own}


def pure(it):
    return effects(it) == set()


def bits(it):
    """(elements, position) of an iterator of which a part is used."""
    if is_new(it):
        partly(it)
    return state(it)


def partly(it):
    """Compute all elements of an iterator that changes nothing but
    iterators, and may use other objects: nothing else uses those, until the
    events are looked at."""
    w = C.world
    before = w.seq
    w.set('seq', Lit([]))
    start, mark = C.stamp, len(C.journal)
    try:
        whole(it, False)
    except PyRaise:
        raise Unsupported('part of an iterator that raises')
    for c, _, _ in C.journal[mark:]:
        if c.stamp <= start and c is not w and c not in it.frames[:1] and \
                not isinstance(c, SIter):
            raise Unsupported('part of an iterator with effects')
    own = w.seq
    if hostint(own.n) == 0:
        w.set('seq', before)
        return
    idents = []
    for p in own.parts if isinstance(own, Concat) else [own]:
        i = None
        if isinstance(p, Flat):
            i, p = p.i, p.piece
        n = hostint(p.n)
        if n is None:
            n = next((c for c in range(6) if core.valid(zi(p.n) <= c)), None)
        if n is None:
            raise Unsupported('events of a generator')
        for j in range(n):
            e = force(p.get(j))
            x = e[1] if isinstance(e, tuple) else None
            if not is_z(x) or x.sort() != core.Int or \
                    i is not None and str(i) in symbols(x):
                raise Unsupported('events of a generator')
            idents.append(x)
    w.set('seq', concat([before, own]))
    w.set('partly', w.d.get('partly', []) + idents)


def apart(ident):
    """An object is used while a generator in use may be using it, too?"""
    for x in C.world.d.get('partly', ()):
        if not is_z(ident) or ident.sort() != core.Int or \
                not core.valid(x != ident):
            raise Unsupported('use of what a generator in use uses')


def rest(seq, pos):
    if hostint(pos) == 0:
        return seq
    if seq.n is INF:
        return SSeq(INF, lambda i: seq.get(add(pos, i)), seq.kind)
    return seq_slice(seq, pos, seq.n)


def taken(x):
    """The elements of x, of which a part is used; x is not used again."""
    x = force(x)
    if not isinstance(x, SIter):
        return interp.to_seq(x)
    seq, pos = bits(x)
    x.set('pos', GONE)
    return rest(seq, pos)


def all_of(x):
    """All elements of an iterator."""
    if is_new(x):
        whole(x, True)
    seq, pos = state(x)
    x.set('pos', GONE if seq.n is INF else seq.n)
    return rest(seq, pos)


def each(it, body):
    """The elements of a new iterator one by one."""
    it.set('seq', Lit([]))
    it.set('pos', GONE)

    def act(x):
        try:
            body(x)
        except (PyRaise, BreakSig, ContinueSig, ReturnSig) as e:
            raise Through(it, e)
    try:
        it.run(act)
    except Through as t:
        if t.owner is not it:
            raise
        raise t.signal
    it.set('pos', 0)


def search(x, test):
    """(whether an element passes the test, its value); elements after it
    are not computed."""
    from . import loops

    def body(v):
        if test(v):
            raise Found(v)
    try:
        loops.iterate(x, body)
    except Found as f:
        return True, f.value
    return False, None


def impure(x):
    """Must the elements be computed when they are asked for?"""
    if not is_new(x) or x.run is None:
        return False
    return not pure(x)


def one_by_one(x):
    """Must the elements of x be computed only up to the one searched?"""
    return isinstance(x, SIter) and (impure(x) or bits(x)[0].n is INF)


def parts(args, full):
    """(elements, length, iterator or None, position) for each of args."""
    out = []
    for x in args:
        if isinstance(x, SIter):
            if is_new(x) and full and not pure(x):
                try:
                    whole(x, True)
                except PyRaise:
                    raise Unsupported('exception in one of several iterators')
                seq, pos = state(x)
                out.append((rest(seq, pos), x, pos, True))
            else:
                seq, pos = bits(x)
                out.append((rest(seq, pos), x, pos, False))
        else:
            out.append((interp.to_seq(x), None, 0, False))
    return out


def zipped(args):
    its = [x for x in args if isinstance(x, SIter)]
    if len(its) > 1 and all(x is args[0] for x in args):
        return Lazy(make=lambda full: grouped(args[0], len(args)))
    if len({id(x) for x in its}) < len(its):
        raise Unsupported('zip of an iterator and itself')

    def make(full):
        ps = parts(args, full)
        n = INF
        for s, *_ in ps:
            if s.n is not INF:
                n = s.n if n is INF or same(n, s.n) else norm(zmin(n, s.n))
        after = []
        longer = True           # all iterables so far have another element
        for s, x, pos, fx in ps:
            if fx and not (n is not INF and s.n is not INF and
                           (same(n, s.n) or core.valid(zi(n) == zi(s.n)))):
                raise Unsupported('part of an iterator with effects')
            if s.n is not INF:
                longer = z3and(longer, True if n is INF else zi(s.n) > zi(n))
            if x is not None:
                used = GONE if n is INF else norm(
                    add(pos, add(n, ite_int(longer))))
                after.append((x, used))
        if all(isinstance(s, Lit) for s, *_ in ps):
            return Lit(list(zip(*[s.items for s, *_ in ps]))), after
        return SSeq(n, lambda i: tuple(s.get(i) for s, *_ in ps),
                    'list'), after
    return Lazy(make=make)


def z3and(a, b):
    import z3
    if a is True:
        return b
    return a if b is True else z3.And(a, b)


def ite_int(c):
    import z3
    return 1 if c is True else z3.If(c, z3.IntVal(1), z3.IntVal(0))


def grouped(it, k):
    seq, pos = bits(it)
    s = rest(seq, pos)
    if s.n is INF:
        return SSeq(INF, lambda i: tuple(
            s.get(add(mul(i, k), j)) for j in range(k)), 'list'), \
            [(it, GONE)]
    if isinstance(s, Lit):
        return Lit(list(zip(*[iter(s.items)] * k))), [(it, seq.n)]
    n = interp.floordivmod(s.n, k)[0]
    return SSeq(norm(n), lambda i: tuple(
        s.get(add(mul(i, k), j)) for j in range(k)), 'list'), [(it, seq.n)]


def counting(it, body):
    """body(k, x) for the elements x of it, counted from 0."""
    from . import loops
    fr = Frame({}, None)
    fr.d['count'] = 0

    def act(x):
        k = fr.d['count']
        fr.set('count', add(k, 1))
        body(k, x)
    loops.iterate(it, act)


def enumerated(x, start):
    def make(full):
        seq, pos = bits(x)
        s = rest(seq, pos)
        if isinstance(s, Lit):
            r = Lit([(add(start, j), v) for j, v in enumerate(s.items)])
        else:
            r = SSeq(s.n, lambda i: (add(start, i), s.get(i)), 'list')
        return r, [(x, GONE if seq.n is INF else seq.n)]

    def run(action):
        counting(x, lambda k, v: action((add(start, k), v)))
    return Lazy(run, make)


def of_object(x):
    """The iterator iter(x) of an object of the code."""
    it = force(interp.call_method(x, '__iter__', []))
    if isinstance(it, Inst):
        if interp.class_lookup(it.cls, '__next__') is None:
            interp.pyraise(TypeError, 'iter() returned a non-iterator')
        return interp.call(prelude.values_of, [it], {})
    return it
