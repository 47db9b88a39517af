"""Loops of unknown length: invariants and closed forms.

The body is executed once for a generic iteration i.  For every location the
body modifies, an invariant "value at the start of iteration i" is derived from
the effect of the body and is inductive by construction:

  append-only list / string / log   prefix ++ Flat(t < i, what iteration t adds)
  counter                           x0 + PS(i), PS the prefix sum of the deltas
  overwritten                       x0 if i == 0 else value written at i - 1
  anything else of a z3 sort        R(i) with R(0) = x0, R(t+1) = step(R(t), t)

The last run of the body is made with all locations set to their value at i, so
that every branch condition and effect used in the summary is one of the real
body under the invariant.  Functions whose loops need more have an invariant of
their own (INVARIANTS).
"""
import z3

from . import core
from .core import (C, Fn, ForallRule, Int, Bool, Real, V, RS, MISSING, Prune,
                   PyRaise, Unsupported, assume, branch, choose, explore,
                   fresh, simp, uname, valid, zb)
from .values import *
from .values import Undef
from .interp import (BreakSig, ContinueSig, Diverge, Frame, LoopExit,
                     ReturnSig, to_seq, force, triggers_of)
from . import interp, lazy

UNROLL = 24
INVARIANTS = {}


class Poison(SV):
    """Value of a location that the invariant does not describe (yet)."""

    def __init__(self, loc, x0):
        self.loc, self.x0 = loc, x0

    def error(self):
        return NeedGeneric(self.loc)


class NeedGeneric(Unsupported):
    def __init__(self, loc):
        super().__init__(f'no invariant found for {loc[1]!r}')
        self.loc = loc


def iterate(src, body, body_nodes=None):
    """for x in src: body(x)"""
    src = force(src)
    if lazy.is_new(src):
        if src.make is None or src.run is not None and not lazy.pure(src):
            lazy.each(src, body)
            return
        seq, after = src.make(False)
        src.set('seq', seq)
        for s, _ in after:
            s.set('pos', lazy.GONE)
        iterate(src, body)
        for s, p in after:
            s.set('pos', p)
        return
    if isinstance(src, SIter):
        seq, pos = lazy.state(src)
        over = getattr(src, 'over', ())
        if seq.n is not INF:
            n, p = hostint(seq.n), hostint(pos)
            if n is not None and p is not None and n - p <= UNROLL:
                for k in range(p, n):
                    src.set('pos', k + 1)
                    watch(over, k, body, seq.get(k))
                return

            picked = filtered(seq) if p == 0 else None
            if picked is not None:
                def step(i):
                    src.set('pos', norm(seq.ps.ps(add(i, 1))))
                    if interp.test(picked(i)):
                        watch(over, None, body,
                              subst(seq.piece.get(0), [(seq.i, i)]))
                run_loop(seq.count, step)
                return

        def step(i):
            src.set('pos', add(add(pos, i), 1))
            watch(over, add(pos, i), body, seq.get(add(pos, i)))
        run_loop(INF if seq.n is INF else norm(sub(seq.n, pos)), step)
        return
    if isinstance(src, Inst) and \
            interp.class_lookup(src.cls, '__iter__') is not None:
        iterate(lazy.of_object(src), body)
        return
    seq = to_seq(src)
    over = (src,) if isinstance(src, (SList, SDict)) else ()
    n = hostint(seq.n) if seq.n is not INF else None
    if n is not None and n <= UNROLL:
        for k in range(n):
            watch(over, k, body, seq.get(k))
        return
    test = filtered(seq)
    if test is not None:
        # the elements picked by a condition: run over all, test again
        def step(i):
            if interp.test(test(i)):
                watch(over, None, body, subst(seq.piece.get(0), [(seq.i, i)]))
        run_loop(seq.count, step)
        return
    run_loop(seq.n, lambda i: watch(over, i, body, seq.get(i)))


def watch(over, i, body, x):
    """The body of a loop over lists or a dict: it may change none of them,
    except for elements of a list that the loop has passed."""
    def now():
        return [c.d['seq' if isinstance(c, SList) else 'log'] for c in over]
    before = now()
    body(x)
    for a, b in zip(before, now()):
        if a is b or isinstance(over[0], SDict) and isinstance(a, Lit) and \
                isinstance(b, Lit) and len(a.items) == len(b.items) and all(
                    same(u[0], v[0]) for u, v in zip(a.items, b.items)):
            continue
        if i is None or not isinstance(a, SSeq) or not isinstance(b, SSeq) \
                or a.n is INF or b.n is INF or \
                not valid(zi(a.n) == zi(b.n)) or \
                isinstance(over[0], SDict) or not seq_valid_equal(
                    *[interp.seq_slice(s, norm(zmin(add(i, 1), s.n)), s.n)
                      for s in (a, b)]):
            raise Unsupported('the loop changes what it is over')


def filtered(seq):
    """Condition for an element if every piece is empty or a single one."""
    if not isinstance(seq, Flat) or seq.hs is not None:
        return None
    n = seq.piece.n
    if not (z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE):
        return None
    c, a, b = n.children()
    a, b = hostint(a), hostint(b)
    if (a, b) == (0, 1):
        c = z3.Not(c)
    elif (a, b) != (1, 0):
        return None
    return lambda i: subst(c, [(seq.i, i)])


def run_while(s, fr):
    import ast

    def once():
        try:
            interp.exec_block(s.body, fr)
        except ContinueSig:
            pass
    const = isinstance(s.test, ast.Constant) and s.test.value

    def step(i):
        if not const:
            if not interp.test(interp.ev(s.test, fr)):
                raise LoopExit()
        once()
    # unroll as long as the condition is decided without a fork
    if not const:
        for _ in range(UNROLL):
            t = interp.truth(interp.ev(s.test, fr))
            h = core.as_bool_host(t if isinstance(t, bool) else simp(t))
            if h is None:
                break
            if not h:
                return
            once()
        else:
            pass
    try:
        run_loop(INF, step)
    except LoopExit:
        return


class Form:
    """Invariant of one location: at(t) is its value before iteration t."""

    def __init__(self, at):
        self.at = at


def _scalar_sort(x):
    if isinstance(x, bool):
        return Bool
    if isinstance(x, int):
        return Int
    if isinstance(x, float):
        return Real
    if is_z(x):
        return x.sort()
    return None


def _as_sort(x, sort):
    if sort == Int:
        return zi(x)
    if sort == Real:
        return zr(x)
    if sort == Bool:
        return zb(x) if isinstance(x, bool) or is_z(x) and \
            x.sort() == Bool else None
    if sort == V:
        return to_v(x)
    return x if is_z(x) and x.sort() == sort else None


def _join_sort(a, b):
    if a == b:
        return a
    if {a, b} <= {Int, Real}:
        return Real
    if a is None or b is None:
        return None
    return V if {a, b} <= {Int, Real, Bool, V} else None


def _merge(paths, loc, pre):
    """Value of loc after the body, as one value over the normal paths."""
    vals = [(p.cond() if p.pc else z3.BoolVal(True),
             p.writes.get(loc, MISSING)) for p in paths]
    vals = [(c, pre if v is MISSING else freeze(v)) for c, v in vals]
    r = vals[-1][1]
    for c, v in reversed(vals[:-1]):
        r = ite(c, v, r)
    return r


def _prefix(tag, kind):
    n = plain(tag + '_n', Int)
    f = z3.Function(uname(tag + '_e'), Int, V)
    s = SSeq(n, lambda k: f(zi(k)), kind, tag)
    return s


def _pieces(x, tag):
    """The part appended to the prefix `tag`, or None."""
    if isinstance(x, SList):
        x = x.seq
    if not isinstance(x, SSeq):
        return None
    if x.tag == tag:
        return Lit([], x.kind)
    if isinstance(x, Concat) and x.parts and x.parts[0].tag == tag:
        return concat(x.parts[1:], x.kind)
    return None


class Analysis:
    """Search for the invariants of one loop."""

    def __init__(self, n, step):
        self.n, self.step = n, step
        self.i = z3.Int(uname('idx'))
        self.stamp0 = C.stamp
        self.locs = []           # modified locations, in order of discovery
        self.forms = {}
        self.pre0 = {}
        self.generic = {}
        self.gensort = {}
        self.wantv = set()
        self.paths = []

    def value0(self, loc):
        cell, key = loc
        v = cell.d.get(key, MISSING)
        return UNDEF if v is MISSING else v

    def make_generic(self, loc):
        x0 = self.pre0[loc]
        if is_z(x0) and x0.sort() == V and valid(
                z3.Or(V.is_VStr(x0), V.is_VChr(x0))):
            return _prefix(uname('gen'), 'str')
        so = self.gensort.get(loc) or _scalar_sort(x0)
        if so is not None:
            self.gensort[loc] = so
            return z3.Const(uname('gen'), so)
        if isinstance(x0, SList):
            return SList(_prefix(uname('gen'), 'list'))
        if isinstance(x0, SSeq) and x0.n is not INF:
            return _prefix(uname('gen'), x0.kind)
        if isinstance(x0, str):
            return _prefix(uname('gen'), 'str')
        if x0 is None and loc in self.wantv:
            self.gensort[loc] = V
            return z3.Const(uname('gen'), V)
        if isinstance(x0, TDV):
            return TDV(z3.Const(uname('gen'), Int))
        if isinstance(x0, DTV):
            return DTV(x0.kind, z3.Const(uname('gen'), Int))
        return Poison(loc, x0)

    def attempt(self, generic_lists=False):
        """Run the body with the current forms/generics; list of paths."""
        i, n = self.i, self.n

        def thunk():
            C.idx.append(i)
            assume(i >= 0)
            if n is not INF:
                assume(i < zi(n))
            for loc in self.locs:
                cell, key = loc
                if loc in self.forms and not (generic_lists and
                                              self.listy(loc)):
                    v = self.forms[loc].at(i)
                else:
                    v = self.generic[loc]
                if isinstance(v, Undef):
                    cell.delete(key)
                else:
                    cell.set(key, v)
                    if isinstance(v, SList) and v is not self.pre0[loc]:
                        states[id(v)] = v
            try:
                self.step(i)
                r = ('normal', None)
            except (BreakSig, ReturnSig, PyRaise, LoopExit,
                    lazy.Through) as e:
                r = ('exit', e)
            except Diverge:
                raise Unsupported('infinite loop inside a loop')
            return r
        res = []
        states = {}          # lists standing for one rebound in the loop
        for p in explore(thunk):
            if any(id(l[0]) in states for l in p.writes):
                raise Unsupported('list rebound and changed in a loop')
            # drop the generic range facts from the path condition
            p.pc = list(p.pc)[1 + (n is not INF):]
            if C.optimistic:
                ids = {f.get_id() for f in C.opt_facts}
                p.pc = [f for f in p.pc if f.get_id() not in ids]
            res.append(p)
        return res

    def listy(self, loc):
        g = self.generic[loc]
        g = g.seq if isinstance(g, SList) else g
        return isinstance(g, SSeq) and bool(g.tag)

    def discover(self, paths):
        new = False
        for p in paths:
            for loc in p.writes:
                if loc[0].stamp <= self.stamp0 and loc not in self.pre0:
                    v = p.writes[loc]
                    if isinstance(v, (SList, SDict, Inst)) and \
                            v is self.value0(loc):
                        continue        # the same object (x += ...)
                    self.pre0[loc] = self.value0(loc)
                    self.locs.append(loc)
                    self.generic[loc] = self.make_generic(loc)
                    new = True
        return new

    def gens(self, locs):
        out = {}
        for l in locs:
            for s in _gen_names(self.generic[l]):
                out[s] = l
        return out

    def find(self):
        """Fixpoint of modified locations and their forms."""
        i, n = self.i, self.n
        for rnd in range(14):
            core.check_deadline()
            try:
                paths = self.attempt()
            except NeedGeneric as e:
                if e.loc in self.pre0 and self.pre0[e.loc] is None and \
                        e.loc not in self.wantv:
                    self.wantv.add(e.loc)
                    self.generic[e.loc] = self.make_generic(e.loc)
                    continue
                raise
            if self.discover(paths):
                continue
            self.paths = paths
            normal = [p for p in paths if p.value[0] == 'normal']
            if not normal:
                return
            unsolved = [l for l in self.locs if l not in self.forms]
            if not unsolved:
                return
            gens = self.gens(unsolved)
            progress = False
            for l in unsolved:
                f = solve_loc(l, i, n, normal, self.pre0[l],
                              self.generic[l], gens, self.generic,
                              self.gensort)
                if f is not None:
                    self.forms[l] = f
                    progress = True
            if not progress:
                if not solve_rec(unsolved, i, n, normal, self.pre0,
                                 self.generic, gens, self.forms,
                                 self.gensort):
                    bad = [str(l[1]) for l in unsolved]
                    raise Unsupported('no loop invariant found for ' +
                                      ', '.join(bad))
        raise Unsupported('loop invariants do not stabilise')

    def validate(self):
        """Are the candidate invariants inductive?"""
        i, n = self.i, self.n
        try:
            paths = self.attempt(generic_lists=True)
        except core.Budget:
            raise
        except Unsupported:
            return False
        for p in paths:
            for loc in p.writes:
                if loc[0].stamp <= self.stamp0 and loc not in self.pre0:
                    return False
        normal = [p for p in paths if p.value[0] == 'normal']
        if not normal:
            return False
        lists = [l for l in self.locs if self.listy(l)]
        gens = self.gens(lists)
        redo = []
        for l in self.locs:
            f = self.forms.get(l)
            if f is None:
                return False
            if l in lists:
                redo.append(l)
                continue
            cur, nxt = f.at(i), f.at(add(i, 1))
            for p in normal:
                post = p.writes.get(l, MISSING)
                post = cur if post is MISSING else freeze(post)
                if post is nxt or same(post, nxt):
                    continue
                e = None
                if not isinstance(post, (SSeq, SList, Undef)) and \
                        not isinstance(nxt, (SSeq, SList, Undef)):
                    e = eq_formula(post, nxt)
                if e is None:
                    redo.append(l)
                    break
                npc, nfr = len(C.pc), len(C.frules)
                C.pc.append(i >= 0)
                if n is not INF:
                    C.pc.append(i < zi(n))
                C.pc.extend(p.pc)
                C.frules.extend(p.frules)
                try:
                    ok = valid(e, rounds=4, timeout_ms=6000)
                finally:
                    del C.pc[npc:]
                    del C.frules[nfr:]
                if not ok:
                    return False
        for l in redo:
            g = self.generic[l] if l in lists else object()
            if l not in lists and any(
                    p.writes.get(l, MISSING) is MISSING for p in normal):
                return False
            f = solve_loc(l, i, n, normal, self.pre0[l], g, gens,
                          self.generic, self.gensort)
            if f is None:
                return False
            self.forms[l] = f
        self.paths = self.attempt()
        return not self.discover(self.paths)


def run_loop(n, step):
    while True:
        try:
            return run_loop_(n, step)
        except NeedGeneric as e:
            if not (isinstance(e.loc[0], SIter) and lazy.is_new(e.loc[0])):
                raise
            # a generator first used in the loop: its elements
            lazy.bits(e.loc[0])


def run_loop_(n, step):
    h = hostint(n) if n is not INF else None
    if h is not None and h <= 0:
        return
    spec = getattr(C, 'loop_spec', None)
    if spec is not None:
        if spec(n, step):
            return
    outer = C.optimistic
    if not outer:
        # candidates: the invariants found if no iterator runs out
        C.optimistic, C.opt_used = True, False
        try:
            a = Analysis(n, step)
            try:
                a.find()
                ok = True
            except core.Budget:
                raise
            except Unsupported as e:
                if isinstance(e, NeedGeneric) and \
                        isinstance(e.loc[0], SIter):
                    raise
                ok = False
            used = C.opt_used
        finally:
            C.optimistic = False
        if used or not ok:
            if not (ok and a.validate()):
                a = Analysis(n, step)
                a.find()
    else:
        a = Analysis(n, step)
        a.find()
    i, locs, forms, paths = a.i, a.locs, a.forms, a.paths
    if not paths:
        # no iteration is possible
        if n is not INF and valid(zi(n) <= 0):
            return
        if not core.feasible(z3.BoolVal(True)):
            raise Prune()
        raise Unsupported('loop body without paths')
    if first_differs(i, paths):
        if n is not INF and not branch(zi(n) > 0):
            return
        step(0)
        run_loop(INF if n is INF else norm(sub(n, 1)),
                 lambda j: step(add(j, 1)))
        return

    normal = [p for p in paths if p.value[0] == 'normal']
    exits = [p for p in paths if p.value[0] == 'exit']
    if n is INF:
        last = counted(i, exits)
        if last is not None:
            # `while` with a counter: so many iterations, then the test fails
            if branch(last > 0):
                run_loop(last, step)
            else:
                last = 0
            step(last)
            raise Unsupported('loop does not end as foreseen')

    def set_all(t):
        for loc in locs:
            cell, key = loc
            if loc not in forms:
                raise Unsupported('location without invariant')
            v = forms[loc].at(t)
            if isinstance(v, Undef):
                cell.delete(key)
            else:
                cell.set(key, v)

    def share(paths_):
        """Facts assumed on every iteration hold for all iterations."""
        return paths_

    if not exits:
        if n is INF:
            # infinite loop: fine if all it leaves behind are yields
            for loc in locs:
                cell, key = loc
                if key == 'seq' and isinstance(cell, SList) and \
                        isinstance(forms[loc].at(i), SSeq) and \
                        getattr(forms[loc], 'flat', None) is not None:
                    cell.set('seq', forms[loc].flat(INF))
                elif isinstance(cell, Frame):
                    pass
                elif isinstance(cell, SIter) and key == 'pos':
                    cell.set('pos', Poison(loc, None))  # not used again
                else:
                    raise Unsupported('infinite loop with effects')
            raise Diverge()
        set_all(n)
        return
    exit_cond = z3.Or(*[zb(p.cond()) if p.pc else z3.BoolVal(True)
                        for p in exits])
    trig = triggers_of(exit_cond, i)
    if not normal:
        # leaves in the first iteration
        if n is not INF:
            if not branch(zi(n) > 0):
                return
        step_once(step, 0)
        raise Prune()
    if n is not INF:
        k = choose(2)
    else:
        k = 1
    if k == 0:
        set_all(n)
        zn = zi(n)
        C.frules.append(ForallRule(
            lambda t: z3.Implies(z3.And(t >= 0, t < zn),
                                 z3.Not(z3.substitute(exit_cond, (i, t)))),
            trig, [z3.IntVal(0), simp(zn - 1)]))
        return
    e = fresh('exit', Int)
    assume(e >= 0)
    if n is not INF:
        assume(e < zi(n))
    C.frules.append(ForallRule(
        lambda t: z3.Implies(z3.And(t >= 0, t < e),
                             z3.Not(z3.substitute(exit_cond, (i, t)))),
        trig, [z3.IntVal(0), simp(e - 1)]))
    set_all(e)
    for loc in locs:
        # as much was added by every iteration before the last
        piece, full = getattr(forms[loc], 'each', (None, None))
        if piece is full or hostint(full.n) is not None or \
                i.decl().name() in symbols(full.n):
            continue
        ps = flat(i, e, piece, bound=n).ps
        if ps is None:
            continue
        f = ps.ps(i)
        C.frules.append(ForallRule(
            lambda t, f=f, d=zi(full.n): z3.Implies(
                z3.And(t >= 0, t <= e), z3.substitute(f, (i, t)) == t * d),
            [(f.decl().name(), f.num_args() - 1)], [e]))
    if not core.feasible(z3.substitute(exit_cond, (i, e))):
        raise Prune()
    step_once(step, e)
    raise Prune()


def counted(i, exits):
    """N if the test of a `while` loop fails exactly from iteration N on."""
    tests = [p for p in exits if isinstance(p.value[1], LoopExit)]
    if len(tests) != 1 or len(tests[0].pc) != 1:
        return None
    f, neg = tests[0].pc[0], False
    while z3.is_not(f):
        f, neg = f.arg(0), not neg
    if not (z3.is_app(f) and f.num_args() == 2 and f.arg(0).sort() == Int):
        return None
    a, b = f.children()
    kind = f.decl().kind()
    if kind not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT,
                    z3.Z3_OP_EQ):
        return None
    # a - b is linear in i with factor 1 or -1
    d = [simp(z3.substitute(a - b, (i, z3.IntVal(k)))) for k in (0, 1)]
    step = simp(d[1] - d[0])
    if not z3.is_int_value(step) or abs(step.as_long()) != 1:
        return None
    root = simp(-d[0] * step)
    i0 = i >= 0
    f = z3.Not(f) if neg else f
    for last in (root, simp(root + 1)):
        npc = len(C.pc)
        C.pc.append(i0)
        try:
            if valid(f == (i >= last)):
                return last
        finally:
            del C.pc[npc:]
    return None


def first_differs(i, paths):
    """Does the body test whether this is the first iteration?"""
    if len(paths) < 2:
        return False
    for p in paths:
        for f in p.pc:
            if z3.is_not(f):
                f = f.arg(0)
            if z3.is_app(f) and f.num_args() == 2 and f.decl().kind() in (
                    z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT,
                    z3.Z3_OP_GT):
                x, y = f.children()
                if y.eq(i):
                    x, y = y, x
                if x.eq(i) and z3.is_int_value(y) and not simp(
                        z3.substitute(f, (i, z3.IntVal(0)))).eq(simp(
                            z3.substitute(f, (i, z3.IntVal(1))))):
                    return True
    return False


def step_once(step, e):
    step(e)


def _gen_names(g):
    if isinstance(g, SList):
        g = g.seq
    if isinstance(g, SSeq):
        return {g.tag}
    if isinstance(g, TDV):
        return {g.us.decl().name()}
    if isinstance(g, DTV):
        return {g.t.decl().name()}
    if is_z(g):
        return {g.decl().name()}
    return set()


def _mentions(x, names):
    s = symbols(x)
    if s & names:
        return True
    # length/element symbols of generic prefixes
    return any(any(y.startswith(t) for t in names) for y in s
               if y.startswith('gen!'))


def solve_loc(l, i, n, normal, x0, g, gens, generic, gensort):
    """Closed form of one location, or None."""
    names = set(gens)
    post = _merge(normal, l, g)
    conds = [f for p in normal for f in p.pc]
    cond_dep = any(_mentions(f, names) for f in conds) and len(normal) > 1
    if cond_dep:
        # the same effect on every path: the conditions don't matter
        vals = [p.writes.get(l, MISSING) for p in normal]
        if all(v is vals[0] or is_z(v) and is_z(vals[0]) and v.eq(vals[0])
               for v in vals):
            cond_dep = False
    # unchanged
    if post is g:
        return Form(lambda t: x0)
    # append-only sequence
    seqg = g.seq if isinstance(g, SList) else g
    if isinstance(seqg, SSeq) and seqg.tag:
        ps = []
        for p in normal:
            v = p.writes.get(l, MISSING)
            ps.append(Lit([], seqg.kind) if v is MISSING
                      else _pieces(freeze(v), seqg.tag))
        if all(x is not None for x in ps):
            if cond_dep or any(_mentions(x, names) for x in ps):
                return None
            piece = ps[-1]
            for p, x in reversed(list(zip(normal, ps))[:-1]):
                piece = ite(p.cond(), x, piece)
            full = piece
            if n is INF and all(p.pc for p in normal):
                # nothing is added once the loop has ended (like install_rec)
                if any(_mentions(f, names) for f in conds):
                    return None
                piece = ite(z3.Or(*[zb(p.cond()) for p in normal]), piece,
                            Lit([], seqg.kind))
            base = freeze(x0)
            if isinstance(base, str) or is_z(base):
                base = str_seq(base)
            kind = seqg.kind
            wrap = isinstance(g, SList)

            def at(t):
                r = concat([base, flat(i, t, piece, bound=n, kind=kind)],
                           kind)
                return SList(r) if wrap else r
            f = Form(at)
            f.each = (piece, full)
            f.flat = lambda t: concat([base, flat(i, t, piece, bound=n,
                                                  kind=kind)], kind)
            return f
    if cond_dep:
        return None
    # counter
    so = gensort.get(l)
    gz = g.us if isinstance(g, TDV) else g.t if isinstance(g, DTV) else g
    pz = post.us if isinstance(post, TDV) else \
        post.t if isinstance(post, DTV) else post
    xz = x0.us if isinstance(x0, TDV) else x0.t if isinstance(x0, DTV) else x0
    if is_z(gz) and gz.sort() in (Int, Real) and _scalar_sort(pz) in (
            Int, Real) and not isinstance(g, bool):
        if gz.sort() == Int and _scalar_sort(pz) == Real and so == Int:
            gensort[l] = Real
            generic[l] = z3.Const(uname('gen'), Real)
            return None
        real = gz.sort() == Real
        d = None
        conv = zr if real else zi
        for p in reversed(normal):
            v = p.writes.get(l, MISSING)
            v = g if v is MISSING else freeze(v)
            v = v.us if isinstance(v, TDV) else \
                v.t if isinstance(v, DTV) else v
            e = simp(conv(v) - gz) if _scalar_sort(v) in (Int, Real) \
                else None
            if e is None:
                d = None
                break
            d = e if d is None else d if d.eq(e) else \
                z3.If(zb(p.cond()) if p.pc else z3.BoolVal(True), e, d)
        if d is None:
            d = conv(pz) - gz
        d = simp(d)
        if not _mentions(d, names):
            def wrapv(v):
                if isinstance(x0, TDV):
                    return TDV(v)
                if isinstance(x0, DTV):
                    return DTV(x0.kind, v)
                return v
            if i.decl().name() not in symbols(d) and not real:
                return Form(lambda t: wrapv(norm(zi(xz) + zi(t) * d)))
            return Form(additive(i, n, xz, d, real, wrapv))
    # overwritten
    if not _mentions(post, names):
        if so is not None and _scalar_sort(post) != so:
            pass

        def at(t):
            prev = subst(post, [(i, sub(t, 1))])
            return ite(zi(t) == 0, freeze(x0) if x0 is not UNDEF else UNDEF,
                       prev)
        return Form(at)
    return None


def additive(i, n, x0, d, real, wrapv=lambda v: v):
    """x0 + sum of d, by the prefix sum of d or of -d (the non-negative)."""
    neg = False
    npc = len(C.pc)
    C.pc.append(i >= 0)
    if n is not INF:
        C.pc.append(i < zi(n))
    try:
        if not valid(d >= 0) and valid(d <= 0):
            neg = True
    finally:
        del C.pc[npc:]
    P = prefix_sum(i, simp(-d) if neg else d, None if n is INF else n, real)
    conv = zr if real else zi

    def at(t):
        return wrapv(norm(conv(x0) - P.ps(t) if neg else conv(x0) + P.ps(t)))
    return at


def solve_rec(unsolved, i, n, normal, pre0, generic, gens, forms, gensort):
    """Recurrences for the scalar locations; returns whether any was solved.
    """
    scal = [l for l in unsolved if is_z(generic[l])]
    if not scal:
        return False
    # only locations whose step depends on scalar generics
    snames = {generic[l].decl().name() for l in scal}
    other = set(gens) - snames
    cond_bad = len(normal) > 1 and any(
        _mentions(f, other) for p in normal for f in p.pc)
    if cond_bad:
        return False
    posts = {}
    changed = True
    while changed:
        changed = False
        for l in list(scal):
            post = _merge(normal, l, generic[l])
            so = generic[l].sort()
            ps = _scalar_sort(post)
            if ps is not None and ps != so:
                j = _join_sort(so, ps)
                if j is not None and j != so:
                    gensort[l] = j
                    generic[l] = z3.Const(uname('gen'), j)
                    return True
            pz = _as_sort(post, so)
            if pz is None or _mentions(pz, other):
                scal.remove(l)
                other |= {generic[l].decl().name()}
                changed = True
                continue
            posts[l] = pz
    if not scal:
        return False
    R = {}
    for l in scal:
        so = generic[l].sort()
        R[l] = Fn('rec', [Int], so)
    pairs = [(generic[l], R[l](i)) for l in scal]
    outer = [x for x in C.idx]
    for l in scal:
        so = generic[l].sort()
        x0 = _as_sort(pre0[l], so) if pre0[l] is not UNDEF else None
        guard = z3.Or(*[z3.substitute(zb(p.cond()), *pairs) if p.pc
                        else z3.BoolVal(True) for p in normal])
        # frozen once an iteration does not complete
        body = z3.If(guard, z3.substitute(posts[l], *pairs), R[l](i))
        add_form = None
        if so in (Int, Real) and x0 is not None:
            d = simp(body - R[l](i))
            # bounds that are inductive: R >= 0, R <= x0, R >= x0
            add_form = d
        install_rec(R[l], i, x0, body, outer)
        if so in (Int, Real) and x0 is not None:
            rec_bounds(R[l], i, n, x0, body, normal, pairs)
        forms[l] = Form(lambda t, l=l: R[l](zi(t)))
        if add_form is not None and not z3.is_const(body):
            fm = additive(i, n, x0, simp(add_form), so == Real)
            rule = core.RULES.setdefault(R[l].f.name(), core.Rule())
            old = rule.unary

            def unary(*args, fm=fm, l=l, old=old):
                out = old(*args) if old else []
                t = args[-1]
                out.append(z3.Implies(t >= 0, R[l].f(*args) == fm(t)))
                return out
            if not outer:
                rule.unary = unary
    return True


def install_rec(R, i, x0, body, outer):
    no = len(R.outer)

    def inst(o, t):
        return z3.substitute(body, (i, t), *zip(R.outer, o))

    def unary(*args):
        o, t = args[:no], args[no]
        out = []
        if x0 is not None:
            z = z3.substitute(x0, *zip(R.outer, o)) if no else x0
            out.append(z3.Implies(t == 0, R.f(*o, t) == z))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD and \
                any(z3.is_int_value(c) and c.as_long() == 1
                    for c in t.children()):
            p = simp(t - 1)
            out.append(z3.Implies(p >= 0, R.f(*o, t) == inst(o, p)))
        return out

    def pair(x, y):
        if any(a.get_id() != b.get_id() for a, b in zip(x[:no], y[:no])):
            return []
        tx, ty = x[no], y[no]
        d = simp(ty - tx)
        if z3.is_int_value(d) and d.as_long() == 1:
            return [z3.Implies(tx >= 0,
                               R.f(*y) == inst(x[:no], tx))]
        return []
    rule = core.Rule()
    rule.unary, rule.pair = unary, pair
    core.RULES[R.f.name()] = rule


def rec_bounds(R, i, n, x0, body, normal, pairs):
    """Inductive bounds of a recurrence, found by checking candidates."""
    r = R(i)
    zero = z3.RealVal(0) if r.sort() == Real else z3.IntVal(0)
    for cand in (lambda v: v >= zero, lambda v: v <= x0, lambda v: v >= x0):
        if not valid(cand(x0)):
            continue
        npc = len(C.pc)
        C.pc.extend([i >= 0, cand(r)])
        if n is not INF:
            C.pc.append(i < zi(n))
        try:
            ok = valid(cand(body))
        finally:
            del C.pc[npc:]
        if ok:
            C.frules.append(ForallRule(
                lambda t, cand=cand: z3.Implies(
                    t >= 0 if n is INF else z3.And(t >= 0, t <= zi(n)),
                    cand(z3.substitute(r, (i, t)))),
                [(R.f.name(), len(R.outer))]))
