"""Loops with a stated invariant, and a counting lemma."""
from pyvc.spec import *
from pyvc import core, interp, loops
from pyvc.interp import BreakSig, ReturnSig, ContinueSig, LoopExit, Diverge


def pigeonhole(name, a, b, f, hint=lambda i: None):
    """Assume a <= b once f is shown to map 0..a-1 to 0..b-1 injectively.

    The pigeonhole principle itself is the one lemma that is not proved here.
    """
    ok = []

    def run():
        i, j = ints('i j')
        assume(z3.And(0 <= i, i < j, j < zi(a)))
        hint(i), hint(j)
        ok.append(prove(name + ': different', f(i) != f(j)))

    def run2():
        i = plain('i', Int)
        assume(z3.And(0 <= i, i < zi(a)))
        hint(i)
        ok.append(prove(name + ': in range', z3.And(
            f(i) >= 0, f(i) < zi(b))))
    sub_paths(run)
    sub_paths(run2)
    if all(ok):
        assume(zi(a) <= zi(b))


# loop entries (as the branches taken to get there) whose obligations are
# generated: the paths from there on are run again from the start
_done = set()
RESETS.append(_done.clear)


class LoopInvariant:
    """Verification of loops against an invariant stated by a subclass.

    roles(locs): are these modified locations those of the loop meant?
    havoc(bound): any state of its locations that satisfies the invariant
    check(name, bound): obligations that the current state satisfies it
    """
    depth = 0
    quiet = False

    def roles(self, locs):
        raise NotImplementedError

    def other(self, loc, v0):
        """Arbitrary value of a location the invariant does not mention."""
        cell, key = loc
        if isinstance(v0, bool) or is_z(v0) and v0.sort() == Bool:
            return plain('any', Bool)
        if isinstance(v0, int) or is_z(v0) and v0.sort() == Int:
            return plain('any', Int)
        if isinstance(v0, float) or is_z(v0) and v0.sort() == Real:
            return plain('any', Real)
        if is_z(v0):
            return plain('any', v0.sort())
        return loops.Poison(loc, v0)

    def run(self, n, step):
        if self.depth > 3:
            return False
        finite = n is not INF
        if self.quiet:
            # only to find the locations modified: none or one iteration
            # (that these are all is an obligation of the outer loop)
            if finite and core.choose(2) == 0:
                return True
            i = plain('i', Int)
            assume(i >= 0)
            if finite:
                assume(i < zi(n))
            step(i)
            return True
        stamp0 = C.stamp
        entry = {}
        eqs = {}

        def value(loc):
            v = loc[0].d.get(loc[1], core.MISSING)
            return v

        def discover():
            found = []

            def once():
                restore()
                i = index()
                self.depth += 1
                old, self.quiet = self.quiet, True
                try:
                    step(i)
                except (BreakSig, ReturnSig, LoopExit, PyRaise):
                    pass
                finally:
                    self.depth -= 1
                    self.quiet = old
            for p in core.explore(once, 200):
                for loc in p.writes:
                    if loc[0].stamp <= stamp0 and loc not in entry and \
                            loc not in found:
                        found.append(loc)
                    if loc[0].stamp <= stamp0:
                        self.written.setdefault(loc, []).append(
                            p.writes[loc])
            return found

        def index():
            i = plain('i', Int)
            assume(i >= 0)
            if finite:
                assume(i < zi(n))
            return i
        ready = False

        def restore(i=None):
            """An arbitrary state the invariant allows."""
            if not ready:
                return
            self.havoc(self.bound(i, m0) if finite and i is not None
                       else self.limit())
            for loc, v0 in entry.items():
                if self.owns(loc):
                    continue
                cand = eqs.get(loc)
                if cand is not None:
                    v = self.scalars()[cand]
                elif loc[1] == 'state' and isinstance(loc[0], lib.Rng):
                    v = plain('state', RS)
                else:
                    v = self.other(loc, v0)
                loc[0].set(loc[1], v)

        m0 = None
        self.written = {}
        obligations = len(C.obligations)
        ghosts = self.ghosts()
        first = discover()
        del C.obligations[obligations:]
        for loc in first:
            entry[loc] = value(loc)
        self.set_ghosts(ghosts)
        if not self.roles(list(entry)):
            return False
        m0 = self.size()
        ready = True
        self.depth += 1
        try:
            while True:
                new = discover()
                del C.obligations[obligations:]
                if not new:
                    break
                for loc in new:
                    entry[loc] = value(loc)
        finally:
            self.depth -= 1
        self.set_ghosts(ghosts)
        for loc, v0 in entry.items():
            if self.owns(loc) or not (isinstance(v0, int) or is_z(v0) and
                                      v0.sort() == Int):
                continue
            for c, v in enumerate(self.scalars()):
                if core.valid(zi(v0) == zi(v)):
                    eqs[loc] = c
                    break

        # the invariant holds before the loop
        lim = lambda i: self.bound(i, m0) if finite else self.limit()
        key = (C.goal, self.depth, tuple(tuple(l.trace) for l in C.levels))
        if key not in _done:
            _done.add(key)
            self.verify(index, restore, step, lim, eqs, value, entry, stamp0)
        # after it
        if finite and core.choose(2) == 0:
            if not core.valid(zi(n) >= 0):
                raise Unsupported('loop of negative length')
            restore(zi(n))
            return True
        i = index()
        restore(i)
        step(i)
        raise core.Prune()

    def verify(self, index, restore, step, lim, eqs, value, entry,
               stamp0):
        sub_paths(lambda: self.check('loop entry: ', lim(0)))

        # and is preserved by an iteration
        def iteration():
            i = index()
            restore(i)
            try:
                step(i)
            except (BreakSig, ReturnSig, LoopExit, PyRaise):
                return
            self.check('loop body: ', lim(i + 1))
            for loc, c in eqs.items():
                v = value(loc)
                prove('loop body: ' + str(loc[1]),
                      zi(v) == zi(self.scalars()[c]))
        for p in core.explore(iteration, 200):
            for loc in p.writes:
                if loc[0].stamp <= stamp0 and loc not in entry:
                    raise Unsupported('loop modifies ' + str(loc[1]))


def mention(t):
    """Brings the facts about the term t into play."""
    assume(t == plain('mention', t.sort()))
