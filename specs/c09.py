"""C09: weighted_shuffle (and its call-site contract)."""
from .zoo import *
from .contracts import MT
from .hoare import LoopInvariant, pigeonhole, mention
from fauxdoc import mathtools

WS = MT + 'weighted_shuffle'


class Args:
    def __init__(self):
        n = ints('n', 0)
        self.n = n
        self.items = any_seq('item', n)
        self.ws = weights_seq(n)
        self.rng = lib.Rng(plain('state', RS))
        self.litems, self.lws = SList(self.items), SList(self.ws)
        # the positions of positive weight, enumerated
        pos = self.pos = ints('pos', 0)
        assume(pos <= n)
        self.nth = Fn('nth_positive', [Int], Int, lambda t: [z3.Implies(
            z3.And(t >= 0, t < pos),
            z3.And(self.nth(t) >= 0, self.nth(t) < n,
                   self.which(self.nth(t)) == t, self.w(self.nth(t)) > 0))])
        self.which = Fn('which_positive', [Int], Int, lambda j: [z3.Implies(
            z3.And(j >= 0, j < n, self.w(j) > 0),
            z3.And(self.which(j) >= 0, self.which(j) < pos,
                   self.nth(self.which(j)) == j))])

    def w(self, j):
        return self.ws.get(j)

    def unmodified(self):
        prove('items unmodified', self.litems.seq is self.items)
        prove('weights unmodified', self.lws.seq is self.ws)


def positions_only(v, items):
    """Does this list hold numbers, where the items are anything?"""
    n = hostint(v.n)
    return n is not None and n > 0 and all(
        isinstance(v.get(k), int) or is_z(v.get(k)) and
        v.get(k).sort() == Int for k in range(n))


class Sampling(LoopInvariant):
    """Invariant of the loops that fill a sample of m items:

    sample[t] is items[S(t)] (or S(t) itself), S injective; weights[j] is 0 for the j in the
    image of S, which have positive original weight, and the original weight
    for every other j; m <= k, and m grows by at most 1 per iteration of a
    loop over a sequence.
    """

    def __init__(self, a, k):
        self.a, self.k = a, zi(k)
        self.m, self.S, self.rank = z3.IntVal(0), None, None
        self.sample = self.weights = None
        self.positions = False

    def roles(self, locs):
        """Which modified list is the sample, which the weights?"""
        a, n = self.a, self.a.n
        s = w = None
        for cell, key in locs:
            if not (isinstance(cell, SList) and key == 'seq'):
                continue
            seq = cell.seq
            if self.weights is cell or self.weights is None and \
                    values.seq_valid_equal(seq, a.ws):
                w = cell
            elif self.sample is cell or self.sample is None and \
                    hostint(seq.n) == 0:
                s = cell
        if s is None or w is None:
            return False
        self.sample, self.weights = s, w
        # are positions gathered rather than items?
        for loc, vs in self.written.items():
            if loc[0] is s and any(positions_only(v, a.items) for v in vs):
                self.positions = True
        return True

    def entry(self, j):
        return zi(j) if self.positions else self.a.items.get(j)

    def owns(self, loc):
        return loc[0] is self.sample or loc[0] is self.weights

    def havoc(self, bound):
        a, n = self.a, self.a.n
        m = self.m = plain('m', Int)
        assume(z3.And(m >= 0, m <= self.k, m <= zi(bound)))
        taken = z3.Function(uname('taken'), Int, Bool)
        self.S = S = Fn('chosen', [Int], Int, lambda t: [z3.Implies(
            z3.And(t >= 0, t < m),
            z3.And(S(t) >= 0, S(t) < n, taken(S(t)), self.rank(S(t)) == t))])
        self.rank = rank = Fn('rank', [Int], Int, lambda j: [z3.Implies(
            z3.And(j >= 0, j < n, taken(j)),
            z3.And(rank(j) >= 0, rank(j) < m, S(rank(j)) == j,
                   a.w(j) > 0))])
        # taken(j) also brings in the facts about rank(j)
        self.sample.set('seq', SSeq(m, lambda t: self.entry(S(zi(t))),
                                    'list'))
        self.weights.set('seq', SSeq(
            n, lambda j: z3.If(z3.And(taken(zi(j)), rank(zi(j)) >= 0),
                               z3.RealVal(0), a.w(zi(j))), 'list'))

    def ghosts(self):
        return self.m, self.S, self.rank

    def set_ghosts(self, g):
        self.m, self.S, self.rank = g

    def size(self):
        return zi(self.sample.seq.n)

    def limit(self):
        return self.k

    def scalars(self):
        return [self.k - zi(self.sample.seq.n), zi(self.sample.seq.n)]

    def check(self, name, bound):
        a, n = self.a, self.a.n
        r, w = self.sample.seq, self.weights.seq
        m0, S0, rank0 = self.m, self.S, self.rank
        m1 = zi(r.n)
        prove(name + 'room', z3.And(m1 >= 0, m1 <= self.k))
        prove(name + 'growth', m1 <= zi(bound))
        prove(name + 'number of weights', zi(w.n) == zi(n))
        if hostint(r.n) == 0:
            def empty():
                j = plain('j', Int)
                assume(z3.And(j >= 0, j < zi(n)))
                prove(name + 'weights', zr(interp.as_num(w.get(j))) == a.w(j))
            sub_paths(empty)
            return
        if self.positions:
            p = lambda t: zi(interp.as_num(r.get(t)))
        else:
            p = index_map(r, a.items)
        prove(name + 'sample is of items', p is not None)
        if p is None:
            return

        def rank(j):
            # new elements are at the end
            if rank0 is None:
                return z3.IntVal(0)
            return z3.If(z3.And(m1 > m0, p(m0) == j), m0, rank0(j))
        W = lambda j: zr(interp.as_num(w.get(j)))

        def of_weights():
            j = plain('j', Int)
            assume(z3.And(j >= 0, j < zi(n)))
            t = rank(j)
            prove(name + 'weights', z3.Or(W(j) == a.w(j), z3.And(
                W(j) == 0, t >= 0, t < m1, p(t) == j, a.w(j) > 0)))
        sub_paths(of_weights)

        def of_sample():
            t = plain('t', Int)
            assume(z3.And(t >= 0, t < m1))
            prove(name + 'positions', z3.And(
                p(t) >= 0, p(t) < zi(n), a.w(p(t)) > 0, W(p(t)) == 0))
            prove(name + 'once', rank(p(t)) == t)
            e = values.eq_formula(r.get(t), self.entry(p(t)))
            prove(name + 'items', False if e is None else e)
        sub_paths(of_sample)

    def bound(self, i, entry):
        """Upper bound of m before iteration i of a loop over a sequence."""
        return entry + i


def outcome(a, r, k, whole):
    """The k values r are what the contract says."""
    r = to_seq(force(r))
    prove('a list', r.kind == 'list')
    prove('as many as asked for', zi(r.n) == zi(k))
    is_permutation('different positions', r, a.items, a.n, k)
    p = index_map(r, a.items)
    if p is not None:
        def order():
            i, j = ints('i j')
            assume(z3.And(0 <= i, i < j, j < zi(k)))
            prove('positive weights first', z3.Implies(
                a.w(p(j)) > 0, a.w(p(i)) > 0))
        sub_paths(order)

        def first():
            i = plain('i', Int)
            assume(z3.And(0 <= i, i < zi(k), i < a.pos))
            assume(z3.Not(a.w(p(i)) > 0))
            t = p(i)
            inv = C.inverses.get(t.decl().name()) if z3.is_app(t) else None
            if inv is not None and core.feasible(z3.BoolVal(True)):
                # then all those of positive weight come before the i-th
                pigeonhole('fewer before than positive', a.pos, i,
                           lambda j: inv(a.nth(j)),
                           lambda j: mention(p(inv(a.nth(j)))))
            prove('as many positive weights first as there are', False)
        sub_paths(first)
    a.unmodified()


def exhausted(a, inv, k):
    """Refutes that no weight is left although k is at most their number."""
    if inv.rank is None:
        return
    sums = lib.accumulate_seq(inv.weights.seq)

    def hint(i):
        # the weight of the i-th positive one is no more than the total
        j = a.nth(i)
        mention(zr(sums.get(j)))
        mention(zr(sums.get(simp(j - 1))))
    pigeonhole('fewer taken than positive', a.pos, inv.m,
               lambda t: inv.rank(a.nth(t)), hint)


def shuffle(a, args, k, whole=False):
    inv = Sampling(a, k)
    C.loop_spec = inv.run
    try:
        r, e = attempt(lambda: call(mathtools.weighted_shuffle, args, {}))
    finally:
        C.loop_spec = None
    if e is not None and e.cls is ValueError and not whole:
        # only if there are not enough
        if not branch(zi(k) <= a.pos):
            a.unmodified()
            return
        if inv.weights is not None:
            exhausted(a, inv, k)
    prove('raises nothing', e is None, repr(e))
    if e is None:
        outcome(a, r, k, whole)


@goal('weighted_shuffle: all items', 'C09', WS)
def _():
    a = Args()
    for args in ([a.litems, a.lws, a.rng], [a.litems, a.lws, a.rng, a.n]):
        sub_paths(lambda: shuffle(a, args, a.n, True))


@goal('weighted_shuffle: some items', 'C09', WS, secs=120)
def _():
    a = Args()
    k = ints('k', 0)
    assume(k <= a.n)
    shuffle(a, [a.litems, a.lws, a.rng, k], k)


@goal('weighted_shuffle: without a generator', 'C09', WS)
def _():
    a = Args()
    shuffle(a, [a.litems, a.lws], a.n, True)


@goal('weighted_shuffle: other number of weights', 'C09', WS)
def _():
    a = Args()
    m = ints('weights', 0)
    assume(m != a.n)
    ws = SList(weights_seq(m))
    for args in ([a.litems, ws], [a.litems, ws, a.rng],
                 [a.litems, ws, a.rng, ints('k', 0)]):
        def run():
            r, e = attempt(lambda: call(mathtools.weighted_shuffle, args, {}))
            prove_exc('ValueError', e, ValueError)
        sub_paths(run)
