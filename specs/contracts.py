"""Contracts used where a function is called (each is discharged by a goal).

A caller is verified against these, not against the body of the callee.
"""
from pyvc.spec import *
from pyvc.interp import CONTRACTS, pyraise
from pyvc.lib import Rng, advance, permutation, kwbind
from pyvc import lazy, values

MT = 'fauxdoc.mathtools.'


# --- number of positive weights (ghost)

_pos = []


def pos_count(ws):
    """Number of weights > 0 of a sequence."""
    ws = to_seq(ws)
    for s, c in _pos:
        if s is ws or values.seq_valid_equal(s, ws):
            return c
    c = plain('pos', Int)
    assume(z3.And(c >= 0, c <= zi(ws.n)))
    _pos.append((ws, c))
    return c


# --- weighted_shuffle

_shuffles = []


def weighted_shuffle(f, args, kwargs):
    """requires  len(items) == len(weights) (else ValueError);
                 0 <= k <= len(items), weights >= 0
    ensures   result[j] == items[P(j)], j < k, P injective and determined by
              items, weights, k and the state of rng, as is its state after; positive weights first
              (so only positive ones if k does not exceed their number);
              ValueError only if k exceeds the number of positive weights
              and is not len(items);
              nothing but the state of rng modified."""
    items, weights, rng, number = kwbind(
        ['items', 'weights', 'rng', 'number'], args, kwargs,
        {'rng': None, 'number': None})
    items = lib.as_sequence(items)
    ws = lib.as_sequence(weights)
    rng = force(rng)
    if rng is None:
        rng = lib.lift_special(f.__defaults__[0])
    if not isinstance(rng, Rng):
        raise Unsupported('weighted_shuffle without a generator')
    if not branch(zi(items.n) == zi(ws.n)):
        pyraise(ValueError, 'Mismatched number of choices')
    number = force(number)
    n = items.n
    k = n if number is None else number
    if is_z(k) and k.sort() == V:
        k = zi(k)
    j = plain('w', Int)
    sub_paths(lambda: (assume(z3.And(j >= 0, j < zi(n))), prove(
        'weighted_shuffle: weights are not negative', zr(
            interp.as_num(ws.get(j))) >= 0)))
    prove('weighted_shuffle: 0 <= number <= len(items)',
          z3.And(zi(k) >= 0, zi(k) <= zi(n)))
    assume(z3.And(zi(k) >= 0, zi(k) <= zi(n)))
    if number is not None:
        pc = pos_count(ws)
        if not branch(z3.Or(zi(k) <= pc, zi(k) == zi(n))):
            if branch(lib.draw('low', rng, [items, ws, k],
                               lambda: plain('low', Bool))):
                pyraise(ValueError, 'Total of weights must be greater than '
                        'zero')
    st = rng.d['state']
    P = None
    for (s2, w2, st2, k2, p, end) in _shuffles:
        if st2.get_id() == st.get_id() and valid(zi(k2) == zi(k)) and \
                values.seq_valid_equal(w2, ws) and \
                values.seq_valid_equal(s2, items):
            P = p
            break
    if P is None:
        P, _ = permutation(n, 'wshuffle', rng)
        positive_first(P, ws, n, pos_count(ws), number is None)
        end = core.fresh('after_shuffle', RS)
        C.rng_results[end.decl().name()] = st
        if not C.idx:
            _shuffles.append((items, ws, st, k, P, end))
    rng.set('state', end)
    return SList(SSeq(norm(k), lambda j: items.get(P(zi(j))), 'list'))


def positive_first(P, ws, n, count, whole):
    """Facts about P (a permutation whose first k values are returned)."""
    if P.outer:
        return
    w = lambda j: num(ws.get(j))
    rule = core.RULES[P.f.name()]
    old = rule.unary

    def unary(j):
        return old(j) + [z3.Implies(z3.And(j >= 0, j < zi(count)),
                                    w(P.f(j)) > 0)]
    rule.unary = unary
    rule.pair = lambda a, b: [z3.Implies(
        z3.And(0 <= a[0], a[0] < b[0], b[0] < zi(n), w(P.f(b[0])) > 0),
        w(P.f(a[0])) > 0)]


CONTRACTS[MT + 'weighted_shuffle'] = weighted_shuffle


# --- poisson, gaussian, clamp

Poisson = z3.Function('poisson', Real, Real, Real)
Gaussian = z3.Function('gaussian', Real, Real, Real, Real)


def _pr():
    r = Rule()
    r.unary = lambda x, mu: [z3.Implies(mu >= 0, Poisson(x, mu) >= 0)]
    RULES['poisson'] = r
    r = Rule()
    r.unary = lambda x, mu, s: [z3.Implies(s > 0, Gaussian(x, mu, s) >= 0)]
    RULES['gaussian'] = r


_pr()


def num(x):
    return zr(interp.as_num(x))


def poisson(f, args, kwargs):
    """requires x >= 0 an int, mu >= 0; ensures result == mu^x e^-mu / x!"""
    x, mu = kwbind(['x', 'mu'], args, kwargs, {'mu': 1})
    prove('poisson: x >= 0 and mu >= 0', z3.And(num(x) >= 0, num(mu) >= 0))
    return Poisson(simp(num(x)), simp(num(mu)))


def gaussian(f, args, kwargs):
    """requires sigma > 0; ensures result == normal density at x"""
    x, mu, s = kwbind(['x', 'mu', 'sigma'], args, kwargs,
                      {'mu': 0, 'sigma': 1})
    prove('gaussian: sigma > 0', num(s) > 0)
    return Gaussian(simp(num(x)), simp(num(mu)), simp(num(s)))


CONTRACTS[MT + 'poisson'] = poisson
CONTRACTS[MT + 'gaussian'] = gaussian


# --- endless iterators

def cyclic(seq):
    """The values of seq, over and over."""
    n = zi(seq.n)
    return SSeq(INF, lambda k: seq.get(interp.ModF(zi(k), n)), 'list')


def make_infinite_iter(f, args, kwargs):
    """requires every call of factory() gives an iterator over the same
    finite, non-empty sequence s; ensures the k-th value of the result is
    s[k mod len(s)]; factory is called when the values are needed."""
    (fac,) = kwbind(['factory'], args, kwargs, {})
    it = call(fac, [])
    if not isinstance(it, SIter):
        raise Unsupported('iterator factory')
    seq = lazy.taken(it)
    if seq.n is INF:
        raise Unsupported('iterator factory')
    if not C.idx and not valid(zi(seq.n) > 0):
        raise Unsupported('iterator factory that may be empty')
    return SIter(cyclic(seq))


CONTRACTS['fauxdoc.emitters.fixed.Iterative.make_infinite_iter'] = \
    make_infinite_iter


def reset_contracts():
    _pos.clear()
    _shuffles.clear()


RESETS.append(reset_contracts)
