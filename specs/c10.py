"""C10: clamping, the Poisson and Gaussian functions and choices."""
import math
from fractions import Fraction

from .zoo import *
from .contracts import MT, Poisson, Gaussian, num
from pyvc.lib import Exp, Log, Sqrt, Fact, LGamma
from pyvc.interp import PowI, PowR
from fauxdoc import mathtools

PI = Fraction(math.pi)
LOGPI = z3.Real('log_of_pi')


def log_const(q):
    """log of a positive rational, pi as its double."""
    for k in (0, 1, -1, 2, -2):
        r = q / PI ** k
        if r.numerator < 10 ** 6 and r.denominator < 10 ** 6:
            return z3.RealVal(k) * LOGPI + primes(r.numerator) - \
                primes(r.denominator)
    raise Unsupported(f'log of {float(q)}')


def primes(n):
    t = z3.RealVal(0)
    p = 2
    while n > 1:
        while n % p == 0:
            t = t + Log(z3.RealVal(p))
            n //= p
        p += 1
    return t


def log_of(t):
    """The logarithm of a positive term, by the laws

    log(ab) = log a + log b, log(a/b) = log a - log b, log(exp t) = t,
    log(b^e) = e log b, log(sqrt t) = log(t)/2, log(n!) = lgamma(n + 1).
    """
    if z3.is_rational_value(t) or z3.is_int_value(t):
        q = Fraction(t.numerator_as_long(), t.denominator_as_long()) \
            if z3.is_rational_value(t) else Fraction(t.as_long())
        if q <= 0:
            raise Unsupported('log of a number not positive')
        return log_const(q)
    k, ch, name = t.decl().kind(), t.children(), t.decl().name()
    if k == z3.Z3_OP_MUL:
        return z3.Sum([log_of(c) for c in ch])
    if k == z3.Z3_OP_DIV:
        return log_of(ch[0]) - log_of(ch[1])
    if k == z3.Z3_OP_TO_REAL:
        return log_of(ch[0])
    if name == 'exp':
        return ch[0]
    if name in ('int_pow', 'real_pow'):
        if not valid(ch[0] > 0):
            raise Unsupported('power of a number that may not be positive')
        return zr(ch[1]) * log_of(ch[0])
    if k == z3.Z3_OP_POWER:
        return zr(ch[1]) * log_of(ch[0])
    if name == 'sqrt':
        return log_of(ch[0]) / 2
    if name == 'factorial':
        return LGamma(simp(zr(ch[0]) + 1))
    if not valid(zr(t) > 0):
        raise Unsupported('log of a term that may not be positive')
    return Log(simp(zr(t)))


def is_density(r, want):
    """r == exp(want), as numbers."""
    r = force(r)
    if isinstance(r, (int, float)):
        r = zr(r)
    if not is_z(r) or r.sort() not in (Real, Int):
        prove('a number', False, repr(r))
        return
    lr = log_of(simp(r))
    C.overapprox.append('logarithms')
    prove('the value of the formula', lr == want)


for _sort in (Int, Real):
    @goal(f'poisson: the formula (mu a {_sort})', 'C10', MT + 'poisson')
    def _(sort=_sort):
        C.overflow = True
        x = ints('x', 0)
        mu = plain('mu', sort)
        assume(mu > 0)
        r, e = attempt(lambda: call(mathtools.poisson, [x, mu]))
        prove('raises nothing', e is None, repr(e))
        if e is None:
            is_density(r, zr(x) * Log(simp(zr(mu))) - zr(mu) -
                       LGamma(simp(zr(x) + 1)))

    @goal(f'poisson: mu of 0 (a {_sort})', 'C10', MT + 'poisson')
    def _(sort=_sort):
        C.overflow = True
        x = ints('x', 1)
        mu = plain('mu', sort)
        assume(mu == 0)
        r, e = attempt(lambda: call(mathtools.poisson, [x, mu]))
        prove('raises nothing', e is None, repr(e))
        if e is None:
            prove('0', num(r) == 0)


@goal('poisson: mu of 0 at 0', 'C10', MT + 'poisson')
def _():
    # 0! == 1 and 0 ** 0 == 1, so there is nothing to overflow
    for mu in (0, 0.0):
        r = call(mathtools.poisson, [0, mu])
        prove('exp(-0)', z3.Or(num(r) == 1, num(r) == Exp(z3.RealVal(0))))


@goal('poisson: mu is 1 by default', 'C10')
def _():
    x = ints('x', 0)
    prove_eq('default', call(mathtools.poisson, [x]),
             call(mathtools.poisson, [x, 1]))


@goal('gaussian: the formula', 'C10', MT + 'gaussian')
def _():
    C.overflow = True
    for xs in (Int, Real):
        x = plain('x', xs)
        mu, s = reals('mu sigma')
        assume(s > 0)
        for args, m, sd in (([x, mu, s], mu, s), ([x, mu], mu, zr(1)),
                            ([x], zr(0), zr(1))):
            r, e = attempt(lambda: call(mathtools.gaussian, args))
            prove('raises nothing', e is None, repr(e))
            if e is None:
                d = (zr(x) - m) / sd
                sub_paths(lambda: is_density(
                    r, -d * d / 2 - log_of(simp(sd)) - (
                        Log(z3.RealVal(2)) + LOGPI) / 2))


def opt_real(name):
    return None if branch(plain(name + '_none', Bool)) else plain(name, Real)


@goal('clamp', 'C10')
def _():
    x = plain('x', Real)
    lo, hi = opt_real('lo'), opt_real('hi')
    if lo is not None and hi is not None:
        assume(lo <= hi)
    style = plain('style', Int)
    if branch(style == 0):
        kw = {'mn': lo, 'mx': hi}
        args = [x]
    elif branch(style == 1) and lo is None:
        kw, args = {'mx': hi}, [x]
    elif branch(style == 2) and hi is None:
        kw, args = {'mn': lo}, [x]
    else:
        kw, args = {}, [x, lo, hi]
    r, e = attempt(lambda: call(mathtools.clamp, args, kw))
    prove('raises nothing', e is None, repr(e))
    if e is not None:
        return
    r = num(r)
    under = z3.BoolVal(False) if lo is None else x < lo
    over = z3.BoolVal(False) if hi is None else x > hi
    prove('the number itself if within the limits',
          z3.Implies(z3.Not(z3.Or(under, over)), r == x))
    if lo is not None:
        prove('the lower limit if below it', z3.Implies(under, r == lo))
    if hi is not None:
        prove('the upper limit if above it', z3.Implies(over, r == hi))


def weighted(make, dist, args, kw, n, items):
    replace = plain('replace', Bool)
    roac = plain('roac', Bool)
    seed, noun = anyv('seed'), 'some noun'
    floor = plain('floor', Real)
    given = branch(plain('floor_given', Bool))
    kw = dict(kw, replace=replace, replace_only_after_call=roac, noun=noun,
              rng_seed=seed)
    if given:
        kw['weight_floor'] = floor
    else:
        floor = zr(0)
    c = call(make, [items] + args, kw)
    prove('a choice emitter', isinstance(c, Inst) and
          issubclass(c.cls, choice.Choice))
    ws = to_seq(get_attr(c, 'weights'))
    prove('as many weights as items', zi(ws.n) == n)

    def weight():
        k = plain('k', Int)
        assume(z3.And(k >= 0, k < n))
        p = dist(simp(zr(k + 1)))
        prove('weight of the item at k', num(ws.get(k)) ==
              z3.If(p < floor, floor, p))
    sub_paths(weight)
    prove_eq('items', get_attr(c, 'items'), items)
    prove_eq('noun', get_attr(c, 'noun'), noun)
    prove_eq('rng_seed', get_attr(c, 'rng_seed'), seed)
    rep = truth(get_attr(c, 'replace'))
    prove('replace', zb(rep) == z3.Or(replace, roac))
    prove('replace_only_after_call', zb(truth(get_attr(
        c, 'replace_only_after_call'))) == roac)


@goal('poisson_choice: weights and settings', 'C10', uses=MT + 'poisson')
def _():
    n = ints('n', 1)
    items = any_list('item', n)
    if branch(plain('mu_given', Bool)):
        mu = plain('mu', Real)
        assume(mu > 0)
        kw = {'mu': mu}
    else:
        mu, kw = zr(1), {}
    weighted(choice.poisson_choice, lambda x: Poisson(x, simp(mu)), [], kw,
             n, items)


@goal('poisson_choice: settings by position', 'C10', uses=MT + 'poisson')
def _():
    by_position(choice.poisson_choice, 1)


@goal('gaussian_choice: settings by position', 'C10', uses=MT + 'gaussian')
def _():
    by_position(choice.gaussian_choice, 2)


def by_position(make, k):
    """Settings by position mean what they mean by name."""
    n = ints('n', 1)
    items = any_list('item', n)
    r = reals('p q')
    assume(z3.And(r[0] > 0, r[1] > 0))
    floor = reals('floor')
    replace, roac = plain('replace', Bool), plain('roac', Bool)
    seed = anyv('seed')
    names = ['mu', 'sigma'][:k] + ['weight_floor', 'replace',
                                   'replace_only_after_call', 'noun',
                                   'rng_seed']
    vals = r[:k] + [floor, replace, roac, 'noun', seed]
    a = call(make, [items] + vals)
    b = call(make, [], dict(zip(names, vals), items=items))
    for x in ('items', 'weights', 'replace', 'replace_only_after_call',
              'noun', 'rng_seed'):
        prove_eq(x, get_attr(a, x), get_attr(b, x))


@goal('gaussian_choice: weights and settings', 'C10', uses=MT + 'gaussian')
def _():
    n = ints('n', 1)
    items = any_list('item', n)
    mu, s, kw = zr(0), zr(1), {}
    if branch(plain('mu_given', Bool)):
        mu = kw['mu'] = plain('mu', Real)
    if branch(plain('sigma_given', Bool)):
        s = kw['sigma'] = plain('sigma', Real)
        assume(s > 0)
    weighted(choice.gaussian_choice,
             lambda x: Gaussian(x, simp(mu), simp(s)), [], kw, n, items)
