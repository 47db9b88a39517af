"""Arbitrary objects of the classes under contract."""
from pyvc.spec import *
from pyvc import roles
from pyvc.roles import emitter, distinct, factory, user_function
from pyvc.interp import pyraise
from pyvc.core import Prune
from fauxdoc.emitters import choice, fixed, text, wrappers, fromfields
from fauxdoc import profile, group
from .contracts import cyclic, pos_count
from .names import at


def need(obj, *names):
    """The attributes the class invariant is stated over."""
    for n in names:
        if at(obj, n) not in obj.d:
            raise Unsupported(f'representation changed: {type(obj).__name__}'
                              f' {obj.cls.__name__} has no {n!r}')


def own(obj, name):
    """The private attribute `name` of the object."""
    need(obj, name)
    return obj.d[at(obj, name)]


def remembered(o):
    """A field may have emitted anything last."""
    if o.cls is profile.Field:
        put(o, '_cache', anyv('last'))


def put(obj, name, value):
    need(obj, name)
    obj.set(at(obj, name), value)


def weights_seq(n, name='weight'):
    w = Fn(name, [Int], Real, lambda i: [w(i) >= 0])
    return SSeq(n, lambda i: w(zi(i)), 'list')


class AnyChoice:
    """A choice emitter in any state that satisfies its invariant.

    The object is made by the real constructor; then everything emissions
    change is replaced by unknown values satisfying the invariant.
    """

    def __init__(self, mode, replace=None, roac=None, seed='any', tag='',
                 history=True):
        n = plain('n' + tag, Int)
        assume(n >= 1)
        self.n = n
        self.items = any_seq('item' + tag, n)
        self.items_v = self.items.with_kind('tuple')
        self.seed = anyv('seed' + tag) if isinstance(seed, str) else seed
        if is_z(self.seed):
            assume(z3.Not(V.is_VNone(self.seed)))
        self.replace = plain('replace' + tag, Bool) if replace is None \
            else replace
        self.roac = plain('roac' + tag, Bool) if roac is None else roac
        self.mode = mode
        kw = {'replace': self.replace, 'replace_only_after_call': self.roac,
              'rng_seed': self.seed}
        self.w = None
        if mode == 'weights':
            self.w = weights_seq(n, 'weight' + tag)
            kw['weights'] = SList(self.w)
        elif mode == 'cum_weights':
            c = Fn('cum' + tag, [Int], Real,
                   pair=lambda a, b: [z3.Implies(
                       z3.And(a[0] >= 0, a[0] <= b[0]), c(a[0]) <= c(b[0]))],
                   axiom=lambda i: [c(i) >= 0])
            self.c = SSeq(n, lambda i: c(zi(i)), 'list')
            kw['cum_weights'] = SList(self.c)
        self.kw = kw
        self.obj = self.new()
        if history:
            self.havoc()

    def new(self):
        return call(choice.Choice, [self.items_v], self.kw)

    def havoc(self):
        o = self.obj
        need(o, 'rng', '_shuffled', '_shuffled_index', '_num_unique_items') \
            if not self.replacing() else need(o, 'rng')
        o.d['rng'].set('state', plain('state', RS))
        if not self.replacing():
            self.P = lib.permutation(self.n, 'shuffled')[0]
            idx = plain('index', Int)
            assume(z3.And(idx >= 0, idx <= self.n))
            self.idx = idx
            self.shuffled = SSeq(self.n,
                                 lambda j: self.items.get(self.P(zi(j))))
            put(o, '_shuffled', SList(self.shuffled))
            put(o, '_shuffled_index', idx)
            put(o, '_num_unique_items', simp(self.n - idx))

    def replacing(self):
        return interp.test(get_attr(self.obj, 'replace'))

    def positive(self):
        """Some weight is positive (precondition of drawing at all)."""
        if self.mode is not None:
            cw = to_seq(get_attr(self.obj, 'cum_weights'))
            assume(zr(cw.get(sub(self.n, 1))) > 0)

    def positive_now(self):
        """The same for the weights it has now."""
        cw = force(get_attr(self.obj, 'cum_weights'))
        if cw is not None:
            assume(zr(interp.as_num(to_seq(cw).get(sub(self.n, 1)))) > 0)


def invariant(o, n, items):
    """The class invariant of Choice, as obligations."""
    need(o, '_num_unique_items', 'rng')
    kept = to_seq(get_attr(o, 'items'))
    prove('inv: items kept', kept is items or
          values.seq_valid_equal(kept, items))
    rep = interp.test(get_attr(o, 'replace'))
    prove('inv: replacement after call implies replacement', z3.Implies(
        zb(truth(get_attr(o, 'replace_only_after_call'))), zb(rep)))
    prove('inv: a generator of its own', isinstance(o.d['rng'], lib.Rng))
    if rep:
        prove('inv: all items remain when replacing',
              zi(own(o, '_num_unique_items')) == n)
    else:
        need(o, '_shuffled', '_shuffled_index')
        sh = to_seq(own(o, '_shuffled'))
        ix = zi(own(o, '_shuffled_index'))
        prove('inv: shuffled has all items', zi(sh.n) == n)
        prove('inv: index in range', z3.And(ix >= 0, ix <= n))
        prove('inv: remaining == items - emitted',
              zi(own(o, '_num_unique_items')) == n - ix)
        is_permutation('inv: shuffled is a permutation of the items', sh,
                       items, n)


def is_permutation(name, sh, items, n, upto=None):
    """sh[j] is items[p(j)] for an injective p into 0..n-1.

    The witness p is read off the terms: the value of sh[j] mentions the
    elements of `items` at exactly one index.
    """
    if hostint(sh.n) == 0:
        return
    p = index_map(sh, items)
    if p is None:
        prove(name, False, 'the elements do not come from the items')
        return
    m = zi(sh.n) if upto is None else zi(upto)

    def run():
        j, k = ints('j k')
        assume(z3.And(0 <= j, j < k, k < m))
        prove(name + ' (within)', z3.And(p(j) >= 0, p(j) < zi(n)))
        prove(name + ' (distinct)', p(j) != p(k))
    sub_paths(run)

    def run2():
        j = plain('j', Int)
        assume(z3.And(0 <= j, j < m))
        prove(name + ' (within)', z3.And(p(j) >= 0, p(j) < zi(n)))
        _e = values.eq_formula(sh.get(j), items.get(p(j)))
        prove(name + ' (element)', False if _e is None else _e)
    sub_paths(run2)


def index_map(sh, items):
    """p meant to satisfy sh[j] == items[p(j)] (to be proved), or None."""
    J = z3.Int(uname('J'))
    e = sh.get(J)
    if not is_z(e):
        return None
    K = z3.Int(uname('K'))
    pat = items.get(K)
    if not is_z(pat):
        return None
    found = _match(pat, e, K)
    if found is None:
        return None
    return lambda j: z3.substitute(found, (J, zi(j)))


def _match(pat, e, K):
    """Term t with pat[K := t] == e, for a pattern f(.., K, ..)."""
    if pat.num_args() == 0 or not z3.is_app(pat):
        return None
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        a = _match(pat, e.arg(1), K)
        b = _match(pat, e.arg(2), K)
        if a is None or b is None:
            # a witness only: that the elements are equal is proved
            return b if a is None else a
        return z3.If(e.arg(0), a, b)
    if not z3.is_app(e) or e.decl() != pat.decl():
        return None
    r = None
    for x, y in zip(pat.children(), e.children()):
        if x.eq(K):
            r = y
        elif not x.eq(y):
            return None
    return r


CHOICE_MODES = (None, 'weights')


class Word_:
    def __init__(self, seed='any', **kw):
        kw.setdefault('seedable', True)
        self.length = emitter('length', 'nat', **kw)
        self.alphabet = emitter('alphabet', 'str', **kw)
        distinct(self.length, self.alphabet)
        self.seed = anyv('seed') if isinstance(seed, str) else seed
        self.obj = call(text.Word, [self.length, self.alphabet],
                        {'rng_seed': self.seed})


class Text_:
    """Text; sep: 'given' or 'default'; roac: None (attribute absent), False
    or True; nuv: the number of unique words reported."""

    def __init__(self, sep='given', roac=None, seed='any', nuv='any',
                 seedable=True):
        self.numwords = emitter('numwords', 'nat', seedable=seedable)
        wattrs = {}
        if roac is not None:
            wattrs['replace_only_after_call'] = roac
        if not isinstance(nuv, str):
            wattrs['num_unique_values'] = nuv
        self.word = emitter('word', 'str', wattrs, seedable=seedable)
        self.sep = emitter('sep', 'str', seedable=seedable) \
            if sep == 'given' else None
        distinct(*[e for e in (self.numwords, self.word, self.sep) if e])
        self.seed = anyv('seed') if isinstance(seed, str) else seed
        self.obj = call(text.Text, [self.numwords, self.word, self.sep],
                        {'rng_seed': self.seed})


def sources(n=None, tag='src'):
    """Any number of named source emitters."""
    if n is None:
        n = plain(tag + '_count', Int)
        assume(n >= 0)
    nm = Fn(tag + '_name', [Int], Int, pair=lambda a, b: [
        z3.Implies(a[0] != b[0], nm(a[0]) != nm(b[0]))])
    idf = Fn(tag + '_id', [Int], Int, pair=lambda a, b: [
        z3.Implies(a[0] != b[0], idf(a[0]) != idf(b[0]))])
    role = roles.EmitterRole(tag)
    log = SSeq(n, lambda i: (V.VStr(nm(zi(i))),
                             Ref(idf(zi(i)), role)), 'list')
    return SDict(log=log), log


def fields_seq(n=None, tag='field', minlen=0):
    """Any number of fields with different names."""
    if n is None:
        n = plain(tag + '_count', Int)
        assume(n >= minlen)
    idf = Fn(tag + '_id', [Int], Int, pair=lambda a, b: [
        z3.Implies(a[0] != b[0], z3.And(
            idf(a[0]) != idf(b[0]),
            roles.NameOf(idf(a[0])) != roles.NameOf(idf(b[0]))))])
    return SSeq(n, lambda i: Ref(idf(zi(i)), roles.FIELD), 'tuple')


def log_parts(log):
    return log.parts if isinstance(log, Concat) else [log]


def events_of(log, ident, k=None, idf=None):
    """The events of a log that concern the object `ident`, in order.

    If the log has entries for every one of a family of objects idf(i), k is
    the index of this one."""
    out = []
    for p in log_parts(log):
        if isinstance(p, Lit):
            for e in p.items:
                if interp.test(e[1] == ident):
                    out.append(e)
        elif isinstance(p, values.Flat) and idf is not None:
            i, n = p.i, p.count

            def own():
                j = plain('j', Int)
                assume(z3.And(i >= 0, i < zi(n), j >= 0,
                              j < zi(p.piece.n)))
                e = force(p.piece.get(j))
                prove('events of iteration i concern object i',
                      e[1] == idf(i))
            sub_paths(own)
            if not branch(zi(k) < zi(n)):
                continue
            piece = values.subst(p.piece, [(i, k)])
            j = 0
            while branch(zi(piece.n) > j):
                out.append(force(piece.get(j)))
                j += 1
                if j > 12:
                    raise Unsupported('too many events')
        elif isinstance(p.n, int) or hostint(p.n) is not None:
            for j in range(hostint(p.n)):
                e = force(p.get(j))
                if interp.test(e[1] == ident):
                    out.append(e)
        else:
            raise Unsupported(f'event log {p!r}')
    return out


def was_reset(evs, has_seed, seed, name='child'):
    """The object got the seed (if it has one) and was reset after that."""
    reset = [j for j, e in enumerate(evs) if e[0] == 'reset']
    prove(f'{name} is reset', bool(reset))
    if not reset:
        return
    last = reset[-1]
    prove(f'{name} is not used after it was reset',
          all(e[0] not in ('call', 'emit') for e in evs[last:]))
    seeds = [(j, e) for j, e in enumerate(evs)
             if e[0] == 'seed' or e[0] == 'setattr' and e[2] == 'rng_seed']
    if has_seed:
        before = [e for j, e in seeds if j < last]
        prove(f'{name} is given a seed before it is reset', bool(before))
        if before:
            prove_eq(f'{name} has the seed of its parent when it is reset',
                     before[-1][-1], seed)
        for j, e in seeds:
            if j > last:
                prove_eq(f'{name} keeps the seed of its parent', e[-1], seed)
    prove(f'{name}: nothing else is set',
          all(e[2] == 'rng_seed' for e in evs if e[0] == 'setattr'))


def was_seeded(evs, has_seed, seed, name='child'):
    seeds = [(j, e) for j, e in enumerate(evs)
             if e[0] == 'seed']
    if has_seed:
        prove(f'{name} is seeded', bool(seeds))
        for j, e in enumerate(evs):
            if e[0] == 'seed' or e[0] == 'setattr' and e[2] == 'rng_seed':
                prove_eq(f'{name} gets the seed given', e[-1], seed)
        if seeds:
            prove(f'{name} is not used after it was seeded',
                  all(e[0] != 'call' for e in evs[seeds[-1][0]:]))
    prove(f'{name}: nothing else is set',
          all(e[2] == 'rng_seed' for e in evs if e[0] == 'setattr'))


def seed_of(em):
    """Has this emitter a seed of its own? (decides)"""
    return em.role.has_seed(em)


# --- states

def after(fn, cont):
    """cont(fn()) on all paths, with the effects of fn undone."""
    done = [(p.pc, p.frules, p.value) for p in core.explore(fn, 200)]
    for pc, frules, value in done:
        npc, nfr = len(C.pc), len(C.frules)
        C.pc.extend(pc)
        C.frules.extend(frules)
        try:
            sub_paths(lambda: cont(value))
        finally:
            del C.pc[npc:]
            del C.frules[nfr:]


class Snap:
    """What an object consisted of."""

    def __init__(self, kind, parts):
        self.kind, self.parts = kind, parts


def snapshot(x, seen=None, rng=True):
    """rng: the states of generators, too"""
    seen = {} if seen is None else seen
    x = force(x)
    if isinstance(x, SList):
        return snapshot(x.seq.with_kind('list'), seen, rng)
    if isinstance(x, SSeq):
        n = None if x.n is INF else hostint(x.n)
        if n is not None and n <= 12 and isinstance(x, Lit):
            return Snap(x.kind, {i: snapshot(v, seen, rng)
                                 for i, v in enumerate(x.items)})
        return x
    if isinstance(x, tuple):
        return Snap('tuple', {i: snapshot(v, seen, rng)
                              for i, v in enumerate(x)})
    if isinstance(x, lib.Rng):
        return x.d['state'] if rng else None
    if isinstance(x, SIter):
        if not isinstance(x.d.get('seq'), SSeq):
            raise Unsupported('state of an iterator')
        return Snap('iterator', {'seq': x.d['seq'], 'pos': x.d['pos']})
    if isinstance(x, SDict) and x.conc is not None:
        return Snap('dict', {k: snapshot(v, seen, rng)
                             for k, v in x.conc.items()})
    if isinstance(x, Inst):
        if id(x) in seen:
            return seen[id(x)]
        s = seen[id(x)] = Snap(x.cls, {})
        for k, v in x.d.items():
            if not isinstance(v, Undef_):
                s.parts[k] = snapshot(v, seen, rng)
        return s
    return x


Undef_ = type(UNDEF)


def prove_same(name, a, b, seen=None):
    """Obligations that two snapshots are the same state."""
    seen = set() if seen is None else seen
    if (id(a), id(b)) in seen:
        return
    seen.add((id(a), id(b)))
    if isinstance(a, Snap) and isinstance(b, Snap):
        if a.kind != b.kind or set(a.parts) != set(b.parts):
            prove(name, False, f'{a.kind} {sorted(map(str, a.parts))} vs '
                  f'{b.kind} {sorted(map(str, b.parts))}')
            return
        for k in a.parts:
            prove_same(f'{name}.{k}', a.parts[k], b.parts[k], seen)
        return
    if isinstance(a, Snap) or isinstance(b, Snap):
        la, lb = _unsnap(a), _unsnap(b)
        if la is None or lb is None:
            prove(name, False, f'{a!r} vs {b!r}')
        else:
            prove_eq(name, la, lb)
        return
    if is_z(a) and is_z(b) and a.sort() == RS and b.sort() == RS:
        prove(name, a == b)
        return
    if isinstance(a, Ref) and isinstance(b, Ref):
        prove(name, a.ident == b.ident)
        return
    prove_eq(name, a, b)


def _unsnap(x):
    if isinstance(x, SSeq):
        return x
    if isinstance(x, Snap) and x.kind in ('list', 'tuple'):
        if any(isinstance(v, Snap) for v in x.parts.values()):
            return None
        return Lit(list(x.parts.values()), x.kind)
    return None


def part(seq, lo, hi):
    """seq[lo:hi] for bounds known to be in range."""
    return SSeq(simp(zi(hi) - zi(lo)),
                lambda i: seq.get(simp(zi(i) + zi(lo))), 'list')
