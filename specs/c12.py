"""C12: words and texts are put together exactly from what their parts emit."""
from .zoo import *

P = 'C12'


def drawn(em, log, resets=False):
    """All the values the emitter em has emitted, in order."""
    parts = []

    def of(e):
        if e[0] == 'reset' and resets:
            return []
        if e[0] != 'call':
            prove('parts are only called', False, repr(e[0]))
            return []
        return [Lit([e[3]], 'list') if e[2] is None
                else to_seq(force(e[3]))]

    for p in log_parts(log):
        if isinstance(p, values.Flat):
            def own():
                piece, guard = p.piece, None
                if hostint(piece.n) is None:
                    for c in range(5):
                        if core.valid(zi(piece.n) == c):
                            guard = zi(piece.n) == c
                            piece = Lit([force(piece.get(j))
                                         for j in range(c)], 'list')
                            break
                out = []
                for e in events_of(piece, em.ident):
                    out += of(e)
                out = concat(out, 'list')
                if guard is None:
                    return out
                # no events beyond the last iteration
                return SSeq(z3.If(guard, zi(out.n), 0), out.get, 'list')
            v = lib.generic(p.i, p.count, own)
            if v is core.Fork:
                raise Unsupported('events of a loop')
            parts.append(values.flat(p.i, p.count, v, p.bound))
            continue

        for e in events_of(p, em.ident):
            parts += of(e)
    return concat(parts, 'list') if parts else Lit([], 'list')


def total(seq, size=lambda x: zi(x)):
    """Function t -> sum of the sizes of the first t values."""
    i = z3.Int(uname('idx'))
    return values.prefix_sum(i, size(seq.get(i)), seq.n).ps


def num_of(x):
    return zi(interp.as_num(x))


def words_are(r, n, lengths, chars):
    """r[i] is the characters from S(i) up to S(i + 1)."""
    S = total(lengths, num_of)
    prove('as many lengths as words', zi(lengths.n) == zi(n))
    prove('as many characters as needed', zi(chars.n) == S(n))
    prove_eq('words', r, SList(SSeq(n, lambda i: SSeq(
        num_of(lengths.get(i)),
        lambda j: chars.get(simp(S(i) + zi(j))), 'str'), 'list')))


@goal('Word.emit', P)
def _():
    w = Word_()
    for fn in (lambda: call(w.obj, []), lambda: method(w.obj, 'emit')):
        def run():
            mark()
            r = fn()
            log = events()
            lengths, chars = drawn(w.length, log), drawn(w.alphabet, log)
            words_are(SList(Lit([r], 'list')), 1, lengths, chars)
        sub_paths(run)


@goal('Word.emit_many', P)
def _():
    w = Word_()
    n = ints('n', 0)
    for fn in (lambda: call(w.obj, [n]),
               lambda: method(w.obj, 'emit_many', n)):
        def run():
            mark()
            r = fn()
            log = events()
            lengths, chars = drawn(w.length, log), drawn(w.alphabet, log)
            words_are(r, n, lengths, chars)
        sub_paths(run)


def texts_are(r, n, lengths, words, seps):
    W = total(lengths, num_of)
    gaps = lambda x: z3.If(num_of(x) > 0, num_of(x) - 1, 0)
    G = total(lengths, gaps)
    prove('as many numbers of words as texts', zi(lengths.n) == zi(n))
    prove('as many words as needed', zi(words.n) == W(n))
    prove('as many separators as needed', zi(seps.n) == G(n))

    def token(i, j):
        h = simp(zi(j) / 2)
        return ite(zi(j) % 2 == 0, words.get(simp(W(i) + h)),
                   seps.get(simp(G(i) + h)))
    prove_eq('texts', r, SList(SSeq(n, lambda i: SSeq(
        simp(num_of(lengths.get(i)) + gaps(lengths.get(i))),
        lambda j: token(i, j), 'str'), 'list')))


for _roac in (None, False, True):
    for _sep in ('given', 'default'):
        for _how in ('Text()', 'Text(n)', 'Text.emit', 'Text.emit_many'):
            @goal(f'{_how} (words replaced only after call: {_roac}, '
                  f'separator {_sep})', P, secs=300)
            def _(roac=_roac, sep=_sep, how=_how):
                t = Text_(sep, roac, anyv('seed'), ints('num', 0)
                          if roac else None)
                bulk = how in ('Text(n)', 'Text.emit_many')
                n = ints('n', 0) if bulk else 1
                fn = {'Text()': lambda: call(t.obj, []),
                      'Text(n)': lambda: call(t.obj, [n]),
                      'Text.emit': lambda: method(t.obj, 'emit'),
                      'Text.emit_many': lambda: method(
                          t.obj, 'emit_many', n)}[how]

                def run():
                    mark()
                    r = fn()
                    # what follows the last word taken is no word
                    log = events(partly=True)
                    lengths = drawn(t.numwords, log)
                    words = drawn(t.word, log, roac)
                    seps = drawn(t.sep, log) if t.sep else \
                        SSeq(total(lengths, lambda x: z3.If(
                            num_of(x) > 0, num_of(x) - 1, 0))(n),
                            lambda j: V.VChr(z3.IntVal(32)), 'list')
                    texts_are(r if bulk else SList(Lit([r], 'list')), n,
                              lengths, words, seps)
                sub_paths(run)
