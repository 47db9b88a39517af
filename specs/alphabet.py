"""C13: make_alphabet."""
from pyvc.spec import *
from fauxdoc.emitters import text

DEFAULT = [(33, 33), (35, 38), (40, 126), (161, 172), (174, 255)]


def expected(rs):
    i = plain('i', Int)
    st, en = rs.get(i)
    size = zmax(0, add(sub(en, st), 1))
    piece = SSeq(size, lambda j: V.VChr(zi(add(st, j))), 'list')
    return flat(i, rs.n, piece, bound=rs.n)


def code_points():
    n = ints('n', 1)
    ax = lambda i: [st(i) >= 0, st(i) <= 0x10ffff]
    st = Fn('first', [Int], Int, ax)
    ax2 = lambda i: [en(i) >= 0, en(i) <= 0x10ffff]
    en = Fn('last', [Int], Int, ax2)
    return SSeq(n, lambda i: (st(zi(i)), en(zi(i))), 'list')


@goal('make_alphabet: the ranges given', 'C13')
def _():
    rs = code_points()
    for what in (SList(rs), rs.with_kind('tuple')):
        r = call(text.make_alphabet, [what])
        prove('returns a list', isinstance(r, SList))
        prove_eq('alphabet == ranges in order', r, expected(rs))
        if isinstance(what, SList):
            prove('argument unmodified', what.seq is rs)


@goal('make_alphabet: the default', 'C13')
def _():
    want = Lit([chr(c) for a, b in DEFAULT for c in range(a, b + 1)])
    for args in ([], [None], [SList(Lit([]))]):
        r = call(text.make_alphabet, args)
        prove_eq('alphabet == default ranges', r, want)
