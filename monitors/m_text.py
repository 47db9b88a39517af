"""C12 and C13."""
from . import monitor, check, Bad
from .gen import *


class Tape(Custom):
    """Emits the numbered values fn(0), fn(1), ...; remembers how many."""

    def __init__(self, fn, nuv=None, roac=None, items=None):
        self.fn, self.pos, self.log = fn, 0, []
        self.num_unique_values = nuv
        self.resets = 0
        self.biggest = 0
        if roac is not None:
            self.replace_only_after_call = roac
        if items is not None:
            self.items = items

    def reset(self):
        self.resets += 1

    def one(self):
        self.pos += 1
        return self.fn(self.pos - 1)

    def __call__(self, number=None):
        self.biggest = max(self.biggest, number or 1)
        return super().__call__(number)


def lengths_for(g, cap):
    r = g.r
    k = r.randint(0, 4)
    if k == 0:
        v = [0]
    elif k == 1:
        v = [r.randint(0, 3) for _ in range(7)]
    elif k == 2:
        v = [g.size(0, cap)]
    elif k == 3:
        v = [g.size(0, cap), 0, 1, 2]
    else:
        v = [1, 0, 0, 2, 5]
    return v


@monitor('C12', 260)
def words(g):
    r = g.r
    ls = lengths_for(g, 300)
    g.note('lengths', ls)
    length = Tape(lambda i: ls[i % len(ls)])
    alpha = Tape(lambda i: chr(0x4e00 + i))
    o = text.Word(length, alpha, rng_seed=g.seed())
    length.pos = alpha.pos = 0
    lp = ap = 0
    for _ in range(r.randint(1, 6)):
        n = r.choice([None, 0, 1, 2, g.size(0, 60),
                      g.size(0, 300 if max(ls) < 10 else 60)])
        g.note('call', n)
        got = o() if n is None else o(n)
        m = 1 if n is None else n
        want = []
        for _ in range(m):
            k = ls[lp % len(ls)]
            lp += 1
            want.append(''.join(chr(0x4e00 + ap + j) for j in range(k)))
            ap += k
        check((got == want[0]) if n is None else got == want,
              lambda: f'{got!r}, not {want!r}')
        check(length.pos == lp, f'{length.pos} lengths used, not {lp}')
        check(alpha.pos == ap, f'{alpha.pos} characters used, not {ap}')


@monitor('C12', 260)
def texts(g):
    r = g.r
    ls = lengths_for(g, 80)
    roac = r.choice([None, False, True])
    nuv = r.choice([None, 0, 1, 2, 3, 5, g.size(1, 60)])
    withsep = r.random() < 0.8
    empty = r.random() < 0.1
    g.note('numbers of words', ls, 'roac', roac, 'unique', nuv,
           'separator given', withsep)
    num = Tape(lambda i: ls[i % len(ls)])
    word = Tape(lambda i: '' if empty else 'w%d' % i, nuv, roac)
    sep = Tape(lambda i: '<%d>' % i, r.choice([None, 0, 1, 2, 5]),
               r.choice([None, False, False, True]) if r.random() < 0.5
               else None) if withsep else None
    if sep is not None and sep.num_unique_values is not None:
        g.note('unique separators', sep.num_unique_values)
    o = text.Text(num, word, sep, rng_seed=g.seed())
    num.pos = word.pos = 0
    if sep:
        sep.pos = 0
    np = wp = sp = 0
    for _ in range(r.randint(1, 6)):
        n = r.choice([None, 0, 1, 2, g.size(0, 40)])
        g.note('call', n)
        word.biggest = 0
        got = o() if n is None else o(n)
        m = 1 if n is None else n
        want = []
        total = 0
        for _ in range(m):
            k = ls[np % len(ls)]
            np += 1
            total += k
            t = ''
            for j in range(k):
                if j:
                    t += '<%d>' % sp if sep else ' '
                    sp += 1
                t += '' if empty else 'w%d' % wp
                wp += 1
            want.append(t)
        check((got == want[0]) if n is None else got == want,
              lambda: f'{got!r}, not {want!r}')
        check(num.pos == np, f'{num.pos} word counts used, not {np}')
        check(word.pos == wp, f'{word.pos} words used, not {wp}')
        check(sep is None or sep.pos == sp, lambda:
              f'{sep.pos} separators used, not {sp}')
        if roac and nuv:
            check(word.biggest <= max(nuv, 1), 'a call asks for '
                  f'{word.biggest} of {nuv} unique words')


@monitor('C12', 120)
def real_parts(g):
    """Word and Text over built-in emitters, against twins of the parts."""
    r = g.r
    ls = [r.randint(0, 5) for _ in range(r.randint(1, 4))]
    ws = ['w%d' % i for i in range(r.randint(1, 8))]
    seps = ['-', '+', ' '][:r.randint(1, 3)]

    def parts():
        return (fixed.Sequential(ls), fixed.Sequential(ws),
                fixed.Sequential(seps))
    a, b, c = parts()
    o = text.Text(a, b, c) if r.random() < 0.6 else text.Word(a, b)
    g.note(type(o).__name__, ls, ws, seps)
    x, y, z = parts()
    for _ in range(5):
        n = r.choice([None, 0, 1, 3, g.size(0, 30)])
        g.note('call', n)
        got = [o()] if n is None else o(n)
        want = []
        for _ in range(1 if n is None else n):
            k = x()
            t = ''
            for j in range(k):
                if j and isinstance(o, text.Text):
                    t += z()
                t += y()
            want.append(t)
        check(got == want, lambda: f'{got!r}, not {want!r}')


@monitor('C12', 80)
def roac_words(g):
    """Texts of more words than a replace-only-after-call emitter has."""
    r = g.r
    ws = ['w%d' % i for i in range(g.size(1, 40))]
    k = g.size(0, 90)
    n = r.choice([None, 1, 2, 3])
    g.note(len(ws), 'words', k, 'per text', n, 'texts')
    o = text.Text(fixed.Static(k), choice.Choice(
        ws, replace_only_after_call=True), fixed.Static(' '),
        rng_seed=g.seed())
    got = [o()] if n is None else o(n)
    check(len(got) == (1 if n is None else n), 'number of texts')
    for t in got:
        parts = t.split(' ') if k else []
        check(len(parts) == k and (k or t == ''), f'{len(parts)} words in '
              f'{t!r}, not {k}')
        check(all(p in ws for p in parts), f'not words: {t!r}')


DEFAULT = [(33, 33), (35, 38), (40, 126), (161, 172), (174, 255)]


@monitor('C13', 400)
def alphabet(g):
    r = g.r
    ranges = []
    for _ in range(r.randint(1, 5)):
        a = r.choice([0, 32, 97, 127, 128, 255, 256, 0xd7ff, 0xe000, 0xd800,
                      0xffff, 0x10000, 0x10ffff, r.randint(0, 0x10ffff),
                      g.size(0)])
        b = min(0x10ffff, a + r.choice([0, 0, 1, 2, 25, 26,
                                        g.size(0, 1000)]))
        if r.random() < 0.08 and a:
            b = a - 1
        ranges.append((a, b))
    arg = tuple(ranges) if r.random() < 0.4 else ranges
    g.note(ranges)
    got = text.make_alphabet(arg)
    want = [chr(c) for a, b in ranges for c in range(a, b + 1)]
    check(list(got) == want, lambda: _diff(list(got), want))
    check(list(text.make_alphabet(arg)) == want, 'a second call differs')
    check(list(text.make_alphabet()) ==
          [chr(c) for a, b in DEFAULT for c in range(a, b + 1)], 'default')
    check(list(text.make_alphabet(None)) == list(text.make_alphabet()),
          'None')


def _diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f'character {i} is {x!r}, not {y!r}'
    return f'{len(a)} characters, not {len(b)}'
