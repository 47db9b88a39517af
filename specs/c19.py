"""C19: copied field data is complete, in order and of the right shape."""
from .zoo import *
from pyvc.values import Flat, flat
from pyvc.interp import vseq_as_seq
from pyvc.roles import Prev, Multi, FIELD


def parts_of(v):
    """The values a field's last value contributes."""
    s = vseq_as_seq(v)
    return ite(V.is_VNone(v), Lit([]),
               ite(V.is_VSeq(v), SSeq(s.n, s.get, 'list'), Lit([v])))


def collected(fs):
    i = z3.Int(uname('i'))
    return flat(i, fs.n, parts_of(Prev(fs.get(i).ident)))


def joined(sep, vals):
    return call_method(sep, 'join', [SList(SSeq(
        vals.n, lambda j: call(str, [vals.get(j)]), 'list'))])


def copies(o, fs, sep, single=None):
    """What o emits from the fields fs; single: the field, if it was given by
    itself."""
    def one():
        mark()
        r, e = attempt(lambda: call(o, []))
        prove('raises nothing', e is None, repr(e))
        if e is not None:
            return
        prove('no field is called, reset or changed',
              hostint(events().n) == 0)
        if single is not None and not branch(Multi(single.ident)):
            prove_eq('the very value of a single-valued field', r,
                     Prev(single.ident))
            return
        vals = collected(fs)
        r = force(r)
        if sep is None:
            if branch(zi(vals.n) == 0):
                prove_eq('None if there is nothing', r, None)
            else:
                prove('a list', isinstance(r, SList))
                prove_eq('all values in order', r, SList(vals))
        else:
            prove_eq('all values joined', r, joined(sep, vals))

    def many():
        n = ints('m', 0)
        r, e = attempt(lambda: call(o, [n]))
        prove('raises nothing', e is None, repr(e))
        if e is not None:
            return
        prove('calls no field (many)', hostint(events().n) == 0)
        one = call(o, [])
        r = to_seq(r)
        prove('as many as asked for', zi(r.n) == n)
        k = plain('k', Int)
        assume(z3.And(k >= 0, k < n))
        prove_eq('each is what a single call gives', r.get(k), one)
    mark()
    sub_paths(one)
    mark()
    sub_paths(many)


SEPS = {'no separator': lambda: None,
        'separator': lambda: any_seq('sep', kind='str'),
        'empty separator': lambda: ''}
for _nm, _sep in SEPS.items():
    for _kind in ('list', 'tuple'):
        @goal(f'CopyFields of a {_kind} of fields, {_nm}', 'C19')
        def _(sep=_sep, kind=_kind):
            fs = fields_seq()
            s = sep()
            o = call(fromfields.CopyFields,
                     [SList(fs.with_kind('list')) if kind == 'list' else fs,
                      s])
            prove('not single-valued', z3.Not(zb(truth(
                get_attr(o, 'single_valued')))))
            copies(o, fs, s)

    @goal(f'CopyFields of a list of one field, {_nm}', 'C19')
    def _(sep=_sep):
        f = Ref(plain('field', Int), FIELD)
        s = sep()
        o = call(fromfields.CopyFields, [SList(Lit([f]))],
                 {'separator': s})
        copies(o, Lit([f], 'tuple'), s)

    @goal(f'CopyFields of one field, {_nm}', 'C19')
    def _(sep=_sep):
        f = Ref(plain('field', Int), FIELD)
        s = sep()
        o = call(fromfields.CopyFields, [f, s])
        prove('single-valued like its field', zb(truth(
            get_attr(o, 'single_valued'))) == z3.Not(Multi(f.ident)))
        copies(o, Lit([f], 'tuple'), s, f)

    @goal(f'CopyFields after its source was set, {_nm}', 'C19')
    def _(sep=_sep):
        f = Ref(plain('field', Int), FIELD)
        fs = fields_seq()
        s = sep()

        def to_one():
            o = call(fromfields.CopyFields, [SList(fs.with_kind('list')), s])
            method(o, 'set_source_fields', f)
            copies(o, Lit([f], 'tuple'), s, f)

        def to_many():
            o = call(fromfields.CopyFields, [f, s])
            method(o, 'set_source_fields', SList(fs.with_kind('list')))
            copies(o, fs, s)

        def sep_set():
            o = call(fromfields.CopyFields, [SList(fs.with_kind('list'))])
            set_attr(o, 'separator', s)
            copies(o, fs, s)
        for g in (to_one, to_many, sep_set):
            sub_paths(g)
