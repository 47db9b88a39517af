"""C22: deprecated names still work and warn, unknown names fail."""
import importlib
import pkgutil

from .zoo import *
import fauxdoc
from fauxdoc import warn


def words(x):
    """Tokens of a message: literal text, and the strings put into it."""
    x = force(x)
    if isinstance(x, str):
        return [x]
    if is_z(x):
        return [x]
    out = []
    for p in log_parts(x):
        if isinstance(p, Lit):
            for t in p.items:
                if isinstance(t, str) and out and isinstance(out[-1], str):
                    out[-1] += t
                else:
                    out.append(t)
        else:
            out.append(p)
    return out


def names_it(msg, name):
    """The message contains this string."""
    for t in words(msg):
        if isinstance(t, str) and isinstance(name, str) and name in t:
            return True
        if is_z(t) and is_z(name) and t.sort() == name.sort() and \
                valid(t == name):
            return True
    if isinstance(name, str):
        return name in ''.join(t if isinstance(t, str) else '\0'
                               for t in words(msg))
    return False


def strv(name):
    return V.VStr(plain(name, Int))


def warned(name, module, attr, new):
    evs = events()
    prove(name + ': exactly one warning', hostint(evs.n) == 1 and
          evs.get(0)[0] == 'warn')
    if hostint(evs.n) != 1:
        return
    _, m, cat = evs.get(0)
    prove(name + ': a DeprecationWarning', isinstance(cat, type) and
          issubclass(cat, DeprecationWarning))
    prove(name + ': names the module', names_it(m, module), repr(words(m)))
    prove(name + ': names the name', names_it(m, attr), repr(words(m)))
    if new is not None:
        prove(name + ': names the replacement', names_it(m, new),
              repr(words(m)))


def refused(name, fn, attr):
    _, e = attempt(fn)
    prove_exc(name + ': AttributeError', e, AttributeError)
    prove(name + ': no warning', hostint(events().n) == 0)
    if e is not None:
        prove(name + ': names the name', len(e.args) == 1 and
              names_it(e.args[0], attr), repr(e))


@goal('get_deprecated_attr', 'C22',
      proves='fauxdoc.warn.get_deprecated_attr')
def _():
    n = ints('n', 0)
    key = Fn('key', [Int], Int, pair=lambda a, b: [
        z3.Implies(a[0] != b[0], key(a[0]) != key(b[0]))])
    new = Fn('new', [Int], Int)
    none = Fn('no_new', [Int], Bool)
    val = Fn('value', [Int], V)
    log = SSeq(n, lambda i: (V.VStr(key(zi(i))), (z3.If(
        none(zi(i)), V.VNone, V.VStr(new(zi(i)))), val(zi(i)))), 'list')
    obj, typ = strv('obj'), strv('type')

    def known():
        k = plain('k', Int)
        assume(z3.And(k >= 0, k < n))
        a = V.VStr(key(k))
        # a replacement has a non-empty name
        assume(z3.Implies(z3.Not(none(k)), truth(V.VStr(new(k)))))
        mark()
        r, e = attempt(lambda: call(warn.get_deprecated_attr, [
            a, obj, typ, SDict(log=log)]))
        prove('raises nothing', e is None, repr(e))
        if e is None:
            prove_eq('the object registered', r, val(k))
            warned('known', obj, a,
                   None if branch(none(k)) else V.VStr(new(k)))

    def unknown():
        a = strv('attr')
        C.frules.append(core.ForallRule(
            lambda t: z3.Implies(z3.And(t >= 0, t < n),
                                 V.VStr(key(t)) != a),
            {(key(z3.Int('x')).decl().name(), 0)}))
        mark()
        refused('unknown', lambda: call(warn.get_deprecated_attr, [
            a, obj, typ, SDict(log=log)]), a)
    sub_paths(known)
    sub_paths(unknown)


def modules():
    out = [fauxdoc]
    for m in pkgutil.walk_packages(fauxdoc.__path__, 'fauxdoc.'):
        out.append(importlib.import_module(m.name))
    return [m for m in out if '__getattr__' in vars(m)]


# documented as deprecated (and still available)
DOCUMENTED = {
    'fauxdoc.emitters': ['Wrap'],
    'fauxdoc.emitters.wrappers': ['Wrap'],
    'fauxdoc.typing': ['Number', 'EmitterLikeCallable', 'StrEmitterLike',
                       'IntEmitterLike', 'BoolEmitterLike'],
}


@goal('documented deprecated names', 'C22')
def _():
    ms = {m.__name__: m for m in modules()}
    for mn, names in DOCUMENTED.items():
        prove(f'{mn} has deprecated names', mn in ms)
        for nm in names:
            prove(f'{mn}.{nm} is listed',
                  nm in (vars(ms[mn]).get('DEPRECATED') or {}))


for _m in modules():
    @goal(f'{_m.__name__}: deprecated and unknown names', 'C22')
    def _(m=_m):
        ga = vars(m)['__getattr__']
        dep = vars(m).get('DEPRECATED')
        if not isinstance(dep, dict):
            raise Unsupported('no table of deprecated names')
        for nm, (new, obj) in dep.items():
            def known():
                mark()
                r, e = attempt(lambda: call(ga, [nm]))
                prove('raises nothing', e is None, repr(e))
                if e is None:
                    want = interp.lift(obj) if hasattr(interp, 'lift') \
                        else obj
                    prove(f'{nm}: the object registered',
                          r is obj or r is want)
                    warned(nm, m.__name__, nm, new)
            sub_paths(known)

        def unknown():
            a = strv('attr')
            for nm in dep:
                assume(z3.Not(zb(truth(equals(a, nm)))))
            mark()
            refused('unknown', lambda: call(ga, [a]), a)
        sub_paths(unknown)

    @goal(f'{_m.__name__}: defined names', 'C22')
    def _(m=_m):
        """A name with a definition is not deprecated."""
        for nm in vars(m).get('DEPRECATED') or {}:
            prove(f'{nm} is not defined', nm not in vars(m))
