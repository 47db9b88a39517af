"""Concrete checks of the properties on the real code.

They replay the verifier's counterexamples (integers of its models are used
as sizes and counts) and stand in, labelled bounded, for obligations the
verifier could not decide.  Only the public interface of the code is used.
"""
import hashlib
import importlib
import random
import signal
import traceback

MODULES = ['m_fixed', 'm_choice', 'm_text', 'm_comp', 'm_fields', 'm_dtr',
           'm_misc']
MONITORS = {}          # property -> [(name, fn, n)]
CASE_SECONDS = 20
FACTOR = {'quick': 60, 'hunt': 250, 'thorough': 1000}


class Bad(Exception):
    """The property does not hold for this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Slow(BaseException):
    pass


def check(cond, msg, key=None):
    if not cond:
        raise Bad(msg() if callable(msg) else msg, key)


def monitor(props, n=200, once=False):
    """Register fn(G), G a Gen; n cases per unit of effort (n in all, if once)."""
    props = (props,) if isinstance(props, str) else props

    def deco(fn):
        for p in props:
            MONITORS.setdefault(p, []).append(
                (fn.__name__, fn, 1 if once else n, once))
        return fn
    return deco


_loaded = []


def load():
    if not _loaded:
        for m in MODULES:
            importlib.import_module('monitors.' + m)
        _loaded.append(1)


def _alarm(*_):
    raise Slow()


def one(prop, name, fn, seed, idx, hints):
    """Run one case; returns (violation or None, description)."""
    from .gen import Gen
    g = Gen(random.Random(f'{seed}:{prop}:{name}:{idx}'), hints, prop, idx)
    what = key = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        fn(g)
    except Bad as e:
        what, key = str(e), e.key
    except Slow:
        what = 'does not terminate (within %d s)' % CASE_SECONDS
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if '/fauxdoc/' in f.filename]
        where = inside[-1] if inside else tb[-1]
        what = (f'{type(e).__name__}: {e} (at {where.filename.split("/")[-1]}'
                f':{where.lineno}, {where.line})')
    finally:
        signal.alarm(0)
    desc = g.describe()
    if what is None:
        return None, desc, g.trivial
    return {'what': f'{name}: {what}\ncase: {desc}'[:4000], 'key': key,
            'monitor': name, 'seed': seed, 'index': idx,
            'hints': hints}, desc, g.trivial


def run(prop, tier, seed, part, parts, hints):
    load()
    out = {'evals': 0, 'distinct': 0, 'samples': [], 'violations': []}
    seen = set()
    for name, fn, n, once in MONITORS.get(prop, []):
        total = n if once else n * FACTOR.get(tier, 10)
        bad = 0
        for idx in range(part, total, parts):
            v, desc, trivial = one(prop, name, fn, seed, idx, hints)
            out['evals'] += 1
            h = hashlib.md5((name + desc).encode()).digest()
            if h not in seen and not trivial:
                seen.add(h)
                out['distinct'] += 1
                if len(out['samples']) < 3 and idx % 7 == part % 7:
                    out['samples'].append((name + ': ' + desc)[:600])
            if v:
                out['violations'].append(v)
                bad += 1
                if bad >= 3 or 'does not terminate' in v['what']:
                    break
    return out


def run_case(prop, name, seed, index, hints):
    load()
    for nm, fn, _, _ in MONITORS.get(prop, []):
        if nm == name:
            return one(prop, name, fn, seed, index, hints)[0]
    return None
