"""Tests of the verifier itself: it must agree with CPython.

Every function of selftest/pyvc_cases.py is called by the verifier with lists
of unknown length and unknown integers about which it is only *assumed* that
they equal given inputs; that the outcome is the one of CPython must be
proved, and that it is another one must not be.
"""
import os
import sys
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))


def setup():
    sys.path.insert(0, os.path.join(HERE, 'selftest'))
    from pyvc.boot import boot
    boot()
    from pyvc import interp
    interp.OWN.add('pyvc_cases')
    # the functions that stand for sums, counts and recurrences
    import z3
    new = z3.Function

    def function(name, *sorts):
        f = new(name, *sorts)
        FUNCTIONS[str(name)] = f
        return f
    z3.Function = function


FUNCTIONS = {}


def step_by_step(n):
    """Have facts about sums and recurrences used at every point."""
    import itertools
    from pyvc import core
    for name in list(core.RULES):
        f = FUNCTIONS.get(name)
        if f is None or f.arity() > 2 or any(
                f.domain(k) != core.Int for k in range(f.arity())):
            continue
        for at in itertools.product(range(n + 2), repeat=f.arity()):
            t = f(*at)
            core.assume(t == core.plain('at', t.sort()))


def lift(x):
    """The verifier's form of a value of CPython."""
    from pyvc.spec import SList, SDict, Lit, SSeq
    if isinstance(x, list):
        return SList(Lit([lift(v) for v in x]))
    if isinstance(x, tuple):
        return tuple(lift(v) for v in x)
    if isinstance(x, dict):
        return SDict({k: lift(v) for k, v in x.items()})
    return x


def symbolic(x):
    from pyvc.spec import any_seq, assume, SList, plain, Int, zi
    if isinstance(x, list):
        s = any_seq('xs', sort=Int)
        assume(zi(s.n) == len(x))
        for k, v in enumerate(x):
            assume(s.get(k) == v)
        return SList(s)
    if isinstance(x, int):
        k = plain('k', Int)
        assume(k == x)
        return k
    return x


def different(x):
    """Another value than x."""
    if isinstance(x, list):
        return x + [0]
    if isinstance(x, tuple):
        return tuple(different(v) for v in x) if x else (1,)
    if isinstance(x, bool):
        return not x
    if isinstance(x, (int, float)):
        return x + 1
    if isinstance(x, str):
        return x + '?'
    if isinstance(x, dict):
        return {**x, 'another': 1}
    return 1


def one(number):
    """(name, problems, unsupported, obligations)"""
    import copy
    import pyvc_cases
    from pyvc import spec, core
    f, inputs = pyvc_cases.CASES[number]
    problems, gaps, count = [], [], 0
    for j, args in enumerate(inputs):
        want = raised = None
        try:
            want = f(*copy.deepcopy(args))
        except Exception as e:
            raised = type(e)
        seen = []
        wrong = []

        def run():
            a = [symbolic(x) for x in args]
            r, e = spec.attempt(lambda: spec.call(f, a, {}))
            step_by_step(max([len(x) for x in args if isinstance(x, list)],
                             default=1))
            if os.environ.get('DEBUG'):
                print('PATH', r, e, core.C.pc, core.feasible(
                    core.z3.BoolVal(True)), core.valid(core.z3.BoolVal(False)))
            if not core.feasible(core.z3.BoolVal(True)):
                return
            seen.append(1)
            if raised is not None:
                spec.prove('exception', e is not None and e.cls is raised,
                           repr(e))
                return
            spec.prove('no exception', e is None, repr(e))
            if e is None:
                spec.prove_eq('value', r, lift(want))
                n = len(core.C.obligations)
                spec.prove_eq('other', r, lift(different(want)))
                obs = core.C.obligations[n:]
                del core.C.obligations[n:]
                wrong.append(bool(obs) and
                             all(o.status == 'proved' for o in obs))
        name = f'{f.__name__}{args}'
        spec.GOALS[name] = spec.Goal(name, run, (), (), 300, 20, ())
        r = spec.run_goal(name)
        del spec.GOALS[name]
        if r.error and 'vacuous' not in r.error:
            gaps.append(f'{name}: {r.error}')
            continue
        count += len(r.obligations)
        for o in r.failed:
            if o[1] == 'refuted' and f.__name__ not in pyvc_cases.WEAK:
                problems.append(f'{name}: {o[0]} {o[1]} {o[4]} '
                                f'(CPython: {want!r} {raised})')
            else:
                gaps.append(f'{name}: {o[0]} {o[1]} {o[4]}')
        if not seen:
            problems.append(f'{name}: no path')
        if any(wrong):
            problems.append(f'{name}: a wrong value is proved')
    return f.__name__, problems, gaps, count


def main(verbose=False, only=()):
    setup()
    import pyvc_cases
    numbers = [i for i, c in enumerate(pyvc_cases.CASES)
               if not only or c[0].__name__ in only]
    bad = total = skipped = 0
    with ProcessPoolExecutor(max_workers=os.cpu_count(),
                             initializer=setup) as ex:
        for name, problems, gaps, count in ex.map(one, numbers):
            total += count
            bad += bool(problems)
            skipped += bool(gaps)
            for p in problems:
                print('WRONG', p)
            if verbose:
                for p in gaps:
                    print('undecided', p)
    print(f'self-test: {len(numbers)} functions, {total} obligations proved '
          f'equal to CPython, {skipped} functions undecided for some input, '
          f'{bad} wrong')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(True, sys.argv[1:]))
