#!/opt/veriftools/pyvenv/bin/python
"""Decide one property on the current tree of /repo.

usage: check.py PROPERTY [--tier quick|thorough] | check.py --replay FILE

Exit 0: every obligation of the property was discharged (or, where the
verifier could not decide one, the bounded stand-in found nothing; the
evidence file says which).  Exit 1: VIOLATION line.  See DESIGN.md.
"""
import argparse
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import multiprocessing.connection

HERE = os.path.dirname(os.path.abspath(__file__))
# (elsewhere only while developing)
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('PYTHONHASHSEED', '0')
PY = '/opt/veriftools/pyvenv/bin/python'

TRUSTED = [
    'pyvc: the verification-condition generator in /verif/pyvc (interprets '
    'the AST of the functions in /repo; tested against CPython by '
    'pyvc_selftest.py)',
    'z3 (back end; cvc5 re-checks the queries in the thorough tier)',
    'models of the Python built-ins and standard library used by the code '
    '(pyvc/lib.py): random.Random as an arbitrary deterministic function of '
    'its state with the documented ranges, datetime, itertools, inspect, '
    'warnings',
    'floating point numbers treated as real numbers',
    'the inductive arguments built into pyvc/loops.py and specs/hoare.py '
    '(what a loop invariant of a given shape entails when it ends; the '
    'pigeonhole lemma)',
]


# clauses of a contract that are a property of their own: the others that use
# the contract do not hang on them
OWN_CLAUSES = ['positive weights first']


def goal_worker(conn, name, secs, smt):
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)

    def run():
        from pyvc import spec
        try:
            r = spec.run_goal(name, secs, smt)
        except BaseException as e:     # noqa
            r = spec.GoalResult(name)
            r.error = f'internal: {type(e).__name__}: {e}'
        conn.send(r)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    conn.close()


def run_parallel(jobs, workers, hard, total=10 ** 9):
    """jobs: list of (key, target, args); target(conn, *args) sends a result.

    Each job gets hard seconds, all together total.
    Returns {key: result or None}.
    """
    begin = time.time()
    ctx = mp.get_context('fork')
    todo = list(jobs)
    running = []
    out = {}
    while todo or running:
        while todo and len(running) < workers:
            key, target, args = todo.pop(0)
            if time.time() - begin > total:
                out[key] = None
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=target, args=(b,) + tuple(args))
            p.start()
            b.close()
            running.append((key, p, a, time.time()))
        ready = mp.connection.wait([r[2] for r in running], timeout=1.0)
        for r in list(running):
            key, p, conn, t0 = r
            done = False
            if conn in ready:
                try:
                    out[key] = conn.recv()
                except (EOFError, OSError):
                    out[key] = None
                done = True
            elif time.time() - t0 > hard or time.time() - begin > total:
                out[key] = None
                done = True
            if done:
                running.remove(r)
                p.join(0.5)
                if p.is_alive():
                    p.kill()
                    p.join()
                conn.close()
    return out


def monitor_worker(conn, prop, tier, seed, part, parts, hints):
    from monitors import run
    try:
        conn.send(run(prop, tier, seed, part, parts, hints))
    except BaseException as e:         # noqa
        import traceback
        conn.send({'error': traceback.format_exc()[-3000:], 'evals': 0,
                   'violations': [], 'distinct': 0, 'samples': []})
    conn.close()


def load_known():
    path = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith('#'):
                    out.append(json.loads(line))
    return out


def cvc5_check(item):
    name, smt = item
    try:
        p = subprocess.run(
            ['cvc5', '--lang=smt2', '--tlimit=20000'],
            input='(set-logic ALL)\n' + smt if '(set-logic' not in smt
            else smt, capture_output=True, text=True, timeout=40)
        return name, p.stdout.strip().split('\n')[0] if p.stdout else 'error'
    except subprocess.TimeoutExpired:
        return name, 'timeout'


def cvc5_worker(conn, items):
    conn.send([cvc5_check(i) for i in items])
    conn.close()


def replay(path):
    from pyvc.boot import boot
    boot()
    with open(path) as f:
        d = json.load(f)
    print(json.dumps(d, indent=1)[:6000])
    if d.get('case'):
        from monitors import run_case
        v = run_case(d['property'], d['case']['monitor'], d['case']['seed'],
                     d['case']['index'], d['case'].get('hints') or [])
        print('replayed:', 'violated: ' + v['what'] if v else 'holds now')
        return 1 if v else 0
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--self-test', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-monitor', action='store_true')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    if args.self_test:
        from pyvc.boot import boot
        boot()
        import pyvc_selftest
        return pyvc_selftest.main()
    if args.replay:
        return replay(args.replay)
    prop, tier = args.prop, args.tier
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    thorough = tier == 'thorough'
    from pyvc.boot import boot
    boot()
    workers = 8

    # --- obligations, in parallel with the monitors
    jobs = []
    names = []
    load_error = None
    goals = {}
    try:
        import specs
        specs.load()
        goals = sys.modules['pyvc.spec'].GOALS
    except Exception as e:            # the tree cannot be specified at all
        load_error = f'{type(e).__name__}: {e}'
    from pyvc import spec
    if not args.no_proof and not load_error:
        names = [n for n, g in goals.items() if prop in g.props]
        # contracts the callers are checked against belong to the property
        extra = contract_closure(goals, names)
        names += [n for n in extra if n not in names]
        for n in sorted(names, key=lambda n: -goals[n].secs):
            secs = goals[n].secs * (3 if thorough else 1)
            jobs.append((('goal', n), goal_worker, (n, secs, thorough)))
    mons = 4
    if not args.no_monitor:
        for k in range(mons):
            jobs.insert(k, (('mon', k), monitor_worker,
                            (prop, tier, seed, k, mons, [])))
    hard = 1500 if thorough else 400
    res = run_parallel(jobs, workers, hard, 10 ** 9 if thorough else 500)

    # contracts that were used besides those: if one of them can't be
    # discharged, what relies on it isn't proved (but isn't refuted either)
    support = []
    while True:
        used = {c for n in names if res.get(('goal', n))
                for c in res[('goal', n)].contracts}
        more = [g for c in sorted(used)
                for g in spec.CONTRACT_GOALS.get(c, []) if g not in names]
        if not more:
            break
        support += more
        names += more
        res.update(run_parallel(
            [(('goal', n), goal_worker, (n, goals[n].secs, thorough))
             for n in sorted(more, key=lambda n: -goals[n].secs)],
            workers, hard, 10 ** 9 if thorough else max(
                60, 600 - (time.time() - t0))))

    grs, undecided, failed, relied = [], [], [], False
    for n in names:
        r = res.get(('goal', n))
        if r is None:
            undecided.append((n, 'killed: out of time or memory'))
            continue
        grs.append(r)
        if r.error:
            undecided.append((n, r.error))
        for o in r.obligations:
            if o[1] == 'refuted' and (
                    n in support or prop not in goals[n].props and
                    any(c in o[0] for c in OWN_CLAUSES) or
                    'inv: ' in o[0] and ': the invariant after ' in n):
                # of the representation, not yet of the behaviour
                undecided.append((o[0], f'relied on, but refuted {o[4]}'))
                relied = True
            elif o[1] == 'refuted':
                failed.append((n, o, r))
            elif o[1] != 'proved':
                undecided.append((o[0], f'{o[1]} {o[4]}'))
    if load_error:
        undecided.append(('loading the specifications', load_error))
    # an obligation that is only refuted in a goal that did not finish does
    # not count as refuted: the summary it comes from may be incomplete
    mres = [r for k, r in res.items() if k[0] == 'mon' and r]
    mon_err = [r['error'] for r in mres if r.get('error')]
    mon_err += ['monitor did not finish' for k, r in res.items()
                if k[0] == 'mon' and r is None]
    viol = [v for r in mres for v in r['violations']]
    hints = sorted({v for g in grs for _, m, _ in g.models
                    for v in m.values()
                    if isinstance(v, int) and abs(v) < 10 ** 15})[:200]
    if (failed or relied) and not viol and not args.no_monitor:
        # replay the counter-models on the real code
        jobs = [(('mon', k), monitor_worker,
                 (prop, 'hunt', seed + 1000, k, 8, hints)) for k in range(8)]
        r2 = run_parallel(jobs, workers, 300, 10 ** 9 if thorough else max(
            60, 820 - (time.time() - t0)))
        for k, r in r2.items():
            if r:
                mres.append(r)
                viol += r['violations']

    known = [k for k in load_known() if k['property'] == prop
             and k['kind'] == 'finding']
    new, seen_known = [], {}
    for v in viol:
        for k in known:
            if k['key'] == v.get('key'):
                seen_known[k['key']] = k
                break
        else:
            new.append(v)

    # second back end
    cvc = {}
    if thorough and grs:
        items = [s for g in grs for s in g.smt][:4000]
        chunks = [items[i::workers] for i in range(workers)]
        r3 = run_parallel([(i, cvc5_worker, (c,))
                           for i, c in enumerate(chunks) if c], workers, 1800)
        for r in r3.values():
            for _, a in (r or []):
                cvc[a] = cvc.get(a, 0) + 1

    evidence(prop, tier, seed, t0, goals, names, grs, undecided, failed,
             mres, mon_err, new, cvc)

    for k in seen_known.values():
        print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    for g in grs if args.v else []:
        print(f'# {g.name}: {len(g.obligations)} obligations, '
              f'{g.secs:.1f}s', g.error or '')
    n_ob = sum(len(g.obligations) for g in grs)
    n_ok = sum(1 for g in grs for o in g.obligations if o[1] == 'proved')
    print(f'{prop}: {n_ok}/{n_ob} obligations discharged in {len(grs)} goals;'
          f' {sum(r["evals"] for r in mres)} concrete cases;'
          f' {time.time() - t0:.1f}s')
    for n, why in undecided[:20]:
        print(f'undecided: {n}: {str(why)[:300]} (bounded check stands in)')
    for e in mon_err:
        print('monitor error:', e)
    os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
    if new:
        v = new[0]
        path = os.path.relpath(os.path.join(EVIDENCE, 'replay',
                                            f'{prop}.json'), HERE)
        with open(os.path.join(HERE, path), 'w') as f:
            json.dump({'property': prop, 'what': v['what'], 'case': v,
                       'failed_obligations': [
                           [o[0], o[4], g.name] for _, o, g in failed][:20]},
                      f, indent=1)
        for _, o, _ in failed[:5]:
            print('failed obligation:', o[0], o[4])
        print('failing case:', v['what'][:2000])
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if failed:
        path = os.path.relpath(os.path.join(EVIDENCE, 'replay',
                                            f'{prop}.json'), HERE)
        with open(os.path.join(HERE, path), 'w') as f:
            json.dump({'property': prop,
                       'what': 'failed obligation: ' + failed[0][1][0],
                       'failed_obligations': [
                           {'obligation': o[0], 'detail': o[4],
                            'goal': g.name,
                            'models': [m[2] for m in g.models][:3]}
                           for _, o, g in failed][:20]}, f, indent=1)
        for _, o, _ in failed[:5]:
            print('failed obligation:', o[0], o[4])
        print(f'VIOLATION property={prop} replay={path} '
              'no-failing-input-found')
        return 1
    if mon_err:
        return 2
    return 0


def contract_closure(goals, names):
    """Goals that discharge the contracts the goals `names` may use."""
    from pyvc import spec
    out = []
    todo = list(names)
    seen = set(names)
    while todo:
        n = todo.pop()
        for q in goals[n].uses:
            for g in spec.CONTRACT_GOALS.get(q, []):
                if g not in seen:
                    seen.add(g)
                    out.append(g)
                    todo.append(g)
    return out


def evidence(prop, tier, seed, t0, goals, names, grs, undecided, failed,
             mres, mon_err, new, cvc):
    obs = [o for g in grs for o in g.obligations]
    backends = {}
    for o in obs:
        if o[1] == 'proved':
            backends[o[2]] = backends.get(o[2], 0) + 1
    fn = sorted({f for g in grs for f in g.functions})
    contracts = sorted({c for g in grs for c in g.contracts})
    from pyvc import spec
    disch = {c: [g for g in spec.CONTRACT_GOALS.get(c, []) if g in names]
             for c in contracts}
    assumptions = ASSUMPTIONS.get('*', []) + \
        ASSUMPTIONS.get(prop, []) + [
        f'contract of {c} assumed (not discharged in this run)'
        for c, g in disch.items() if not g]
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough')
        else 'quick', 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': len(obs),
            'discharged': sum(1 for o in obs if o[1] == 'proved'),
            'checker_cmd': f'{PY} check.py {prop} --no-monitor',
            'trusted_base': TRUSTED,
            'goals': {g.name: {'obligations': len(g.obligations),
                               'discharged': sum(1 for o in g.obligations
                                                 if o[1] == 'proved'),
                               'paths': g.paths,
                               'seconds': round(g.secs, 2),
                               'error': g.error} for g in grs},
            'functions_under_contract': fn,
            'callee_contracts': {c: g or 'assumed' for c, g in disch.items()},
            'library_models_used': sorted({x for g in grs for x in g.lib}),
            'back_ends': backends,
            'solver_queries': sum(g.queries for g in grs),
            'solver_seconds': round(sum(g.solver_time for g in grs), 2),
            'undecided': [list(map(str, u)) for u in undecided][:50],
            'refuted': [[o[0], o[4]] for _, o, _ in failed][:50],
            'bounded_stand_in': bool(undecided),
            'bounded_check': {
                'label': 'bounded: random and boundary cases run on the real '
                         'code (replay of counterexamples; stand-in for '
                         'obligations listed as undecided)',
                'evaluations': sum(r['evals'] for r in mres),
                'distinct_nontrivial': sum(r['distinct'] for r in mres),
                'samples': [s for r in mres for s in r['samples']][:6],
                'errors': mon_err,
            },
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new) + (1 if failed and not new else 0),
    }
    if cvc:
        ev['coverage']['second_back_end_cvc5'] = cvc
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


ASSUMPTIONS = {}
try:
    with open(os.path.join(HERE, 'assumptions.json')) as _f:
        ASSUMPTIONS = json.load(_f)
except OSError:
    pass

if __name__ == '__main__':
    sys.exit(main())
