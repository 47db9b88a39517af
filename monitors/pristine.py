"""What a sequence of uses does in a process that did nothing before.

A server process imports the code and forks for every request, so that no
state of modules or classes is left over from other cases.
"""
import os
import pickle
import random
import struct
import subprocess
import sys
import traceback

SERVER = r'''
import sys
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from pyvc.boot import boot
boot()
from monitors import pristine
pristine.serve()
'''


def step(o, spec, op, x):
    """One operation; the comparable outcome of those that emit."""
    from .gen import choice, frozen, use
    top = spec[0]
    if op == 'call':
        return frozen(use(o, x))
    if op == 'reset':
        (o.reset_fields if top == 'Schema' else o.reset)()
    elif op == 'seed':
        if top == 'Schema':
            o.seed_fields(x)
        elif hasattr(o, 'seed'):
            o.seed(x)
    elif op == 'poke':
        # default parts are the object's own
        for nm, val in (('sep_emitter', x), ('repeat_emitter', 2),
                        ('gate_emitter', False)):
            p = getattr(o, nm, None)
            if type(p).__name__ == 'Static':
                p.value = val
    elif isinstance(o, choice.Choice):
        if op == 'weights':
            n = len(o.items)
            o.weights = {None: None, 'w': list(range(1, n + 1)),
                         'u': [1] * n}[x]
        elif op == 'replace':
            o.replace = x
        elif op == 'roac':
            o.replace_only_after_call = x
    return None


def scenario(uses):
    """Make and use objects one after another; outcomes of the last."""
    from .gen import build
    out = None
    for spec, plan in uses[:-1]:
        try:
            o = build(spec)
            for op, x in plan:
                step(o, spec, op, x)
        except Exception:
            pass
    for spec, plan in uses[-1:]:
        o = build(spec)
        out = [step(o, spec, op, x) for op, x in plan]
    return out


def _read(f, n):
    b = b''
    while len(b) < n:
        c = f.read(n - len(b))
        if not c:
            return None
        b += c
    return b


def _receive(f):
    h = _read(f, 4)
    if h is None:
        return None
    return _read(f, struct.unpack('>I', h)[0])


def _send(f, b):
    f.write(struct.pack('>I', len(b)) + b)
    f.flush()


def serve():
    from . import gen  # noqa: import before any fork
    inp, out = sys.stdin.buffer, sys.stdout.buffer
    while True:
        req = _receive(inp)
        if req is None:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    res = repr(scenario(pickle.loads(req)))
                except Exception:
                    res = 'raised ' + traceback.format_exc(limit=-3)
                with os.fdopen(w, 'wb') as f:
                    f.write(res.encode('utf-8', 'backslashreplace'))
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            res = f.read()
        os.waitpid(pid, 0)
        _send(out, res)


_server = []


def isolated(uses):
    """scenario(uses) in a process of its own, as a string."""
    if not _server:
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        _server.append(subprocess.Popen(
            [sys.executable, '-c', SERVER, root], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, cwd=root))
    p = _server[0]
    done = False
    try:
        _send(p.stdin, pickle.dumps(uses))
        res = _receive(p.stdout)
        done = res is not None
    finally:
        if not done:        # interrupted: start afresh
            p.kill()
            p.wait()
            _server.clear()
    if not done:
        raise RuntimeError('no answer')
    return res.decode('utf-8')


LIKE = {1: [True, 1.0, 2], 0: [False, 0.0, 1], True: [1, False]}


def leaf(r, x):
    if isinstance(x, bool) or x in (0, 1) and isinstance(x, int):
        return r.choice([True, False, 0, 1, 1.0, 2])
    if isinstance(x, int):
        return r.choice([float(x) if abs(x) < 2 ** 50 else x, x + 1,
                         x + 1, abs(x - 1)])
    if isinstance(x, float):
        return r.choice([x / 2, x * 2, x + 0.25, 0.001, 0.3])
    if isinstance(x, str):
        return r.choice(['q', x + 'x', x[:1]])
    return r.choice([None, 'q', 0])


def neighbour(r, spec):
    """A spec that differs in one place (or none)."""
    paths = []

    def walk(x, path):
        if isinstance(x, (tuple, list)):
            for k, y in enumerate(x):
                if k == 0 and isinstance(x, tuple) and \
                        isinstance(y, str) and y[:1].isalpha() and \
                        len(y) > 2:
                    continue
                walk(y, path + (k,))
        elif isinstance(x, dict):
            for k, y in x.items():
                walk(y, path + (k,))
        else:
            paths.append(path)
    walk(spec, ())
    if not paths:
        return spec
    # other parameters as often as the many items
    parent = r.choice(sorted({p[:-1] for p in paths}, key=str))
    path = r.choice([p for p in paths if p[:-1] == parent])

    def put(x, path):
        if not path:
            return leaf(r, x)
        if isinstance(x, dict):
            return {k: put(y, path[1:]) if k == path[0] else y
                    for k, y in x.items()}
        return type(x)(put(y, path[1:]) if k == path[0] else y
                       for k, y in enumerate(x))
    return put(spec, path)
