#!/usr/bin/python3
"""Development tool: run the check of each seeded bug's property against a
scratch copy of /repo with the bug.  usage: detect.py [ID-prefix...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/veriftools/pyvenv/bin/python'


def one(bid):
    d = f'{VERIF}/seeded/{bid}'
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='detect_')
    t = time.time()
    try:
        shutil.copytree('/repo', tmp + '/repo', symlinks=True)
        p = subprocess.run(['git', 'apply', d + '/patch.diff'],
                           cwd=tmp + '/repo', capture_output=True, text=True)
        if p.returncode:
            return bid, prop, 'patch does not apply', 0
        p = subprocess.run([PY, 'check.py', prop], cwd=VERIF,
                           env=dict(os.environ, FAUXDOC_REPO=tmp + '/repo',
                                    VERIF_EVIDENCE=tmp), timeout=1200,
                           capture_output=True, text=True)
        out = p.stdout.strip().split('\n')
        v = [x for x in out if x.startswith('VIOLATION')]
        if p.returncode == 1 and v:
            s = 'CAUGHT' + (' (no input)' if 'no-failing' in v[0] else '')
            ob = [x for x in out if x.startswith('failed obligation')]
            s += ' | ' + (ob[0] if ob else 'monitor only; ' + ' '.join(
                x for x in out if x.startswith('undecided'))[:150])[:150]
        else:
            s = f'MISSED rc={p.returncode} ' + ' | '.join(out[-3:])[:300] + \
                p.stderr[-300:]
        return bid, prop, s, time.time() - t
    finally:
        shutil.rmtree(tmp)


ids = sorted(os.listdir(f'{VERIF}/seeded'))
if sys.argv[1:]:
    ids = [i for i in ids if any(i.startswith(a) for a in sys.argv[1:])]
with ThreadPoolExecutor(2) as ex:
    for bid, prop, s, secs in ex.map(one, ids):
        print(f'{bid:26s} {prop} {secs:4.0f}s {s}', flush=True)
