#!/usr/bin/python3
"""Development tool: turn bug definitions (bugs_*.py) into /verif/seeded/<id>.

Each is applied to a scratch copy of /repo; it is kept if the stable tests
still pass with it and its demonstration tells the two trees apart.
usage: plant.py [ID...]
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
PY = '/opt/venv/bin/python'
HEAD = '''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
sys.dont_write_bytecode = True
'''
DEMO = '''#!/bin/bash
# cwd: the repository
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True,
                          timeout=400)


def one(bug, base):
    bid, prop, path, edits, needs, breaks, demo = bug
    if isinstance(edits, tuple):
        edits = [edits]
    tmp = tempfile.mkdtemp(prefix='plant_')
    repo = os.path.join(tmp, 'repo')
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        for e in edits:
            p, old, new = e if len(e) == 3 else (path,) + e
            f = os.path.join(repo, 'src/fauxdoc', p)
            s = open(f).read()
            if s.count(old) != 1:
                return bid, f'old text occurs {s.count(old)} times'
            open(f, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], repo).stdout
        d = os.path.join(tmp, 'out')
        os.mkdir(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(HEAD + textwrap.dedent(demo).lstrip())
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks':
                   breaks}, open(d + '/meta.json', 'w'), indent=1)
        a = sh(['bash', d + '/demo.sh'], '/repo')
        if a.returncode:
            return bid, 'demo fails on the clean tree: ' + a.stderr[-600:]
        b = sh(['bash', d + '/demo.sh'], repo)
        if not b.returncode:
            return bid, 'demo passes with the bug'
        x = os.path.join(tmp, 'j.xml')
        sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
            '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests'], repo,
           PYTHONPATH=repo + '/src', PYTHONPYCACHEPREFIX='/nonexistent')
        bad = [c.get('classname') + '::' + c.get('name')
               for c in ET.parse(x).iter('testcase')
               if any(k.tag in ('failure', 'error') for k in c)]
        bad = [t for t in bad if t in base]
        if bad:
            return bid, f'{len(bad)} tests fail: {bad[:3]}'
        out = os.path.join(SEEDED, bid)
        if os.path.exists(out):
            shutil.rmtree(out)
        shutil.copytree(d, out)
        return bid, 'kept: ' + (b.stderr.strip().split('\n') or [''])[-1][:100]
    finally:
        shutil.rmtree(tmp)


def main():
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    bugs = []
    for f in sorted(glob.glob(HERE + '/bugs_*.py')):
        ns = {}
        exec(open(f).read(), ns)
        bugs += ns['BUGS']
    ids = [b[0] for b in bugs]
    assert len(ids) == len(set(ids)), 'ids'
    if sys.argv[1:]:
        bugs = [b for b in bugs if any(b[0].startswith(a)
                                       for a in sys.argv[1:])]
    else:
        bugs = [b for b in bugs if not os.path.exists(f'{SEEDED}/{b[0]}')]
    with ThreadPoolExecutor(8) as ex:
        for bid, msg in ex.map(lambda b: one(b, base), bugs):
            print(f'{bid:28s} {msg}')


main()
