"""Runs the property's check against every planted bug on a scratch copy: python3 tools/seedcheck.py [id ...] [--all-props]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
for i in ids:
    d = os.path.join(HERE, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', tmp + '/repo'], check=True)
        a = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=tmp + '/repo', capture_output=True, text=True)
        if a.returncode:
            print(i, 'patch does not apply', a.stderr[:200])
            continue
        r = subprocess.run(['python3-vt', 'check.py', prop], cwd=HERE, env=dict(os.environ, VERIF_REPO=tmp + '/repo', VERIF_SEED='1'),
                           capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        kinds = [json.load(open(os.path.join(HERE, l.split('replay=')[1].split()[0])))['kind'] for l in v]
        print(f'{i} {prop} exit {r.returncode} {"CAUGHT" if v and r.returncode == 1 else "MISSED"} by {kinds}', flush=True)
        if '-v' in sys.argv:
            print(r.stdout[-1500:])
    finally:
        shutil.rmtree(tmp)
