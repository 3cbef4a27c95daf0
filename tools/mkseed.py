"""Plants a bug: python3 tools/mkseed.py FILE.py  (defines ID, PROP, FILE, OLD, NEW, NEEDS, BREAKS, DEMO)
Works on a scratch copy; keeps seeded/<id>/ only if the stable tests pass with the change and the
demonstration passes without and fails with it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def run(cmd, cwd, tree):
    env = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1')
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=300)


def plant(g):
    tmp = tempfile.mkdtemp(prefix='mkseed')
    try:
        tree = os.path.join(tmp, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', tree], check=True)
        out = os.path.join(HERE, 'seeded', g['ID'])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, 'demo.py'), 'w') as f:
            f.write(g['DEMO'].lstrip())
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        r0 = run(['bash', os.path.join(out, 'demo.sh')], tree, tree)
        edits = g.get('EDITS') or [(g['FILE'], g['OLD'], g['NEW'])]
        for fn, old, new in edits:
            p = os.path.join(tree, fn)
            s = open(p).read()
            assert s.count(old) == 1, (g['ID'], fn, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        d = subprocess.run(['git', 'diff'], cwd=tree, capture_output=True, text=True).stdout
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(d)
        r1 = run(['bash', os.path.join(out, 'demo.sh')], tree, tree)
        t = run([PY, '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '--timeout=40', '--disable-warnings',
                 '--continue-on-collection-errors', '-rA'], tree, tree)
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = {l.split()[1] for l in t.stdout.splitlines() if l.startswith('PASSED')}
        passed = {p.replace('.py::', '.').replace('/', '.').replace('.Test', '.Test') for p in passed}
        miss = [b for b in base if b not in passed]
        json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        ok = r0.returncode == 0 and r1.returncode != 0 and not miss
        print(g['ID'], 'ok' if ok else 'REJECTED', r0.returncode, r1.returncode, 'missing', miss[:3], (r1.stdout + r1.stderr)[-150:].replace('\n', ' | '))
        if not ok:
            print(r0.stdout[-300:], r0.stderr[-400:])
            shutil.rmtree(out)
        return ok
    finally:
        shutil.rmtree(tmp)


for fn in sys.argv[1:]:
    src = open(fn).read()
    for part in src.split('#----\n'):
        if part.strip():
            g = {}
            exec(part, g)
            plant(g)
