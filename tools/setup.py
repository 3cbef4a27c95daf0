"""Nothing is compiled: verifies that the interpreters, libraries and the checked tree are there."""
import importlib
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for m in ('z3', 'mpmath', 'sympy'):
    importlib.import_module(m)
repo = os.environ.get('VERIF_REPO', '/repo')
subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy, scipy, matplotlib, weac; print(numpy.__version__, weac.__file__)'],
               check=True, env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1'))
for d in ('evidence', 'replay'):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
print('ready', sys.version.split()[0])
