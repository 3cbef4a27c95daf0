"""Specifications against CPython: every functional contract's specified result, evaluated at sampled inputs, is
compared with what the real code returns and leaves behind.  A difference means that the executor, the term library
or a specification misrepresents the code.      VERIF_SEED=3 python3-vt tools/xcheck.py [name ...]"""
import glob
import importlib
import os
import sys
import time
from concurrent.futures import ProcessPoolExecutor, as_completed
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pv import contract as C
for f in sorted(glob.glob(os.path.join(HERE, 'pv', 'contracts_*.py'))):
    importlib.import_module('pv.' + os.path.basename(f)[:-3])
from pv.interp import Interp
from pv.prover import Prover
C.REPO[0] = REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1'))


def one(x):
    n, cases = x
    c, out = C.REG[n], []
    for case in cases:
        t = time.time()
        I = Interp(REPO)
        I.used_contracts = set()
        I.want_plot = c.fn.startswith('weac.plot:')
        I.summaries = C.summaries()
        W = C.World(I)
        P = Prover(I, W.samplers, SEED)
        I.prover = P
        r = {'runs': 0, 'ob': None}
        why = ''
        try:
            with C.alarm(60):
                C.conform(c, I, W, P, dict(case), r)
        except (Exception, C.Late) as e:
            why = f'{type(e).__name__}: {str(e)[:100]}'
        out.append((n, dict(case), r['runs'], r['ob'] and r['ob'].detail[:200], why, round(time.time() - t, 1)))
    return out


if __name__ == '__main__':
    a = sys.argv[1:]
    names = [n for n, c in C.REG.items() if type(c).check is C.Contract.check and (not a or any(x in n for x in a))]
    runs = bad = cases = 0
    with ProcessPoolExecutor(8) as ex:
        for f in as_completed([ex.submit(one, (n, u)) for n in names for u in C.units(n)]):
            for n, case, k, diff, why, s in f.result():
                cases += 1
                runs += k
                bad += diff is not None
                if diff or why or not k:
                    print(n, case, f'{k} runs', diff or '', why, f'{s} s', flush=True)
    print(f'{len(names)} contracts, {cases} cases, {runs} runs of the real code, {bad} differences')
    sys.exit(1 if bad else 0)
