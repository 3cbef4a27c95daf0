"""What the contracts report about a tree: VERIF_REPO=/tmp/tree python3-vt tools/refcheck.py [name ...]
Runs every contract once and prints what a check would report (alarms) and what it leaves undecided."""
import os
import sys
from concurrent.futures import ProcessPoolExecutor, as_completed
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
C = check.load()
REPO = os.environ.get('VERIF_REPO', '/repo')


def part(x):
    return C.run_contract(x[0], REPO, 1, x[1])


if __name__ == '__main__':
    a = sys.argv[1:]
    names = [n for n in C.REG if not a or any(x in n for x in a)]
    changed = check.code_changed(C)
    with ProcessPoolExecutor(8) as ex:
        fs = {ex.submit(part, (n, u)): n for n in sorted(names, key=lambda n: -C.REG[n].cost) for u in C.units(n)}
        for f in as_completed(fs):
            n, r = fs[f], f.result()
            for o in r['obs']:
                if o.status == 'proved':
                    continue
                k = ('VIOLATED' if o.status == 'violated' else 'REFUTED' if o.status == 'refuted' else
                     'UNPROVED' if 'real code agrees' not in o.detail and changed(r) else 'quiet')
                print(k, o.name, o.detail[:200], flush=True)
            if r['status'] != 'ok':
                print('UNDECIDED', n, r['why'][:200], f"[{r['sampled']} sampled runs]", flush=True)
