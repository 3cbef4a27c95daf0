"""run contracts whose name contains an argument: tools/rc.py [-p C03] [name ...]"""
import glob
import importlib
import os
import sys
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, as_completed
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import contract as C
for f in sorted(glob.glob(os.path.dirname(C.__file__) + '/contracts_*.py')):
    importlib.import_module('pv.' + os.path.basename(f)[:-3])


def part(x):
    return C.run_contract(x[0], os.environ.get('REPO', '/repo'), 1, x[1])


def show(n, r):
    o = [f"{n} {r['status']} {r['why']} {dict(Counter(o.status for o in r['obs']))} uses {r['uses']} inl {r['inlined']} {r['secs']:.2f}s {r['z3']}"]
    for ob in r['obs']:
        if ob.status != 'proved':
            o.append(f'     {ob.name} {ob.status} {ob.detail[:int(os.environ.get("DL", "300"))]}')
    return '\n'.join(o)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['-p']:
        names = [n for n, c in C.REG.items() if a[1] in c.props]
    elif a[:1] == ['-x']:
        names = a[1:]
    else:
        names = [n for n in C.REG if n not in os.environ.get('NOT', '').split() and (not a or any(x in n for x in a))]
    with ProcessPoolExecutor(min(8, sum(len(C.units(n)) for n in names))) as ex:
        fs = {ex.submit(part, (n, u)): n for n in sorted(names, key=lambda n: -C.REG[n].cost) for u in C.units(n)}
        got = {}
        for f in as_completed(fs):
            n = fs[f]
            got.setdefault(n, []).append(f.result())
            if len(got[n]) == len(C.units(n)):
                print(show(n, C.merge(got[n])), flush=True)
