"""run oracles (or replay one case) against the real code; JSON on stdout"""
import json
import os
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from oracles import base, load
from oracles.base import Bad, REG


SCALE = int(os.environ.get('ORACLE_SCALE', '6'))


def one(cls, case):
    try:
        cls.run(json.loads(json.dumps(case)))
        return None
    except Bad as e:
        return str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        own = [t for t in tb if os.path.realpath(t.filename).startswith(os.path.realpath(base.REPO) + '/weac')]
        last = tb[-1]
        if own:
            return f'unexpected {type(e).__name__}: {e} (in {own[-1].name}, line {own[-1].lineno})'
        return f'!oracle error {type(e).__name__}: {e} ({last.filename}:{last.lineno})'


def replay():
    v = json.load(sys.stdin if sys.argv[2] == '-' else open(sys.argv[2]))
    load(v['property'])
    cls = next(c for c in REG[v['property']] if c.oname == v['oracle'])
    print('@@' + json.dumps({'what': one(cls, v['case'])}))


def main():
    if sys.argv[1] == '--case':
        return replay()
    prop, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    part, parts = (int(sys.argv[4]), int(sys.argv[5])) if len(sys.argv) > 5 else (0, 1)
    budget = float(os.environ.get('ORACLE_BUDGET', '90' if tier == 'quick' else '700'))
    load(prop)
    out = {'prop': prop, 'fail': [], 'count': {}, 'samples': [], 'errors': [], 'truncated': []}
    t0 = time.time()
    for oi, cls in enumerate(REG.get(prop, [])):
        n = cls.n*SCALE if tier == 'quick' else max(cls.nt, cls.n*8*SCALE)
        cnt, t1 = 0, time.time()
        for k in range(part, n, parts):
            if time.time() - t0 > budget*(oi + 1)/len(REG[prop]):
                out['truncated'].append(f'{cls.oname}: {cnt} of {n//parts}')
                break
            rng = np.random.default_rng([seed, int(prop[1:]), oi, k])
            case = json.loads(json.dumps(cls.gen(rng, k)))
            r = one(cls, case)
            cnt += 1
            if r is not None and r.startswith('!'):
                out['errors'].append(f'{cls.oname}: {r}')
            elif r is not None:
                if len(out['fail']) < 8:
                    out['fail'].append({'oracle': cls.oname, 'case': case, 'what': r})
                if sum(f['oracle'] == cls.oname for f in out['fail']) >= 3:
                    break
            if k == part and part == 0:
                out['samples'].append({'oracle': cls.oname, 'case': case})
        out['count'][cls.oname] = cnt
    out['secs'] = time.time() - t0
    print('@@' + json.dumps(out))


if __name__ == '__main__':
    main()
