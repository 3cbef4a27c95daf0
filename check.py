"""Decides one property: python3-vt check.py C07      (VERIF_SEED, VERIF_TIER from the environment)
   replays a violation:  python3-vt check.py --replay replay/C07-1.json"""
import glob
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
ORACLE_ENV = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VERIF_REPO=REPO,
                  PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')


def load():
    from pv import contract as C
    for f in sorted(glob.glob(os.path.join(HERE, 'pv', 'contracts_*.py'))):
        importlib.import_module('pv.' + os.path.basename(f)[:-3])
    return C


# ------------------------------------------------------------------ contracts
def child(conn, name, seed, cases):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    try:
        from pv import contract as C
        r = C.run_contract(name, REPO, seed, cases)
        r['obs'] = [dict(o.d(), replay=o.replay) for o in r['obs']]
    except BaseException as e:
        r = undone(name, f'{type(e).__name__}: {str(e)[:200]}', 0)
    conn.send(r)
    conn.close()


def undone(name, why, secs):
    from pv import contract as C
    return {'contract': name, 'fn': C.REG[name].fn, 'props': list(C.REG[name].props), 'obs': [], 'uses': [], 'inlined': [],
            'status': 'unsupported', 'why': why, 'secs': secs, 'z3': {}}


def run_contracts(C, roots, seed, jobs, limit, total):
    """roots and, recursively, every contract they rely on at call sites"""
    ctx = mp.get_context('fork')
    t0 = time.time()
    seen, live, done = set(roots), {}, {}
    order = {n: k for k, n in enumerate(C.REG)}
    expand = lambda names: [(n, k, u) for n in sorted(names, key=lambda n: -getattr(C.REG[n], 'cost', 0)) for k, u in enumerate(C.units(n))]
    todo = expand(roots)
    while todo or live:
        while todo and len(live) < jobs:
            n, k, u = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, n, seed, u))
            p.start()
            b.close()
            live[n, k] = (p, a, time.time())
        mp.connection.wait([a for _, a, _ in live.values()], .5)
        late = time.time() - t0 > total
        for (n, k), (p, a, t) in list(live.items()):
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                    p.join(1)
                    why = f'prover process ended ({p.exitcode})'
            elif time.time() - t > limit or late:
                why = f'time limit {time.time() - t:.0f} s'
            elif not p.is_alive() and not a.poll():
                why = f'prover process ended ({p.exitcode})'
            else:
                continue
            if r is None:
                r = undone(n, why, time.time() - t)
            p.kill()
            p.join()
            a.close()
            del live[n, k]
            done.setdefault(n, {})[k] = r
            new = [u for u in r['uses'] if u not in seen]
            seen |= set(new)
            todo += expand(new)
        if late:
            for n, k, u in todo:
                done.setdefault(n, {})[k] = undone(n, 'total time limit', 0)
            todo = []
    done = {n: C.merge([q[k] for k in sorted(q)]) for n, q in done.items()}
    return {n: done[n] for n in sorted(done, key=lambda n: order.get(n, 0))}


# -------------------------------------------------------------------- oracles
def start_oracles(prop, seed, tier, parts):
    return [subprocess.Popen([PY, os.path.join(HERE, 'oracles', 'run.py'), prop, str(seed), tier, str(k), str(parts)],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ORACLE_ENV, cwd=HERE)
            for k in range(parts)]


def collect(procs, limit):
    out = {'fail': [], 'count': {}, 'samples': [], 'errors': [], 'truncated': [], 'distinct': 0}
    end = time.time() + limit
    for p in procs:
        try:
            so, se = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            out['truncated'].append('oracle process stopped at its time limit')
            continue
        i = so.rfind('@@{')
        if i < 0:
            out['errors'].append('oracle process: ' + se[-600:])
            continue
        d = json.loads(so[i + 2:])
        for k in ('fail', 'samples', 'errors', 'truncated'):
            out[k] += d[k]
        out['distinct'] += d.get('distinct', 0)
        for k, v in d['count'].items():
            out['count'][k] = out['count'].get(k, 0) + v
    return out


def one_case(prop, oracle, case):
    p = subprocess.run([PY, os.path.join(HERE, 'oracles', 'run.py'), '--case', '-'], input=json.dumps(
        {'property': prop, 'oracle': oracle, 'case': case}), text=True, capture_output=True, env=ORACLE_ENV, cwd=HERE)
    i = p.stdout.rfind('@@')
    return json.loads(p.stdout[i + 2:]) if i >= 0 else {'what': '!' + p.stderr[-400:]}


def known(prop):
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return [k for k in json.load(f)['findings'] if k['property'] == prop and k['status'] == 'known']
    except FileNotFoundError:
        return []


def code_changed(C):
    """whether the code a contract's obligations are generated from differs from the tree they were all discharged on"""
    try:
        with open(os.path.join(HERE, 'baseline.json')) as f:
            base = json.load(f)
        now = C.fingerprints(REPO)
    except (OSError, SyntaxError):
        return lambda r: False
    return lambda r: any(base.get(k) != h or base.get(k.split(':')[0]) != now.get(k.split(':')[0]) for k, h in r.get('ran', {}).items())


# ----------------------------------------------------------------------- main
def main(prop):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' or '--thorough' in sys.argv else 'quick'
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        title = {p['id']: p for p in map(json.loads, f)}[prop]['title']
    procs = start_oracles(prop, seed, tier, 3 if tier == 'quick' else 6)
    C = load()
    own = lambda ob, c: C.owns(prop, ob, c)
    roots = [n for n, c in C.REG.items() if prop in c.props or C.family(prop, c)]
    res = run_contracts(C, roots, seed, 6 if tier == 'quick' else 8, 240 if tier == 'quick' else 700, 480 if tier == 'quick' else 3000)
    orc = collect(procs, 300 if tier == 'quick' else 800)

    viol, notes, unproved = [], [], []
    changed = code_changed(C)
    nob = ndis = 0
    by, z3t, functions, assumed = {}, 0.0, [], []
    for n, r in res.items():
        c = C.REG[n]
        z3t += r['z3'].get('time', 0)
        st = {'proved': 0, 'unknown': 0, 'refuted': 0, 'violated': 0}
        mine = n in roots
        for o in r['obs']:
            if prop in C.FILTERED and mine and not own(o['name'], c):
                continue
            nob += 1
            st[o['status']] += 1
            if o['status'] == 'proved':
                ndis += 1
                by[o['by'] or 'normal form'] = by.get(o['by'] or 'normal form', 0) + 1
                continue
            unproved.append({'contract': n, **{k: v for k, v in o.items() if k != 'replay'}})
            if mine and own(o['name'], c):
                if o['status'] == 'violated':
                    viol.append({'kind': 'contract', 'property': prop, 'contract': n, 'function': r['fn'], 'obligation': o['name'],
                                 'what': o.get('detail', ''), 'case': o['replay']})
                elif o['status'] == 'refuted' or o['status'] == 'unknown' and 'real code agrees' not in o.get('detail', '') and changed(r):
                    viol.append({'kind': 'obligation', 'property': prop, 'contract': n, 'function': r['fn'], 'obligation': o['name'],
                                 'what': o.get('detail', '')})
        if r['status'] != 'ok':
            nob += 1
            unproved.append({'contract': n, 'name': n, 'status': 'not decided', 'detail': r['why']})
        functions.append({'contract': n, 'function': r['fn'], 'obligations': sum(st.values()), 'discharged': st['proved'],
                          **({'sampled_runs_where_undecided': r['sampled']} if r.get('sampled') else {}),
                          'relies_on': r['uses'], 'inlined': r['inlined'], 's': round(r['secs'], 2),
                          **({'not_decided': r['why']} if r['status'] != 'ok' else {})})
        assumed += [a for a in c.assumes if a not in assumed]
    for f in orc['fail']:
        viol.append({'kind': 'oracle', 'property': prop, **f})
    for k in known(prop):
        r = one_case(prop, k['oracle'], k['case'])
        if r['what']:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    viol = [v for v in viol if not any(k.get('match') and k['match'] in v['what'] and k.get('where', '') in v['what'] for k in known(prop))]

    if not roots or not nob:
        notes.append('no contract obligation')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    for f in glob.glob(os.path.join(HERE, 'replay', prop + '-*.json')):
        os.unlink(f)
    rank = {'contract': 0, 'oracle': 1, 'obligation': 2}
    viol.sort(key=lambda v: rank[v['kind']])
    shown = 0
    for k, v in enumerate(viol[:6], 1):
        path = os.path.join(HERE, 'replay', f'{prop}-{k}.json')
        if v['kind'] == 'obligation':
            v['verifier_output'] = [u for u in unproved if u['contract'] == v['contract']][:20]
        with open(path, 'w') as fh:
            json.dump(v, fh, indent=1)
        print(f"{v.get('obligation') or v.get('oracle')}: {v['what'][:300]}")
        print(f'VIOLATION property={prop} replay={path}' + (' no-failing-input-found' if v['kind'] == 'obligation' else ''))
        shown += 1
    for e in orc['errors'][:4]:
        print('note: bounded check error:', e[:300])
    runs = sum(orc['count'].values())
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': f'python3-vt check.py {prop}',
            'trusted_base': C.TRUSTED,
            'title': title,
            'contracts': functions,
            'discharged_by': by,
            'solver_seconds': round(z3t, 2),
            'prover_seconds': round(sum(r['secs'] for r in res.values()), 2),
            'not_discharged': unproved[:60],
            'bounded': {'label': 'bounded: specification evaluated on the running code at sampled inputs, never counted as proved',
                        'cases': orc['count'], 'total': runs, 'truncated': orc['truncated'], 'errors': orc['errors'][:5],
                        'samples': orc['samples'][:3]},
        },
        'assumptions': C.ASSUMPTIONS + assumed,
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print(f'{prop}: {ndis}/{nob} obligations discharged over {len(functions)} contracts, {runs} bounded cases, '
          f'{len(viol)} violations, {wall:.1f} s')
    for u in unproved[:10]:
        print(f"  not discharged: {u['name']} [{u['status']}] {u.get('detail', '')[:160]}")
    if viol:
        return 1
    if not nob and not runs:
        print('nothing checked')
        return 2
    if runs == 0:
        print('no bounded case ran')
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    print(json.dumps({k: v[k] for k in v if k not in ('case', 'verifier_output')}, indent=1))
    if v['kind'] == 'oracle':
        r = one_case(v['property'], v['oracle'], v['case'])
        print('real code:', r['what'] or 'holds')
        return 1 if r['what'] else 0
    if v['kind'] == 'contract':
        C = load()
        C.REPO[0] = REPO
        r = C.worker('run', v['case'])
        print('real code:', r.get('ok') or r.get('err') or 'holds')
        return 1 if r.get('ok') else 0
    print(json.dumps(v.get('verifier_output'), indent=1))
    return 1


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
