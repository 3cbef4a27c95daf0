"""Writes MANIFEST.json from the registered contracts: python3-vt tools/gen_manifest.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check

NA = {}
NOTE = ('Contracts on the functions named in the evidence file are checked against the current source of /repo on every '
        'run: the source is parsed and executed symbolically along every path for all inputs, and every obligation is '
        'discharged by exact normal forms or z3; callers use callee contracts. Real arithmetic instead of floating point; '
        'numpy/scipy functions by their documented contracts; the symbolic semantics of the Python/numpy subset is trusted '
        '(cross-checked against CPython). Obligations not discharged are listed in the evidence and are not counted. ')
EXTRA = {
}
DEFAULT = ('A bounded companion check evaluates the property on the running code at sampled inputs (labelled bounded, never '
           'counted as proved).')


def main():
    C = check.load()
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        props = [json.loads(l) for l in f]
    checks, na = [], []
    for p in props:
        i = p['id']
        cs = [c for c in C.REG.values() if i in c.props or C.family(i, c)]
        if i in NA or not cs:
            na.append({'property': i, 'reason': NA.get(i, 'contracts for the functions of this property are not written yet')})
            continue
        checks.append({'property': i, 'quick_cmd': f'python3-vt check.py {i}',
                       'thorough_cmd': f'VERIF_TIER=thorough python3-vt check.py {i}', 'evidence_file': f'evidence/{i}.json',
                       'technique': 'contract-based deductive verification: symbolic execution of the current source against '
                                    'function contracts, obligations discharged by exact normal forms and z3',
                       'level': 'proof', 'level_note': NOTE + EXTRA.get(i, DEFAULT)})
    m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', [n['property'] for n in na])


main()
