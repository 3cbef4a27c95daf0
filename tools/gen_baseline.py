"""Fingerprints of the functions of the tree every obligation was discharged on: python3-vt tools/gen_baseline.py
An obligation that is no longer discharged is reported only where the code it was generated from differs from these."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pv.contract import fingerprints
if __name__ == '__main__':
    with open(os.path.join(HERE, 'baseline.json'), 'w') as f:
        json.dump(fingerprints('/repo'), f, indent=0, sort_keys=True)
