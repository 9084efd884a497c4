"""which harness decides which property, with which parameters (filled from the harness modules without loading jax)"""
from __future__ import annotations

import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPLAIN = {}
BOUNDS = {}
ASSUME = [
    'machine floating point is treated as exact real arithmetic; float constants are rounded to 13 significant digits',
    'inputs range over the closed boxes given in the harness; values outside are not covered',
    'inputs at which a denominator vanishes or a square root argument is negative are excluded',
    'quadprog, scipy SLSQP and the adaptive RK45 integrators are represented by contracts (vf/stubs.py); replay uses the real ones',
]


def jobs_for(prop, tier):
    p = subprocess.run([sys.executable, '-m', 'vf.listjobs', prop, tier], cwd=VERIF, capture_output=True, text=True, check=False,
                       env=dict(os.environ, JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1'))
    if p.returncode != 0:
        raise SystemExit('cannot list jobs: ' + p.stderr[-3000:])
    out = json.loads(p.stdout.strip().splitlines()[-1])
    EXPLAIN[prop], BOUNDS[prop] = out['explain'], out['bounds']
    return out['jobs']
