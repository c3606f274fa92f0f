"""Worm-like chains against the interpolated end-to-end density and its Laplace transform."""
import lat
from values import run_values
from spec import M
def run(r, P, tier):
    r.assumptions += ['reference model of checks/ref.py and checks/spec.py', 'loads and parameters inside the domains of checks/lat.py']
    run_values(r, P, tier, [k for k in M if k.startswith('wlc')])
