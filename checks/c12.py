"""Chains with Morse, log-squared and Lennard-Jones links against their partition functions."""
import lat
from values import run_values
from spec import M
def run(r, P, tier):
    r.assumptions += ['reference model of checks/ref.py and checks/spec.py', 'loads and parameters inside the domains of checks/lat.py']
    run_values(r, P, tier, [k for k in M if k.startswith('ufjc')])
