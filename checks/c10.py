"""Freely jointed and ideal chains: every function against the exact partition function."""
import lat
from values import run_values
from spec import M
def run(r, P, tier):
    r.assumptions += ['reference model of checks/ref.py and checks/spec.py', 'loads and parameters inside the domains of checks/lat.py']
    run_values(r, P, tier, [k for k in M if k.startswith(('ideal', 'fjc')) and 'modified' not in k], boost=8 if tier == 'quick' else 1)
