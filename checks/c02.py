"""Dimensional and nondimensional forms agree in every choice of units: f = scale * f_nd at the scaled arguments."""
import numpy as np, lat, spec as X
from engine import *
from values import blocks
def scale(fn, p):
    q = X.split(fn)[2]; kT = KB*p.T
    return {'end_to_end_length': p.l, 'force': kT/p.l, 'gibbs_free_energy': kT, 'helmholtz_free_energy': kT,
            'equilibrium_distribution': 1/(p.N*p.l)**3, 'equilibrium_radial_distribution': 1/(p.N*p.l)}[q]
def run(r, P, tier):
    r.assumptions += ['rounding allowances of checks/spec.py']
    def work(o, P, it):
        k, n, p = it; m = Mod(P, k, p); have = m.names(); o.cover(states=m.n, transitions=m.n)
        for fn in have:
            nd, rel, q, pl = X.split(fn)
            if nd: continue
            base = 'nondimensional_' + fn
            if base not in have: o.info['without nondimensional form'] = fn; continue
            s = scale(fn, p); a, b = m.got(fn), m.got(base)*s; t = 2*m.tol(fn) + 1e-12*np.abs(a)
            ok = close(a, b, t)
            o.mask(k + '::' + fn, ~ok, m.pt(), lambda i: 'dimensional %.17g, scaled nondimensional %.17g, tolerance %.3g' % (a[i], b[i], t[i]), m.calls(fn, base)); o.cover(validated=m.n)
        if m.n: o.sample(dict(module=k, point=m.pt()(m.n//2)), 2)
    pmap(r, P, blocks(list(X.M), tier, dense=None if tier == 'thorough' else 600), work)
