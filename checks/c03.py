"""Per-link quantities are the chain's divided by its number of links, and where links are statistically independent
(or the model is the thermodynamic limit) they do not depend on that number at all."""
import numpy as np, lat, spec as X
from engine import *
from values import blocks
def intensive(k, fn):
    """Does this per-link quantity not depend on the number of links?"""
    if lat.kind(k) == 'wlc' or 'modified' in k and 'weak' not in k or k == 'fjc::thermodynamics::isometric': return False
    if X.M[k].ens == 'force': return fn.endswith('_per_link')
    if 'weak' in k: return False
    return fn in ('force', 'nondimensional_force') or fn.endswith('_per_link') and 'relative_helmholtz' in fn
def run(r, P, tier):
    r.assumptions += ['rounding allowances of checks/spec.py']
    def work(o, P, it):
        k, n, p = it; m = Mod(P, k, p); have = m.names(); o.cover(states=m.n, transitions=m.n)
        for fn in have:
            if fn.endswith('_per_link') and fn[:-9] in have:
                w = fn[:-9]; a, b = m.got(w), m.got(fn)*p.N; t = 2*m.tol(w) + 1e-12*np.abs(b)
                o.mask(k + '::' + fn, ~close(a, b, t), m.pt(), lambda i: 'chain %.17g, links times per link %.17g, tolerance %.3g' % (a[i], b[i], t[i]), m.calls(w, fn)); o.cover(validated=m.n)
            if intensive(k, fn):
                q = p.at(N=2.0 if lat.Nmin(k) == 2 else 1.0); m1 = Mod(P, k, q); a, b = m.got(fn), m1.got(fn); t = m.tol(fn) + m1.tol(fn) + 1e-12*np.abs(b)
                o.mask(k + '::' + fn + ' (links)', ~close(a, b, t), m.pt(), lambda i: 'N links %.17g, shortest chain %.17g, tolerance %.3g' % (a[i], b[i], t[i]), m.calls(fn)); o.cover(validated=m.n)
        if m.n: o.sample(dict(module=k, point=m.pt()(m.n//2)), 2)
    pmap(r, P, blocks(list(X.M), tier, dense=None if tier == 'thorough' else 600), work)
