"""Relative free energies are free energies measured from zero load: they vanish there, equal the difference of the
absolute ones, and (in units of kT) know nothing of hinge mass, link length or temperature."""
import numpy as np, lat, spec as X
from engine import *
from values import blocks
def run(r, P, tier):
    r.assumptions += ['zero load is approached at 1e-6, within the rounding allowances of checks/spec.py']
    def work(o, P, it):
        k, n, p = it; m = Mod(P, k, p); have = m.names(); z = Mod(P, k, p.at(x=X.ZERO)); o.cover(states=m.n, transitions=m.n)
        u = Mod(P, k, p.at(l=1.0, m=1.0, T=300.0))
        for fn in have:
            nd, rel, q, pl = X.split(fn)
            if not rel: continue
            ab = fn.replace('relative_', '')
            sc = (1.0 if nd else KB*p.T)*(1 if not pl else 1)
            drift = 1e-9*sc
            if ab in have:
                a, b = m.got(fn), m.got(ab) - z.got(ab); t = 2*m.tol(fn) + m.tol(ab) + z.tol(ab) + drift + 1e-12*np.abs(a)
                o.mask(k + '::' + fn, ~close(a, b, t), m.pt(), lambda i: 'relative %.17g, difference %.17g, tolerance %.3g' % (a[i], b[i], t[i]), m.calls(fn, ab)); o.cover(validated=2*m.n)
            a = z.got(fn); t = z.tol(fn) + drift
            o.mask(k + '::' + fn + ' (at zero)', ~close(a, 0*a, t), z.pt(), lambda i: '%.17g at zero load, tolerance %.3g' % (a[i], t[i]), z.calls(fn)); o.cover(validated=m.n)
            a, b = m.got(fn)/sc, u.got(fn)/(1.0 if nd else KB*300.0); t = (m.tol(fn)/sc + u.tol(fn)/(1.0 if nd else KB*300.0)) + 1e-12*np.abs(a)
            o.mask(k + '::' + fn + ' (units)', ~close(a, b, t), m.pt(), lambda i: '%.17g kT, in other units %.17g kT, tolerance %.3g' % (a[i], b[i], t[i]), m.calls(fn)); o.cover(validated=m.n)
        if m.n: o.sample(dict(module=k, point=m.pt()(m.n//2)), 2)
    pmap(r, P, blocks(list(X.M), tier, dense=None if tier == 'thorough' else 600), work)
