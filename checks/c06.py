"""Legendre duality.  Helmholtz energies obtained by Legendre transformation are the Gibbs energy plus load times
extension; forces obtained by Legendre transformation invert the extension; energies of the two agree along the curve."""
import numpy as np, lat, spec as X
from engine import *
from values import blocks
T_ = 'thermodynamics::'
def partner(k):
    if k.endswith('isometric::legendre'): return k.replace('isometric::legendre', 'isotensional')
    if 'isometric' in k and k.endswith('::legendre'): return k.replace('isometric', 'isotensional')[:-len('::legendre')]
def run(r, P, tier):
    r.assumptions += ['the Newton tolerance of the numerical inverses (about 1e-6 of the extension)', 'rounding allowances of checks/spec.py']
    dense = None if tier == 'thorough' else 1000
    def transform(o, P, it):
        k, n, p = it; base = k[:-len('::legendre')]; m, b = Mod(P, k, p), Mod(P, base, p); o.cover(states=m.n, transitions=m.n)
        force = X.M[k].ens == 'force'
        for fn in m.names():
            nd, rel, q, pl = X.split(fn); pre = 'nondimensional_' if nd else ''; L = '_per_link' if pl else ''
            if force and q == 'helmholtz_free_energy': src, c = fn.replace('helmholtz', 'gibbs'), 1.0
            elif not force and q == 'gibbs_free_energy': src, c = fn.replace('gibbs', 'helmholtz'), -1.0
            else: continue
            if src not in b.names(): continue
            if force: cj = pre + 'end_to_end_length' + L; load = p.x*(1.0 if nd else KB*p.T/p.l)
            else: cj = pre + 'force'; load = p.x*(1.0 if pl else p.N)*(1.0 if nd else p.l)
            if rel:                       # the transformed reference state is the reference state
                z = Mod(P, base, p.at(x=X.ZERO)); lz = load/p.x*X.ZERO; r0 = c*lz*z.got(cj); t0 = lz*np.where(np.isfinite(z.tol(cj)), z.tol(cj), 0)
            else: r0 = t0 = 0.0
            a, e = m.got(fn), b.got(src) + c*load*b.got(cj) - r0; t = m.tol(fn) + b.tol(src) + load*b.tol(cj) + t0 + 1e-12*np.abs(a)
            o.mask(k + '::' + fn, ~close(a, e, t), m.pt(), lambda i: '%.17g, from %s and %s %.17g, tolerance %.3g' % (a[i], src, cj, e[i], t[i]), lambda i: m.calls(fn)(i) + b.calls(src, cj)(i)); o.cover(validated=3*m.n)
        if m.n: o.sample(dict(module=k, point=m.pt()(m.n//2)), 2)
    def inverse(o, P, it):
        k, n, p = it; base = partner(k)             # p is a lattice of loads of the force ensemble
        b = Mod(P, base, p); gam = b.got('nondimensional_end_to_end_length_per_link')
        ok = np.isfinite(gam) & (gam > 5e-4) & ((gam < .9999) if lat.kind(k) == 'fjc' else (p.x*p.w < 300) if lat.kind(k) == 'swfjc' else p.x < 500)
        p = lat.sub(p, ok & (b.tol('nondimensional_end_to_end_length_per_link') < 1e-7*gam))
        b = Mod(P, base, p); gam = b.got('nondimensional_end_to_end_length_per_link'); m = Mod(P, k, p.at(x=gam)); o.cover(states=m.n, transitions=m.n)
        for fn in m.names():
            nd, rel, q, pl = X.split(fn); s = 1.0 if nd else KB*p.T/p.l
            if q == 'force':
                a, e = m.got(fn), p.x*s; t = m.tol(fn) + b.tol('nondimensional_end_to_end_length_per_link')*0 + 1e-9*e
                o.mask(k + '::' + fn + ' (inverse)', ~close(a, e, t), m.pt(), lambda i: 'force %.17g, but the extension was that of %.17g, tolerance %.3g' % (a[i], e[i], t[i]), m.calls(fn)); o.cover(validated=2*m.n)
            if q == 'helmholtz_free_energy' and rel:
                l = Mod(P, base + '::legendre', p); a, e = m.got(fn), l.got(fn); t = m.tol(fn) + l.tol(fn) + 1e-9*(KB*p.T if not nd else 1.0)
                o.mask(k + '::' + fn + ' (curve)', ~close(a, e, t), m.pt(), lambda i: '%.17g, along the force ensemble %.17g, tolerance %.3g' % (a[i], e[i], t[i]), lambda i: m.calls(fn)(i) + l.calls(fn)(i)); o.cover(validated=2*m.n)
    items = [(transform,) + b for b in blocks([k for k in X.M if k.endswith('legendre') and k[:-10] in X.M], tier, dense=dense)]
    for k in X.M:
        if partner(k) in X.M and partner(k) and lat.kind(k) != 'wlc': items += [(inverse, k) + b[1:] for b in blocks([partner(k)], tier, dense=dense)]
    items.sort(key=lambda a: 'wlc' not in a[1])
    pmap(r, P, items, lambda o, P, it: it[0](o, P, it[1:]))
