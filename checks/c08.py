"""Physical admissibility along every chain of increasing loads: finite, monotone conjugate variables within the chain's
bounds, energies of the right sign, monotone and convex or concave; odd and even in the load where it may be reversed."""
import numpy as np, lat, spec as X
from engine import *
from values import blocks
PAR = [k for k in X.M if X.M[k].ens == 'force' and lat.kind(k) in ('ideal', 'fjc', 'efjc')]
def chains(p):
    """Sort a lattice into chains of increasing load; returns the lattice and which neighbours belong together."""
    ks = [k for k in p if k != 'x']; o = np.lexsort([p.x] + [p[k] for k in ks]); p = lat.sub(p, o)
    same = np.ones(len(p.x) - 1, bool)
    for k in ks: same &= p[k][1:] == p[k][:-1]
    return p, same & (np.diff(p.x) > 0)
def upper(k, p):
    t = lat.kind(k)
    return p.w if t == 'swfjc' else 1 + 0*p.x if t in ('fjc', 'wlc') else None
def far(k):
    """Loads at which hyperbolic functions of the load overflow."""
    x = np.array([711., 720, 900, 2000, 10000]); t, mod = lat.kind(k), X.M[k]; p = lat.prod(N=[2., 8., 30.], x=x, **dict(lat.params(k, 0), **({'kap': [1e5, 1e6]} if t in ('efjc', 'log_squared', 'lennard_jones') else {'kap': [1e5], 'eps': [1e5]} if t == 'morse' else {})))
    if t == 'wlc' or t == 'ideal' or 'modified' in k: return None
    if t in ('morse', 'log_squared', 'lennard_jones'): p = lat.sub(p, p.x < .9*X.P_('ufjc::' + t, p).eta_max)
    if mod.ens == 'length':
        if t == 'swfjc' or not k.endswith('legendre'): return None
        p = p.at(x=(mod.L if t == 'fjc' else mod).iso(p)[1])
    return p
def run(r, P, tier):
    r.assumptions += ['an increment may be negative by the rounding allowances of its two ends (checks/spec.py)', 'whether a model should be monotone between two states is decided on the reference model (FJC chains of two and three links in the isometric ensemble are not)']
    def work(o, P, it):
        k, n, p = it
        if n == 'far':
            m = Mod(P, k, p); o.cover(states=m.n, transitions=m.n, validated=m.n*len(m.names()))
            for fn in m.names(): y = m.got(fn); o.mask(k + ' ' + X.split(fn)[2] + ' (finite at loads above 700)', ~np.isfinite(y), m.pt(), lambda i: fn + ' returned %r' % y[i], m.calls(fn))
            return
        p, same = chains(p); m = Mod(P, k, p); force = X.M[k].ens == 'force'; o.cover(states=m.n, transitions=same.sum())
        calls2 = lambda *f: (lambda i: m.calls(*f)(i) + m.calls(*f)(i + 1))
        for fn in m.names():
            nd, rel, q, pl = X.split(fn); y = m.got(fn); w, t0 = m.want(fn); fin = np.isfinite(w) & np.isfinite(t0); t = np.where(fin, t0, 0)
            sc = 1.0 if nd else {'end_to_end_length': p.l, 'force': KB*p.T/p.l}.get(q, 1.0); sc = sc*(1.0 if pl or q != 'end_to_end_length' else p.N)
            o.cover(validated=m.n)
            o.mask(k + '::' + fn + ' (finite)', ~np.isfinite(y) & fin, m.pt(), lambda i: 'returned %r' % y[i], m.calls(fn))
            both = same & fin[1:] & fin[:-1]; d, dw, dt = np.diff(y), np.diff(w), t[1:] + t[:-1]
            o.mask(k + '::' + fn + ' (jump)', both & ~(np.abs(d - dw) <= dt), m.pt(), lambda i: 'changes by %.9g as the load rises to %.17g; the reference changes by %.9g (allowance %.3g)' % (d[i], p.x[i + 1], dw[i], dt[i]), calls2(fn))
            if q in ('end_to_end_length', 'force'):
                o.mask(k + '::' + fn + ' (increasing)', both & (dw > 0) & ~(d > -dt), m.pt(), lambda i: 'changes by %.6g (allowance %.3g) as the load rises to %.17g' % (d[i], dt[i], p.x[i + 1]), calls2(fn))
                if X.M[k].ens == 'force' or 'isometric' in k: o.mask(k + '::' + fn + ' (sign)', fin & (w > 0) & ~(y > -t), m.pt(), lambda i: 'returned %.17g' % y[i], m.calls(fn))
                u = upper(k, p)
                if q == 'end_to_end_length' and u is not None: o.mask(k + '::' + fn + ' (bound)', fin & ~(y <= u*sc + t), m.pt(), lambda i: 'extension %.17g of at most %.17g' % (y[i], (u*sc)[i] if np.ndim(u*sc) else u*sc), m.calls(fn))
            if q in ('gibbs_free_energy', 'helmholtz_free_energy'):
                up = dw > 0
                o.mask(k + '::' + fn + ' (monotone)', both & np.where(up, ~(d > -dt), ~(d < dt)), m.pt(), lambda i: 'changes by %.6g (allowance %.3g) as the load rises to %.17g' % (d[i], dt[i], p.x[i + 1]), calls2(fn))
                if rel:
                    sg = np.sign(w); o.mask(k + '::' + fn + ' (sign)', fin & (sg*y < -t), m.pt(), lambda i: 'returned %.17g' % y[i], m.calls(fn))
                x = p.x; h = np.diff(x); tri = both[1:] & both[:-1]; s = (d[1:]/h[1:] - d[:-1]/h[:-1]); sw = (dw[1:]/h[1:] - dw[:-1]/h[:-1]); st = dt[1:]/h[1:] + dt[:-1]/h[:-1]
                o.mask(k + '::' + fn + ' (curvature)', tri & np.where(sw > 0, ~(s > -st), ~(s < st)), m.pt(), lambda i: 'slope changes by %.6g (allowance %.3g) at the load %.17g' % (s[i], st[i], p.x[i + 1]), lambda i: m.calls(fn)(i) + m.calls(fn)(i + 1) + m.calls(fn)(i + 2))
        if k in PAR:
            z = Mod(P, k, p.at(x=-p.x)); o.cover(states=m.n, transitions=m.n)
            for fn in m.names():
                q = X.split(fn)[2]; a, b = z.got(fn), m.got(fn); e = -b if q == 'end_to_end_length' else b; t = 2*m.tol(fn) + 1e-11*np.abs(b)
                if X.split(fn)[1]: t = t + 1e-9*np.where(np.isfinite(p.x), 1, 1)*(1.0 if X.split(fn)[0] else KB*p.T)*(1.0 if X.split(fn)[3] else p.N)
                o.mask(k + '::' + fn + ' (parity)', ~(close(a, e, t)), z.pt(), lambda i: 'reversed load gives %.17g, expected %.17g, tolerance %.3g' % (a[i], e[i], t[i]), lambda i: m.calls(fn)(i) + z.calls(fn)(i)); o.cover(validated=m.n)
        if m.n: o.sample(dict(module=k, first=m.pt()(0), last=m.pt()(m.n - 1)), 2)
    pmap(r, P, blocks(list(X.M), tier, dense=None if tier == 'thorough' else 1500, lmt=tier == 'thorough') + [(k, 'far', p) for k in X.M for p in [far(k)] if p is not None], work)
