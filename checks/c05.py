"""Work conjugacy over every cell of the load lattice: the change of the potential equals the work, by Gauss quadrature
of the conjugate variable over the cell; cells are contiguous, so a jump, kink or slip anywhere in between is seen."""
import numpy as np, lat, spec as X
from engine import *
GX, GW = np.polynomial.legendre.leggauss(8)
GX, GW = (GX + 1)/2, GW/2
def configs(k, tier):
    th = tier == 'thorough'
    a = dict(N=lat.Ns(k, 1), **lat.params(k, 1)); out = [lat.prod(x=1.0, **a)]
    out.append(lat.prod(x=1.0, N=lat.Ns(k, 0), **lat.params(k, 2)))
    if not lat.slow(k): out.append(lat.prod(x=1.0, N=lat.Ns(k, 2), **lat.params(k, 0)))
    out.append(lat.prod(x=1.0, N=lat.Ns(k, 1)[1:3], **lat.params(k, 0), **(lat.LMT2 if th else dict(l=[.05, 30.], m=[.02, 40.], T=[77., 350.]))))
    out.append(lat.mixed(k, (4000 if th else 900)//(20 if lat.slow(k) else 3 if k.startswith('wlc') and X.M[k].ens == 'force' else 1)).at(x=1.0))
    return out
def edges(k, tier, j):
    n = (200 if tier == 'thorough' else 120 if j == 0 else 40)//(1 if j != 2 else 2)//(2 if lat.slow(k) else 1)
    if X.M[k].ens == 'length': return np.concatenate([np.geomspace(3e-4, .1, n//3), np.linspace(.1, .99, n - n//3)[1:]])
    return np.geomspace(1e-4, 99. if lat.kind(k) == 'wlc' else 650., n)
def pairs(have, ens, k):
    """(potential, conjugate, per link?) for every potential of the module."""
    for fn in have:
        nd, rel, q, pl = X.split(fn); pre = 'nondimensional_' if nd else ''
        if ens == 'force' and q == 'gibbs_free_energy':
            yield fn, pre + 'end_to_end_length' + ('_per_link' if pl else ''), -1.0
        if ens == 'length' and q == 'helmholtz_free_energy' and not k.startswith('ideal') or k == 'ideal::thermodynamics::isometric' and q == 'helmholtz_free_energy':
            yield fn, pre + 'force', 1.0
        if k == 'fjc::thermodynamics::modified_canonical' and q == 'gibbs_free_energy' or 'weak' in k and q == 'gibbs_free_energy':
            yield fn, pre + 'end_to_end_length' + ('_per_link' if pl else ''), 'well'
def run(r, P, tier):
    r.assumptions += ['the work over a cell by eight-point Gauss quadrature, with the error the same rule makes on the reference model allowed for']
    items = []
    for k in X.M:
        for j, c in enumerate(configs(k, tier)):
            step = 30 if lat.slow(k) else 120
            for a in range(0, len(c.x), step): items.append((k, j, X.Pt({q: v[a:a + step] for q, v in c.items()})))
    items.sort(key=lambda a: (not lat.slow(a[0]), 'wlc' not in a[0]))
    def work(o, P, it):
        k, j, c = it; ed = edges(k, tier, j); n = len(c.x); e = len(ed)
        rep = lambda m: X.Pt({q: np.repeat(v, m) for q, v in c.items()})
        # edges are scaled into the domain first, nodes then interpolated
        pe = rep(e).at(x=np.tile(ed, n)); full = lat.clip(k, pe)
        if len(full.x) != len(pe.x):           # a domain that cuts loads off: keep whole configurations up to the cut
            keep = np.zeros(len(pe.x), bool); ids = {}
            key = np.arange(len(pe.x)); pe2 = X.Pt(pe); pe2['key'] = key.astype(float); keep[lat.clip(k, pe2)['key'].astype(int)] = True
        else: pe, keep = full, np.ones(len(full.x), bool)
        xs = pe.x.reshape(n, e); keep = keep.reshape(n, e); good = keep[:, 1:] & keep[:, :-1]
        lo, wd = xs[:, :-1], np.diff(xs, axis=1)
        pn = rep((e - 1)*8).at(x=(lo[:, :, None] + wd[:, :, None]*GX).ravel())
        E, Nn = Mod(P, k, pe), Mod(P, k, pn); o.cover(states=good.sum(), transitions=good.sum())
        for fn, cj, sg in pairs(E.names(), X.M[k].ens, k):
            nd, rel, q, pl = X.split(fn)
            if cj not in E.names(): continue
            kT = KB*c.T[:, None]; f = lambda y, t=False: (y.reshape(n, e - 1, 8)*GW).sum(2)*wd
            # work done over a cell, in units of the potential
            if sg == -1.0: s = -(np.ones((n, 1)) if nd else kT/c.l[:, None])
            elif sg == 1.0: s = (1.0 if pl else c.N[:, None])*(1.0 if nd else c.l[:, None])
            else: s = -(c.om*c.N)[:, None]*(1.0 if nd else kT/c.l[:, None])
            def terms(val):
                a = np.diff(val(E, fn).reshape(n, e), axis=1); return a - s*f(val(Nn, cj))
            got = terms(lambda m, g: m.got(g)); ref = terms(lambda m, g: m.want(g)[0])
            te = E.tol(fn).reshape(n, e); t = te[:, 1:] + te[:, :-1] + np.abs(s)*f(Nn.tol(cj)) + 2*np.abs(ref) + 1e-13*np.abs(E.want(fn)[0].reshape(n, e)[:, 1:])
            ok = close(got, 0, t) | ~good
            big = np.where(good & np.isfinite(t), np.abs(ref)/np.maximum(np.abs(s*f(Nn.want(cj)[0])), 1e-300), 0).max(initial=0)
            o.info[k + '::' + fn] = float(max(o.info.get(k + '::' + fn, 0), big))
            pt = lambda i: dict({q: float(v[i//(e - 1)]) for q, v in c.items() if q in DIM_KEYS and q != 'x'}, x_from=float(xs.ravel()[(i//(e - 1))*e + i % (e - 1)]), x_to=float(xs.ravel()[(i//(e - 1))*e + i % (e - 1) + 1]))
            o.mask(k + '::' + fn + ' ~ ' + cj, ~ok, pt, lambda i: 'change minus work %.6g, tolerance %.3g' % (got.ravel()[i], t.ravel()[i]),
                   lambda i: E.calls(fn)((i//(e - 1))*e + i % (e - 1)) + E.calls(fn)((i//(e - 1))*e + i % (e - 1) + 1) + sum((Nn.calls(cj)(8*i + z) for z in range(8)), [])); o.cover(validated=E.n + Nn.n)
        if n: o.sample(dict(module=k, configuration={q: float(v[0]) for q, v in c.items()}, cells=e - 1), 2)
    pmap(r, P, items, work)
