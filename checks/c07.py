"""End-to-end distributions: nonnegative, radial = 4 pi gamma^2 times volumetric, the right density in any units,
normalized over the accessible range, and related to the relative Helmholtz energy by Boltzmann's law."""
import numpy as np, lat, spec as X
from engine import *
from values import blocks
KEYS = ['ideal::thermodynamics::isometric', 'fjc::thermodynamics::isometric', 'fjc::thermodynamics::isometric::legendre', 'swfjc::thermodynamics::isometric::legendre', 'wlc::thermodynamics::isometric']
ND, NR = 'nondimensional_equilibrium_distribution', 'nondimensional_equilibrium_radial_distribution'
def top(k, p): return p.w if 'w' in p else 1 + 0*p.x
def grid(k, n=400, e=6):
    """Composite Gauss nodes on (0, 1), denser towards the ends; the ideal chain's tail is mapped separately."""
    g, w = np.polynomial.legendre.leggauss(e); u = np.linspace(0, 1, n + 1); u = u*u*(3 - 2*u)
    x = ((u[:-1] + u[1:])/2)[:, None] + np.diff(u)[:, None]/2*g; return x.ravel(), (np.diff(u)[:, None]/2*w).ravel()
def run(r, P, tier):
    r.assumptions += ['the normalization the library computes may carry the error of its own 64-point rule']
    th = tier == 'thorough'
    def relations(o, P, it):
        k, n, p = it
        for nm in ([1.0] if k in KEYS[:2] else [1.0, 0.37]):
            p = p.at(norm=nm); m = Mod(P, k, p); o.cover(states=m.n, transitions=m.n); d, L = m.got(ND), p.N*p.l
            fin = np.isfinite(m.tol(ND)) & (m.want(ND)[0] > 1e-290)
            for fn, e in ((ND, None), (NR, 4*np.pi*p.x**2*d), ('equilibrium_distribution', d/L**3), ('equilibrium_radial_distribution', 4*np.pi*p.x**2*d/L)):
                a = m.got(fn); o.cover(validated=m.n)
                o.mask(k + '::' + fn + ' (sign)', ~((a >= -2*m.tol(fn)) | ~fin), m.pt(), lambda i: 'density %.17g' % a[i], m.calls(fn))
                if e is None: continue
                t = 2*m.tol(fn) + 1e-12*np.abs(e)
                o.mask(k + '::' + fn, ~(close(a, e, t) | ~fin), m.pt(), lambda i: '%.17g, from the nondimensional density %.17g, tolerance %.3g' % (a[i], e[i], t[i]), m.calls(fn, ND))
            A = 'nondimensional_relative_helmholtz_free_energy'; z = Mod(P, k, p.at(x=X.ZERO)); ok = fin & (d > 1e-280)
            a, e = m.got(A), -np.log(np.where(ok, d, 1)/z.got(ND)); t = m.tol(A) + m.tol(ND)/np.where(ok, d, 1) + z.tol(ND)/z.got(ND) + 1e-9
            if k.startswith('ideal') or True:
                o.mask(k + ' (Boltzmann)', ~(close(a, e, t) | ~ok), m.pt(), lambda i: 'energy %.17g, minus log of the density ratio %.17g, tolerance %.3g' % (a[i], e[i], t[i]), m.calls(A, ND)); o.cover(validated=3*m.n)
        if m.n: o.sample(dict(module=k, point=m.pt()(m.n//2)), 2)
    def normalized(o, P, it):
        k, n, q = it; x, w = grid(k, 150 if not th else 1600); n = len(x)
        for j in range(len(q.x)):
            one = X.Pt({c: v[j:j + 1] for c, v in q.items()}); hi = float(top(k, one)[0])
            if k.startswith('ideal'): hi = 9/np.sqrt(one.N[0])      # fifteen standard deviations
            p = X.Pt({c: np.repeat(v, n) for c, v in one.items()}).at(x=x*hi, norm=1.0); p = X.Pt(p); o.cover(states=n, transitions=n)
            ref = X.M[k].vals(p)['P'][0]; ok = np.isfinite(ref); exact = (4*np.pi*p.x**2*np.where(ok, ref, 0)*w).sum()*hi
            dens = np.where(ok, ref, 0)*p.x**2; live = (dens > 1e-14*dens.max()) & ((x < .985) | ('leg' not in k))     # forces beyond overflow; the model supplies the rest
            xm = 1e-6 + (np.arange(64) + .5)*(hi - 1e-6)/64; pm = X.Pt({c: np.repeat(v, 64) for c, v in one.items()}).at(x=xm, norm=1.0)
            mid = (4*np.pi*xm**2*X.M[k].vals(pm)['P'][0]).sum()*(hi - 1e-6)/64
            if k in KEYS[:2]: mid = 1.0
            ty = [s for s in P.structs if s.rsplit('::', 1)[0] == S + k][0]; names = P.api['structs'][P.structs[ty]]['init']
            I = P.new(ty, X.args_of(one, names, 'length')[0]); inp = {c: float(v[0]) for c, v in one.items() if c in DIM_KEYS and c != 'x'}
            if I is None: o.fail(ty + '::init', inp, 'panicked: ' + P.last_panic()); continue
            L = one.N[0]*one.l[0]; rule = abs(exact/mid - 1)*1.5 + 2e-6
            for meth, sc in ((ND, 1.0), (NR, 1.0), ('equilibrium_distribution', L**3), ('equilibrium_radial_distribution', L)):
                arg = p.x if meth.startswith('nond') else p.x*L
                d = I.call(meth, arg)[0]*sc; d = d if 'radial' in meth else d*4*np.pi*p.x**2
                tot = (np.where(live, d, 4*np.pi*p.x**2*np.where(ok, ref, 0)/mid)*w).sum()*hi; o.cover(validated=n)
                if not abs(tot - 1) <= rule + 1e-9: o.fail(ty + '::' + meth + ' (total)', inp, 'total probability %.12g, allowance %.3g' % (tot, rule))
            o.info['largest normalization error of the rule'] = max(o.info.get('largest normalization error of the rule', 0.0), float(rule))
            I.free()
            if j == 0: o.sample(dict(structure=ty, configuration=inp, total=float(tot)), 2)
    items = [(relations,) + b for b in blocks(KEYS, tier, dense=None if th else 600)]
    for k in KEYS:
        q = [lat.prod(x=.5, N=lat.Ns(k, 2)[::(1 if th else 4)], **lat.params(k, 0)), lat.prod(x=.5, N=lat.Ns(k, 1), **lat.params(k, 2)), lat.prod(x=.5, N=lat.Ns(k, 0), **lat.params(k, 0), l=[.05, 30.], m=[.02, 40.])]
        q = lat.cat(*[c for c in q])
        if 'kp' in q: q = lat.sub(q, q.kp <= 1.0)
        items += [(normalized, k, 'normalization', X.Pt({c: v[a:a + 12] for c, v in q.items()})) for a in range(0, len(q.x), 12)]
    pmap(r, P, items, lambda o, P, it: it[0](o, P, it[1:]))
