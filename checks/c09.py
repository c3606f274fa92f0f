"""Limits between models and between ensembles.  A family of refinements (stiffer links, narrower wells, longer chains,
stiffer or weaker potentials, smaller loads) is walked step by step; at every state the two implementations must differ by no
more than the two reference models do, and over the walk the difference must vanish."""
import numpy as np, lat, spec as X
from engine import *
T_ = '::thermodynamics::'
PE = 'nondimensional_relative_'
class Pair:
    """a -> b as `par` runs through `walk`; fns compared; shrink: least factor by which the difference falls per step."""
    def __init__(s, a, b, par, walk, fns, shrink, xs, tol=0.0, to=None, **fixed): s.a, s.b, s.par, s.walk, s.fns, s.shrink, s.xs, s.tol, s.to, s.fixed = a, b, par, walk, fns, shrink, xs, tol, to, fixed
GAM, ETA = ['nondimensional_end_to_end_length_per_link', 'end_to_end_length'], ['nondimensional_force', 'force']
REL = lambda q: [PE + q + '_free_energy_per_link', 'relative_' + q + '_free_energy']
ABS = lambda q: ['nondimensional_' + q + '_free_energy_per_link', q + '_free_energy']
F, L = GAM + REL('gibbs'), ETA + REL('helmholtz')
def table(tier):
    th = tier == 'thorough'; n = 1200 if th else 300
    fo = np.geomspace(.05, 20, n); le = np.linspace(.05, .9, n); K = np.array([200., 2e3, 2e4, 3e5, 5e6, 2e8] + th*[2e10, 1e12]); I = np.array([50., 500., 5000., 5e4, 1e6]); Ns = [1., 2., 3., 8., 25., 100., 255.]
    fj = 'fjc::thermodynamics::isotensional'; fl = 'fjc::thermodynamics::isometric::legendre'; out = []
    u = ['efjc'] + ['ufjc::' + k for k in ('morse', 'log_squared', 'lennard_jones')]
    for t in u:
        iso, asy = t + T_ + 'isotensional', t + T_ + 'isotensional::asymptotic'; fx = dict(N=Ns, eps=[1e5]) if 'morse' in t else dict(N=Ns)
        for s in ('', '::reduced') + (('::alternative',) if t == 'efjc' else ()):
            out.append(Pair(asy + s, fj, 'kap', K, F, 5, fo, **fx))                       # stiff links: the freely jointed chain
            out.append(Pair(asy + s + '::legendre', fj + '::legendre', 'kap', K, REL('helmholtz'), 5, fo, **fx))
            out.append(Pair(t + T_ + 'isometric::asymptotic' + s + '::legendre', fl, 'kap', K, L, 5, le*.9, **dict(fx, N=[n_ for n_ in Ns if n_ <= 34 and n_ > 1])))
            if s: out.append(Pair(asy + s, asy, 'kap', K, F + ABS('gibbs'), 5, fo, **fx))
            if t == 'efjc': out.append(Pair(asy + s, iso, 'kap', I, F + ABS('gibbs'), 3, fo, **fx))
            else: out.append(Pair(asy + s, iso, 'kap', I[:3], F, 0, fo, **dict(fx, **({'eps': [500.]} if 'eps' in fx else {}))))
            if t != 'efjc': out.append(Pair(asy + s, 'efjc' + T_ + 'isotensional::asymptotic' + s, 'kap', K, F, 5, fo, **fx))
        out.append(Pair(iso, fj, 'kap', I if t == 'efjc' else I[:3], F, 5 if t == 'efjc' else 0, fo, **fx))
    W = 1 + np.array([.1, .01, .001, 1e-4, 1e-6])
    out.append(Pair('swfjc' + T_ + 'isotensional', fj, 'w', W, F, 5, fo, N=Ns))                # narrow wells
    out.append(Pair('swfjc' + T_ + 'isotensional::legendre', fj + '::legendre', 'w', W, REL('helmholtz'), 5, fo, N=Ns))
    out.append(Pair('swfjc' + T_ + 'isometric::legendre', fl, 'w', W, L, 5, le*.9, N=[2., 8., 30.]))
    small = np.array([.1, .01, 1e-3, 1e-5])                                                                 # small loads: the ideal chain
    out.append(Pair(fj, 'ideal' + T_ + 'isotensional', 'x', small, F, 50, None, N=Ns))
    out.append(Pair(fl, 'ideal' + T_ + 'isometric', 'x', small, L, 50, None, tol=1e-3, N=[2., 8., 30.]))
    out.append(Pair(fl, 'fjc' + T_ + 'isometric', 'N', np.array([8., 16, 32]), ETA, 1.3, np.linspace(.1, .9, n)))   # long chains: ensembles agree
    out.append(Pair(fl, 'fjc' + T_ + 'isometric', 'N', np.array([8., 16, 32]), REL('helmholtz')[:1], 1.3, np.linspace(.1, .9, n)))
    mc = 'fjc::thermodynamics::modified_canonical'; st, wk = mc + '::asymptotic::strong_potential', mc + '::asymptotic::weak_potential'
    out.append(Pair(st, 'fjc' + T_ + 'isometric', 'om', np.array([1e2, 1e3, 1e4, 1e6, 1e8]), ['nondimensional_force', 'force'], 8, np.linspace(.2, .8, n), N=[5., 8., 12.]))
    out.append(Pair(mc, st, 'om', np.array([10., 30., 100.]), ['nondimensional_force'], 0, np.linspace(.3, .7, max(n//30, 4)), N=[8.]))
    out.append(Pair(mc, wk, 'om', np.array([.3, .1, .03]), ['nondimensional_end_to_end_length_per_link'], 0, np.geomspace(.5, 3, max(n//30, 4)), tol=1e-7, to='eta', N=[8.]))
    out.append(Pair(wk, fj, 'om', np.array([.1, .01, .001, 1e-5, 1e-8]), ['nondimensional_end_to_end_length_per_link', 'end_to_end_length'], 5, np.geomspace(.1, 10, n), to='eta', N=[3., 8., 30.]))
    return out
def run(r, P, tier):
    r.assumptions += ['the reference models bound how far apart two models are at a finite step of a walk', 'rounding allowances of checks/spec.py']
    def work(o, P, q):
        ex = {k: v for k, v in q.fixed.items() if k != 'N'}; prev = {}
        units = [(1., 1., 300.), (.05, 20., 350.)] if tier == 'quick' else [(1., 1., 300.), (.05, 20., 350.), (30., .1, 77.)]
        for i, v in enumerate(q.walk):
            kw = dict(ex, **{q.par: [v]}); kw.setdefault('N', q.fixed.get('N', [8.])); kw.setdefault('x', q.xs); p = lat.prod(**kw)
            p = lat.cat(*[X.Pt(p).at(l=a, m=b, T=c) for a, b, c in units])
            if 'eps' in p: p['eps'] = p.eps*p.kap/200
            pa = pb = p
            if q.to == 'eta':               # potential distance at which the weak potential applies the given force
                pa = p.at(x=p.x/(p.N*p.om)); pb = pa if 'modified' in q.b else p
            if 'kap' in p and X.M[q.a].ens == 'force':
                ok = np.ones(len(p.x), bool)
                for k in (q.a, q.b):
                    if lat.kind(k) in ('morse', 'log_squared', 'lennard_jones'): ok &= p.x < .9*X.P_('ufjc::' + lat.kind(k), p).eta_max
                pa = pb = lat.sub(p, ok)
            A, B = Mod(P, q.a, pa), Mod(P, q.b, pb); o.cover(states=A.n, transitions=A.n if i else 0)
            for f in q.fns:
                if f not in A.names() or f not in B.names(): continue
                (wa, ta), (wb, tb) = A.want(f), B.want(f); a, b = A.got(f), B.got(f); d = np.abs(a - b); t = ta + tb + 1e-12*np.abs(b); o.cover(validated=2*A.n)
                bound = np.abs(wa - wb)*(1 + 1e-6) + t; site = q.a + ' -> ' + q.b + ' ' + f; fin = np.isfinite(bound)
                o.mask(site, fin & ~(d <= bound), A.pt(), lambda j: '%.17g and %.17g differ by more than the models do (%.6g)' % (a[j], b[j], bound[j]), lambda j: A.calls(f)(j) + B.calls(f)(j))
                if f in prev and q.shrink and len(prev[f][0]) == len(d):
                    d0, t0 = prev[f][:2]; bad = fin & ~(d <= d0/q.shrink + t + t0 + q.tol*np.abs(b)) if q.par != 'x' else fin & ~(d/np.abs(b) <= prev[f][2]/q.shrink + (t + t0)/np.abs(b) + q.tol)
                    o.mask(site + ' (limit)', bad, A.pt(), lambda j: 'difference %.6g after %.6g a step earlier' % (d[j], d0[j]), lambda j: A.calls(f)(j) + B.calls(f)(j))
                prev[f] = (d, t, d/np.abs(b))
            if A.n: o.sample(dict(limit=q.a + ' -> ' + q.b, parameter=q.par, value=float(v), point=A.pt()(0)), 1)
    t = table(tier); r.info['walks'] = len(t)
    pmap(r, P, sorted(t, key=lambda q: not lat.slow(q.a)), work)
