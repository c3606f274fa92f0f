"""The bounded state spaces: for each single-chain module, lattices of model configurations and loads inside the
domain where the model is defined.  Everything here is enumerated completely; nothing is drawn at random."""
import itertools, numpy as np
import ref as R, spec as X
from spec import Pt, S
def mods(P):
    """module key -> list of (function, argument names) of the modules with a reference."""
    d = {}
    for f in P.api['funs']:
        m, n = f['path'].rsplit('::', 1)
        if m.startswith(S): d.setdefault(m[len(S):], []).append((n, f['args']))
    return d
def prod(**kw):
    ks = list(kw); g = np.array(list(itertools.product(*[np.atleast_1d(kw[k]) for k in ks])), float).reshape(-1, len(ks))
    p = Pt({k: np.ascontiguousarray(g[:, i]) for i, k in enumerate(ks)}); n = len(g)
    for k, v in (('l', 1.), ('m', 1.), ('T', 300.), ('norm', 1.)): p.setdefault(k, np.full(n, v))
    return p
def cat(*ps): return Pt({k: np.concatenate([p[k] for p in ps]) for k in ps[0]})
def sub(p, ok): return Pt({k: v[ok] for k, v in p.items()})
def fjc_like(k): return k.startswith('fjc::thermodynamics::isometric') or 'modified_canonical' in k
def kind(k): return k.split('::thermodynamics')[0].split('::')[-1]
def params(k, level):
    """Lattice of the nondimensional model parameters; level 0: one or two, 1: a few, 2: many."""
    t = kind(k); pick = lambda a, b, c: (a, b, c)[level]
    if t == 'morse': return dict(kap=pick([200.], [50., 200., 800.], [5., 25., 50., 100., 140., 200., 400., 800., 2000.]), eps=pick([88.], [30., 88., 2500.], [5., 20., 50., 88., 200., 450., 700., 1000., 5000.]))
    if t in ('efjc', 'log_squared', 'lennard_jones'): return dict(kap=pick([50., 500.], [20., 50., 200., 1000.], [3., 8., 15., 20., 27., 35., 50., 66., 88., 120., 150., 220., 300., 500., 700., 1000., 1500.] + [5000.]*(k in X.M and X.M[k].ens == 'force')))
    if t == 'swfjc': return dict(w=pick([1.2], [1.02, 1.2, 2.0], [1.01, 1.05, 1.1, 1.2, 1.3, 1.4, 1.5, 1.7, 2.0, 2.5, 3.0]))
    if t == 'wlc': return dict(kp=pick([.08, .4], [.03, .08, .2, .4, 1.5], [.02, .05, .08, .12, .1249, .125, .13, .2, .35, .5, 1., 2., 5.]))
    if 'modified' in k: return dict(om=pick([3.], [.05, 3., 60.], [.01, .1, .25, 1., 2.5, 5., 12., 20., 100.]))
    return {}
def loads(k, n):
    """n loads; forces are on a logarithmic then linear grid, extensions are fractions of the accessible range."""
    if X.M[k].ens == 'length': return np.unique(np.round(np.concatenate([np.geomspace(1e-3, .2, n//3), np.linspace(.2, .998, n - n//3 + 1)[1:]]), 9))
    if kind(k) == 'wlc': return np.unique(np.concatenate([np.geomspace(1e-3, 2, n//3), np.linspace(2, 99.5, n//3 + 1)[1:], np.geomspace(100.5, 1000, n - 2*(n//3))]))
    return np.unique(np.concatenate([np.geomspace(1e-4, 2, n//3), np.linspace(2, 40, n//3 + 1)[1:], np.geomspace(40, 690, n - 2*(n//3) + 1)[1:]]))
def special(k):
    """Loads at which a formula may change branch: round numbers, one, and their neighbours."""
    v = [1e-3, 2e-3, 5e-3, .01, .02, .05, .1, .15, .2, .25, .3, 1/3, .4, .5, .6, 2/3, .7, .75, .8, .9, .95, 1.0, 1.05, 1.1, 1.2, 1.25]
    if X.M[k].ens == 'force': v += [1.5, 2, 2.5, 3, 4, 5, 6, 8, 10, 12, 15, 20, 25, 30, 35, 40, 50, 60, 64, 75, 80, 90, 99, 100, 101, 120, 128, 150, 200, 250, 256, 300, 350, 400, 500, 600, 650]
    v = np.array(v, float); return np.unique(np.concatenate([v, np.nextafter(v, 0), np.nextafter(v, 1e9), v*(1 - 1e-9), v*(1 + 1e-9)]))
def Nmax(k): return 34 if k == 'fjc::thermodynamics::isometric' or k.endswith('strong_potential') else 30 if k == 'fjc::thermodynamics::modified_canonical' else 255
def Nmin(k): return 2 if (k == 'fjc::thermodynamics::isometric' or k == 'fjc::thermodynamics::modified_canonical' or 'strong' in k or k.endswith('fjc::thermodynamics::isometric::legendre')) and k.startswith('fjc') else 1
def Ns(k, level):
    a, b = Nmin(k), Nmax(k)
    if level == 2: return np.arange(a, b + 1.)
    c = [1, 2, 3, 8, 25, 100, 255] if level == 1 else [2, 8]
    return np.array([x for x in sorted(set(c + [a, b])) if a <= x <= b] if level == 1 else c, float)
def clip(k, p, scale=True):
    """The part of a lattice inside the model's domain (extensions are rescaled into it)."""
    t, mod = kind(k), X.M[k]
    if mod.ens == 'length':
        if t == 'efjc' and scale: p = p.at(x=p.x*1.3)
        if t == 'swfjc': p = p.at(x=p.x*p.w*.97) if scale else sub(p, p.x < p.w*.97)
        if t in ('morse', 'log_squared', 'lennard_jones'):
            top = mod.iso(p.at(x=np.minimum(0.995*X.etamax('ufjc::' + t)(p), 690)))[1]; p = p.at(x=p.x*top) if scale else sub(p, p.x < top)
        if t == 'wlc': p = sub(p, (p.x < .995) & (p.kp <= 20))
        if t in ('efjc', 'morse', 'log_squared', 'lennard_jones') and 'kap' in p and p.kap.max() > 5000: p = sub(p, X.per_link(lambda q: (mod.invert(q),), p)[0] < 690)
        if k.endswith('strong_potential'): p = sub(p, p.x < 1 - 1e-4)
        if k == 'fjc::thermodynamics::isometric::legendre': p = sub(p, p.x < 1 - 1/690)
        if not scale and t in ('fjc', 'ideal'): p = sub(p, p.x < .9999)
        if k.endswith('weak_potential') or slow(k): p = sub(p, (p.N*p.om*p.x < 650) | slow(k)*(p.x < 1)); p = sub(p, (p.x < 1) | (p.om/2*(p.N*(p.x - 1))**2 < 600) | (not slow(k)))
        return p
    if t in ('morse', 'log_squared', 'lennard_jones'): 
        q = X.P_('ufjc::' + t, p); lam = q.stretch(np.minimum(p.x, .999*q.eta_max)); p = sub(p, (p.x < .999*q.eta_max) & (('asymptotic' in k) | (p.x*lam - q.u(lam) < 700)))
    if t == 'swfjc': p = sub(p, p.x*p.w < 690)
    if t == 'wlc': p = sub(p, (p.kp <= 20) & ((p.N*p.x < 2000) | (p.x > 100) & (p.N*p.x < 60000)) & (np.abs(p.x - 100) > .01))
    return p
LMT = dict(l=[1e-3, .05, 1., 30.], m=[.02, 1., 40.], T=[1., 77., 273.15, 300., 350., 600., 1200.])
LMT2 = dict(l=[1e-3, .01, .2, 1., 5., 30.], m=[.02, 1., 7., 40.], T=[1., 10., 77., 200., 273.15, 300., 325., 350., 500., 700., 1200.])
def slow(k): return k == 'fjc::thermodynamics::modified_canonical'
def mixed(k, n):
    """Every pair of values of every two coordinates, by cycles of coprime lengths: links, loads, units, parameters."""
    i = np.arange(n); cyc = lambda v, d=1: np.asarray(v, float)[(i//d) % len(v)]; par = prod(x=1., N=1., **params(k, 2)); q = X.Pt({c: cyc(v, 29) for c, v in par.items()})
    N = np.arange(Nmin(k), Nmax(k) + 1.); N = N if Nmax(k) > 100 else N[(np.arange(1021)*7) % len(N)]; xs = np.unique(loads(k, 1100))[:1009]
    if slow(k): N = np.array([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 17.])
    q.update(N=cyc(N), x=cyc(xs[(np.arange(len(xs))*389) % len(xs)]), T=cyc([300., 1., 77., 350., 4.2, 1200., 150., 273.15, 250., 400., 298.15, 20., 600.]), l=cyc([1., .05, 30., .2, 5., 1e-3, 1.7]), m=cyc([1., .02, 40., 7.], 3), norm=np.ones(n)); return q
def edges(k, th):
    """Far corners: tiny loads, loads near the greatest, extreme parameters, units far from the usual."""
    sl, mod, t = slow(k), X.M[k], kind(k); N = np.array([2., 8.]) if sl else Ns(k, 1); g = np.geomspace
    x = np.concatenate([g(1e-6, 1e-3, 90 if th else 18)[:-1]] + ([1 - g(1e-9, 5e-3, 60 if th else 15)] if mod.ens == 'length' else [g(40, 690, 80 if th else 20)]))
    yield prod(N=N, x=x, **params(k, 0 if sl else 1))
    yield prod(N=N[1:2], x=loads(k, 12)[2:-1:3], **params(k, 0), l=[1e-4, 1e4], m=[1e-4, 1e4], T=[.1, 1e5])
    par = dict(kap=[2., 1e4, 1e5], eps=[3., 1e4, 1e5]) if t == 'morse' else dict(kap=[2., 1e4, 1e5, 1e6]) if t in ('efjc', 'log_squared', 'lennard_jones') else dict(w=[1.0001, 1.001, 5., 10.]) if t == 'swfjc' else dict(kp=[.01, .015, 10., 15.]) if t == 'wlc' else dict(om=[.001, 1e3]) if 'modified' in k else {}
    if par: yield prod(N=N[:4], x=loads(k, 150 if th else 40), **par)
    if 'modified' in k and 'strong' not in k: yield prod(N=N[:4], x=g(1, 300, 40 if th else 12 if sl else 24), om=[.001, .01, .1, .5, 3., 20.])          # potentials held beyond the contour
def slices(k, tier='quick', lmt=True, dense=None, boost=1):
    """The standard state space of a module: a dense chain of loads for every parameter, every parameter with every
    kind of chain, every number of links, every choice of units."""
    th = tier == 'thorough'; nx = dense or (12000 if th else 3000)*boost
    if slow(k): nx //= 30
    lv = 2 if th else 1
    yield 'special', prod(N=Ns(k, 0), x=special(k), **params(k, lv))
    yield 'loads', prod(N=Ns(k, 0), x=loads(k, nx), **params(k, lv))
    yield 'parameters', prod(N=Ns(k, 1), x=loads(k, 300 if th else 60), **params(k, 2))
    if slow(k): yield 'links', prod(N=Ns(k, 2) if th else np.array([2, 3, 4, 5, 7, 9, 11, 14, 17.]), x=loads(k, 9)[1::2], **params(k, 0))
    else: yield 'links', prod(N=Ns(k, 2), x=loads(k, 150 if th else 40)[1::2], **params(k, lv if th else 0))
    if kind(k) in ('morse', 'log_squared', 'lennard_jones') and X.M[k].ens == 'force': q = prod(N=Ns(k, 0), x=1 - np.geomspace(.0011, .5, 400 if th else 80), **params(k, 2)); q = q.at(x=q.x*X.P_('ufjc::' + kind(k), q).eta_max); yield 'limits', sub(q, q.x < 690)
    yield 'mixed', mixed(k, (200000 if th else 10000*(boost if not slow(k) else 1))//(40 if slow(k) else 2 if k.startswith('wlc') and X.M[k].ens == 'force' else 1))
    yield 'edges', cat(*edges(k, th))
    if lmt: yield 'units', prod(N=Ns(k, 0 if slow(k) else 1)[1:5:2], x=loads(k, 30 if th else 9)[1::3], **params(k, 1 if th else 0), **(LMT2 if th else LMT))
def space(k, tier='quick', **kw):
    return [(n, clip(k, p, n != 'special')) for n, p in slices(k, tier, **kw)]
