"""The C interface against the Rust functions: every exported symbol, on lattices of distinct arguments, by value."""
import ctypes as ct, itertools, numpy as np, lat, spec as X, subprocess
from engine import *
U8, F64 = ct.c_uint8, ct.c_double
def symbol(path): return path.replace('::', '_')
def bind(L, path, names):
    f = getattr(L, symbol(path)); f.restype = F64; f.argtypes = [U8 if n == 'number_of_links' else F64 for n in names]; return f
def lattice(k, tier):
    """Distinct arguments over the whole domain, special loads included, with several units at once."""
    th = tier == 'thorough'; a = lat.prod(N=lat.Ns(k, 1 if not th else 2)[::1], x=lat.loads(k, 24)[1::2], **lat.params(k, 1)); b = lat.prod(N=lat.Ns(k, 0), x=lat.special(k)[::1 if th else 5], **lat.params(k, 0)); c = lat.prod(N=lat.Ns(k, 2), x=lat.loads(k, 9)[2::3], **lat.params(k, 0))
    out = []
    for scaled, p in ((True, a), (False, b), (True, c)):
        n = len(p.x); i = np.arange(n); p = p.at(l=np.array([.05, .7, 1.3, 30.])[i % 4], m=np.array([.02, 1.7, 40.])[i % 3], T=np.array([77.36, 300., 350.2, 611.9, 1200.3, .3])[i % 6], norm=np.array([1., .37])[i % 2]); out.append(lat.clip(k, p, scaled))
    p = lat.cat(*out); cap = (300 if lat.slow(k) else 20000) if th else (40 if lat.slow(k) else 1500)
    p = lat.sub(p, np.arange(len(p.x)) % max(1, len(p.x)//cap) == 0)
    d = lat.clip(k, lat.mixed(k, 60 if lat.slow(k) else 20000 if th else 2500 if not k.startswith('wlc') else 900)); e = lat.sub(d, np.arange(len(d.x)) % 9 == 0)
    # outside their domains, too, both do the same: no load, loads of the other sign, loads much too large
    return lat.cat(*[X.Pt({q: z[q] for q in p}) for z in (p, d, e.at(x=-e.x), e.at(x=e.x*0), e.at(x=1 + e.x))])
def run(r, P, tier):
    L = P.L; exported = set(l.split()[-1] for l in subprocess.run(['nm', '-D', '--defined-only', P.so], stdout=subprocess.PIPE, text=True).stdout.splitlines())
    c_api = sorted(f for f in P.funs if not f.startswith('math::'))
    r.assumptions += ['a chain of N links is passed as an unsigned byte, everything else as doubles, as documented']
    missing = [f for f in c_api if symbol(f) not in exported]; r.cover(states=len(c_api), validated=len(c_api))
    for f in missing: r.fail(f, {}, 'no symbol %s in the library' % symbol(f))
    mods = {}
    for f in c_api:
        if f not in missing: mods.setdefault(f.rsplit('::', 1)[0], []).append(f)
    r.info['symbols'] = len(c_api) - len(missing)
    def work(o, P, m):
        k = m[len(S):]
        if k not in X.M: o.fail(m, {}, 'a module of the C interface without a lattice'); return
        p = lattice(k, tier); n = len(p.x)
        for f in mods[m]:
            names = P.args(f); A = X.args_of(p, names, X.M[k].ens); want, st = P.raw(f, A); fn = bind(L, f, names)
            col = [A[:, j].astype(np.uint8).tolist() if q == 'number_of_links' else A[:, j].tolist() for j, q in enumerate(names)]
            ok = st == 0; got = np.array([fn(*a) if s else np.nan for a, s in zip(zip(*col), ok)]); P.evals += n; o.cover(states=n, transitions=n, validated=n)
            with np.errstate(all='ignore'): same = (got == want) | np.isnan(got) & np.isnan(want) | (np.abs(got - want) <= 1e-13*np.abs(want))
            o.mask('C ' + f, ok & ~same, lambda i: dict(zip(names, A[i])), lambda i: 'C interface %.17g, Rust %.17g' % (got[i], want[i]), lambda i: [dict(fn=f, args=dict(zip(names, map(float, A[i]))), value=float(want[i]))])
        o.sample(dict(module=m, symbols=len(mods[m]), point=point(p, DIM_KEYS)(n//2)), 2)
    pmap(r, P, sorted(mods, key=lambda m: not lat.slow(m[len(S):])), work)
    constitutive(r, P, exported, tier)
def constitutive(r, P, exported, tier):
    """The stress functions of the hyperelastic model, given the arrays of a model built here."""
    from cons import HyperImpl, Hyper, energy
    pre = 'constitutive_hyperelastic_buche_silberstein_'
    for which, name in ((0, 'uniaxial_tension'), (1, 'equibiaxial_tension')):
        if pre + name not in exported: r.fail(pre + name, {}, 'no such symbol'); continue
        f = getattr(P.L, pre + name); f.restype = F64; f.argtypes = [ct.c_void_p, F64, ct.c_void_p, F64, U8, F64, U8, F64]
        for m, kap, n in [(3, 88., 8), (3, 1000., 255), (3, 20., 1), (2, 50., 25)]:
            H = Hyper(m, kap, n); I = HyperImpl(P, m, kap, n); e = np.zeros((257*256)); e[:256*256] = np.ascontiguousarray(H.e).ravel(); g = np.zeros(257); g[:256] = H.g
            # the symbol reads whole arrays of arrays; give it room
            E = np.zeros(256*256*2); E[:256*256] = H.e.ravel(); lam = np.array([.5, .9, 1.0, 1.1, 2.0, 3.0, 5.0]) if which == 0 else np.array([.6, 1.0, 1.5, 2.5])
            want = I.stress(which, lam); r.cover(states=len(lam), transitions=len(lam), validated=len(lam))
            for l, w in zip(lam, want):
                y = f(E.ctypes.data, H.f, g.ctypes.data, H.norm, m, kap, n, l); t = 3e-6*max(1, .02*n)*np.abs(H.e).sum()*0 + 1e-4*abs(w) + 1e-6*max(1, .02*n)
                if not abs(y - w) <= t: r.fail('C ' + pre + name, dict(method=m, nondimensional_link_stiffness=kap, number_of_links=n, stretch=l), 'C interface %.17g, Rust %.17g' % (y, w))
