"""Instances against free functions: for every public structure, every configuration, every method reachable through its
nested structures returns what the free function of that module returns for the arguments the structure was given."""
import numpy as np, lat, spec as X
from engine import *
def configs(k, names, tier):
    """Structure arguments: number of links, lengths, masses, link parameters (fixed at 300 K), as one lattice."""
    th = tier == 'thorough'; t = lat.params(k, 1 if th else 0)
    fj = k.startswith('fjc')
    Na = np.array([2., 3, 8, 17, 30]) if fj else np.array([1., 2, 3, 8, 100, 255]); Nall = np.arange(2 if fj else 1, (31 if fj else 256))
    q = [lat.prod(x=1., N=Na, **t, l=[.05, 1., 30.], m=[.02, 1., 40.]), lat.prod(x=1., N=Nall, **lat.params(k, 0), l=[.7], m=[2.])]
    if th: q.append(lat.prod(x=1., N=Na[1:4], **lat.params(k, 2), l=[.7], m=[2.]))
    return lat.cat(*q)
def physical(p):
    """Dimensional link parameters of the configurations, which stay what they are at other temperatures."""
    kT = KB*p.T; d = {}
    if 'kap' in p: d['k'] = p.kap*kT/p.l**2
    if 'eps' in p: d['u'] = p.eps*kT
    return d
ND, NR = 'nondimensional_equilibrium_distribution', 'nondimensional_equilibrium_radial_distribution'
def run(r, P, tier):
    th = tier == 'thorough'; Ts = np.array([77.36, 300.1, 600.7, 150.3, 273.15, 350.2, 1200.9, 310.15, 430.6]); nT = 6 if th else 3; nx = 40 if th else 9
    r.assumptions += ['rounding allowances of checks/spec.py, because a structure derives the nondimensional arguments of the free functions itself']
    def work(o, P, it):
        s, a, b = it; d = P.api['structs'][P.structs[s]]; base = s[len(S):].rsplit('::', 1)[0]; meths = {}
        for m in d['methods']: path = m['path'].split('.'); meths.setdefault('::'.join([base] + path[:-1]), []).append((m['path'], path[-1], m['args']))
        key = base if '::' in base else base + '::thermodynamics'
        C = configs(key, d['init'], tier); C = X.Pt({c: v[a:b] for c, v in C.items()}); F = physical(C)
        insts = []
        for i in range(len(C.x)):
            one = X.Pt({c: v[i:i + 1] for c, v in C.items()}); init = X.args_of(one, d['init'], 'force')[0]; inp = {c: float(v[0]) for c, v in one.items() if c in DIM_KEYS and c not in 'xT'}
            I = P.new(s, init); insts.append(I); o.cover(states=1)
            if I is None: o.fail(s + '::init', inp, 'panicked: ' + P.last_panic()); continue
            for f in d['fields']:
                v, e = I.get(f), dict(zip(d['init'], init))[f.split('.')[-1]]; o.cover(validated=1)
                if v != e: o.fail(s + '.' + f, inp, 'field %.17g, given %.17g' % (v, e))
        for k, ms in meths.items():
            if k not in X.M: o.info['without free functions'] = k; continue
            # every structure at its own temperatures and loads: successive structures interleave into one fine lattice
            n = len(C.x); fine = lat.loads(k, nx*24); sh = a + np.arange(n)[:, None, None]; xi = np.arange(nx)[None, None, :]*24 + (sh*7 + 11*np.arange(nT)[None, :, None]) % 24
            rep = lambda v: np.repeat(v, nT*nx); p = X.Pt({c: rep(v) for c, v in C.items()})
            p['T'] = np.broadcast_to(Ts[(sh + np.arange(nT)[None, :, None]*(1 if th else 3)) % 9], xi.shape).ravel(); p['x'] = fine[xi % len(fine)].ravel(); p['own'] = rep(np.arange(n)).astype(float)
            if 'k' in F: p['kap'] = rep(F['k'])*p.l**2/(KB*p.T)
            if 'u' in F: p['eps'] = rep(F['u'])/(KB*p.T)
            if 'modified' in k: p = lat.cat(*[X.Pt(p).at(om=w) for w in ((.3, 20.) if not th else (.05, .3, 3., 20., 100.))])
            p = lat.clip(k, p); p = lat.sub(p, (p.N >= lat.Nmin(k)) & (p.N <= lat.Nmax(k)) & np.array([insts[int(i)] is not None for i in p.own]))
            if 'kap' in p and lat.kind(k) == 'morse': p = lat.sub(p, p.kap < 30*p.eps)
            if lat.slow(k): p = lat.sub(p, (p.N <= 8) | (np.arange(len(p.x)) % 7 == 0))
            if not len(p.x): continue
            o.cover(transitions=len(p.x)*len(ms))
            norms = np.ones(len(p.x))
            m1 = Mod(P, k, p); free_args = {f: P.args(S + k + '::' + f) for _, f, _ in ms}
            call2 = lambda path, names, q, k: calls(insts, path, X.args_of(q, names, X.M[k].ens), q.own)
            call = lambda path, names: calls(insts, path, X.args_of(p, names, X.M[k].ens), p.own)
            if any('normalization_nondimensional_equilibrium_distribution' in v for v in free_args.values()):
                # a structure normalizes its distributions itself (the constant is checked by C07): one constant per structure
                path, names = [(q, n_) for q, f, n_ in ms if f == ND][0]; y = call(path, names); ref = m1.got(ND)
                for i in np.unique(p.own):
                    w = (p.own == i) & (ref > 1e-200)
                    if w.any(): j = np.flatnonzero(w)[np.argmax(ref[w])]; norms[p.own == i] = ref[j]/y[j]
                p = p.at(norm=norms); m1 = Mod(P, k, p)
            for path, f, names in ms:
                y = call(path, names); e = m1.got(f); t = m1.tol(f) + 1e-11*np.abs(e); fin = np.isfinite(t)
                if not fin.all(): t = np.where(np.isfinite(e) & ~fin, 1e-6*np.abs(e), t)
                o.mask(s + '.' + path, ~(close(y, e, t) | (np.isnan(y) & np.isnan(e))), m1.pt(), lambda i: 'method %.17g, free function %.17g, tolerance %.3g' % (y[i], e[i], t[i]), m1.calls(f)); o.cover(validated=2*len(y))
            # outside the models' domains too a method is its free function: no load, loads of the other sign, beyond the contour length
            q = lat.sub(p, np.arange(len(p.x)) % (7 if th else 23) == 0)
            if lat.slow(k): q = lat.sub(q, np.arange(len(q.x)) < 12)
            if not len(q.x): continue
            odd = [0., 1e-9, -.6, -20., 400.] if X.M[k].ens == 'force' else [0., 1e-7, -.4, 1., 1.15, -1.3]
            if k.startswith('ufjc'): odd = odd[:3] if X.M[k].ens == 'force' else odd[:2]      # elsewhere their inner iterations do not converge
            q = lat.cat(*[X.Pt(q).at(x=np.full(len(q.x), v)) for v in odd]); q = lat.sub(q, np.argsort(q.own, kind='stable'))
            m2, near = Mod(P, k, q), [Mod(P, k, q.at(x=q.x*(1 + e) + e*1e-3)) for e in (-1e-12, 1e-12)]
            S_ = q.N*np.maximum(1., KB*q.T)*(1 + sum(q[c] for c in ('kap', 'eps') if c in q))*1e-13      # free energies cancel
            for path, f, names in ms:
                y = call2(path, names, q, k); e = m2.got(f); ab = [n_.got(f) for n_ in near]; t = 1e-7*np.abs(e) + 1e-11 + 30*np.abs(ab[0] - e) + 30*np.abs(ab[1] - e) + S_*('energy' in f); o.cover(validated=2*len(y))
                ok = (y == e) | (np.abs(y - e) <= t) | (np.isnan(y) & np.isnan(e)) | ~np.isfinite(ab[0] + ab[1])
                o.mask(s + '.' + path + ' (outside the domain)', ~ok, m2.pt(), lambda i: 'method %.17g, free function %.17g, tolerance %.3g' % (y[i], e[i], t[i]), m2.calls(f))
        if len(C.x): o.sample(dict(structure=s, methods=len(d['methods']), number_of_links=float(C.N[0])), 2)
    def calls(insts, path, rows, own):
        y = np.empty(len(rows)); cuts = np.flatnonzero(np.diff(own)) + 1
        for seg in np.split(np.arange(len(rows)), cuts): y[seg] = insts[int(own[seg[0]])].call(path, rows[seg])[0]
        return y
    items = []
    for s in P.structs:
        base = s[len(S):].rsplit('::', 1)[0]; k = base if '::' in base else base + '::thermodynamics'
        n = len(configs(k, None, tier).x); step = 12 if 'modified' in base or base == 'fjc' or base == 'fjc::thermodynamics' else 40
        items += [(s, a, a + step) for a in range(0, n, step)]
    items.sort(key=lambda i: ('fjc' not in i[0].split('::')[2][:3], i[0].count('::')))
    pmap(r, P, items, work)
    r.info['structures'] = len(P.structs); r.info['methods'] = sum(len(s['methods']) for s in P.api['structs'])
