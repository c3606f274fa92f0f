"""The Python package, built from the current tree and imported, against the Rust structures: the package's whole tree of
modules, classes, attributes and methods is walked, and every method is called over lattices and array shapes."""
import importlib.machinery, importlib.util, inspect, warnings, numpy as np, lat, spec as X
from engine import *
from c01 import physical
def load():
    """Builds the extension module and imports it; the interpreter is the one running this check."""
    t = os.path.join(BUILD, 'py'); os.environ['PYO3_PYTHON'] = sys.executable
    run_cargo(os.path.join(VERIF, 'pyprobe'), ['build'], t); so = os.path.join(t, 'debug', 'libpyprobe.so')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); l = importlib.machinery.ExtensionFileLoader('polymers', so); m = importlib.util.module_from_spec(importlib.util.spec_from_loader('polymers', l)); l.exec_module(m)
    return m
def find(root, path):
    o = root
    for x in path.split('::'):
        o = getattr(o, x, None)
        if o is None: return None
    return o
def params_of(f):
    s = getattr(f, '__text_signature__', None)
    return None if s is None else [x.strip().lstrip('$') for x in s.strip('()').split(',') if x.strip() not in ('/', '$self', '', '*', '$cls')]
def shapes(x):
    """The same loads in every layout: flat, scalar, table, transposed, strided, reversed, Fortran, empty."""
    n = len(x); yield 'flat', x.copy()
    yield 'scalar array', np.array(x[0]); yield 'empty', np.empty(0)
    m = n//2*2; t = x[:m].reshape(2, m//2); yield 'table', t.copy(); yield 'transposed', t.copy().T; yield 'Fortran order', np.asfortranarray(t)
    yield 'strided', np.repeat(x, 3)[::3]; yield 'reversed', x[::-1]; yield 'cube', x[:m].reshape(1, 2, m//2).copy()
    yield 'one', x[:1].copy(); yield 'column', x[:, None]; yield 'spread', np.broadcast_to(x, (3, n)); yield 'five', x[:m].reshape(2, 1, m//2, 1, 1).copy(); yield 'long', np.tile(x, 2100//n + 1)
def frozen(x): x = x.view(); x.flags.writeable = False; return x
def configs(k, tier):
    th = tier == 'thorough'; fj = k.startswith('fjc'); N = ([2., 3, 8, 17, 30] if fj else [1., 2, 8, 100, 127, 128, 255]) if th else [3., 8., 30.] if fj else [3., 40., 128., 255.]
    a = lat.prod(x=1., N=N[:1], **lat.params(k, 0), l=[1.], m=[40.]); b = lat.prod(x=1., N=N, **lat.params(k, 2 if th else 1)); n = len(b.x)
    if th: b = lat.prod(x=1., N=N, **lat.params(k, 2), l=[.05, 1.3], m=[.02, 40.])
    else: b = b.at(l=np.array([.05, 1.3])[np.arange(n) % 2], m=np.array([.02, 40., 1.7])[np.arange(n) % 3])
    # every other number of links, with parameters and units which change from one to the next
    lo, hi = lat.Nmin(k), 30 if fj else 255; M_ = np.arange(lo, hi + 1, 1 if fj or th else 7) + 0.
    i = np.arange(len(M_)); q = lat.prod(x=1., **lat.params(k, 2)); c = X.Pt({z: v[(i*7) % len(v)] for z, v in q.items()}).at(N=M_, x=1., l=np.array([1., .05, 30., .2, 5.])[i % 5], m=np.array([1., .02, 40., 7.])[i % 4]); return lat.cat(*[X.Pt({q: z[q] for q in a}) for z in (a, b, c)])
def run(r, P, tier):
    root = load(); th = tier == 'thorough'
    r.assumptions += ['a structure of the package is found under the path of its Rust module', 'rounding allowances of checks/spec.py']
    seen = set(); inst = set()
    def walk(o, path):
        for n in dir(o):
            if n.startswith('_'): continue
            v = getattr(o, n); p = path + [n]
            if inspect.ismodule(v): walk(v, p)
            elif inspect.isclass(v): seen.add('::'.join(p))
    walk(root, []); known = set(P.structs) | {'constitutive::hyperelastic::BucheSilberstein', 'constitutive::hyperelastic_damage::BucheSilberstein'}
    for s in known - seen: r.fail(s, {}, 'no such class in the package')
    r.info['classes'] = len(seen)
    def work(o, P, s):
        d = P.api['structs'][P.structs[s]]; base = s[len(S):].rsplit('::', 1)[0]; key = base if '::' in base else base + '::thermodynamics'; C = find(root, s); o.cover(states=1)
        sig = params_of(C)
        if sig is not None and sig != d['init']: o.fail(s, {}, 'constructor takes %s, the structure %s' % (sig, d['init'])); return
        meths = {}
        for m in d['methods']: q = m['path'].split('.'); meths.setdefault('::'.join([base] + q[:-1]), []).append((m['path'], q[-1], m['args']))
        Z = configs(key, tier); F = physical(Z)
        for i in range(len(Z.x)):
            one = X.Pt({c: v[i:i + 1] for c, v in Z.items()}); init = X.args_of(one, d['init'], 'force')[0]; inp = {c: float(v[0]) for c, v in one.items() if c in DIM_KEYS and c not in 'xT'}
            kw = {n: (int(v) if n == 'number_of_links' else float(v)) for n, v in zip(d['init'], init)}
            try: I = C(*kw.values()); J = C(**kw) if i == 0 else I
            except BaseException as ex: o.fail(s + ' constructor', inp, 'raised %r' % ex); continue
            R_ = P.new(s, init)
            for f in d['fields']:
                v = J
                for a in f.split('.'): v = getattr(v, a, None)
                o.cover(validated=1)
                if v != kw[f.split('.')[-1]]: o.fail(s + '.' + f, inp, 'attribute is %r, given %r' % (v, kw[f.split('.')[-1]]))
            for k, ms in meths.items():
                if k not in X.M: continue
                T = [300., 77.36, 450.7, 1200.3][i % 4]; x = lat.loads(k, 60)[i % 3:-1:3][:20]; p = X.Pt({c: np.repeat(v[i:i + 1], len(x)) for c, v in Z.items()}).at(x=x, T=T, om=[.3, 20.][i % 2])
                if 'k' in F: p = p.at(kap=F['k'][i]*Z.l[i]**2/(KB*T))
                if 'u' in F: p = p.at(eps=F['u'][i]/(KB*T))
                p = lat.clip(k, p)
                if not len(p.x) or not lat.Nmin(k) <= Z.N[i] <= lat.Nmax(k): continue
                if lat.slow(k): p = lat.sub(p, np.arange(len(p.x)) % 4 == 0)
                n = len(p.x); m1 = Mod(P, k, p)
                for path, fn, names in ms:
                    v = I
                    for a in path.split('.')[:-1]: v = getattr(v, a, None)
                    f = getattr(v, fn, None)
                    if f is None: o.fail(s + '.' + path, inp, 'no such method in the package'); continue
                    if i == 0:
                        sig = params_of(f)
                        if sig is not None and sig != names: o.fail(s + '.' + path, inp, 'takes %s, the Rust method %s' % (sig, names)); continue
                    A = X.args_of(p, names, X.M[k].ens); want = R_.call(path, A)[0]; rest = {q: float(A[0, j]) for j, q in enumerate(names) if j}; x = np.ascontiguousarray(A[:, 0])
                    if not all((A[:, j] == A[0, j]).all() for j in range(1, len(names))): raise SystemExit('a lattice with varying scalars')
                    try: tol = m1.tol(fn) + 1e-11*np.abs(want)
                    except KeyError: tol = 1e-9*np.abs(want)
                    tol = np.where(np.isfinite(tol), tol, np.inf)
                    for label, a in ((z for z in shapes(x) if z[0] != 'long' or not lat.slow(k)) if i == 0 else [('flat', frozen(x))] if i % 2 else [('reversed', x[::-1])]):
                        before = a.copy()
                        try: y = f(a, *rest.values()) if label != 'strided' else f(**{names[0]: a}, **rest)
                        except BaseException as ex: o.fail(s + '.' + path, dict(inp, layout=label), 'raised %r' % ex); continue
                        y = np.asarray(y); o.cover(transitions=1, validated=a.size); P.evals += a.size
                        if y.shape != a.shape: o.fail(s + '.' + path, dict(inp, layout=label), 'returns shape %s for shape %s' % (y.shape, a.shape)); continue
                        if not (np.array_equal(before, a)): o.fail(s + '.' + path, dict(inp, layout=label), 'changes its argument')
                        w = {'flat': lambda v: v, 'scalar array': lambda v: v[0], 'empty': lambda v: v[:0], 'table': lambda v: v[:n//2*2].reshape(2, -1), 'transposed': lambda v: v[:n//2*2].reshape(2, -1).T,
                             'Fortran order': lambda v: v[:n//2*2].reshape(2, -1), 'strided': lambda v: v, 'reversed': lambda v: v[::-1], 'one': lambda v: v[:1], 'column': lambda v: v[:, None], 'spread': lambda v: np.broadcast_to(v, (3, n)), 'five': lambda v: v[:n//2*2].reshape(2, 1, -1, 1, 1), 'long': lambda v: np.tile(v, 2100//n + 1), 'cube': lambda v: v[:n//2*2].reshape(1, 2, -1)}[label]
                        e, t = w(want), w(tol); bad = ~((np.abs(y - e) <= t) | ~np.isfinite(e) & ~np.isfinite(y))
                        if bad.any():
                            j = np.unravel_index(np.flatnonzero(bad.ravel())[0], bad.shape) if bad.ndim else (); o.fail(s + '.' + path, dict(inp, layout=label, T=T, load=float(np.asarray(a)[j])), 'Python %.17g, Rust %.17g' % (y[j], e[j]))
                    if i < 2 and not lat.slow(k):
                        B = np.repeat(A[:1], 7, 0); B[:, 0] = np.array([0., -1., -.3, .37, 1.0, 1e6, np.nan])*(A[n//2, 0] if names[0] in ('force', 'end_to_end_length', 'potential_distance') else 1); want, st = R_.call(path, B); near = R_.call(path, B*(1 + 9e-16))[0]; firm = (np.abs(near - want) <= 1e-11*np.abs(want)) | (near == want) | np.isnan(near) & np.isnan(want)
                        if not st.any():
                            y = np.asarray(f(np.ascontiguousarray(B[:, 0]), *rest.values())); o.cover(states=7, validated=7); bad = firm & ~((np.abs(y - want) <= 1e-9*np.abs(want)) | (y == want) | np.isnan(y) & np.isnan(want))
                            if bad.any(): j = np.flatnonzero(bad)[0]; o.fail(s + '.' + path, dict(inp, T=T, load=float(B[j, 0])), 'Python %.17g, Rust %.17g (outside the usual range)' % (y[j], want[j]))
                o.cover(states=n)
        o.sample(dict(structure=s, methods=len(d['methods'])), 2)
    pmap(r, P, sorted((s for s in P.structs if s in seen), key=lambda s: s.count('::')), work)
    constitutive(r, P, root, th)
def constitutive(r, P, root, th):
    from cons import HyperImpl, DamageImpl
    H = find(root, 'constitutive::hyperelastic::BucheSilberstein'); D = find(root, 'constitutive::hyperelastic_damage::BucheSilberstein')
    def same(site, inp, y, w, a):
        r.cover(states=a.size, transitions=1, validated=a.size)
        if np.shape(y) != np.shape(w): r.fail(site, inp, 'returns shape %s, expected %s' % (np.shape(y), np.shape(w))); return
        bad = ~(np.abs(y - w) <= 1e-11*np.abs(w) + 1e-13*np.abs(w).max(initial=0) + 1e-14)
        if bad.any(): j = np.unravel_index(np.flatnonzero(bad.ravel())[0], bad.shape); r.fail(site, inp, 'Python %.17g, Rust %.17g' % (y[j], w[j]))
    for m, kap, n in [(3, 88., 8), (3, 1000., 255), (3, 20., 1), (3, 300., 128), (2, 50., 25)] if H else []:
        inp = dict(method=m, nondimensional_link_stiffness=kap, number_of_links=n); s = 'constitutive::hyperelastic::BucheSilberstein'; I = H(m, kap, n); J = HyperImpl(P, m, kap, n)
        if params_of(H) not in (None, ['method', 'nondimensional_link_stiffness', 'number_of_links']): r.fail(s, {}, 'constructor takes %s' % params_of(H))
        if (I.nondimensional_link_stiffness, I.number_of_links) != (kap, n): r.fail(s, inp, 'attributes differ from what was given')
        for which, name in ((0, 'uniaxial_tension'), (1, 'equibiaxial_tension')):
            x = np.array([.5, .9, 1.0, 1.1, 2.0, 3.0]); w = J.stress(which, x); f = getattr(I, name, None)
            if f is None: r.fail(s + '.' + name, inp, 'no such method'); continue
            for a, e in ((x, w), (x.reshape(2, 3), w.reshape(2, 3)), (x.reshape(2, 3).T, w.reshape(2, 3).T), (x[::-1], w[::-1]), (np.array(1.1), w[3])): same(s + '.' + name, inp, f(a), e, a)
    for m, c, kap, n, j in [(3, 1.3, 88., 8, 1.0), (3, 1.5, 200., 25, 1.7), (3, 2.0, 30., 200, .5), (3, 6.0, 15., 1, 4.0), (2, 1.3, 50., 4, 1.0)] if D else []:
        s = 'constitutive::hyperelastic_damage::BucheSilberstein'; I = D(m, c, kap, n, j); J = DamageImpl(P, m, c, kap, n, j); inp = dict(method=m, nondimensional_critical_extension=c, nondimensional_link_stiffness=kap, number_of_links=n, swelling_ratio=j)
        if (I.nondimensional_critical_extension, I.nondimensional_link_stiffness, I.number_of_links, I.swelling_ratio) != (c, kap, n, j): r.fail(s, inp, 'attributes differ from what was given')
        f = getattr(I, 'uniaxial_tension', None)
        if f is None: r.fail(s + '.uniaxial_tension', inp, 'no such method'); continue
        for h in ([1.0, 2.0, 1.0, 3.0, 2.0, 5.0, 1.0], [3.0, 1.0], [1.0], [1.5, 1.4, 1.3, 1.6, 1.1, 1.55], [2.0, 2.004, 2.008, 2.012, 2.016, 1.5, 2.01], [9.0, 4.0, 12.0, 9.0], [2.5 if i == 5 else 1 + .1*(i % 9) for i in range(64)]):
            if m == 2 and len(h) > 20: continue
            h = np.array(h); w = J.run(h[None, :])[0][0]; y = f(h); same(s + '.uniaxial_tension', dict(inp, history=str(h.tolist())), np.asarray(y), damage_layout(np.asarray(y), w), h)
            g = f(h); same(s + '.uniaxial_tension', dict(inp, history=str(h.tolist()), again='yes'), np.asarray(g), damage_layout(np.asarray(g), w), h)
def damage_layout(y, w): return w.T    # stresses first, then total probabilities
