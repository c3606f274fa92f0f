"""The Julia package, read and executed by an interpreter (checks/jl.py): every function and every method of every structure is
called over lattices and array shapes; foreign calls go to the real functions, with the types the C interface has."""
import re, numpy as np, lat, spec as X, jl
from engine import *
from c01 import physical
from c24 import configs
SRC = os.path.join(REPO, 'src')
snake = lambda n: re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', n).lower()
ENTRY = 'Polymers.jl'
def symbols(P):
    """C symbols and their argument types, from the Rust signatures (which C23 compares with the C interface)."""
    out = {}
    for p in P.funs: out[p.replace('::', '_')] = (p, ['UInt8' if n == 'number_of_links' else 'Float64' for n in P.args(p)])
    return out
def load(P):
    syms = symbols(P); used = {}
    def ccall(name, lib, ret, types, args):
        if name not in syms: raise jl.JuliaError('could not load symbol "%s"' % name)
        if lib != 'Polymers_jll.libpolymers': raise jl.JuliaError('symbol "%s" is not in %s' % (name, lib))
        path, want = syms[name]; have = [t.name for t in types]
        if have != want or ret.name != 'Float64': raise jl.JuliaError('%s declared with (%s) returning %s, but C has (%s)' % (name, ', '.join(have), ret.name, ', '.join(want)))
        used[name] = used.get(name, 0) + 1
        v, st = P.raw(path, [[float(x) for x in args]], 1)
        if st[0]: raise jl.JuliaError('panic in ' + name)
        return np.float64(v[0])
    J = jl.Julia(ccall); J.used = used; M = J.load(os.path.join(SRC, ENTRY)); return J, M
def value(x, n): return jl.U(int(x), 8) if n == 'number_of_links' else np.float64(x)
def binding(g, names):
    """The function's own parameters, and for each the Rust argument it stands for: by name, or by position when the names differ."""
    own = [q[0] for q in g.m[0].pars if not q[4]]; arr = [q[1].has(np.ones(2)) or q[1].has(np.ones(2, np.uint8)) for q in g.m[0].pars if not q[4]]
    if set(names) <= set(own): return own, arr
    return (names, arr) if len(own) == len(names) else (None, None)
def layouts(A, names, arr):
    """The same states passed in different ways: scalar by scalar, vectors, one vector and scalars, tables, dimensions which meet."""
    n = len(A)
    col = lambda j, v=None: np.ascontiguousarray(A[:, j]).astype(np.uint8) if names[j] == 'number_of_links' else np.ascontiguousarray(A[:, j])
    yield 'scalars', None, None
    m = n//2*2; flat = [j for j in range(len(names)) if not arr[j]]     # parameters declared as numbers; states which agree on them
    if flat: keep = (A[:, flat] == A[n//2, flat]).all(1); A = A[keep]; n = len(A); m = n//2*2
    else: keep = np.ones(n, bool)
    yield 'vectors', [col(j) if arr[j] else value(A[0, j], names[j]) for j in range(len(names))], lambda w: w[keep]
    yield 'matrices', [col(j)[:m].reshape(2, -1) if arr[j] else value(A[0, j], names[j]) for j in range(len(names))], lambda w: w[keep][:m].reshape(2, -1)
    for j in range(len(names)):
        if arr[j]: yield 'vector %s' % names[j], ('one', j), None
def run(r, P, tier):
    th = tier == 'thorough'
    r.assumptions += ['the interpreter checks/jl.py gives the wrappers the meaning Julia gives them (no Julia is installed to compare with)', 'imports of names defined later in the package are resolved when used, as Julia 1.12 does', 'foreign calls are made to the Rust functions; C23 shows the C interface to be the same', 'rounding allowances of checks/spec.py']
    try: J, M = load(P)
    except jl.JuliaError as ex: r.fail(ENTRY, {}, 'the package does not load: %s' % ex); return
    top = M.d.get('Polymers')
    table = {}
    for mod, n, m in J.defs:
        p = [snake(x) for x in mod.path()[1:]] + [n]; table['::'.join(p)] = mod.d[n]
    r.info['files'] = len(J.files); r.info['method definitions'] = len(J.defs)
    have = {p: g for p, g in table.items() if isinstance(g, jl.Generic)}; want = {p for p in P.funs if p.startswith('physics::')}
    for p in sorted(want - set(have)): r.fail(p, {}, 'no such function in the Julia package')
    structs = {p: g for p, g in table.items() if isinstance(g, jl.StructType)}
    for s in P.structs:                  # the ideal chain's structures are IDEAL in Julia, and Ideal in Rust
        if s not in structs: structs.update({s: g for p, g in list(structs.items()) if p.lower() == s.lower()})
    for s in P.structs:
        if s not in structs: r.fail(s, {}, 'no such structure in the Julia package')
    r.info['functions'] = len(have); r.info['structures'] = len(set(map(id, structs.values())))
    def free(o, P, path):
        names = P.args(path); g = have[path]; base, fn = path[len(S):].rsplit('::', 1); k = base if base in X.M else None
        if k is None: A = 1.0 + .1*np.arange(1, len(names) + 1)[None, :]*np.ones((4, 1)); tol = None
        else:
            Z = configs(k, tier); rows = []
            for i in range(len(Z.x)):
                x = lat.loads(k, 36)[1::3][:6 if th else 3]; p = X.Pt({c: np.repeat(v[i:i + 1], len(x)) for c, v in Z.items()}).at(x=x, T=[298.15, 77.36][i % 2], om=[.3, 20.][i % 2])
                rows.append(p)
            p = lat.clip(k, lat.cat(*rows))
            if lat.slow(k): p = lat.sub(p, np.arange(len(p.x)) % 4 == 0)
            p = lat.sub(p, (p.N >= lat.Nmin(k)) & (p.N <= lat.Nmax(k)))
            if not lat.slow(k):          # outside the domains, too, where the Rust function returns at all
                e = lat.sub(p, np.arange(len(p.x)) % 7 == 0); p = lat.cat(*[X.Pt({q: z[q] for q in p}) for z in (p, e.at(x=-e.x), e.at(x=e.x*0), e.at(x=1 + e.x))])
            try: A = X.args_of(p, names, X.M[k].ens)
            except KeyError: A = 0.3 + .1*np.arange(1, len(names) + 1)[None, :]*np.ones((4, 1)); p = None
            A = np.ascontiguousarray(A)
        for j, q in enumerate(names):
            if q == 'number_of_links' and k is None: A[:, j] = np.arange(3, 3 + len(A))
        own, arr = binding(g, names)
        if own is None: o.fail(path, {}, 'takes (%s), the Rust function (%s)' % (', '.join(q[0] for q in g.m[0].pars), ', '.join(names))); return
        w, st = P.raw(path, A); ok = st == 0; A, w = A[ok], w[ok]; n = len(A); pos = [own.index(q) for q in names]
        wide = np.empty((n, len(own))); wide[:, pos] = A
        for j, q in enumerate(own):
            if q not in names: wide[:, j] = 3 + np.arange(n) % 200 if q == 'number_of_links' else 1.5 + np.arange(n)
        A = wide; rust, names = names, own; back = lambda B: P.raw(path, B[:, pos])
        tolv = 1e-12*np.abs(w)
        o.cover(states=n)
        def cmp(label, y, e, t, inp):
            y = np.asarray(y, float); o.cover(transitions=1, validated=int(np.size(e)))
            if np.shape(y) != np.shape(e): o.fail(path, dict(inp, layout=label), 'returns shape %s, expected %s' % (np.shape(y), np.shape(e))); return
            bad = ~((np.abs(y - e) <= t) | ~np.isfinite(e) & ((y == e) | np.isnan(y) & np.isnan(e)))
            if bad.any(): j = np.unravel_index(np.flatnonzero(bad.ravel())[0], bad.shape) if bad.ndim else (); o.fail(path, dict(inp, layout=label), 'Julia %.17g, Rust %.17g' % (y[j], e[j]))
        for label, a, f in layouts(A, names, arr):
            try:
                if label == 'scalars':
                    for i in range(n):
                        inp = {q: float(v) for q, v in zip(names, A[i])}; y = J.call(g, [value(v, q) for v, q in zip(A[i], names)])
                        if not jl.isflt(y): o.fail(path, inp, 'returns a %s for scalars' % jl.kind(y)); break
                        cmp(label, y, np.asarray(w[i]), tolv[i], inp)
                elif isinstance(a, tuple):
                    j = a[1]; i0 = n//2; B = np.repeat(A[i0:i0 + 1], 3, 0); B[:, j] = B[:, j] + [0, 1, 2] if names[j] == 'number_of_links' and B[0, j] < 250 else B[:, j]*[1, .99, .98] if names[j] != 'number_of_links' else B[:, j]
                    e, st = back(B)
                    if st.any(): continue
                    args = [value(v, q) for v, q in zip(A[i0], names)]; v = B[:, j].astype(np.uint8) if names[j] == 'number_of_links' else B[:, j].copy()
                    args[j] = v; inp = {q: float(v) for q, v in zip(names, A[i0])}; cmp(label, J.call(g, args), e, 1e-12*np.abs(e), inp)
                    args[j] = v.reshape(3, 1); cmp('column, ' + label, J.call(g, args), e.reshape(3, 1), 1e-12*np.abs(e).reshape(3, 1), inp)
                else:
                    e = f(w); cmp(label, J.call(g, a), e, 1e-12*np.abs(e), {})
            except jl.JuliaError as ex: o.fail(path, dict(layout=label), str(ex))
    pmap(r, P, sorted(want & set(have)), free)
    def work(o, P, s):
        d = P.api['structs'][P.structs[s]]; base = s[len(S):].rsplit('::', 1)[0]; key = base if '::' in base else base + '::thermodynamics'; C = structs[s]; o.cover(states=1)
        meths = {}
        for m in d['methods']: q = m['path'].split('.'); meths.setdefault('::'.join([base] + q[:-1]), []).append((m['path'], q[-1], m['args']))
        Z = configs(key, tier); F = physical(Z)
        for i in range(len(Z.x)):
            one = X.Pt({c: v[i:i + 1] for c, v in Z.items()}); init = X.args_of(one, d['init'], 'force')[0]; inp = {c: float(v[0]) for c, v in one.items() if c in DIM_KEYS and c not in 'xT'}
            try: I = J.call(C, [value(v, n) for n, v in zip(d['init'], init)])
            except jl.JuliaError as ex: o.fail(s + ' constructor', inp, str(ex)); continue
            R_ = P.new(s, init)
            for f in d['fields']:
                v = I
                for a in f.split('.'): v = v.d.get(a) if isinstance(v, jl.Struct) else None
                e = init[d['init'].index(f.split('.')[-1])]; o.cover(validated=1)
                if v is None or not jl.num(v) or float(v) != e: o.fail(s + '.' + f, inp, 'field is %s, given %r' % (jl.show(v), e))
            for k, ms in meths.items():
                if k not in X.M: continue
                T = [298.15, 77.36][i % 2]; x = lat.loads(k, 36)[1::3][:6]; p = X.Pt({c: np.repeat(v[i:i + 1], len(x)) for c, v in Z.items()}).at(x=x, T=T, om=[.3, 20.][i % 2])
                if 'k' in F: p = p.at(kap=F['k'][i]*Z.l[i]**2/(KB*T))
                if 'u' in F: p = p.at(eps=F['u'][i]/(KB*T))
                p = lat.clip(k, p)
                if not len(p.x) or not lat.Nmin(k) <= Z.N[i] <= lat.Nmax(k): continue
                if lat.slow(k): p = lat.sub(p, np.arange(len(p.x)) % 3 == 0)
                n = len(p.x); m1 = Mod(P, k, p); o.cover(states=n)
                for path, fn, names in ms:
                    v = I
                    for a in path.split('.'): v = v.d.get(a) if isinstance(v, jl.Struct) else None
                    if v is None: o.fail(s + '.' + path, inp, 'no such method in the Julia package'); continue
                    A = X.args_of(p, names, X.M[k].ens); w = R_.call(path, A)[0]
                    try: tol = m1.tol(fn) + 1e-11*np.abs(w)
                    except KeyError: tol = 1e-9*np.abs(w)
                    tol = np.where(np.isfinite(tol), tol, np.inf)
                    try:
                        ys = [J.call(v, [np.float64(z) for z in row]) for row in A]; y = np.array([float(z) if jl.isflt(z) else np.nan for z in ys])
                        if i == 0 and n > 1:
                            rest = [np.float64(z) for z in A[0, 1:]]; z = J.call(v, [np.ascontiguousarray(A[:, 0])] + rest); o.cover(transitions=1)
                            if np.shape(z) != (n,) or not np.array_equal(np.asarray(z, float), y, equal_nan=True): o.fail(s + '.' + path, dict(inp, T=T, layout='vector'), 'differs from the values for scalars')
                    except jl.JuliaError as ex: o.fail(s + '.' + path, dict(inp, T=T), str(ex)); continue
                    o.cover(transitions=n, validated=n); bad = ~((np.abs(y - w) <= tol) | ~np.isfinite(w) & ~np.isfinite(y))
                    if bad.any(): j = np.flatnonzero(bad)[0]; o.fail(s + '.' + path, dict(inp, T=T, load=float(A[j, 0])), 'Julia %.17g, Rust %.17g' % (y[j], w[j]))
        o.sample(dict(structure=s, methods=len(d['methods'])), 2)
    pmap(r, P, sorted((s for s in P.structs if s in structs), key=lambda s: s.count('::')), work)
