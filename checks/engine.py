"""Shared by the checks of the single-chain models: a module's functions on a lattice, their reference values, and
comparison with the tolerances of the reference (spec.py)."""
import numpy as np
import spec as X, lat
from lib import *
from spec import S
DIM_KEYS = ('N', 'x', 'l', 'm', 'T', 'kap', 'eps', 'w', 'kp', 'om')
class Mod:
    """One module on one batch of points: implementation values and reference values, computed on demand."""
    def __init__(s, P, k, p, cache=None):
        s.P, s.k, s.p, s.mod, s.cache, s.impl = P, k, p, X.M[k], {} if cache is None else cache, {}
        s.n = len(p.x)
    def names(s): return [f[len(S + s.k) + 2:] for f in s.P.funs if f.startswith(S + s.k + '::') and '::' not in f[len(S + s.k) + 2:]]
    def want(s, fn): return X.expect(s.mod, fn, s.p, s.cache)
    def alt(s, fn): return X.expect(s.mod, fn, s.p, s.cache, True)
    def got(s, fn):
        if fn not in s.impl:
            path = S + s.k + '::' + fn
            s.impl[fn] = s.P.raw(path, X.args_of(s.p, s.P.args(path), s.mod.ens))[0]
        return s.impl[fn]
    def tol(s, fn): w, t = s.want(fn); return np.where(np.isfinite(w) & np.isfinite(t), t, np.inf)
    def calls(s, *fns):
        def f(i):
            out = []
            for fn in fns:
                path = S + s.k + '::' + fn; a = X.args_of(X.Pt({k: v[i:i + 1] for k, v in s.p.items()}), s.P.args(path), s.mod.ens)[0]
                out.append(dict(fn=path, args=dict(zip(s.P.args(path), map(float, a))), value=float(s.got(fn)[i])))
            return out
        return f
    def pt(s): return point(s.p, DIM_KEYS)
def close(a, b, tol):
    """|a - b| <= tol; anything not finite where a finite tolerance is stated fails."""
    with np.errstate(all='ignore'): return (np.abs(a - b) <= tol) | ~np.isfinite(tol)
def against_reference(r, m, fns):
    for fn in fns:
        w, t = m.want(fn); g = m.got(fn); t = np.where(np.isfinite(w), t, np.inf); ok = close(g, w, t)
        if not ok.all():
            v = m.alt(fn)
            if v is not None: ok |= close(g, v[0], np.where(np.isfinite(v[0]), v[1], -1))
        r.mask(m.k + '::' + fn, ~ok, m.pt(), lambda i: 'implementation %.17g, model %.17g, tolerance %.3g' % (g[i], w[i], t[i]), m.calls(fn))
    n = len(fns)*m.n
    r.cover(validated=n)
    if m.n and fns:
        i = m.n//2; r.sample(dict(module=m.k, function=fns[0], point=m.pt()(i), implementation=float(m.got(fns[0])[i]), model=float(m.want(fns[0])[0][i])), 3)
def transitions(p): return max(len(p.x) - 1, 0)
