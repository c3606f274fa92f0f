"""Special functions on every cell of their piecewise definitions, at the ends of every piece and in between, against
independent implementations (scipy) and against their defining equations."""
import numpy as np
from scipy import special as sp
from lib import *
def ends(*xs): return np.array([y for x in xs for y in (np.nextafter(x, -np.inf), x, np.nextafter(x, np.inf))])
def run(r, P, tier):
    th = tier == 'thorough'; m = 100 if th else 8
    r.assumptions += ['scipy.special (erfcx, erf, erfc, ive, lambertw) is right to the stated tolerances']
    def check(name, cols, want, tol, rel, what=''):
        path = 'math::' + name; a = np.stack([np.asarray(c, float) + 0*cols[-1] for c in cols], 1); y, st = P.raw(path, a)
        t = tol*np.abs(want) if rel else np.broadcast_to(tol, want.shape); r.cover(states=len(a), transitions=len(a) - 1, validated=len(a))
        with np.errstate(all='ignore'): ok = (np.abs(y - want) <= t) | (y == want)
        names = P.args(path)
        r.mask(path + what, ~ok, lambda i: dict(zip(names, map(float, a[i]))), lambda i: '%.17g, expected %.17g, tolerance %.3g' % (y[i], want[i], t[i]),
               lambda i: [dict(fn=path, args=dict(zip(names, map(float, a[i]))), value=float(y[i]))])
        r.sample({'function': path, names[-1]: float(a[len(a)//2][-1]), 'value': float(y[len(a)//2]), 'expected': float(want[len(a)//2])}); return y
    # scaled complementary error function: one hundred cells in 400/(4 + |x|)
    z = np.unique(np.concatenate([np.arange(4, 100)[:, None] + np.linspace(0, 1, 400*m + 1)[None, :]])).ravel(); z = z[z > 400/54]; X = 400/z - 4
    z0 = np.linspace(0, 400/54, 8*400*m); Xb = 400/z0[1:] - 4
    cells = ends(*(400/np.arange(8, 101.) - 4))
    pos = np.unique(np.concatenate([X[X >= 0], cells[cells >= 0], np.linspace(0, 50, 20000*m), ends(50.), np.geomspace(50, 1e12, 8000*m), ends(5e7), [0.0, 5e-324, 1e-300, 1e-10]]))
    neg = -np.unique(np.concatenate([X[(X > 0) & (X < 26.6)], cells[(cells > 0) & (cells < 26.6)], np.linspace(0, 26.6, 20000*m), ends(6.1)]))
    check('erfcx', [pos], sp.erfcx(pos), 1e-14, True); check('erfcx', [neg], sp.erfcx(neg), 2e-14, True)
    far = -np.concatenate([ends(26.7, 27.), np.linspace(26.7, 60, 2000*m), np.geomspace(60, 1e10, 500)])
    y = P.raw('math::erfcx', far[:, None])[0]; r.mask('math::erfcx (beyond range)', ~(y >= 1e300), lambda i: dict(x=float(far[i])), lambda i: 'returned %.17g' % y[i])
    h = np.unique(np.concatenate([np.arange(0, 100)[:, None] + np.linspace(0, 1, 300*m + 1)[None, :-1]])).ravel(); h = h[h > 0]
    hx = 400/h - 4; k = hx > -1e-12
    check('erfcx_helper', [h[k]], sp.erfcx(hx[k]), np.where(h[k] < 1, 1e-7, np.where(h[k] < 7, 1e-12, 1e-14)), True)
    both = np.unique(np.concatenate([-far[:0], pos[pos < 26], neg, -np.geomspace(1e-12, 1, 500), far]))
    check('erfc', [both], sp.erfc(both), np.where(both > 5, 1e-12, 5e-15), True); check('erf', [both], sp.erf(both), 5e-15, False)
    check('erf', [np.concatenate([pos[pos > 6], far])], np.sign(np.concatenate([pos[pos > 6], far])), 1e-15, False, ' (saturated)')
    y = P.raw('math::erf', both[:, None])[0]; yn = P.raw('math::erf', -both[:, None])[0]
    r.mask('math::erf (odd)', ~(np.abs(y + yn) <= 1e-14), lambda i: dict(x=float(both[i])), lambda i: '%.17g against %.17g' % (y[i], yn[i])); r.cover(validated=len(both))
    # modified Bessel functions: pieces at 7.75 and 500, both signs
    b = np.unique(np.concatenate([np.geomspace(1e-10, 1, 2000), np.linspace(0, 10, 20000*m + 1), np.linspace(0, 500, 20000*m + 1), np.linspace(500, 709.0, 8000*m), ends(7.75, 500., 709.)[:8]]))
    for nu in (0, 1):
        w = sp.ive(nu, b)*np.exp(b/2)*np.exp(b/2); check('bessel_i', [float(nu), b], w, 1e-12, True)
        check('bessel_i', [float(nu), -b[b > 0]], w[b > 0]*(-1)**nu, 1e-12, True, ' (negative)')
    x0, x1 = P.raw('math::bessel_i', np.stack([0*b, b], 1))[0], P.raw('math::bessel_i', np.stack([0*b + 1, b], 1))[0]
    r.mask('math::bessel_i (order)', ~((x1 >= 0) & (x1 < x0)), lambda i: dict(x=float(b[i])), lambda i: 'I1 = %.17g, I0 = %.17g' % (x1[i], x0[i])); r.cover(validated=2*len(b))
    # Lambert W: relative accuracy, and the defining equation up to the branch point
    p = np.unique(np.concatenate([np.geomspace(1e-300, 1e300, 40000*m), np.geomspace(1e-6, 1e6, 40000*m), np.linspace(0, 20, 10000*m), [0.0], 10.0**np.arange(-20, 300)]))
    check('lambert_w', [p], sp.lambertw(p).real, 1e-8, True); q = p[p < 1e5]; check('lambert_w', [q], sp.lambertw(q).real, 2e-15, True)
    n = np.unique(np.concatenate([-np.exp(-1) + np.geomspace(1e-15, .36, 20000*m), -np.geomspace(1e-12, .3678, 10000*m), ends(-.25)])); wn = sp.lambertw(n).real
    y = check('lambert_w', [n], wn, 4e-15/np.maximum(1 + wn, 1e-8) + 2e-15, False, ' (negative)')
    r.mask('math::lambert_w (equation)', ~(np.abs(y*np.exp(y) - n) <= 2e-15), lambda i: dict(x=float(n[i])), lambda i: 'w exp(w) - x = %.3g' % (y[i]*np.exp(y[i]) - n[i]))
    r.info.update(erfcx_cells=100, pieces='erfcx 0..100 cells, 26.7, 6.1, 50, 5e7; bessel_i 7.75, 500; lambert_w branch')
