"""Root finding: the Newton solvers on every combination of function, target, starting point, tolerance, budget and power,
against the mathematical iteration; the inverse Langevin function on its whole domain."""
import ctypes as ct, itertools, numpy as np, math
from lib import *
CB = ct.CFUNCTYPE(ct.c_double, ct.c_double)
FUNCS = {                                   # f, f', starting points, targets as images of points
    'x': (lambda x: x, lambda x: 1.0, [-3, 0.5, 7], [-2, .1, 5, 1e-6, -1e-9, 1e8]),
    '2x+3': (lambda x: 2*x + 3, lambda x: 2.0, [-3, 0.5, 7], [-2, .1, 5, -1.5 + 1e-6]),
    'x^2': (lambda x: x*x, lambda x: 2*x, [.3, 1, 4], [.5, 2, 9, 1e-3, 1e3]),
    'x^3+x': (lambda x: x**3 + x, lambda x: 3*x*x + 1, [-2, .4, 3], [-1.5, .2, 2.5, 1e-4, 1e3]),
    'exp': (math.exp, math.exp, [-1, .5, 3], [-.7, .1, 2, -9, 12]),
    'log1p': (math.log1p, lambda x: 1/(1 + x), [.1, 1, 2], [.3, 1.2, 2.5]),
    'tanh': (math.tanh, lambda x: 1 - math.tanh(x)**2, [.05, .3, .7], [.1, .4, .9, 1e-4, -1e-7]),
    'langevin': (lambda x: 1/math.tanh(x) - 1/x, lambda x: 1/x**2 - 1/math.sinh(x)**2, [.5, 1, 2], [.7, 1.5, 2.5, 1e-2]),
    'sqrt': (lambda x: math.sqrt(x) if x >= 0 else math.nan, lambda x: .5/math.sqrt(x) if x > 0 else math.nan, [.5, 1, 2], [.8, 1.7, 3]),
    'x^3': (lambda x: x**3, lambda x: 3*x*x, [.3, 1, -2], [.2, -.7, 1e-2, 1e-3, 50]),
    'x^2/1e6': (lambda x: x*x*1e-6, lambda x: 2e-6*x, [.3, 1, 4], [.5, 2, 9]),
    '1e7*tanh': (lambda x: 1e7*math.tanh(x), lambda x: 1e7*(1 - math.tanh(x)**2), [.05, .3, .7], [.1, .4, .9]),
    '1-exp(-x)': (lambda x: 1 - math.exp(-x), lambda x: math.exp(-x), [.1, .5, 1], [.2, .8, 1.2]),
}
def run(r, P, tier):
    th = tier == 'thorough'; L = P.L
    tols = [.5, 1e-1, 1e-2, 1e-4, 1e-6, 1e-8, 1e-10, 1e-12]; budgets = [0, 1, 2, 3, 4, 5, 6, 8, 20, 50, 100, 127, 128, 200, 254, 255]
    st = ct.c_uint8()
    for name, (f, fp, starts, roots) in FUNCS.items():
        F, FP = CB(lambda x: safe(f, x)), CB(lambda x: safe(fp, x))
        starts = starts + roots[:1]                  # and the solution itself
        if th: starts = starts + [(a + b)/2 for a, b in zip(starts, starts[1:])]; roots = roots + [(a + b)/2 for a, b in zip(roots, roots[1:])]
        for power, x0, root in itertools.product([0, 1, 2, 3, 4, 5, 7, 9, 30, 200] + ([6, 8, 100, 1000] if th else []), starts, roots):
            y = f(root); traj, res = [x0], []
            for _ in range(max(budgets)):
                x = traj[-1]; v = safe(f, x) - y; d = safe(fp, x); res.append(abs(v/y)); nx = x - v/d/(power or 1) if d else math.nan
                if not math.isfinite(nx): break
                traj.append(nx)
                if res[-1] < 1e-15 and len(traj) > 4: break
            for tol, n in itertools.product(tols, budgets):
                x = L.math_newton(ct.c_double(y), F, FP, ct.c_double(x0), ct.c_double(tol), ct.c_uint8(n), ct.c_int(power), ct.byref(st)); r.cover(states=1, transitions=n, validated=1)
                P.evals += 1; inp = dict(function=name, target=y, start=x0, tolerance=tol, budget=n, power=power)
                # the iteration may stop at any iterate within the budget, provided the target is met to the tolerance
                # there or at the iterate before, or the budget is used up
                ok = st.value == 0 and any(abs(x - t) <= 1e-9*max(abs(t), 1e-3) + (1e-7 if res[min(k, len(res) - 1)] > 1e3 else 0)*abs(t) and (k == n or (k < len(res) and res[k] <= tol*(1 + 1e-9)) or (k and res[k - 1] <= tol*(1 + 1e-9))) for k, t in enumerate(traj[:n + 1]))
                if not ok and len(traj) <= n and not math.isfinite(safe(f, traj[-1])): continue     # the iteration itself leaves the function's domain
                if not ok and len(traj) <= n and res and res[-1] > tol: continue
                if not ok: r.fail('inverse_newton_raphson' + ('_powered' if power else ''), inp, 'returned %.17g; iteration %s' % (x, ['%.12g' % t for t in traj[:min(n, 6) + 1]]))
        r.sample(dict(function=name, starts=starts[:3], targets=[f(t) for t in roots[:3]], tolerances=tols, budgets=budgets), 3)
    n = 4000000 if th else 400000
    y = np.unique(np.concatenate([np.geomspace(1e-14, 1e-2, n//8), np.linspace(1e-2, .999, n)[:-1], 1 - np.geomspace(1e-3, 1e-14, n//8), [1e-3, np.nextafter(1e-3, 0), np.nextafter(1e-3, 1)]]))
    x, s = P.raw('math::inverse_langevin', y[:, None]); r.cover(states=len(y), transitions=len(y) - 1, validated=len(y))
    l = np.where(x < .02, x/3 - x**3/45 + 2*x**5/945, 1/np.tanh(x) - 1/x); lc = np.where(x > 20, 1/x, 1 - l)     # compare the complement near full extension
    pt = lambda i: dict(y=float(y[i])); cl = lambda i: [dict(fn='math::inverse_langevin', args=dict(y=float(y[i])), value=float(x[i]))]
    r.mask('math::inverse_langevin', ~(np.abs(l - y) <= 1e-6*y + 1e-15), pt, lambda i: 'gives %.17g, whose Langevin function is %.17g' % (x[i], l[i]), cl)
    r.mask('math::inverse_langevin (near full extension)', (y > .5) & ~(np.abs(lc - (1 - y)) <= 3e-6*(1 - y) + 2e-15), pt, lambda i: 'gives %.17g, leaving %.6g of %.6g' % (x[i], lc[i], 1 - y[i]), cl)
    d = np.diff(x); r.mask('math::inverse_langevin (increasing)', ~(d > -3e-6*x[1:]), pt, lambda i: 'falls by %.6g' % -d[i], cl)
    r.info.update(functions=len(FUNCS), inverse_langevin_states=len(y))
def safe(f, x):
    try: return float(f(x))
    except (ValueError, OverflowError, ZeroDivisionError): return math.nan
