"""Quadrature: every rule on every combination of integrand, interval and number of points: the points visited are the
midpoints of equal panels, each once; the value is their sum; linear integrands are exact; errors fall as n^-2."""
import ctypes as ct, itertools, math, numpy as np
from lib import *
C1, C2 = ct.CFUNCTYPE(ct.c_double, ct.c_double), ct.CFUNCTYPE(ct.c_double, ct.c_double, ct.c_double)
ONE = {'1': lambda x: 1.0, 'x': lambda x: x, '3-2x': lambda x: 3 - 2*x, 'x^2': lambda x: x*x, 'x^3-x': lambda x: x**3 - x, 'exp(-x)': lambda x: math.exp(-x), 'sin 7x': lambda x: math.sin(7*x),
       'step': lambda x: 1.0 if x > .31371 else 0.0, 'peak': lambda x: 1/(1e-3 + (x - .37)**2), 'large': lambda x: 1e200*x, 'small': lambda x: 1e-200*(1 + x)}
TWO = {'1': lambda x, y: 1.0, 'x': lambda x, y: x, 'y': lambda x, y: y, 'x-3y+2': lambda x, y: x - 3*y + 2, 'xy': lambda x, y: x*y, 'x^2 y': lambda x, y: x*x*y, 'exp(x-2y)': lambda x, y: math.exp(x - 2*y),
       'corner': lambda x, y: 1.0 if x < y else 0.0, 'sin(3x+5y)': lambda x, y: math.sin(3*x + 5*y)}
INT = [(0, 1), (-1, 1), (2, 5), (1e-6, .999), (0, 1e-3), (-7, -2), (3, 1), (0, 0), (1e3, 1e3 + 1)]
def mid(a, b, n): d = (b - a)/n; return [a + (k + .5)*d for k in range(n)], d
def run(r, P, tier):
    th = tier == 'thorough'; L = P.L; st = ct.c_uint8(); D = ct.c_double
    def same(site, inp, got, want, mass):
        P.evals += 1; r.cover(states=1, transitions=1, validated=1)
        if not (st.value == 0 and abs(got - want) <= 1e-12*mass + 1e-300): r.fail(site, inp, 'returned %.17g, expected %.17g' % (got, want))
    def points(site, inp, seen, want, scale):
        if len(seen) != len(want): r.fail(site + ' (points)', inp, '%d evaluations for %d points' % (len(seen), len(want))); return
        if len(seen) and np.abs(np.sort(np.array(seen), axis=0) - np.sort(np.array(want), axis=0)).max() > 1e-12*scale: r.fail(site + ' (points)', inp, 'integrand evaluated off the midpoints')
    N1 = list(range(1, 65)) + [100, 127, 128, 255, 256, 257, 500, 1000] + (list(range(65, 300)) + [4096, 10000] if th else [])
    for (name, f), (a, b) in itertools.product(ONE.items(), INT):
        for n in N1 + ([10000, 65535, 65536, 65537, 100001] if (name, a, b) in (('3-2x', 0, 1), ('exp(-x)', 2, 5)) else []):
            g, d = mid(a, b, n); seen = []
            def F(x): seen.append(x); return f(x)
            inp = dict(integrand=name, lower=a, upper=b, points=n); want = math.fsum(map(f, g))*d; mass = math.fsum(abs(f(x)) for x in g)*abs(d)
            got = L.math_integrate_1d(C1(F), D(a), D(b), ct.c_uint64(n), ct.byref(st)); same('integrate_1d', inp, got, want, mass)
            if n < 40: points('integrate_1d', inp, [[x] for x in seen], [[x] for x in g], max(abs(a), abs(b), 1))
            if name in ('1', 'x', '3-2x'):
                ex = {'1': b - a, 'x': (b*b - a*a)/2, '3-2x': 3*(b - a) - (b*b - a*a)}[name]
                if abs(got - ex) > 1e-12*(mass + abs(b*b) + abs(a*a)): r.fail('integrate_1d (linear)', inp, '%.17g for %.17g' % (got, ex))
            A = (ct.c_double*n)(*g); got = L.math_integrate_1d_grid(C1(f), A, ct.c_size_t(n), D(d), ct.byref(st)); same('integrate_1d_grid', inp, got, want, mass)
            back = L.math_integrate_1d(C1(f), D(b), D(a), ct.c_uint64(n), ct.byref(st)); same('integrate_1d (reversed)', inp, back, -want, mass)
    for name, ex in (('x^2', lambda a, b: (b**3 - a**3)/3), ('exp(-x)', lambda a, b: math.exp(-a) - math.exp(-b))):
        for a, b in INT[:4]:
            e = [abs(L.math_integrate_1d(C1(ONE[name]), D(a), D(b), ct.c_uint64(n), ct.byref(st)) - ex(a, b)) for n in (8, 16, 32, 64, 128)]
            for k in range(4):
                if not e[k + 1] <= e[k]/3.8 + 1e-13*abs(ex(a, b)): r.fail('integrate_1d (order)', dict(integrand=name, lower=a, upper=b, points=8*2**k), 'error %.3g after %.3g' % (e[k + 1], e[k]))
                r.cover(states=1, transitions=1, validated=2)
    for grid in ([], [2.0], [.1, .1, .7], [5, -3, 1e3, 0]):          # grids need not be uniform or sorted
        for name, f in ONE.items():
            A = (ct.c_double*max(len(grid), 1))(*grid); same('integrate_1d_grid', dict(integrand=name, grid=str(grid)), L.math_integrate_1d_grid(C1(f), A, ct.c_size_t(len(grid)), D(.7), ct.byref(st)), math.fsum(map(f, grid))*.7, math.fsum(abs(f(x)) for x in grid) + 1e-290)
    N2 = [1, 2, 3, 4, 5, 8, 13, 32] + ([6, 7, 9, 16, 31, 64, 100] if th else [])
    for (name, f), (a, b) in itertools.product(TWO.items(), INT[:8]):
        for n in N2 + ([255, 256, 257] if (name, a, b) == ('x-3y+2', -1, 1) else []):
            g, d = mid(a, b, n); seen = []
            def F(x, y): seen.append((x, y)); return f(x, y)
            want = math.fsum(f(x, y) for x in g for y in g)*d*d; mass = math.fsum(abs(f(x, y)) for x in g for y in g)*d*d; inp = dict(integrand=name, lower=a, upper=b, points=n)
            same('integrate_2d_symmetric', inp, L.math_integrate_2d_symmetric(C2(F), D(a), D(b), ct.c_uint64(n), ct.byref(st)), want, mass)
            if n < 9: points('integrate_2d_symmetric', inp, seen, list(itertools.product(g, g)), max(abs(a), abs(b), 1))
            A = (ct.c_double*n)(*g); same('integrate_2d_symmetric_grid', inp, L.math_integrate_2d_symmetric_grid(C2(f), A, ct.c_size_t(n), D(d*d), ct.byref(st)), want, mass)
            for c, e in INT[:8:2] if n < 9 or th else INT[1:2]:
                h, k = mid(c, e, n); seen = []; want = math.fsum(f(x, y) for x in g for y in h)*d*k; mass = math.fsum(abs(f(x, y)) for x in g for y in h)*abs(d*k); inp2 = dict(inp, lower_2=c, upper_2=e)
                same('integrate_2d', inp2, L.math_integrate_2d(C2(F), D(a), D(b), D(c), D(e), ct.c_uint64(n), ct.byref(st)), want, mass)
                if n < 9: points('integrate_2d', inp2, seen, list(itertools.product(g, h)), max(abs(a), abs(b), abs(c), abs(e), 1))
                h2 = h[:max(1, n - 1)]; B = (ct.c_double*len(h2))(*h2); want = math.fsum(f(x, y) for x in g for y in h2)*.3; mass = math.fsum(abs(f(x, y)) for x in g for y in h2)
                same('integrate_2d_grid', inp2, L.math_integrate_2d_grid(C2(f), A, ct.c_size_t(n), B, ct.c_size_t(len(h2)), D(.3), ct.byref(st)), want, mass)
    r.sample(dict(integrand='exp(-x)', lower=0, upper=1, points=N1[:5])); r.info.update(integrands=len(ONE) + len(TWO), intervals=len(INT), points=len(N1))
