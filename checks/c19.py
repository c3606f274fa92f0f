"""The hyperelastic model on every configuration, deformation mode and stretch of a lattice, against the network average of
single-chain forces; equibiaxial tension mirrors uniaxial compression; no stress undeformed; stress grows with stretch."""
import numpy as np
from cons import *
def run(r, P, tier):
    th = tier == 'thorough'
    r.assumptions += ["the average is taken over the model's own 256 by 256 grid of extensions, whose resolution is part of the model", 'single-chain forces carry the Newton tolerance of the library (1e-6)']
    lam = np.unique(np.round(np.concatenate([np.linspace(.25, .9, 8), [.99, 1.0, 1.001, 1.01], np.linspace(1.1, 3, 14 if not th else 60), np.linspace(3.2, 9, 8 if not th else 40), [.03, .1, .17, 12, 20, 31]]), 6))
    items = []
    for kap in ([20., 88., 500., 5000.] if not th else [10., 15., 20., 50., 88., 200., 337., 500., 1000., 5000., 5e4]):
        for n in [1, 2, 3, 8, 25, 100, 255] if not th else list(range(1, 33)) + [50, 100, 127, 128, 200, 254, 255]: items.append((2, kap, n, lam[::3 if not th else 2]) )
    for kap in [3., 50., 1000.] + ([12., 88., 337., 2e4] if th else []):
        for n in range(1, 256): items.append((3, kap, n, lam[::4] if n % 8 and not th else lam))
    for n in (4, 5, 16, 50, 64, 127, 128, 200):
        for kap in (15., 150., 2e4): items.append((2, kap, n, lam[n % 5::6]))
    def work(o, P, it):
        m, kap, n, ls = it; I, M = HyperImpl(P, m, kap, n), Hyper(m, kap, n); inp = dict(method=m, nondimensional_link_stiffness=kap, number_of_links=n); ls = np.union1d(ls, [1.0])
        if not I.h: o.fail('hyperelastic::init', inp, 'panicked: ' + P.last_panic()); return
        if list(I.fields()) != [kap, n]: o.fail('hyperelastic (fields)', inp, 'fields %s' % list(I.fields()))
        res = {}
        for which, name, q, F in ((0, 'uniaxial_tension', ls, lambda l: (l, l**-.5, 1)), (1, 'equibiaxial_tension', ls[(ls > .17) & (ls < 6)], lambda l: (l**-2., l, -1))):
            y = I.stress(which, q); o.cover(states=len(q), transitions=len(q) - 1, validated=len(q)); W = [M.stress(*F(l)[:2]) + F(l)[2:] for l in q]
            w = np.array([a*s for a, b, s in W]); t = np.array([b for a, b, s in W])*3e-6*max(1, .02*n) + 1e-12
            o.mask('hyperelastic::' + name, ~(np.abs(y - w) <= t), lambda i: dict(inp, stretch=q[i]), lambda i: 'stress %.17g, network average %.17g, tolerance %.3g' % (y[i], w[i], t[i]))
            res[which] = (q, y, t)
            d, dw = np.diff(y), np.diff(w); o.mask('hyperelastic::' + name + ' (increasing)', (dw > 0) & ~(d > -(t[1:] + t[:-1])), lambda i: dict(inp, stretch=q[i]), lambda i: 'stress falls by %.6g up to the stretch %g' % (-d[i], q[i + 1]))
            # the sums leave out the edge of the grid: about one panel of the first column
            i = int(np.flatnonzero(q == 1.0)[0]); big = np.abs(y).max()
            if not abs(y[i]) <= .06 + abs(w[i]) + t[i]: o.fail('hyperelastic::' + name + ' (undeformed)', inp, 'stress %.6g' % y[i])
        q, y, t = res[1]; u = I.stress(0, q**-2.); o.cover(validated=len(q))
        o.mask('hyperelastic (equibiaxial mirrors uniaxial)', ~(np.abs(u + y) <= 2e-3*t + 1e-9*np.abs(y)), lambda i: dict(inp, stretch=q[i]), lambda i: 'equibiaxial %.17g, uniaxial at its inverse square %.17g' % (y[i], u[i]))
        if n % 50 == 0 or n < 3: o.sample(dict(inp, stretch=float(ls[-1]), stress=float(res[0][1][-1])), 2)
    pmap(r, P, items, work)
    for m in (0, 1, 4, 5, 255):
        r.cover(states=1, validated=1)
        if HyperImpl(P, m, 50., 8).h: r.fail('hyperelastic::init (method)', dict(method=m), 'accepted a method which does not exist')
