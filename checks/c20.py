"""Damage over every history of stretches from an alphabet: each response depends only on the present and the greatest
stretch so far, and is the average over the chains which the greatest stretch left intact; nothing heals."""
import itertools, numpy as np
from cons import *
def run(r, P, tier):
    th = tier == 'thorough'
    r.assumptions += ["the average is taken over the model's own 256 by 256 grid of extensions, whose resolution is part of the model", 'a chain exactly at the critical extension may count either way', 'single-chain forces carry the Newton tolerance of the library (1e-6)']
    A3 = [1.0, 1.3, 2.0, 3.5, 6.0] if th else [1.0, 1.3, 2.0, 4.0]
    full = lambda al, k: [h for h in itertools.product(al, repeat=k)]
    items = []
    for c, kap, n, j in itertools.product([.7, 1.0, 1.3], [20., 88., 1000.], [1, 2, 8, 25, 100, 255], [1., 2., 8.]):
        deep = (c, kap, n) == (1.0, 88., 8) or (c, kap, n) == (1.3, 20., 2) and j == 2.
        items.append((3, c, kap, n, j, full(A3, 6 if th else 5) if deep else full([1.0, 1.5, 3.0], 3) if th or n in (2, 25, 255) else full([1.0, 2.2], 3)))
    for n in range(1, 256, 1 if th else 6): items += [(3, .95, 60., n, 1.5, [(1.0, 1.7, 1.2, 2.5)])]
    for j in (.5, 1, 1.1, 3, 5, 10, 27): items += [(3, 1.1, 60., 12, float(j), [(1.0, 1.7, 1.2, 2.5, 1.0)])]
    # long random-free histories: ramps, staircases and cycles
    ramp = list(np.linspace(1, 4, 16)); items += [(3, 1.05, 88., 8, 1.0, [tuple(ramp + ramp[::-1]), tuple(x for k in range(1, 9) for x in (1 + .3*k, 1 + .15*k, 1.0, 1 + .3*k))])]
    for c, kap, n, j in ([(1.0, 88., 8, 1.0), (1.3, 50., 2, 2.0), (.8, 20., 25, 1.0), (1.1, 400., 255, 3.0)] if not th else itertools.product([.8, 1.0, 1.3], [20., 88., 1000.], [1, 2, 8, 25, 255], [1.0, 3.0])):
        items.append((2, c, kap, n, j, full([1.0, 1.4, 3.0], 3) if th and n == 8 else [(1.0, 1.4, 3.0, 1.4), (3.0, 1.0, 1.4, 1.4), (1.4, 1.4, 1.0, 3.0), (2.0, 5.0, 1.0, 2.0)]))
    # slow loading: the greatest stretch creeps up by less than a percent at a time, and is then tested after unloading
    slow = [(2.0, 2.012, 2.0), (2.0, 2.008, 2.016, 2.024, 1.5), (3.0, 3.02, 3.04, 3.06, 3.08, 3.1, 1.0, 2.9), (1.5, 1.501, 1.502, 1.51, 1.0, 1.4), tuple(1 + .0079*k for k in range(1, 23)) + (1.0, 1.1), (2.0, 2.0, 2.0, 1.99, 2.0, 2.01, 2.0)]
    slow = [h + h[-1:]*(24 - len(h)) for h in slow]; q = [h[:9] for h in slow]
    items += [(3, c, kap, n, j, slow) for c, kap, n, j in ((1.0, 88., 8, 1.0), (1.2, 40., 30, 2.0), (.9, 300., 3, 1.0))] + [(2, 1.0, 88., 8, 1.0, q[:4]), (2, 1.2, 50., 3, 2.0, q[1:3])]
    # great stretches, which chains survive where the critical extension is great; swelling ratios below one
    far = [(1.0, 8.0, 3.0, 12.0, 8.0, 1.0), (7.0, 2.0, 30.0, 7.0, 30.0, 1.5), (5.5, 6.5, 5.5, 1.0, 6.0, 2.0)]
    items += [(3, c, kap, n, j, far) for c, kap, n, j in ((.5, 88., 8, 1.0), (1.2, 40., 1, 1.0), (2.0, 10., 2, .3), (3.0, 100., 60, .7), (6.0, 30., 1, 2.0), (20., 5., 1, 1.0))]
    items += [(2, 2.0, 20., 2, 1.0, [far[0]]), (2, 1.1, 60., 3, .5, [(1.0, 1.7, 1.2, 2.5)]), (2, .9, 100., 12, .25, [(1.0, 1.7, 1.2, 2.5)]), (2, 1.5, 30., 1, 7., [(1.0, 1.7, 1.2, 9.)])]
    # long histories: the greatest stretch comes early, late or in between, and the rest stays below it
    for k in (48, 64, 100, 300):
        w = [1.0 + .1*(i % 9) for i in range(k)]
        items += [(3, c, kap, n, j, [tuple(2.5 if i == at else x for i, x in enumerate(w)) for at in (0, 7, k//2, k - 9)]) for c, kap, n, j in ((1.0, 88., 8, 1.0), (1.3, 30., 2, 2.0))]
    split = []
    for m, c, k, n, j, H in items:
        st = 2 if m == 2 else 64; split += [(m, c, k, n, j, H[a:a + st], len(H)) for a in range(0, len(H), st)]
    split.sort(key=lambda a: (a[0] == 3, -len(a[5])*len(a[5][0])))
    def work(o, P, it):
        m, c, kap, n, j, H, total = it; I, M = DamageImpl(P, m, c, kap, n, j), Damage(m, c, kap, n, j); inp = dict(method=m, nondimensional_critical_extension=c, nondimensional_link_stiffness=kap, number_of_links=n, swelling_ratio=j)
        if not I.h: o.fail('damage::init', inp, 'panicked: ' + P.last_panic()); return
        if list(I.fields()) != [c, kap, n, j]: o.fail('damage (fields)', inp, 'fields %s' % list(I.fields()))
        Y, st = I.run(H); memo, seen = {}, {}
        for h, y, s in zip(H, Y, st):
            o.cover(states=len(h), transitions=len(h), validated=len(h)); top = 1.0; hist = dict(inp, history=str(h))
            if s: o.fail('damage::uniaxial_tension', hist, 'panicked: ' + P.last_panic()); continue
            for i, l in enumerate(h):
                top = max(top, l); key = (l, top)
                if key not in memo: memo[key] = M.step(l, top)
                if key in seen and not (seen[key] == y[i]).all(): o.fail('damage (history)', hist, 'step %d: %s, elsewhere at the same present and greatest stretch %s' % (i, list(y[i]), list(seen[key])))
                seen.setdefault(key, y[i])
                for q, name in ((0, 'stress'), (1, 'total probability')):
                    w, a, t = memo[key][q]; tol = a*3e-6*max(1, .02*n) + 1.5*t + 1e-13
                    if not abs(y[i][q] - w) <= tol: o.fail('damage ' + name, dict(hist, step=i), '%.17g, average over intact chains %.17g, tolerance %.3g' % (y[i][q], w, tol))
        by = {}
        for (l, top), y in seen.items(): by.setdefault(l, []).append((top, y[1], memo[(l, top)][1]))
        for l, v in by.items():                     # the more the chains have been stretched, the fewer are left
            v.sort(key=lambda a: a[0])
            for (ta, pa, ra), (tb, pb, rb) in zip(v, v[1:]):
                if not pb <= pa + 1e-12 + ra[2] + rb[2]: o.fail('damage (healing)', dict(inp, stretch=l, first=ta, then=tb), 'total probability rises from %.17g to %.17g' % (pa, pb))
        if (1.0, 1.0) in seen:
            p = seen[(1.0, 1.0)][1]
            if not -1e-12 <= p <= 1.001: o.fail('damage (probability)', inp, 'total probability %.9g at the outset' % p)
        o.sample(dict(inp, history=str(H[-1]), responses=str(Y[-1].tolist())), 1)
    pmap(r, P, split, work)
    I = DamageImpl(P, 3, 1.0, 88., 8, 1.0)
    for h in ((1.0, .9), (.5, 2.0), (2.0, 0.0)):           # stretches below one are refused
        r.cover(states=1, validated=1)
        if not I.run([h])[1][0]: r.fail('damage (compression)', dict(history=str(h)), 'accepted')
    for m in (0, 1, 4, 255):
        r.cover(states=1, validated=1)
        if DamageImpl(P, m, 1.0, 88., 8, 1.0).h: r.fail('damage::init (method)', dict(method=m), 'accepted a method which does not exist')
    r.info['histories'] = sum(len(a[5]) for a in split); r.info['configurations'] = len(items)
