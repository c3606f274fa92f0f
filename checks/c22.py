"""Monte Carlo histograms under every tuple of scripted samples: each sample is counted once, in the bin its extension falls
in; bins, centers and normalization; the greatest extension of freely rotating chains."""
from mc import *
def gmax(m, n, t): a = n//2; b = n - a; return math.sqrt(a*a + b*b + 2*a*b*math.cos(t))/n if m == 'frc' else 1.0
def run(r, P, tier):
    th = tier == 'thorough'; Ns = [1, 2, 3, 4, 5, 6, 8, 9, 12, 25, 64]; B = [1, 2, 3, 4, 7, 10, 16, 50, 100, 300]
    r.assumptions += ['the thread-local generator is scripted in the probe build', 'a sample within 1e-9 of a bin edge may fall on either side']
    angles = [.05, math.pi/8, .9, math.pi/2, 1.911, 2.5, 3.0] + ([.01, .3, .6, 1.2, 1.57, 2.2, 2.8, 3.1] if th else [])
    items = [('fjc', n, 0., 1.) for n in Ns] + [('frc', n, t, 1.) for n in Ns for t in angles] + [('efjc', n, 0., k) for n in Ns[:4] for k in (50., 1e3)] + [('efrc', n, t, 200.) for n in Ns[1:5] for t in angles[1:5:3]]
    def work(o, P, it):
        m, n, t, kap = it; ext = m[0] == 'e'; top = 1.6 if ext else gmax(m, n, t); M = MC(P, m, n, t, kap, top); inp = dict(model=m, links=n, angle=t, stiffness=kap); k = M.draws()
        if m == 'frc' and 1 < n <= 8:        # no chain is longer than the zigzag: all dihedrals on a lattice
            own = M.owners(k); q = {2: 64, 3: 64, 4: 24, 5: 12, 6: 7, 8: 5}[n]*(2 if th and n < 6 else 1); b = weyl(1, k, 3)[0]; first = [np.flatnonzero(own == i)[0] for i in range(1, n)][-5:]
            g = lattice(q, min(len(first), 5)) if len(first) <= 5 else lattice(q, 5); U = np.repeat(b[None], len(g), 0); U[:, first[-g.shape[1]:]] = g; L = M.run(U, 1)[0]/n; o.cover(states=len(U), transitions=len(U), validated=len(U))
            o.mask('greatest extension', ~(L <= top + 1e-9), lambda i: inp, lambda i: 'a chain of extension %.12g, greatest %.12g' % (L[i], top))
        # a palette of samples: as many different bins as there are, and the extremes
        U = weyl(3000, k)
        if not ext: U = np.concatenate([U, np.array([[e]*k for e in ((0.0, .5, 2.0**-53, 1 - 2.0**-53, .25, .75) if m == 'fjc' else (.25, .5, .75, .1))])])
        if m == 'fjc' and n > 1: v = weyl(40, k); v[:, 2:] = np.tile(v[:, :2], n - 1); U = np.concatenate([U, v])        # fully extended
        if m == 'fjc' and n % 2 == 0: v = weyl(10, k); v[:, 0::4] = v[:, :1]; v[:, 1::4] = v[:, 1:2]; v[:, 2::4] = (v[:, :1] + .5) % 1; v[:, 3::4] = 1 - v[:, 1:2]; U = np.concatenate([U, v])  # closed
        L, us, st = M.run(U, 1); G = L/n; ok = (st == 0) & np.isfinite(G) & ((G < top) | (not ext)); U, G = U[ok], G[ok]
        def expect(idx, b):
            e = np.array([G[i] for i in idx])*b/top; lo = np.floor(e - 1e-9*b).clip(0, b - 1).astype(int); hi = np.floor(e + 1e-9*b).clip(0, b - 1).astype(int); return lo, hi
        def one(b, idx):
            h = dict(inp, bins=b, samples=len(idx), script=str([int(i) for i in idx[:8]])); c, p, used, s = M.hist(b, U[list(idx)], len(idx)); o.cover(states=len(idx), transitions=len(idx), validated=1)
            if s: o.fail('histogram', h, 'panicked: ' + P.last_panic()); return
            if used != k*len(idx): o.fail('histogram (draws)', h, 'used %d draws for %d samples of %d' % (used, len(idx), k))
            w = (np.arange(b) + .5)*top/b
            if not np.abs(c - w).max() <= 1e-12: o.fail('histogram (centers)', h, 'centers %s, expected %s' % (c[:4], w[:4]))
            n_ = p*top*len(idx)/b; cnt = np.rint(n_)
            if not np.abs(n_ - cnt).max() <= 1e-8*len(idx) or not abs(n_.sum() - len(idx)) <= 1e-8*len(idx): o.fail('histogram (every sample counted)', h, 'counts %s for %d samples (extensions %s)' % (n_, len(idx), G[list(idx)][:6])); return
            lo, hi = expect(idx, b); sure = lo == hi; a = np.bincount(lo[sure], minlength=b); slack = np.zeros(b)
            for x, y in zip(lo[~sure], hi[~sure]): slack[x:y + 1] += 1
            if not ((cnt >= a) & (cnt <= a + slack)).all(): o.fail('histogram (bins)', h, 'counts %s, expected %s (extensions %s)' % (cnt[:12], a[:12], G[list(idx)][:6]))
        for b in B:
            pal, seen = [], {}
            for i in np.argsort(G, kind='stable'):
                key = min(int(G[i]*b/top), b - 1)
                if seen.get(key, 0) < 2: seen[key] = seen.get(key, 0) + 1; pal.append(i)
            pal = list(dict.fromkeys([int(np.argmin(G)), int(np.argmax(G))] + pal)); pal = pal[:: max(1, len(pal)//(9 if th else 6))] + pal[:2]
            for d in (1, 2, 3): 
                for idx in itertools.product(pal, repeat=d): one(b, idx)
            for s in (10, 100, 1000) + ((70000,) if n <= 2 and b in (1, 10) else ()): one(b, [i % len(G) for i in range(s)]); one(b, list(range(len(G) - s, len(G)))) if len(G) > s else None
            for i in range(0, len(G), 1 if th else 25): one(b, [i])
        o.sample(dict(inp, greatest=top, samples=len(G)), 2)
    items.sort(key=lambda a: -a[1]); pmap(r, P, items, work); r.info['samplers'] = len(items)
