"""Monte Carlo chains under every script of draws on a lattice: link lengths, bond angles, independence of the links, the
distribution of each link given the others, mean square lengths, and the reported end-to-end length."""
from mc import *
def run(r, P, tier):
    th = tier == 'thorough'; Ns = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 25, 32, 50, 64, 100, 128, 200, 255]
    r.assumptions += ['the thread-local generator is scripted in the probe build; a sampler may use its draws in any order, but a fixed number of them']
    angles = [.05, math.pi/8, .9, math.pi/2, 1.911, 2.5, 3.0] + ([.01, .3, .6, 1.2, 1.57, 2.2, 2.8, 3.1] if th else [])
    items = [('fjc', n, 0., 1.) for n in Ns] + [('frc', n, t, 1.) for n in Ns for t in angles] + [('efjc', n, 0., k) for n in Ns[::2] for k in (50., 1e3)] + [('efrc', n, t, k) for n in Ns[::2] for t in angles[1:5:3] for k in (50., 1e3)]
    def work(o, P, it):
        m, n, th0, kap = it; M = MC(P, m, n, th0, kap); inp = dict(model=m, links=n, angle=th0, stiffness=kap); k = M.draws(); rot = 'r' in m[-3:-1]; ext = m[0] == 'e'; c, sn = math.cos(th0), math.sin(th0)
        rot = m.endswith('frc')
        def shape(U, what, full=True):
            """Every property of single executions."""
            C, us, st = M.run(U); L, us2, st2 = M.run(U, 1); v = links(C); l = np.linalg.norm(v, axis=2); o.cover(states=len(U)*n, transitions=len(U)*n, validated=2*len(U)); f = lambda i: dict(inp, draws=str([float(x) for x in U[i][:16]]))
            o.mask('random_configuration (%s)' % what, st | st2, f, lambda i: 'panicked: ' + P.last_panic())
            o.mask('random_configuration (draws)', (us != k) | (us2 != k), f, lambda i: 'used %d draws, elsewhere %d' % (us[i], k))
            e = np.linalg.norm(C[:, -1], axis=1); o.mask('random_nondimensional_end_to_end_length', ~(np.abs(L - e) <= 1e-12*n), f, lambda i: 'length %.17g, last hinge at %.17g' % (L[i], e[i]))
            if not ext: o.mask('link length', ~(np.abs(l - 1) <= 2e-13*n).all(1), f, lambda i: 'links of lengths %s' % l[i][:8])
            elif full: o.mask('link length (range)', ~(np.abs(l - 1) <= 9/math.sqrt(kap)).all(1), f, lambda i: 'links of lengths %s' % l[i][:8])
            if rot and n > 1:
                cs = (v[:, 1:]*v[:, :-1]).sum(2)/(l[:, 1:]*l[:, :-1]); o.mask('bond angle', ~(np.abs(cs - c) <= 1e-11*n).all(1), f, lambda i: 'cosines %s for %.12g' % (cs[i][:8], c))
            return v, l
        own = M.owners(k); shape(weyl((400 if n < 20 else 60)*(10 if th else 1), k), 'structured scripts')
        if not set(range(n)) <= set(own): o.fail('random_configuration (uses its draws)', inp, 'links moved by draws: %s' % sorted(set(map(int, own))))
        ends = [0.0, 2.0**-53, .25, .5, .75, 1 - 2.0**-53]
        if not rot and not ext:
            shape(np.array([[e]*k for e in ends]), 'ends'); b = weyl(1, k)[0]
            for d in range(min(k, 16)): U = np.repeat(b[None], len(ends), 0); U[:, d] = ends; shape(U, 'ends')
            if k <= 4: shape(np.array(list(itertools.product(ends, repeat=k))), 'ends')
        # each link over the lattice of its own draws, for several scripts of the others
        for pre in weyl(6 if not th else 40, k, 17):
            for i in range(n) if n <= 12 or th else sorted({0, 1, 2, 7, 8, n//2, n - 2, n - 1}):
                mine = np.flatnonzero(own == i)
                if not len(mine): continue
                q = (24 if th else 16) if len(mine) == 2 else 8 if len(mine) < 4 else 5 if len(mine) == 4 else 4
                g = lattice(q, len(mine)); U = np.repeat(pre[None], len(g), 0); U[:, mine] = g; v, l = shape(U, 'lattice', False); site = 'link distribution'; w = v[:, i]/l[:, i:i + 1]
                other = [j for j in range(n) if (j < i if rot else j != i)]
                if other and not np.ptp(v[:, other], axis=0).max() <= 1e-12*n: o.fail('independence of links', dict(inp, link=i), 'other links move by %.3g with the draws of this one' % np.ptp(v[:, other], axis=0).max())
                mean, sec = w.mean(0), np.einsum('ni,nj->ij', w, w)/len(w); o.cover(states=1)
                if not rot: e1, e2, t1, t2 = np.zeros(3), np.eye(3)/3, 1e-12, .7/q**2
                elif i == 0: continue
                else: p = v[0, i - 1]/l[0, i - 1]; e1, e2, t1, t2 = c*p, c*c*np.outer(p, p) + sn*sn/2*(np.eye(3) - np.outer(p, p)), 1e-9, 1e-9
                if not np.abs(mean - e1).max() <= t1: o.fail(site + ' (mean)', dict(inp, link=i), 'mean direction %s, expected %s' % (mean, e1))
                if not np.abs(sec - e2).max() <= t2: o.fail(site + ' (second moments)', dict(inp, link=i), 'second moments %s, expected %s' % (sec.tolist(), e2.tolist()))
                if not rot:     # the cosine with any axis is uniform in (-1, 1): compare the distribution function of the z axis and moments of the others
                    for ax in range(3):
                        z = w[:, ax]
                        for pw in (3, 4, 6):
                            ex = 0 if pw % 2 else 1/(pw + 1.0)
                            if not abs((z**pw).mean() - ex) <= 3.0/q**2: o.fail(site + ' (moments)', dict(inp, link=i, axis=ax, power=pw), 'mean power %.9g, expected %.9g' % ((z**pw).mean(), ex))
                else:           # dihedral: higher harmonics about the previous link
                    a = np.cross(p, [0.3, -.5, .81]); a /= np.linalg.norm(a); b2 = np.cross(p, a); z = ((w @ a) + 1j*(w @ b2))/max(sn, 1e-9)
                    if not abs((z**3).mean()) <= 1e-6: o.fail(site + ' (dihedral)', dict(inp, link=i), 'third harmonic %s' % (z**3).mean())
                if ext:
                    x = l[:, i]; tv = 1/math.sqrt(kap)
                    if not abs(x.mean() - 1) <= .12*tv: o.fail('link length (mean)', dict(inp, link=i), 'mean %.9g' % x.mean())
                    if not .6*tv <= x.std() <= 1.1*tv: o.fail('link length (spread)', dict(inp, link=i), 'spread %.6g for %.6g' % (x.std(), tv))
        # mean square end-to-end length over the full product of all draws of short chains
        if n <= 3 and not ext:
            pool = np.flatnonzero(own >= 0) if not rot else np.array([d for d in range(k)])
            if not rot: q = {1: 24, 2: 14 if th else 8, 3: 7 if th else 5}[n]; U = lattice(q, k)
            else:
                # one draw per link turns it; the average over its lattice is exact whichever it is
                q = 3; U = lattice(q, min(k, 8)) if k <= 8 else None
                if U is None: U = np.concatenate([np.repeat(lattice(3, 8), 3, 0)[:, :4], np.tile(lattice(3, 8), (3, 1))], 1) if k == 12 else None
                if U is not None and U.shape[1] != k: U = None
            if U is not None:
                R2 = M.run(U, 1)[0]**2; o.cover(states=len(U), transitions=len(U), validated=len(U)); want = n if not rot else n*(1 + c)/(1 - c) - 2*c*(1 - c**n)/(1 - c)**2
                if not rot and not abs(R2.mean() - want) <= 1e-9: o.fail('mean square length', inp, '%.12g, expected %.12g' % (R2.mean(), want))
                if rot and n <= 2 and not abs(R2.mean() - want) <= 1e-9: o.fail('mean square length', inp, '%.12g, expected %.12g' % (R2.mean(), want))
        o.sample(dict(inp, draws_per_chain=k, end_to_end=float(M.run(weyl(1, k), 1)[0][0])), 2)
    items.sort(key=lambda a: -a[1]*(4 if a[0].endswith('frc') else 1))
    pmap(r, P, items, work); r.info['samplers'] = len(items)
