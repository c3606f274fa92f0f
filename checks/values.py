"""Reference-value checks: every function of a family of modules against the independent reference model, on every
state of the family's lattice."""
import lat, spec as X
from engine import *
def blocks(keys, tier, size=4000, which=None, **kw):
    """(module, slice name, block of points), costly modules first."""
    out = []
    for k in keys:
        for n, p in lat.space(k, tier, **kw):
            if which and n not in which: continue
            step = 100 if lat.slow(k) else size
            for a in range(0, len(p.x), step): out.append((k, n, X.Pt({c: v[a:a + step] for c, v in p.items()})))
    return sorted(out, key=lambda b: (not lat.slow(b[0]), 'wlc' not in b[0], -len(b[2].x)))
def run_values(r, P, tier, keys, select=lambda fn: True, boost=1):
    def work(o, P, it):
        k, n, p = it; m = Mod(P, k, p)
        against_reference(o, m, [f for f in m.names() if select(f)]); o.cover(states=m.n, transitions=m.n)
    pmap(r, P, blocks(keys, tier, boost=boost), work)
    r.info['modules'] = len(keys); r.info['functions'] = sum(1 for k in keys for f in P.funs if f.rsplit('::', 1)[0] == S + k and select(f.rsplit('::', 1)[1]))
