"""Purity: the value of every call, made once in a process which has made no other, is the reference; every history of
calls up to a bound, and interleavings on objects and threads, must reproduce it bit for bit."""
import itertools, os, pickle, threading, numpy as np, lat, spec as X, cons as C
from engine import *
MATH = {'math::erf': [[.3], [-1.7]], 'math::erfc': [[.3], [-1.7]], 'math::erfcx': [[.3], [20.]], 'math::erfcx_helper': [[3.3], [70.2]], 'math::bessel_i': [[0., 1.3], [1., 12.]], 'math::lambert_w': [[.7], [-.2]], 'math::inverse_langevin': [[.31], [.97]]}
def fresh(job):
    """Run job() in a process of its own, forked before the library was ever called here, and return its result."""
    a, b = os.pipe(); pid = os.fork()
    if not pid:
        try:
            os.close(a); d = pickle.dumps(job())
            with os.fdopen(b, 'wb') as f: f.write(d)
        finally: os._exit(0)
    os.close(b)
    with os.fdopen(a, 'rb') as f: d = f.read()
    os.waitpid(pid, 0)
    if not d: raise RuntimeError('a process making calls died')
    return pickle.loads(d)
def bits(y): return np.where(np.isnan(y), np.uint64(1), np.asarray(y, float).view(np.uint64))
def points(P, f):
    """Argument lists of a function: A, B (everything else), C (another load), then A with each argument changed a little and a lot."""
    if f in MATH:
        A, B = MATH[f]; C = [A[0]] + [A[1]*1.5] if len(A) == 2 else [A[0]*1.5]; out = [A, B, C]
        for j in range(len(A)):
            for s in (1 + 1e-12, 1 + 1e-5, 1.11): v = list(A); v[j] = (1 - v[j] if len(A) == 2 and j == 0 else v[j]*s); out.append(v)
        return out
    k = f.rsplit('::', 1)[0][len(S):]; names = P.args(f); ens = X.M[k].ens
    mk = lambda **kw: X.args_of(lat.clip(k, lat.prod(**kw)), names, ens)[0].tolist()
    par = lat.params(k, 0); one = {q: v[0] for q, v in par.items()}; two = {q: v[-1]*1.07 for q, v in par.items()}; x = .41 if ens == 'length' else 1.7
    A, B, C = mk(N=8., x=x, l=.9, m=1.3, T=300., norm=1., **one), mk(N=5., x=x*.71, l=1.4, m=.7, T=345., norm=.8, **two), mk(N=8., x=x*.53, l=.9, m=1.3, T=300., norm=1., **one); out = [A, B, C]
    for j, q in enumerate(names):
        for s in ((9/8., 30/8.) if q == 'number_of_links' else (1 + 1e-12, 1 + 1e-5, 1.11)): v = list(A); v[j] = v[j]*s; out.append(v)
    return out
def regimes(P, f):
    """Argument lists of a function in each regime of its load, small to large, for short and long chains, in close pairs."""
    if f in MATH:
        v = {'math::bessel_i': [.1, 3., 7.7, 9., 40.], 'math::lambert_w': [-.36, -.1, .01, 3., 50., 1e4], 'math::inverse_langevin': [.01, .2, .6, .9, .999]}.get(f, [-30., -3., -.1, .01, .9, 2., 6., 30., 99.] if 'helper' not in f else [.5, 10., 50., 99.])
        return [[n, y] if len(MATH[f][0]) == 2 else [y] for n in ((0., 1.) if len(MATH[f][0]) == 2 else (0,)) for x in v for y in (x, x*(1 - 2e-3))]
    k = f.rsplit('::', 1)[0][len(S):]; names = P.args(f); ens = X.M[k].ens; sl = lat.slow(k); out = []
    for n in (3.,) if sl else (3., min(60., lat.Nmax(k))):
        for x in ((.3, .9) if sl else (.01, .12, .45, .85, .985)) if ens == 'length' else (.02, 1., 6., 45., 300.):
            for y in (x, x*1.002):
                p = lat.clip(k, lat.prod(N=n, x=y, l=1.1, m=.9, T=310., norm=1., **{q: v[:1] for q, v in lat.params(k, 0).items()}))
                if len(p.x): out.append(X.args_of(p, names, ens)[0].tolist())
    return out
def debruijn(k, n):
    a, seq = [0]*k*n, []
    def db(t, p):
        if t > n: seq.extend(a[1:p + 1]) if n % p == 0 else None
        else:
            a[t] = a[t - p]; db(t + 1, p)
            for j in range(a[t - p] + 1, k): a[t] = j; db(t + 1, t)
    db(1, 1); return seq + seq[:n - 1]
def run(r, P, tier):
    th = tier == 'thorough'; funs = sorted(P.funs); r.assumptions += ['calls are atomic steps of a history; concurrent calls are run as the machine schedules them']
    pts = {f: points(P, f) for f in funs}; slow = lambda f: 'modified_canonical::' in f and 'asymptotic' not in f
    name = lambda f, a: dict(zip(P.args(f), a)); reg = {f: len(pts[f]) for f in funs}
    for f in funs: pts[f] = pts[f] + regimes(P, f)
    # 1. the value of each call on its own
    ref = {}
    items = [(f, i) for f in funs for i in range(len(pts[f])) if i < 3 or i >= reg[f] or th or not slow(f)]
    chunks = [items[a:a + 60] for a in range(0, len(items), 60)]
    def alone(f, i): y, s = P.seq([(f, pts[f][i])]); return int(bits(y)[0]), int(s[0])
    for d in Forks().map(lambda it: {(f, i): fresh(lambda: alone(f, i)) for f, i in it}, chunks): ref.update(d)
    r.cover(states=len(items), validated=len(items)); P.evals += len(items)
    def compare(o, seq, y, s, what):
        """seq: list of (f, i)."""
        b = bits(y); o.cover(states=len(seq), transitions=len(seq) - 1, validated=len(seq))
        for n, (f, i) in enumerate(seq):
            if (f, i) in ref and (int(b[n]), int(s[n])) != ref[f, i]:
                w = np.array([ref[f, i][0]], np.uint64).view(float)[0]; before = [dict(fn=g, args=name(g, pts[g][j]), value=float(y[max(0, n - 3) + q])) for q, (g, j) in enumerate(seq[max(0, n - 3):n + 1])]
                o.fail('%s (%s)' % (f, what), name(f, pts[f][i]), 'returned %.17g at step %d, on its own %.17g; after %s' % (y[n], n, w, [(g.split('::', 2)[-1], pts[g][j]) for g, j in seq[max(0, n - 2):n]]), before); return
    # 2. histories of one function: every word of length 4 over A, B, C; A-B-A for every variant; many repetitions
    words = debruijn(3, 4)
    def single(o, P, f):
        n = reg[f]; seqs = [[(f, i) for i in words]]; R = range(n, len(pts[f]))
        if len(R) > 1: seqs.append([(f, R[i]) for i in debruijn(len(R), 2)])
        if th or not slow(f): seqs.append([(f, i) for j in range(1, n) for i in (0, j, 0, j, j, 0)]); seqs.append([(f, i) for i in list(range(n)) + list(range(n))[::-1]])
        if not slow(f): seqs.append([(f, 0)]*(300 if 'wlc' in f or 'ufjc' in f else 3000) + [(f, 1), (f, 0)])
        for q in seqs: y, s = fresh(lambda: P.seq([(g, pts[g][i]) for g, i in q])); compare(o, q, y, s, 'history'); P.evals += len(q)
    # 3. every ordered pair of functions: f(A) then g(A), and with other arguments in between
    def pairs(o, P, it):
        row, cols = it; q = []
        for f in row:
            for g in cols: q += [(f, 0), (g, 0), (f, 1)] if (len(q) // 3) % 2 else [(f, 0), (g, 0)]
        for a in range(0, len(q), 20000): y, s = fresh(lambda: P.seq([(g, pts[g][i]) for g, i in q[a:a + 20000]])); compare(o, q[a:a + 20000], y, s, 'after others'); P.evals += len(y)
    quick = [f for f in funs if not slow(f)]; mods = {}
    for f in funs: mods.setdefault(f.rsplit('::', 1)[0], []).append(f)
    heavy = [f for f in quick if 'wlc' in f or ('ufjc' in f and 'asymptotic' not in f)]; light = [f for f in quick if f not in heavy]
    jobs = [(single, f) for f in funs] + [(pairs, (light[a:a + 20], light)) for a in range(0, len(light), 20)] + [(pairs, (m, m)) for m in mods.values() if len(m) > 1 and (m[0] not in light)]
    if th: jobs += [(pairs, (heavy[a:a + 5], quick)) for a in range(0, len(heavy), 5)]
    # 4. whole programs in several orders
    def program(o, P, order):
        q = [(f, i) for f in quick for i in (0, 1, 2)]; n = len(q)
        if order == 1: q = q[::-1]
        elif order > 1: st = [7, 11, 13, 17, 19, 23][order - 2]; st += 0 if n % st else 10; q = [q[(k*st) % n] for k in range(n)] if np.gcd(st, n) == 1 else q[::2] + q[1::2]
        y, s = fresh(lambda: P.seq([(g, pts[g][i]) for g, i in q])); compare(o, q, y, s, 'program'); P.evals += n
    jobs += [(program, k) for k in range(8 if th else 5)]
    # 5. threads: the same functions with different arguments at once
    def threads(o, P, it):
        fs, off = it; n = 4; q = [[(f, (t + k) % 3) for k in range(3) for f in (fs if t % 2 else fs[::-1]) for _ in range(20 if f in light else 2)] for t in range(n)]
        def job():
            res = [None]*n; gate = threading.Barrier(n)
            def go(t): gate.wait(); res[t] = P.seq([(g, pts[g][i]) for g, i in q[t]])
            ts = [threading.Thread(target=go, args=(t,)) for t in range(n)]; [t.start() for t in ts]; [t.join() for t in ts]; return res
        for t, (y, s) in enumerate(fresh(job)): compare(o, q[t], y, s, 'threads'); P.evals += len(y)
    jobs += [(threads, (m, 0)) for m in mods.values() if not slow(m[0])]
    # 6. objects: two of one structure, and of neighbouring structures, interleaved; fields stay what they are
    def objects(o, P, s):
        d = P.api['structs'][P.structs[s]]; base = s[len(S):].rsplit('::', 1)[0]; key = base if '::' in base else base + '::thermodynamics'; par = lat.params(key, 0); one = {q: v[0] for q, v in par.items()}; two = {q: v[-1]*1.3 for q, v in par.items()}
        ini = [X.args_of(lat.prod(N=n, x=1., l=l, m=m, T=300., **pp), d['init'], 'force')[0] for n, l, m, pp in ((8., .9, 1.3, one), (6., 1.2, .6, two))]
        def argl(names, v): return [{'temperature': (300., 345.)[v], 'force': (3e3, 4100.)[v], 'nondimensional_force': (2.3, 4.1)[v], 'end_to_end_length': (2.7, 3.9)[v], 'nondimensional_end_to_end_length_per_link': (.41, .62)[v], 'potential_distance': (2.7, 3.9)[v], 'nondimensional_potential_distance': (.41, .62)[v], 'potential_stiffness': (5e3, 9e3)[v], 'nondimensional_potential_stiffness': (3., 8.)[v]}[q] for q in names]
        ms = d['methods']
        if any('modified_canonical' in s + m['path'] and 'asymptotic' not in s + m['path'] for m in ms): ms = [m for i, m in enumerate(ms) if 'modified_canonical' not in s + m['path'] or 'asymptotic' in m['path'] or th or i % 9 == 0]
        def values(I, v): return [tuple(int(b[0]) for b in (lambda y, e: (bits(y), e))(*I.call(m['path'], [argl(m['args'], v)]))) for m in ms]
        lone = [[fresh(lambda: values(P.new(s, ini[a]), v)) for v in (0, 1)] for a in (0, 1)]
        def inter():
            I = [P.new(s, ini[0]), P.new(s, ini[1])]; out = []
            for m, mm in enumerate(ms):
                for a, v in ((0, 0), (1, 0), (0, 0), (0, 1), (1, 1), (0, 0), (1, 0)):
                    y, e = I[a].call(mm['path'], [argl(mm['args'], v)]); out.append((m, a, v, int(bits(y)[0]), int(e[0])))
            f = [[I[a].get(q) for q in d['fields']] for a in (0, 1)]; I[0].free(); J = P.new(s, ini[0]); out += [(m, 0, 0) + t for m, t in enumerate(values(J, 0))] + [(m, 1, 1) + t for m, t in enumerate(values(I[1], 1))]
            return out, f
        out, f = fresh(inter); o.cover(states=len(out), transitions=len(out) - 1, validated=len(out)); P.evals += len(out)
        for m, a, v, b, e in out:
            if lone[a][v][m] != (b, e):
                w, g = np.array([lone[a][v][m][0], b], np.uint64).view(float); o.fail(s + '.' + ms[m]['path'] + ' (objects)', dict(zip(ms[m]['args'], argl(ms[m]['args'], v)), object=a), 'returned %.17g, in a process of its own %.17g' % (g, w)); break
        for a in (0, 1):
            w = dict(zip(d['init'], ini[a]))
            for q, x in zip(d['fields'], f[a]):
                if x != w[q.split('.')[-1]]: o.fail(s + '.' + q + ' (changed)', dict(object=a), '%.17g, given %.17g' % (x, w[q.split('.')[-1]]))
    jobs += [(objects, s) for s in P.structs]
    # 7. constitutive models: two objects of each kind in turn, every word of length 2 over object, load case and stretch
    def hyper(o, P, _):
        cfg = [(2, 50., 8), (3, 50., 8), (3, 200., 20)][0 if th else 1:]; lam = (1.2, 1.2*1.002, 3.1, .6) if th else (1.2, 1.2*1.002); acts = [(c, w, l) for c in range(len(cfg)) for w in (0, 1) for l in range(len(lam))]
        one = {a: fresh(lambda: C.HyperImpl(P, *cfg[a[0]]).stress(a[1], [lam[a[2]]])) for a in acts}; word = debruijn(len(acts), 2)
        def go():
            H = [C.HyperImpl(P, *c) for c in cfg]; return [H[acts[i][0]].stress(acts[i][1], [lam[acts[i][2]]]) for i in word], [H[c].fields() for c in range(len(cfg))]
        y, _ = fresh(go); o.cover(states=len(word), transitions=len(word) - 1, validated=len(word)); P.evals += len(word)
        for n, i in enumerate(word):
            if bits(y[n]) != bits(one[acts[i]]): c, w, l = acts[i]; o.fail('hyperelastic stress (history)', dict(method=cfg[c][0], link_stiffness=cfg[c][1], number_of_links=cfg[c][2], equibiaxial=w, stretch=lam[l]), 'returned %.17g at step %d, on its own %.17g' % (y[n][0], n, one[acts[i]][0])); break
    def damage(o, P, _):
        cfg = [(2, 1.1, 50., 8, 1.), (3, 1.1, 50., 8, 1.), (3, 1.5, 80., 8, 2.)]; H = [[[1., 1.5, 2.2]], [[1., 2.2, 1.1]], [[1., 1.3, 1.31]]] if th else [[[2.2, 1.1]], [[1.3]]]; cfg = cfg if th else cfg[::2]; acts = [(c, h) for c in range(len(cfg)) for h in range(len(H))]
        one = {a: fresh(lambda: C.DamageImpl(P, *cfg[a[0]]).run(H[a[1]])[0]) for a in acts}; word = debruijn(len(acts), 2)
        def go(): D = [C.DamageImpl(P, *c) for c in cfg]; return [D[acts[i][0]].run(H[acts[i][1]])[0] for i in word]
        y = fresh(go); o.cover(states=len(word), transitions=len(word) - 1, validated=len(word)); P.evals += 3*len(word)
        for n, i in enumerate(word):
            if (bits(y[n]) != bits(one[acts[i]])).any(): c, h = acts[i]; o.fail('damage model (history)', dict(method=cfg[c][0], critical=cfg[c][1], link_stiffness=cfg[c][2], swelling=cfg[c][4], history=str(H[h])), 'returned %s at step %d, on its own %s' % (y[n].ravel().tolist(), n, one[acts[i]].ravel().tolist())); break
    jobs = [(hyper, 0), (damage, 0)] + jobs
    jobs.sort(key=lambda j: {single: 2, pairs: 1, program: 0, threads: 1, objects: 0, hyper: -1, damage: -1}[j[0]] if not (j[0] is single and slow(j[1])) else 0)
    pmap(r, P, jobs, lambda o, P, j: j[0](o, P, j[1]))
    r.sample(dict(history=[funs[0]]*3, arguments=[pts[funs[0]][i] for i in (0, 1, 0)])); r.info.update(functions=len(funs), fresh_processes=len(items), words=len(words))
class Forks:
    """map over forked processes, returning pickled results; the parent never calls the library."""
    def map(s, f, items):
        out, pids = [None]*len(items), []
        for w in range(THREADS):
            a, b = os.pipe(); pid = os.fork()
            if not pid:
                try:
                    os.close(a); d = pickle.dumps([(i, f(items[i])) for i in range(w, len(items), THREADS)])
                    with os.fdopen(b, 'wb') as h: h.write(d)
                finally: os._exit(0)
            os.close(b); pids.append((pid, a))
        for pid, a in pids:
            with os.fdopen(a, 'rb') as h: d = h.read()
            os.waitpid(pid, 0)
            for i, v in pickle.loads(d): out[i] = v
        return out
