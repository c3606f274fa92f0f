"""Shared machinery of the checks: building and calling the real code, lattices, reports, findings."""
import ctypes as ct, itertools, json, os, subprocess, sys, time, math
import numpy as np
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
THREADS = os.cpu_count() or 4
KB, HP = 8.314462618, 0.06350779923502961
np.seterr(all='ignore')

def cargo_env():
    e = dict(os.environ)
    e.update(RUSTFLAGS='-Awarnings', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', RUSTC_WRAPPER='')
    e.setdefault('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '')
    return e
def run_cargo(cwd, args, target):
    r = subprocess.run(['cargo'] + args + ['--offline', '--locked', '--target-dir', target], cwd=cwd, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: sys.stderr.write(r.stdout[-6000:] + '\nBUILD FAILED\n'); sys.exit(3)

class Probe:
    """The real code, built from the current tree of /repo."""
    def __init__(self, build=True):
        target = os.path.join(BUILD, 'target')
        if build: run_cargo(os.path.join(VERIF, 'probe'), ['build'], target)
        self.so = os.path.join(target, 'debug', 'libprobe.so')
        L = self.L = ct.CDLL(self.so)
        L.probe_init(); L.probe_new.restype = ct.c_void_p
        for n in ('hyper_new', 'damage_new'): getattr(L, n).restype = ct.c_void_p
        for n in 'integrate_1d integrate_1d_grid integrate_2d integrate_2d_symmetric integrate_2d_grid integrate_2d_symmetric_grid newton'.split():
            getattr(L, 'math_' + n).restype = ct.c_double
        L.probe_get.restype = ct.c_double
        self.api = json.load(open(os.path.join(VERIF, 'probe', 'api.json')))
        self.funs = {f['path']: i for i, f in enumerate(self.api['funs'])}
        self.structs = {s['path']: i for i, s in enumerate(self.api['structs'])}
        self.evals = 0
    def args(self, path): return self.api['funs'][self.funs[path]]['args']
    def has(self, path): return path in self.funs
    def raw(self, path, rows, threads=None):
        """rows: (n, k) float64; returns values and panic flags."""
        i = self.funs[path]; k = len(self.api['funs'][i]['args'])
        a = np.ascontiguousarray(rows, dtype=np.float64).reshape(-1, k); n = len(a)
        out = np.empty(n); st = np.empty(n, np.uint8)
        self.L.probe_fun(ct.c_size_t(i), a.ctypes.data_as(ct.c_void_p), ct.c_size_t(k), ct.c_size_t(n), out.ctypes.data_as(ct.c_void_p), st.ctypes.data_as(ct.c_void_p), ct.c_size_t(THREADS if threads is None else threads))
        self.evals += n
        return out, st
    def f(self, path, **kw):
        """Broadcast call by argument names; a panic gives nan."""
        names = self.args(path)
        assert set(names) <= set(kw), (path, names, list(kw))
        arrs = np.broadcast_arrays(*[np.asarray(kw[n], dtype=np.float64) for n in names])
        out, st = self.raw(path, np.stack([x.ravel() for x in arrs], 1))
        return out.reshape(arrs[0].shape)
    def seq(self, calls):
        """calls: list of (path, tuple of args), evaluated in that order on one thread."""
        ids = np.array([self.funs[p] for p, _ in calls], dtype=np.uintp)
        off = np.concatenate([[0], np.cumsum([len(a) for _, a in calls])]).astype(np.uintp)
        a = np.array([x for _, y in calls for x in y], dtype=np.float64)
        out = np.empty(len(ids)); st = np.empty(len(ids), np.uint8)
        self.L.probe_seq(ids.ctypes.data_as(ct.c_void_p), off.ctypes.data_as(ct.c_void_p), ct.c_size_t(len(ids)), a.ctypes.data_as(ct.c_void_p), ct.c_size_t(len(a)), out.ctypes.data_as(ct.c_void_p), st.ctypes.data_as(ct.c_void_p))
        self.evals += len(ids)
        return out, st
    def new(self, struct, init):
        s = self.api['structs'][self.structs[struct]]
        a = np.array([init[n] for n in s['init']] if isinstance(init, dict) else init, dtype=np.float64)
        h = self.L.probe_new(ct.c_size_t(self.structs[struct]), a.ctypes.data_as(ct.c_void_p), ct.c_size_t(len(a)))
        return Inst(self, h, s) if h else None
    def last_panic(self):
        b = ct.create_string_buffer(2000)
        self.L.probe_last_panic.restype = ct.c_size_t
        n = self.L.probe_last_panic(b, ct.c_size_t(2000))
        return b.raw[:n].decode(errors='replace')
class Inst:
    def __init__(self, p, h, s):
        self.p, self.h, self.s = p, ct.c_void_p(h), s
        self.m = {m['path']: (i, m['args']) for i, m in enumerate(s['methods'])}
        self.fi = {f: i for i, f in enumerate(s['fields'])}
    def call(self, method, rows):
        i, names = self.m[method]; k = len(names)
        a = np.ascontiguousarray(rows, dtype=np.float64).reshape(-1, k); n = len(a)
        out = np.empty(n); st = np.empty(n, np.uint8)
        self.p.L.probe_call(self.h, ct.c_size_t(i), a.ctypes.data_as(ct.c_void_p), ct.c_size_t(k), ct.c_size_t(n), out.ctypes.data_as(ct.c_void_p), st.ctypes.data_as(ct.c_void_p))
        self.p.evals += n
        return out, st
    def get(self, f): return self.p.L.probe_get(self.h, ct.c_size_t(self.fi[f]))
    def free(self):
        if self.h: self.p.L.probe_free(self.h); self.h = None
    def __del__(self): self.free()

# ---- reports ------------------------------------------------------------------------------------------
FINDINGS = os.path.join(VERIF, 'known_findings.txt')
class Report:
    """Collects what a check explored, what it found, and turns it into lines, evidence and an exit code."""
    def __init__(self, prop, tier, technique=''):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.viol, self.known, self.info = [], {}, {}, {}
        self.assumptions = []
        self.findings = []
        if os.path.exists(FINDINGS):
            for line in open(FINDINGS):
                if line.startswith('known: property=%s ' % prop): self.findings.append(json.loads(line.split(' ', 2)[2]))
    def cover(self, states=0, transitions=0, validated=0):
        self.states += int(states); self.transitions += int(transitions); self.validated += int(validated)
    def sample(self, x, cap=12):
        if len(self.samples) < cap: self.samples.append(x)
    def match(self, site, inputs):
        for f in self.findings:
            if f['site'] == site and all(k in inputs and v[0] <= inputs[k] <= v[1] for k, v in f.get('when', {}).items()): return f
        return None
    def fail(self, site, inputs, detail, calls=None):
        """One violating state: site identifies the call or relation, inputs the lattice point."""
        inputs = {k: (v if isinstance(v, (str, list)) else float(v)) for k, v in inputs.items()}
        f = self.match(site, inputs)
        if f: self.known.setdefault(f['what'], 0); self.known[f['what']] += 1; return
        v = self.viol.setdefault(site, dict(count=0, first=None)); v['count'] += 1
        if v['first'] is None: v['first'] = dict(property=self.prop, site=site, inputs=inputs, detail=detail, calls=calls or [])
    def mask(self, site, bad, point, detail, calls=None):
        """bad: array of booleans over lattice points; point(i) -> inputs; detail(i) -> text."""
        bad = np.asarray(bad).ravel(); idx = np.flatnonzero(bad)
        if len(idx) and self.findings:
            idx = [i for i in idx if not self._known(site, point(i))]
        for n, i in enumerate(idx[:1] if len(idx) else []):
            self.fail(site, point(i), detail(i), calls(i) if calls else None)
        if len(idx) > 1: self.viol[site]['count'] += len(idx) - 1
        return len(idx)
    def _known(self, site, inputs):
        f = self.match(site, {k: (v if isinstance(v, (str, list)) else float(v)) for k, v in inputs.items()})
        if f: self.known.setdefault(f['what'], 0); self.known[f['what']] += 1
        return bool(f)
    def finish(self, probe=None):
        d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        for w, n in sorted(self.known.items()): print('KNOWN-FINDING: property=%s %s' % (self.prop, w))
        for k, (site, v) in enumerate(sorted(self.viol.items(), key=lambda a: -a[1]['count'])[:8]):
            path = os.path.join(d, '%s-%d.json' % (self.prop, k + 1))
            json.dump(dict(v['first'], states_failing=v['count']), open(path, 'w'), indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  %s: %d states; first: %s %s' % (site, v['count'], v['first']['inputs'], v['first']['detail']))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated, samples=self.samples or ['none'],
                   evaluations=int(probe.evals) if probe else self.validated, exhaustive=True)
        cov.update(self.info)
        json.dump(dict(property=self.prop, tier=self.tier, seed=SEED, level='model_checking', coverage=cov, assumptions=self.assumptions,
                       wall_s=round(time.time() - self.t0, 2), violations=sum(v['count'] for v in self.viol.values())),
                  open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1, default=str)
        print('%s %s: %d states, %d transitions, %d implementation traces, %.1f s: %s' % (self.prop, self.tier, self.states, self.transitions, self.validated,
              time.time() - self.t0, 'VIOLATED at %d sites' % len(self.viol) if self.viol else 'held'))
        return 1 if self.viol else 0
    def absorb(self, o):
        self.states += o.states; self.transitions += o.transitions; self.validated += o.validated
        for x in o.samples[:2]: self.sample(x, 24)
        for s, v in o.viol.items():
            if s in self.viol: self.viol[s]['count'] += v['count']
            else: self.viol[s] = v
        for w, n in o.known.items(): self.known[w] = self.known.get(w, 0) + n
        for k, v in o.info.items(): self.info[k] = max(self.info.get(k, v), v) if isinstance(v, (int, float)) else v
def pmap(r, P, items, work, procs=None):
    """work(report, probe, item) in forked processes; results are merged into r. Items are taken in order."""
    global THREADS
    import multiprocessing as mp
    procs = min(procs or THREADS, len(items)) or 1
    ctx = mp.get_context('fork'); counter = ctx.Value('i', 0); q = ctx.SimpleQueue()
    def go():
        o = Report(r.prop, r.tier); e0 = P.evals if P else 0; err = None
        try:
            while True:
                with counter.get_lock(): i = counter.value; counter.value += 1
                if i >= len(items): break
                work(o, P, items[i])
        except BaseException as ex:
            import traceback; err = traceback.format_exc()
        q.put((o, (P.evals - e0) if P else 0, err))
    keep = THREADS; THREADS = 1
    ps = [ctx.Process(target=go) for _ in range(procs)]
    for p in ps: p.start()
    errs = []
    for _ in ps:
        o, e, err = q.get(); r.absorb(o)
        if P: P.evals += e
        if err: errs.append(err)
    for p in ps: p.join()
    THREADS = keep
    if errs: sys.stderr.write(errs[0]); raise SystemExit(4)
def point(p, keys=None):
    return lambda i: {k: float(v[i]) for k, v in p.items() if keys is None or k in keys}
