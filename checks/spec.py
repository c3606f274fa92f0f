"""What every public single-chain function should return, derived from the reference model (ref.py) and the
naming convention of the library.  A Module gives, on a batch of lattice points, the nondimensional values
 eta, gam (per link), G, A (whole chain), P (density per contour volume)
each as (value, absolute uncertainty); expect() turns them into the value of any function of that module."""
import numpy as np, math
import ref as R
from ref import KB, HP
S = 'physics::single_chain::'
ZERO = 1e-6
EPS = 2.0**-52
PL = '_per_link'
def split(fn):
    """fn -> (nondimensional, relative, quantity, per_link)"""
    nd = fn.startswith('nondimensional_'); q = fn[len('nondimensional_'):] if nd else fn
    rel = q.startswith('relative_'); q = q[len('relative_'):] if rel else q
    pl = q.endswith(PL); q = q[:-len(PL)] if pl else q
    return nd, rel, q, pl
class Pt(dict):
    """A batch of lattice points: arrays N, l, m, T, x and the nondimensional model parameters."""
    __getattr__ = dict.__getitem__
    def at(s, **kw):
        n = len(s['x']); return Pt(s, **{k: np.broadcast_to(np.asarray(v, float), (n,)) for k, v in kw.items()})
COLS = ('x', 'kap', 'eps', 'w')
def distinct(p):
    """Distinct (load, link parameters) of a batch, and how to expand results back; N, l, m, T do not enter links."""
    c = [k for k in COLS if k in p]; a = np.stack([p[k] for k in c], 1)
    u, inv = np.unique(a, axis=0, return_inverse=True); inv = inv.ravel(); n = len(u)
    if n > 0.7*len(a): return p, None
    q = Pt({k: u[:, i].copy() for i, k in enumerate(c)}); q.update({k: np.ones(n) for k in ('N', 'l', 'm', 'T', 'norm')})
    return q, inv
def per_link(f, p):
    q, inv = distinct(p); r = f(q)
    return r if inv is None else tuple(v[inv] for v in r)
def args_of(p, names, ens):
    """Concrete arguments (columns) of a function for the points, by parameter name."""
    kT = KB*p.T; L = p.N*p.l; out = []
    for k in names:
        out.append({'number_of_links': lambda: p.N, 'link_length': lambda: p.l, 'hinge_mass': lambda: p.m, 'temperature': lambda: p.T,
          'link_stiffness': lambda: p.kap*kT/p.l**2, 'nondimensional_link_stiffness': lambda: p.kap,
          'link_energy': lambda: p.eps*kT, 'nondimensional_link_energy': lambda: p.eps,
          'well_width': lambda: (p.w - 1)*p.l,
          'persistance_length': lambda: p.kp*L, 'nondimensional_persistance_length': lambda: p.kp,
          'force': lambda: p.x*kT/p.l, 'nondimensional_force': lambda: p.x,
          'end_to_end_length': lambda: p.x*L, 'nondimensional_end_to_end_length_per_link': lambda: p.x,
          'potential_distance': lambda: p.x*L, 'nondimensional_potential_distance': lambda: p.x,
          'potential_stiffness': lambda: p.om*kT/p.l**2, 'nondimensional_potential_stiffness': lambda: p.om,
          'normalization_nondimensional_equilibrium_distribution': lambda: p.norm}[k]())
    return np.stack(out, 1)
def kin(p): return R.kinetic(p.m, p.l, p.T)
def vib(p): return 0.5*np.log(2*np.pi*p.l**2/p.kap)
zero = lambda p: 0*p.x
# rounding allowance of 1/tanh(x) - 1/x and ln(sinh(x)/x), and of their stiff counterparts
def base_noise(p): return 1e-13 + 1e-12*p.x, 1e-12 + 1e-14/p.x
class Isotensional:
    ens = 'force'
    def __init__(s, iso, off=kin, noise=base_noise, zfac=lambda p: p.N): s.iso, s.off, s.noise = iso, off, noise
    def core(s, p):
        r = per_link(s.iso, p); g, y = r[:2]; e, k = s.noise(p)
        if len(r) == 4: e, k = e + r[2], k + r[3]
        return g, y, e + 1e-11*np.abs(g), k + 1e-11*np.abs(y), r[5:] and r[4:]
    def vals(s, p):
        g, y, e, k, alt = s.core(p); o = s.off(p); dG = p.N*(e + 1e-12*np.abs(o))
        def f(g, y): G = p.N*(g - o); return dict(eta=(p.x, zero(p)), gam=(y, k), G=(G, dG), A=(G + p.N*p.x*y, dG + p.N*p.x*k))
        v = f(g, y)
        if alt: v['alt'] = f(*alt)
        return v
class Legendre:
    """Isometric, by Legendre transformation of an isotensional model: eta(gam) is the inverse of gam(eta)."""
    ens = 'length'
    def __init__(s, iso, off=kin, noise=base_noise, etamax=lambda p: np.full(len(p.x), 1e6), rtol=2e-6, atol=1e-9, dist=False):
        s.iso, s.off, s.noise, s.etamax, s.rtol, s.atol, s.dist = iso, off, noise, etamax, rtol, atol, dist
    def invert(s, p):
        n = len(p.x); lo, hi = np.full(n, 1e-14), np.array(s.etamax(p), float)
        for _ in range(75):
            m = np.where(hi > 4*lo, np.sqrt(lo*hi), 0.5*(lo + hi)); b = s.iso(p.at(x=m))[1] < p.x
            lo = np.where(b, m, lo); hi = np.where(b, hi, m)
        return 0.5*(lo + hi)
    def vals(s, p):
        eta = per_link(lambda q: (s.invert(q),), p)[0]; q = p.at(x=eta); g, y = s.iso(q)[:2]; e, k = s.noise(q)
        h = 1e-5*eta; d = np.maximum((s.iso(p.at(x=eta + h))[1] - s.iso(p.at(x=eta - h))[1])/(2*h), 1e-300)
        de = (s.rtol*p.x + s.atol + k)/d + 1e-9*eta
        o = s.off(p); A = p.N*(g + eta*p.x) - (p.N - 1)*o
        # A is stationary with respect to the root, so the root's error enters squared
        dA = p.N*(e + 1e-11*(np.abs(g) + eta*p.x) + d*de**2 + 1e-12*np.abs(o))
        r = dict(eta=(eta, de), gam=(p.x, zero(p)), A=(A, dA), G=(A - p.N*eta*p.x, dA + p.N*p.x*de))
        if s.dist:
            lnP = -p.N*(g + eta*p.x + (s.dist(p) if callable(s.dist) else 0)); P = np.exp(lnP)/p.norm
            r['P'] = (P, P*np.expm1(np.minimum(p.N*(e + 1e-11*(np.abs(g) + eta*p.x) + d*de**2), 50)))
        return r
class Direct:
    """Isometric models given by their end-to-end density: A = -ln P_dim - (N-1) momenta, eta = -(ln P)'/N."""
    ens = 'length'
    def __init__(s, f, off=kin, Noff=lambda p: p.N - 1, vol=True): s.f, s.off, s.Noff, s.vol = f, off, Noff, vol
    def vals(s, p):
        lnP, d1, e0, e1 = s.f(p); o = s.off(p); L3 = 3*np.log(p.N*p.l) if s.vol else 0
        A = -lnP + L3 - s.Noff(p)*o; dA = e0 + 1e-12*(np.abs(lnP) + np.abs(L3) + np.abs(s.Noff(p)*o))
        eta = -d1/p.N; de = e1/p.N
        P = np.exp(lnP)/p.get('norm', 1.0)
        return dict(eta=(eta, de), gam=(p.x, zero(p)), A=(A, dA), G=(A - p.N*eta*p.x, dA + p.N*p.x*de), P=(P, P*np.expm1(np.minimum(e0 + 1e-12, 50))))
class Ideal(Direct):
    def vals(s, p):
        v = Direct.vals(s, p); A = p.N*(1.5*p.x**2 - kin(p)); v['A'] = v['G'] = (A, 1e-12*np.abs(p.N*kin(p)) + 1e-12*p.N*p.x**2); return v
def expect(mod, fn, p, cache, alt=False):
    """(value, tolerance) of a function; alt: where a model is defined by an integral which the library evaluates by a
    fixed rule, value is that rule's and alt the integral itself (None for other models)."""
    nd, rel, q, pl = split(fn)
    key = id(p)
    v = cache.get(key) or cache.setdefault(key, mod.vals(p))
    if alt:
        if 'alt' not in v: return None
        v = v['alt']
    if q in ('equilibrium_distribution', 'equilibrium_radial_distribution'):
        P, e = v['P']; f = np.ones(len(P)); L = p.N*p.l
        if 'radial' in q: f = 4*np.pi*p.x**2; f = f if nd else f/L
        elif not nd: f = 1/L**3
        return P*f, e*f + 1e-300
    if q == 'end_to_end_length': y, e = v['gam']; f = (1 if pl else p.N)*(1 if nd else p.l); return y*f, e*f
    if q == 'force': y, e = v['eta']; f = 1.0 if nd else KB*p.T/p.l; return y*f, e*f
    k = {'gibbs_free_energy': 'G', 'helmholtz_free_energy': 'A'}[q]
    y, e = v[k]
    if rel:
        z = cache.get((key, 'zero')) or cache.setdefault((key, 'zero'), mod.vals(p.at(x=ZERO)))
        y0, e0 = (z['alt'] if alt else z)[k]; y, e = y - y0, e + e0 + 3e-12*p.N      # the reference state may be taken at rest
    f = (1/p.N if pl else 1.0)*(1.0 if nd else KB*p.T)
    return y*f, e*f
# ---- the modules ----------------------------------------------------------------------------------------
def P_(name, p): c = R.POT[name]; return c(*[p[k] for k in c.pars])
def asym(name, c=True):
    def f(p):
        q = P_(name, p); g, y = R.iso_asym(q, p.x, (1.0 if name == 'efjc' else q.c) if c else None)
        if name != 'ufjc::lennard_jones': return g, y
        # the library finds the stretch by Newton's method to one part in a million of the force, from below: its last
        # step leaves u'''/(2 u'') (residual/u'')^2, which matters next to the force that breaks the link
        s = q.stretch(p.x); u2 = q.kap/6*(13*s**-14. - 7*s**-8.); u3 = q.kap/6*np.abs(-182*s**-15. + 56*s**-9.)
        d = 2*u3/np.maximum(u2, 1e-300)**3*(1e-6*p.x)**2; return g, y, 2*u2*d*d, 2*d
    return f
def stiff_noise(p):
    a, b = base_noise(p); return a + 2e-15*p.kap + 1e-15*p.x**2, b + 1e-13
def efjc_exact(p): return R.iso_efjc(p.x, p.kap)
def small_noise(p): a, b = stiff_noise(p); return a + 10*EPS/p.x, b + 60*EPS/p.x**2
def full(name):
    def f(p):
        q = P_(name, p); g, y = R.iso_ufjc_rule(q, p.x, 64); G, Y = R.iso_ufjc_rule(q, p.x, None)
        return g, y, 0*g, 0*g, G, Y
    return f
def sw(p): return R.iso_swfjc(p.x, p.w)
def sw_noise(p): d = p.w - 1; return 30*EPS/d + 1e-13 + 1e-12*p.x, 100*EPS/d*(1/p.x + p.w) + 1e-13
def etamax(name): return lambda p: P_(name, p).eta_max*np.ones(len(p.x))*(1 - 1e-12)
M = {}
M['ideal::thermodynamics::isotensional'] = Isotensional(lambda p: R.iso_ideal(p.x))
M['fjc::thermodynamics::isotensional'] = Isotensional(lambda p: R.iso_fjc(p.x))
M['fjc::thermodynamics::isotensional::legendre'] = M['fjc::thermodynamics::isotensional']
M['swfjc::thermodynamics::isotensional'] = Isotensional(sw, noise=sw_noise)
M['swfjc::thermodynamics::isotensional::legendre'] = M['swfjc::thermodynamics::isotensional']
M['swfjc::thermodynamics::isometric::legendre'] = Legendre(sw, noise=sw_noise, dist=lambda p: np.log((p.w**3 - 1)/3), etamax=lambda p: np.full(len(p.x), 300.))
off2 = lambda p: kin(p) + vib(p)
E_ = 'efjc::thermodynamics::isotensional'
for sub, f in (('', efjc_exact), ('::asymptotic', asym('efjc')), ('::asymptotic::reduced', asym('efjc', False)), ('::asymptotic::alternative', lambda p: R.iso_alternative(p.x, p.kap))):
    M[E_ + sub] = M[E_ + sub + '::legendre'] = Isotensional(f, off=off2, noise=stiff_noise if sub else small_noise)
    if sub: M['efjc::thermodynamics::isometric' + sub + '::legendre'] = Legendre(f, off=off2, noise=stiff_noise)
for k in ('morse', 'log_squared', 'lennard_jones'):
    n = 'ufjc::' + k; U = n + '::thermodynamics::isotensional'
    M[U] = M[U + '::legendre'] = Isotensional(full(n), noise=small_noise)
    for sub, f in (('::asymptotic', asym(n)), ('::asymptotic::reduced', asym(n, False))):
        M[U + sub] = M[U + sub + '::legendre'] = Isotensional(f, off=off2, noise=stiff_noise)
        M[n + '::thermodynamics::isometric' + sub + '::legendre'] = Legendre(f, off=off2, noise=stiff_noise, etamax=etamax(n))
M['ideal::thermodynamics::isometric'] = Ideal(lambda p: (1.5*np.log(1.5*p.N/np.pi) - 1.5*p.N*p.x**2, -3*p.N*p.x, zero(p), 1e-12*p.x*p.N))

def fjc_direct(p):
    t = R.fjc_table(p.N, p.x); e = 4*EPS*t[4]*(p.N + 10) + 1e-12
    r = 4*EPS*p.N/(1 - p.x)               # the extension itself, near the contour length
    return t[0], t[1], e + r, 3*e*(np.abs(t[1]) + 2/p.x + p.N) + (1e-11 + r)*np.abs(t[1])
M['fjc::thermodynamics::isometric'] = Direct(fjc_direct)
class FjcLeg:
    """force, Helmholtz energy and density from the Langevin function; Gibbs energy from the exact density."""
    ens = 'length'
    L = Legendre(lambda p: R.iso_fjc(p.x), dist=True, etamax=lambda p: np.full(len(p.x), 1e10)); D = Direct(fjc_direct)
    def vals(s, p):
        v = s.L.vals(p); i = (p.N <= 34) & (p.N >= 2); g = np.full((2, len(p.x)), np.nan)      # the exact density, as the library evaluates it, ends there
        if i.any(): g[:, i] = s.D.vals(Pt({k: a[i] for k, a in p.items()}))['G']
        v['G'] = (g[0], g[1]); return v
M['fjc::thermodynamics::isometric::legendre'] = FjcLeg()
class ModCan:
    ens = 'length'
    def vals(s, p):
        lnQ, dl = R.modcan(p.N, p.x, p.om, 'mid'); lnE, dE = R.modcan(p.N, p.x, p.om, 'exact')
        cond = np.array([R.modcan_nodes(int(n), 'mid')[3].max() for n in np.unique(p.N)])[np.searchsorted(np.unique(p.N), p.N)]
        K = p.N**2*p.om
        # exp(-K(d-g)^2/2) - exp(-K(d+g)^2/2) over K d g loses digits for small d
        e = EPS*2*cond*(p.N + 10) + EPS*20*(1 + 1/np.minimum(1, K*p.x)) + 1e-12
        de = (e*(1/p.x + K*(1 + p.x)) + 1e-11*np.abs(dl))/p.N; o = kin(p); dA = e + 1e-12*(np.abs(lnQ) + np.abs(o)*p.N)
        v = s.f(p, lnQ, dl, K, o, dA, de); v['alt'] = s.f(p, lnE, dE, K, o, dA, de); return v
    def f(s, p, lnQ, dl, K, o, dA, de):
        A = -lnQ - (p.N - 1)*o; eta = -dl/p.N; gam = p.x - eta/p.om/p.N
        return dict(eta=(eta, de), gam=(gam, de/p.om/p.N + 1e-12*p.x), A=(A, dA), G=(A - 0.5*K*p.x**2, dA + 1e-12*K*(1 + p.x**2)))
M['fjc::thermodynamics::modified_canonical'] = ModCan()
class Strong:
    ens = 'length'
    def vals(s, p):
        f, d1, d2, d3, c = R.fjc_table(p.N, p.x); K = p.N**2*p.om; e = 6*EPS*c*(p.N + 10) + 1e-11
        A = -f - (p.N - 1)*kin(p) - 1.5*np.log(2*np.pi/K) - (d2 + d1**2)/(2*K)
        eta = -d1/p.N - (d3 + 2*d1*d2)/(2*K*p.N)
        s2 = np.where(p.x > 2*ZERO, d2 + 2/p.x**2 + d1**2 + p.N**2, p.N**2); s3 = np.abs(d3) + 4/p.x**3 + np.abs(d1*d2) + 2/p.x*np.abs(d2) + 2*np.abs(d1)/p.x**2 + p.N**3
        return dict(A=(A, e*(1 + np.abs(f) + s2*10/K) + 1e-12*(np.abs(A) + np.abs(kin(p))*p.N)), eta=(eta, 3*e*(np.abs(d1) + 2/p.x + p.N + s3/K)/p.N))
M['fjc::thermodynamics::modified_canonical::asymptotic::strong_potential'] = Strong()
class Weak:
    ens = 'length'
    def vals(s, p):
        eta = p.N*p.om*p.x; g, y = R.iso_fjc(eta); k = 1e-12 + 1e-14/eta; w = p.N*p.om
        dl = np.where(eta < 0.03, 1/3 - eta**2/15 + 2*eta**4/189, 1/eta**2 - 1/np.sinh(np.minimum(eta, 350))**2)
        gam = y*(1 - w*dl); G = p.N*(g + 0.5*w*y**2 - kin(p))
        return dict(eta=(eta, 1e-11*eta), gam=(gam, k*(1 + w) + 1e-11*np.abs(y) + y*w*(1e-12 + 1e-14/eta**2)), G=(G, p.N*(1e-12*(1 + eta) + w*y*k + 1e-12*(w*y**2 + np.abs(kin(p))))))
M['fjc::thermodynamics::modified_canonical::asymptotic::weak_potential'] = Weak()
def wlc_off(p): return np.log(4*np.sin(np.arccos(np.exp(-1/p.kp)))*np.pi**2*p.m*p.l**2*KB*p.T/HP**2)
def wlc_direct(p):
    f, d = R.wlc_lnP(p.kp, p.x), R.wlc_dlnP(p.kp, p.x); e = 1e-11 + 0*p.x
    return f, d, e + 1e-12*np.abs(f), 1e-11*(np.abs(d) + 1)
M['wlc::thermodynamics::isometric'] = M['wlc::thermodynamics::isometric::legendre'] = Direct(wlc_direct, off=wlc_off, vol=False)
class WlcForce:
    """Gibbs energy and extension of a worm-like chain from its end-to-end density."""
    ens = 'force'
    def vals(s, p):
        r = []
        for n in (64, None):
            if n: dx = (1 - 1e-6)/n; x = 1e-6 + (np.arange(n) + 0.5)*dx; w = np.full(n, dx)
            else:
                gx, gw = R.gl(20); u = np.linspace(0, 1, 41); ed = 1 - (1 - u)**2*(1 - 0)   # finer towards full extension
                x = np.concatenate([(a + b)/2 + (b - a)/2*gx for a, b in zip(ed[:-1], ed[1:])]); w = np.concatenate([(b - a)/2*gw for a, b in zip(ed[:-1], ed[1:])])
            z = (p.N*p.x)[:, None]*x
            ku, ki = np.unique(p.kp, return_inverse=True); e = (R.wlc_lnP(ku[:, None], x) + np.log(4*np.pi*x*w))[ki.ravel()] + z; e = np.where(np.isnan(e), -np.inf, e); Mx = e.max(1, keepdims=True); wt = np.exp(e - Mx)
            sh = -np.expm1(-2*z)/2*p.N[:, None]/p.x[:, None]; ch = (1 + np.exp(-2*z))/2
            Q = (wt*sh).sum(1); num = (wt*(ch*p.N[:, None]*x*p.N[:, None]/p.x[:, None] - sh/p.x[:, None])).sum(1)
            r.append((np.log(Q) + Mx[:, 0], num/Q))
        (q, y), (Qx, Yx) = r; o = wlc_off(p); N = p.N; sp = p.x > 100; tail = 1e-11 + 0*p.x
        if sp.any():                  # forces above 100: Gibbs energy by the saddle point of the integral instead of the rule
            z = Pt({c: v[sp] for c, v in p.items()}); lo, hi = np.full(len(z.x), .1), np.full(len(z.x), 1 - 1e-13)
            for _ in range(60): m = .5*(lo + hi); b = -R.wlc_dlnP(z.kp, m)/z.N < z.x; lo, hi = np.where(b, m, lo), np.where(b, hi, m)
            g = .5*(lo + hi); h = 1e-5*(1 - g); d2 = -(R.wlc_dlnP(z.kp, g + h) - R.wlc_dlnP(z.kp, g - h))/(2*h)/z.N
            q = q.copy(); q[sp] = .5*np.log(8*np.pi**3/z.N/d2) + np.log(z.N*g/z.x) + z.N*z.x*g + R.wlc_lnP(z.kp, g); tail[sp] = 1e-5
        # sums and differences of exp(+z) and exp(-z) with exponents of the size of the chain's energy
        B = EPS*(10 + 2*np.abs(R.wlc_lnP(p.kp, 1e-6) - R.wlc_lnP(p.kp, .9))); k = 1e-11*y + 4*B*(1/p.x**2/N + N)
        def f(q, y): G = -q - N*o; e = tail + 1e-12*np.abs(G) + 4*(B + EPS*N*(np.abs(o) + 40))/(N*p.x); return dict(eta=(p.x, zero(p)), gam=(y/N, k/N), G=(G, e), A=(G + p.x*y, e + p.x*k))
        v = f(q, y); v['alt'] = f(Qx, Yx); return v
M['wlc::thermodynamics::isotensional'] = M['wlc::thermodynamics::isotensional::legendre'] = WlcForce()
