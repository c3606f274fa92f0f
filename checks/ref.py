"""Reference model: what each chain model means, written from the physics (partition functions, link
potentials, published distributions), not from the code.  Everything nondimensional and per link; vectorised.
eta: nondimensional force, gam: nondimensional end-to-end length per link, kap: nondimensional link stiffness,
eps: nondimensional link energy, w: 1 + well width / link length, kp: persistence length / contour length."""
import numpy as np, math
from fractions import Fraction
from functools import lru_cache
from scipy import special
A = np.asarray
KB, HP = 8.314462618, 0.06350779923502961
def kinetic(m, l, T): return np.log(8*np.pi**2*A(m)*A(l)**2*KB*A(T)/HP**2)
def lnsinhc(x):
    x = np.abs(A(x, )).astype(float)
    big = x + np.log1p(-np.exp(-2*np.maximum(x, 1e-300))) - np.log(2*np.maximum(x, 1e-300))
    return np.where(x < 1e-2, x*x/6 - x**4/180 + x**6/2835, big)
def langevin(x):
    x = A(x).astype(float); y = np.where(np.abs(x) < 1e-2, 1.0, x)
    return np.where(np.abs(x) < 1e-2, x/3 - x**3/45 + 2*x**5/945 - x**7/4725, 1/np.tanh(y) - 1/y)
def dlangevin(x): x = A(x); return np.where(x < .05, 1/3 - x**2/15 + 2*x**4/189, 1/np.maximum(x, .05)**2 - 1/np.sinh(np.clip(x, .05, 350))**2)
def coth(x): return 1/np.tanh(x)
def xcoth(x):
    x = A(x).astype(float); y = np.where(np.abs(x) < 1e-2, 1.0, x)
    return np.where(np.abs(x) < 1e-2, 1 + x*x/3 - x**4/45, y/np.tanh(y))
def dxcoth(x):
    """d(x coth x)/dx = coth x - x/sinh^2 x"""
    x = A(x).astype(float); y = np.clip(np.where(np.abs(x) < 1e-2, 1.0, x), -350, 350)
    return np.where(np.abs(x) < 1e-2, 2*x/3 - 4*x**3/45, 1/np.tanh(y) - y/np.sinh(y)**2)

# ---- link potentials beta*u(s), and their stretch under force ------------------------------------------
class Harmonic:
    pars = ('kap',)
    def __init__(s, kap): s.kap = A(kap).astype(float)
    def u(s, x): return 0.5*s.kap*(x - 1)**2
    def stretch(s, eta): return 1 + eta/s.kap
    def u_excess(s, eta): x = s.stretch(eta); return s.u(x)
    eta_max = np.inf
class Morse:
    pars = ('kap', 'eps')
    def __init__(s, kap, eps): s.kap, s.eps = A(kap).astype(float), A(eps).astype(float); s.a = np.sqrt(s.kap/2/s.eps)
    def u(s, x): return s.eps*(1 - np.exp(-s.a*(x - 1)))**2
    @property
    def eta_max(s): return 0.5*s.a*s.eps
    @property
    def smax(s): return 1 + math.log(2)/s.a if np.ndim(s.a) == 0 else 1 + np.log(2)/s.a
    def stretch(s, eta):
        # 2 a eps (1 - z) z = eta, larger root for z = exp(-a(x-1))
        z = 0.5*(1 + np.sqrt(1 - eta/s.eta_max)); return 1 - np.log(z)/s.a
    @property
    def c(s): return 1/(1 + 1.5*s.a)
class LogSquared:
    pars = ('kap',); c = 0.4
    def __init__(s, kap): s.kap = A(kap).astype(float)
    def u(s, x): return 0.5*s.kap*np.log(x)**2
    @property
    def eta_max(s): return s.kap/math.e
    smax = math.e
    def stretch(s, eta):
        # kap ln(x)/x = eta on 1 <= x <= e
        return np.exp(-special.lambertw(-A(eta)/s.kap).real)
class LennardJones:
    pars = ('kap',); c = 2/23
    def __init__(s, kap): s.kap = A(kap).astype(float)
    def u(s, x): return s.kap/72*(x**-12.0 - 2*x**-6.0)
    smax = (13/7)**(1/6)
    @property
    def eta_max(s): return s.kap/6*(s.smax**-7 - s.smax**-13)
    def stretch(s, eta):
        # kap/6 (x^-7 - x^-13) = eta on 1 <= x <= smax; y = x^-6: kap/6 y^(7/6) (1 - y) = eta, monotone Newton from y = 1
        r = 6*A(eta)/s.kap; y = np.ones(np.shape(r))
        for _ in range(30):
            f = y**(7/6)*(1 - y) - r; d = 7/6*y**(1/6) - 13/6*y**(7/6)
            y = np.clip(y - f/d, 7/13, 1)
        return y**(-1/6)
POT = {'efjc': Harmonic, 'ufjc::morse': Morse, 'ufjc::log_squared': LogSquared, 'ufjc::lennard_jones': LennardJones}

# ---- isotensional single-link partition functions -------------------------------------------------------
# each gives (g, gamma): g = nondimensional Gibbs energy per link without the momentum and (for asymptotics)
# without the vibrational 0.5 ln(2 pi l^2/kap) terms; gamma = -dg/deta.
def iso_ideal(eta): return -A(eta)**2/6, A(eta)/3
def iso_fjc(eta): return -lnsinhc(eta), langevin(eta)
@lru_cache(None)
def gl(n):
    x, w = np.polynomial.legendre.leggauss(n); return x, w
def quad(f, a, b, n=64, panels=1):
    """Composite Gauss-Legendre along a new last axis."""
    a, b = A(a, dtype=float), A(b, dtype=float); x, w = gl(n); tot = 0.0
    for k in range(panels):
        p, q = a + (b - a)*k/panels, a + (b - a)*(k + 1)/panels
        tot = tot + (f(0.5*(p + q)[..., None] + 0.5*(q - p)[..., None]*x)*w).sum(-1)*0.5*(q - p)
    return tot
def iso_efjc(eta, kap):
    """z = int_0^inf s sinh(eta s)/eta exp(-kap (s-1)^2/2) ds / sqrt(2 pi/kap), peak near s = 1 + eta/kap."""
    eta, kap = np.broadcast_arrays(A(eta, dtype=float), A(kap, dtype=float))
    c = 1 + eta/kap; h = 14/np.sqrt(kap); lo, hi = np.maximum(0, 1 - eta/kap - h), c + h
    lo = np.where(eta > 40, np.maximum(0, c - h), lo)
    K, E, C = kap[..., None], eta[..., None], c[..., None]
    def both(s):
        lg = -0.5*K*(s - C)**2            # log weight, peak factored out: eta s - kap(s-1)^2/2 = const - kap(s-c)^2/2
        sh = -np.expm1(-2*E*s)/2
        ch = (1 + np.exp(-2*E*s))/2
        return lg, sh, ch
    def den(s): lg, sh, ch = both(s); return s*sh/E*np.exp(lg)
    def num(s): lg, sh, ch = both(s); return (s*s*ch/E - s*sh/E**2)*np.exp(lg)
    d, n = quad(den, lo, hi, 64, 6), quad(num, lo, hi, 64, 6)
    peak = eta + 0.5*eta**2/kap
    return -(np.log(d) + peak - 0.5*np.log(2*np.pi/kap)), n/d
def iso_swfjc(eta, w):
    """z = int_1^w s sinh(eta s)/eta ds"""
    eta, w = np.broadcast_arrays(A(eta, dtype=float), A(w, dtype=float)); E, W = eta[..., None], w[..., None]
    # factor exp(eta w)
    def den(s): return s*np.exp(E*(s - W))*(-np.expm1(-2*E*s))/2/E
    def num(s): return (s*s*np.exp(E*(s - W))*(1 + np.exp(-2*E*s))/2)/E - s*np.exp(E*(s - W))*(-np.expm1(-2*E*s))/2/E**2
    # the integrand lives within ~40/eta of w
    lo = np.maximum(1.0, w - 45/np.maximum(eta, 1e-9))
    d, n = quad(den, lo, w, 64, 3), quad(num, lo, w, 64, 3)
    small = eta*w < 0.05
    q = lambda p: (w**p - 1)/p
    # small forces: series of sinh(x)/x and of its derivative
    d0 = q(3) + eta**2/6*q(5) + eta**4/120*q(7) + eta**6/5040*q(9) + eta**8/362880*q(11); n0 = eta/3*q(5) + eta**3/30*q(7) + eta**5/840*q(9) + eta**7/45360*q(11)
    return -np.where(small, np.log(d0), np.log(d) + eta*w), np.where(small, n0/d0, n/d)
def iso_ufjc_rule(pot, eta, n=64):
    """int_0^smax 2 s sinh(eta s)/eta exp(-u) ds by the n-point midpoint rule on [1e-6, smax], or (n=None) to
    working precision."""
    eta = A(eta, dtype=float)
    smax = A(pot.smax, dtype=float) + 0*eta
    ctx = {k: v for k, v in pot.__dict__.items()}
    P = type(pot)(*[A(getattr(pot, p))[..., None] if np.ndim(getattr(pot, p)) else getattr(pot, p) for p in pot.pars])
    E = eta[..., None]
    def parts(s):
        u = P.u(s); ex = E*s - u
        return ex, s
    if n is not None:
        dx = (smax - 1e-6)/n; s = 1e-6 + (np.arange(n) + 0.5)*dx[..., None]; wts = dx[..., None]
    else:
        # composite panels clustered where exp(eta s - u) peaks
        x, ww = gl(48); m = 60
        edges = np.linspace(0, 1, m + 1)
        s = []; wts = []
        for k in range(m):
            a, b = edges[k], edges[k + 1]
            s.append(1e-6 + (smax[..., None] - 1e-6)*(0.5*(a + b) + 0.5*(b - a)*x)); wts.append((smax[..., None] - 1e-6)*0.5*(b - a)*ww)
        s, wts = np.concatenate(s, -1), np.concatenate(wts, -1)
    ex, s = parts(s)
    M = ex.max(-1, keepdims=True)
    e1 = np.exp(ex - M); r = np.exp(-2*E*s)
    d = (s*e1*(-np.expm1(-2*E*s))/E*wts).sum(-1)
    num = ((s*s*e1*(1 + r) - s*e1*(-np.expm1(-2*E*s))/E)/E*wts).sum(-1)
    return -(np.log(d) + M[..., 0]), num/d
def iso_asym(pot, eta, c=None):
    """Asymptotic: FJC + relaxed link energy (reduced), and with c the leading coupling correction."""
    eta = A(eta, dtype=float)
    lam = pot.stretch(eta)
    g = -lnsinhc(eta) + pot.u(lam) - eta*(lam - 1); gam = langevin(eta) + lam - 1
    if c is not None:
        ck = c*pot.kap
        g = g - np.log1p(xcoth(eta)/ck); gam = gam + dxcoth(eta)/(ck + xcoth(eta))
    return g, gam
def iso_alternative(eta, kap):
    return -lnsinhc(eta) - 0.5*eta**2/kap - xcoth(eta)/kap, langevin(eta) + eta/kap + dxcoth(eta)/kap

# ---- FJC isometric: Rayleigh/Treloar density, exact rational arithmetic ---------------------------------
@lru_cache(None)
def fjc_exact(N, num, den):
    """(ln P, d, d2, d3 of ln P by gam, condition number of the alternating sum) for the end-to-end vector
    density P per contour volume at gam = num/den, in exact rational arithmetic."""
    # integers: with D = 2 N den, every bracket is an integer over D
    D = 2*N*den; p = N - 2; S = [0]*4; cond = 0
    for s in range(N + 1):
        b = N*(den - num) - 2*den*s
        if b <= 0: break
        c = (-1)**s*math.comb(N, s)
        pw = b**max(p - 3, 0)
        for k in range(min(p, 3), -1, -1):
            S[k] += c*pw; 
            if k == 0: cond += abs(c)*pw
            pw *= b
    g = Fraction(num, den)
    T = [Fraction(S[k], D**(p - k)) if p >= k else Fraction(0) for k in range(4)]
    f = Fraction(N**N, math.factorial(p))*T[0]/8/g
    r1, r2, r3 = [x/T[0] for x in T[1:]]
    a1 = -Fraction(p, 2)*r1; a2 = Fraction(p*(p - 1), 4)*r2; a3 = -Fraction(p*(p - 1)*(p - 2), 8)*r3
    d1 = a1 - 1/g; d2 = a2 - a1*a1 + 1/g**2; d3 = a3 - 3*a2*a1 + 2*a1**3 - 2/g**3
    def lf(x): return math.log(x.numerator) - math.log(x.denominator)
    return lf(f) - math.log(math.pi), float(d1), float(d2), float(d3), float(Fraction(cond, S[0]))
def fjc_table(N, x):
    """Vector version over (N, x) with x rounded to its exact binary value."""
    out = np.empty((len(x), 5)); memo = {}
    for i, (n, g) in enumerate(zip(N, x)):
        k = (int(n), float(g))
        if k not in memo:
            fr = Fraction(k[1]) if k[1] != 1e-6 else Fraction(1, 10**6)
            memo[k] = fjc_exact(k[0], fr.numerator, fr.denominator)
        out[i] = memo[k]
    return out.T
@lru_cache(None)
def modcan_nodes(N, rule):
    """Nodes, weights and ln P of the FJC radial integral: the 64-point midpoint rule, or composite Gauss."""
    if rule == 'mid':
        dx = (1 - 1e-6)/64; x = 1e-6 + (np.arange(64) + 0.5)*dx; w = np.full(64, dx)
    else:
        gx, gw = gl(24); e = np.linspace(0, 1, 2*N + 1) if N > 4 else np.linspace(0, 1, 4*N + 1)   # the density is piecewise polynomial with knots at multiples of 2/N
        x = np.concatenate([(a + b)/2 + (b - a)/2*gx for a, b in zip(e[:-1], e[1:])]); w = np.concatenate([(b - a)/2*gw for a, b in zip(e[:-1], e[1:])])
    t = fjc_table(np.full(len(x), N), x)
    return x, w, t[0], t[4]
def modcan(N, d, om, rule='mid'):
    """(ln Q, dlnQ/dd) of an FJC whose end is held by a harmonic potential centred a distance d away:
    Q = int 4 pi g^2 P(g) exp(-K(d^2+g^2)/2) sinh(K d g)/(K d g) dg, K = N^2 om."""
    lnQ, dl = np.empty(len(d)), np.empty(len(d))
    for n in np.unique(N):
        x, w, lnP, _ = modcan_nodes(int(n), rule); i = N == n
        D, K = d[i][:, None], (n*n*om[i])[:, None]; z = K*D*x
        e = np.log(4*np.pi*x*x*w) + lnP - 0.5*K*(D - x)**2
        sh = np.where(z < 1e-4, 1 - z + 2/3*z*z, -np.expm1(-2*z)/2/np.maximum(z, 1e-300))   # sinh(z)/z e^-z
        M = e.max(1, keepdims=True); wt = np.exp(e - M)
        Q = (wt*sh).sum(1)
        cz = np.where(z < 1e-2, z/3 - z**3/45, 1/np.tanh(np.maximum(z, 1e-3)) - 1/np.maximum(z, 1e-3))  # d ln(sinh z/z)/dz
        lnQ[i] = np.log(Q) + M[:, 0]; dl[i] = (wt*sh*(-K*D + cz*K*x)).sum(1)/Q
    return lnQ, dl
# ---- WLC isometric: Becker, Rosa, Everaers (2010) -------------------------------------------------------
def wlc_lnP(kp, gam):
    kp, g = np.broadcast_arrays(A(kp, dtype=float), A(gam, dtype=float)); g2 = g*g
    a, b = 14.054, 0.473
    c0 = 1 - (1 + (0.38*kp**-0.95)**-5)**(-1/5)
    big = kp >= 0.125; k = np.where(big, kp, 1.0)
    d = np.where(big, 1 - 1/(0.177/(k - 0.111) + 6.40*(k - 0.111)**0.783), 1.0)
    lnJ = np.where(big, np.log(112.04*k**2) + 0.246/k - a*k, 1.5*np.log(0.75/np.pi/kp) + np.log(np.where(big, 1.0, 1 - 1.25*kp)))
    poly = (-0.75*g2 + 23/64*g2**2 - 7/64*g2**3)/kp + (-0.5*g2 + 17/16*g2**2 - 9/16*g2**3)
    x = d*kp*a*(1 + b)*g/(1 - b*b*g2)
    return lnJ + 2.5*np.log((1 - c0*g2)/(1 - g2)) + poly/(1 - g2) - b*x*g + np.log(special.ive(0, x)) + x
def wlc_dlnP(kp, gam):
    kp, g = np.broadcast_arrays(A(kp, dtype=float), A(gam, dtype=float)); g2 = g*g
    a, b = 14.054, 0.473
    c0 = 1 - (1 + (0.38*kp**-0.95)**-5)**(-1/5)
    k = np.where(kp >= 0.125, kp, 1.0)
    d = np.where(kp >= 0.125, 1 - 1/(0.177/(k - 0.111) + 6.40*(k - 0.111)**0.783), 1.0)
    poly = (-0.75*g2 + 23/64*g2**2 - 7/64*g2**3)/kp + (-0.5*g2 + 17/16*g2**2 - 9/16*g2**3)
    dpoly = 2*g*((-0.75 + 2*23/64*g2 - 3*7/64*g2**2)/kp + (-0.5 + 2*17/16*g2 - 3*9/16*g2**2))
    X = d*kp*a*(1 + b); den = 1 - b*b*g2; x = X*g/den; dx = X*(1 + b*b*g2)/den**2
    return 2.5*(-2*c0*g/(1 - c0*g2) + 2*g/(1 - g2)) + dpoly/(1 - g2) + poly*2*g/(1 - g2)**2 - b*(x + g*dx) + special.ive(1, x)/special.ive(0, x)*dx
