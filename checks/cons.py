"""Reference for the constitutive models: network averages of single-chain forces over the models' own 256 by 256 grids,
with single-chain forces and energies of the reference model."""
import ctypes as ct, numpy as np
import ref as R, spec as X
from lib import *
NG = 256
KEY = 'efjc::thermodynamics::isometric::asymptotic::reduced::legendre'
_tab = {}
def chain(kap, top):
    """Tables over extension of the force and of the energy per link, relative to extension 1e-6, and their evaluation."""
    k = (kap, round(np.log2(top)*2)/2 + .5); t = _tab.get(k)
    if t is None:
        g = np.concatenate([[1e-6], np.geomspace(1e-5, .05, 400), np.linspace(.05, 2.0**k[1] + .1, 6000)[1:]])
        p = X.Pt(x=g, kap=np.full(len(g), kap), N=np.ones(len(g)), l=np.ones(len(g)), m=np.ones(len(g)), T=np.full(len(g), 300.), norm=np.ones(len(g)))
        lo, hi = np.full(len(g), 1e-14), kap*g + 10 + 3*g/np.maximum(1e-3, 1 - np.minimum(g, .9))
        for _ in range(90):
            m = np.where(hi > 4*lo, np.sqrt(lo*hi), .5*(lo + hi)); b = R.langevin(m) + m/kap < g; lo, hi = np.where(b, m, lo), np.where(b, hi, m)
        eta = .5*(lo + hi); a = -R.lnsinhc(eta) - .5*eta**2/kap + eta*g
        t = _tab[k] = (g, eta, a - a[0], 1/(R.dlangevin(eta) + 1/kap))
    return t
def hermite(x, f, d, y):
    i = np.clip(np.searchsorted(x, y) - 1, 0, len(x) - 2); h = x[i + 1] - x[i]; s = (y - x[i])/h
    return f[i]*(1 + 2*s)*(1 - s)**2 + f[i + 1]*s*s*(3 - 2*s) + h*(d[i]*s*(1 - s)**2 + d[i + 1]*s*s*(s - 1))
def force(kap, g): x, e, a, d = chain(kap, g.max()); return hermite(x, e, d, g)
def energy(kap, g): x, e, a, d = chain(kap, g.max()); return np.where(g > 1e-6, hermite(x, a, e, g), 0*g)
class Hyper:
    def __init__(s, method, kap, n):
        s.m, s.k, s.n = method, kap, n; w = np.arange(1, NG + 1)/(NG + 1.0); s.g = g = np.arctanh(w); dw = 1/(NG + 1.0); z, q = g[:, None], g[None, :]; c = np.sqrt(z*z + q*q)
        s.e = force(kap, c)*(2*z*z - q*q)*2*np.pi*n*q/c/(1 - w[:, None]**2)/(1 - w[None, :]**2)*dw**2; s.f = 1.5*n*kap*(kap + 1)/(kap**2 + 6*kap + 3)
        s.norm = (g*g/(1 - w*w)*s.boltz(g)).sum()*4*np.pi*dw
    def boltz(s, g): return np.exp(-s.n*energy(s.k, g)) if s.m == 2 else np.exp(-s.f*g*g)
    def stress(s, lz, lr):
        """Stress at axial and radial stretches, and the sum of the magnitudes of the terms."""
        b = s.boltz(np.sqrt((s.g[:, None]/lz)**2 + (s.g[None, :]/lr)**2)); t = s.e*b/s.norm
        return t.sum(), np.abs(t).sum()
class Damage:
    def __init__(s, method, crit, kap, n, j):
        s.m, s.c, s.k, s.n, s.j = method, crit, kap, n, j; s.g = g = crit*np.arange(1, NG + 1)/NG; s.d = d = crit/NG; z, q = g[:, None], g[None, :]; c = np.sqrt(z*z + q*q)
        s.e = force(kap, c)*(2*z*z - q*q)*2*np.pi*n*q/c*d*d/j**3; s.f = 1.5*n*kap*(kap + 1)/(kap**2 + 6*kap + 3)
        s.norm = (g*g*s.boltz(g)).sum()*4*np.pi*d/j
    boltz = Hyper.boltz
    def step(s, l, mx):
        """(stress, total probability), each with the sum of magnitudes and the weight of chains exactly at the limit."""
        z, q = s.g[:, None], s.g[None, :]; b = s.boltz(np.sqrt((z/l)**2 + l*q*q)/s.j**(1/3)); far = np.sqrt((z*mx/l)**2 + l/mx*q*q)
        alive, tie = far <= s.c, np.abs(far - s.c) < 1e-12*s.c; out = []
        for t in (s.e*b/s.norm, q*b/s.norm*4*np.pi*(s.d/s.j)**2 + 0*z):
            out.append((np.where(alive, t, 0).sum(), np.where(alive, np.abs(t), 0).sum(), np.where(tie, np.abs(t), 0).sum()))
        return out
P_ = lambda a: a.ctypes.data_as(ct.c_void_p)
class HyperImpl:
    def __init__(s, P, method, kap, n): s.P = P; h = P.L.hyper_new(ct.c_uint8(method), ct.c_double(kap), ct.c_uint8(n)); s.h = ct.c_void_p(h) if h else None
    def stress(s, which, lam, threads=1):
        lam = np.ascontiguousarray(lam, float); o = np.empty(len(lam)); st = np.empty(len(lam), np.uint8); s.P.evals += len(lam)
        s.P.L.hyper_stress(s.h, ct.c_uint8(which), P_(lam), ct.c_size_t(len(lam)), P_(o), P_(st), ct.c_size_t(threads)); return np.where(st == 0, o, np.nan)
    def fields(s): o = np.empty(2); s.P.L.hyper_fields(s.h, P_(o)); return o
    def __del__(s):
        if s.h: s.P.L.hyper_free(s.h)
class DamageImpl:
    def __init__(s, P, method, crit, kap, n, j): s.P = P; h = P.L.damage_new(ct.c_uint8(method), ct.c_double(crit), ct.c_double(kap), ct.c_uint8(n), ct.c_double(j)); s.h = ct.c_void_p(h) if h else None
    def run(s, H, threads=1):
        H = np.ascontiguousarray(H, float); n, l = H.shape; o = np.empty((n, l, 2)); st = np.empty(n, np.uint8); s.P.evals += n*l
        s.P.L.damage_histories(s.h, P_(H), ct.c_size_t(l), ct.c_size_t(n), P_(o), P_(st), ct.c_size_t(threads)); return o, st
    def fields(s): o = np.empty(4); s.P.L.damage_fields(s.h, P_(o)); return o
    def __del__(s):
        if s.h: s.P.L.damage_free(s.h)
