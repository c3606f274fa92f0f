"""The Monte Carlo samplers under scripted draws: every run is an execution whose random answers we choose."""
import ctypes as ct, itertools, math, numpy as np
from lib import *
MODELS = ['fjc', 'frc', 'efjc', 'efrc']
def P_(a): return a.ctypes.data_as(ct.c_void_p)
class MC:
    def __init__(s, P, model, links, theta=1.0, kappa=100.0, top=2.0): s.P, s.m, s.n, s.p = P, MODELS.index(model), links, np.array([theta, kappa, top]); s.cos = math.cos(theta)
    def run(s, U, what=0):
        """U: (scripts, draws); returns configurations (scripts, links, 3) or lengths, draws used, panics."""
        U = np.ascontiguousarray(U, float); n, k = U.shape; o = np.empty((n, s.n*3 if what == 0 else 1)); us = np.zeros(n, np.uint32); st = np.zeros(n, np.uint8)
        s.P.L.mc_run(ct.c_uint8(s.m), ct.c_size_t(s.n), ct.c_size_t(what) if False else ct.c_uint8(what), P_(s.p), P_(U), ct.c_size_t(k), ct.c_size_t(n), P_(o), P_(us), P_(st), ct.c_size_t(1)); s.P.evals += n
        return (o.reshape(n, s.n, 3) if what == 0 else o[:, 0]), us, st
    def hist(s, bins, u, samples):
        u = np.ascontiguousarray(u, float).ravel(); o = np.empty(2*bins); us = ct.c_uint32(); st = ct.c_uint8()
        s.P.L.mc_hist(ct.c_uint8(s.m), ct.c_size_t(s.n), ct.c_size_t(bins), P_(s.p), P_(u), ct.c_size_t(len(u)), ct.c_size_t(samples), P_(o), ct.byref(us), ct.byref(st)); s.P.evals += 1
        return o[:bins], o[bins:], us.value, st.value
    def draws(s): return int(s.run(np.full((1, 64*s.n), .37))[1][0])
    def owners(s, k):
        """For every draw the first link it moves (-1: none)."""
        base = weyl(1, k)[0]; U = np.repeat(base[None], k + 1, 0); U[np.arange(k), np.arange(k)] = (base + .3713) % 1
        v = links(s.run(U)[0]); d = np.abs(v[:k] - v[k]).max(2) > 1e-9
        return np.where(d.any(1), d.argmax(1), -1)
def links(c): return np.diff(np.concatenate([np.zeros_like(c[:, :1]), c], 1), axis=1)
PRIMES = np.array([x for x in range(2, 30000) if all(x % y for y in range(2, int(x**.5) + 1))], float)
def weyl(n, k, seed=0):
    """n structured scripts of k draws: Kronecker sequences, away from the ends."""
    i = np.arange(1 + seed, n + 1 + seed)[:, None]; assert k <= len(PRIMES); a = np.sqrt(PRIMES[:k]) % 1
    return .001 + .998*((i*a) % 1)
def lattice(m, d): g = (np.arange(m) + .5)/m; return np.array(list(itertools.product(g, repeat=d))).reshape(-1, d)
