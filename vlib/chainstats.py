"""Convergence statistics from their definitions: Ford (2006) eqs. 21-26, Sokal's windowed autocorrelation time."""
import math
import numpy as np


def ref_gr(ens):
    """ens: list over ensembles of list of samples of one parameter.  (GR, Tz) of Ford (2006), eqs. 21-26"""
    L, C = len(ens[0]), len(ens)
    mu = [math.fsum(x) / L for x in ens]
    W = math.fsum(math.fsum((v - m) ** 2 for v in x) / (L - 1.0) for x, m in zip(ens, mu)) / C
    if C == 1:
        v = (L - 1.0) / L * W
        return (math.sqrt(v / W) if W > 0 else math.nan), None
    g = math.fsum(mu) / C
    bm = math.fsum((m - g) ** 2 for m in mu) / (C - 1.0)
    v = (L - 1.0) / L * W + bm
    gr = math.sqrt(v / W) if W > 0 else (math.inf if v > 0 else math.nan)
    r = v / (L * bm) if bm > 0 else (math.inf if v > 0 else math.nan)
    return gr, C * L * (min(r, 1.0) if r == r else math.nan)


def ref_tau(x, c):
    """x: (steps, walkers) of one parameter; integrated autocorrelation time with Sokal's window"""
    n = x.shape[0]
    f = np.zeros(n)
    for k in range(x.shape[1]):
        y = x[:, k] - np.mean(x[:, k])
        a = np.array([np.dot(y[:n - j], y[j:]) for j in range(n)])
        if a[0] == 0:
            return math.nan
        f += a / a[0]
    taus = 2.0 * np.cumsum(f / x.shape[1]) - 1.0
    m = np.arange(n) < c * taus
    w = int(np.argmin(m)) if m.any() else n - 1
    return taus[w]


def ref(chains):
    npar = chains[0].shape[0]
    gr, tz, taus = [], [], []
    for p in range(npar):
        g, t = ref_gr([[float(v) for v in c[p].ravel()] for c in chains])
        gr.append(g)
        tz.append(t)
        x = np.concatenate([c[p].T for c in chains], axis=0)
        taus.append([ref_tau(x, 5.0), ref_tau(x, 5.0 * (1 + 1e-9)), ref_tau(x, 5.0 * (1 - 1e-9))])
    return gr, tz, taus, sum(c.shape[2] for c in chains)
