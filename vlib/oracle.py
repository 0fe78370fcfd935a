"""Independent reference formulas (no code shared with the code under test)."""
import math
import numpy as np

TWOPI = 2 * math.pi


def ecc_anomaly(M, e):
    """Exact eccentric anomaly for mean anomaly in [0, 2pi): bisection on the monotone Kepler function."""
    M = np.asarray(M, dtype=float)
    Mw = M - TWOPI * np.floor(M / TWOPI)
    lo = np.zeros_like(Mw)
    hi = np.full_like(Mw, TWOPI)
    for _ in range(16):
        mid = 0.5 * (lo + hi)
        s = mid - e * np.sin(mid) > Mw
        hi = np.where(s, mid, hi)
        lo = np.where(s, lo, mid)
    E = 0.5 * (lo + hi)
    for _ in range(6):       # Newton inside the bracket (width 1e-4): converges quadratically for e < 0.999
        E = np.clip(E - (E - e * np.sin(E) - Mw) / (1 - e * np.cos(E)), lo, hi)
    return E


def phase(t, tp, per):
    x = (np.asarray(t, dtype=float) - tp) / per
    return x - np.floor(x)


def rv(t, per, tp, e, w, k):
    E = ecc_anomaly(TWOPI * phase(t, tp, per), e)
    cE, sE = np.cos(E), np.sin(E)
    cn = (cE - e) / (1 - e * cE)
    sn = math.sqrt(1 - e * e) * sE / (1 - e * cE)
    return k * (cn * math.cos(w) - sn * math.sin(w) + e * math.cos(w))


def rv_tol(t, per, tp, e, k):
    F = math.sqrt(1 + e) / (1 - e) ** 1.5
    dM = TWOPI * (np.abs((np.asarray(t, dtype=float) - tp) / per) * 1e-15 + 1e-15)
    return abs(k) * (F * (4e-12 + 4 * dM) * (1 + e) + 1e-11) + 1e-13


def tp_of_tc(tc, per, e, w):
    """periastron passage for a conjunction (nu + w = pi/2) time; branch |tc - tp| < per/2 (E in (-pi, pi))"""
    f = math.pi / 2 - w
    f = (f + math.pi) % TWOPI - math.pi
    E = math.atan2(math.sqrt(1 - e * e) * math.sin(f), e + math.cos(f))
    return tc - per / TWOPI * (E - e * math.sin(E))


def tc_of_tp(tp, per, e, w):
    return tp + (0 - tp_of_tc(0.0, per, e, w))


BASES = ['per tp e w k', 'per tc secosw sesinw logk', 'per tc secosw sesinw k', 'per tc ecosw esinw k',
         'per tc e w k', 'logper tc secosw sesinw logk', 'logper tc secosw sesinw k', 'per tc se w k',
         'logper tp e w logk']


def from_synth(basis, per, tp, e, w, k):
    """Values of one planet's parameters in `basis` (the names of that basis, in order)."""
    tc = tc_of_tp(tp, per, e, w)
    se = math.sqrt(e)
    all_ = dict(per=per, logper=math.log(per), tp=tp, tc=tc, e=e, w=w, k=k, logk=math.log(k) if k > 0 else float('nan'),
                se=se, secosw=se * math.cos(w), sesinw=se * math.sin(w), ecosw=e * math.cos(w), esinw=e * math.sin(w))
    return {n: all_[n] for n in basis.split()}


def gauss_loglike(r, var):
    r, var = np.asarray(r, float), np.asarray(var, float)
    return float(np.sum(-0.5 * r ** 2 / var - 0.5 * np.log(TWOPI * var)))


def mvn_loglike(r, K):
    r = np.asarray(r, float)
    s, d = np.linalg.slogdet(K)
    return float(-0.5 * (r @ np.linalg.solve(K, r) + d + len(r) * math.log(TWOPI)))


def to_synth(basis, v):
    """(per, tp, e, w, k) of one planet from its values in `basis` (dict without planet number)."""
    n = set(basis.split())
    per = v['per'] if 'per' in n else math.exp(v['logper'])
    k = v['k'] if 'k' in n else math.exp(v['logk'])
    if 'secosw' in n:
        e, w = v['secosw'] ** 2 + v['sesinw'] ** 2, math.atan2(v['sesinw'], v['secosw'])
    elif 'ecosw' in n:
        e, w = math.hypot(v['ecosw'], v['esinw']), math.atan2(v['esinw'], v['ecosw'])
    elif 'se' in n:
        e, w = v['se'] ** 2, v['w']
    else:
        e, w = v['e'], v['w']
    tp = v['tp'] if 'tp' in n else tp_of_tc(v['tc'], per, e, w)
    return per, tp, e, w, k


ANGLES = ('w',)
TIMES = ('tc', 'tp')


def same_value(name, a, b, per, e=1.0, rtol=1e-8):
    """Agreement of one orbital parameter: angles modulo a turn, times modulo the period."""
    if name in ANGLES:
        d = (a - b + math.pi) % TWOPI - math.pi
        return abs(d) < 1e-7
    if name in TIMES:
        d = (a - b + per / 2) % per - per / 2
        return abs(d) < 1e-7 * max(1.0, per)
    return abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-9
