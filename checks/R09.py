import itertools
import math
from vlib.core import *
from vlib import oracle as O
from vlib import models as M

INF = math.inf


def suites():
    import numpy as np
    from scipy.special import ndtr, ndtri
    import radvel
    from radvel import Parameter, Parameters, Vector
    from radvel import prior as R
    T0 = 0.0

    def orbit(n):
        return [(12.3, 4.0, 0.31, 0.9, 21.0), (3.7, 1.1, 0.2, 3.9, 5.5), (40.0, 10.0, 0.05, 5.5, 0.4), (1.7, 0.3, 0.4, 2.2, 2.5), (310.0, 77.0, 0.1, 4.1, 3.3), (95.0, 20.0, 0.0, 0.4, 0.9),
                (0.9, 0.1, 0.02, 1.0, 1.5), (500.0, 40.0, 0.3, 3.0, 4.5), (800.0, 40.0, 0.2, 3.3, 6.5), (1500.0, 140.0, 0.15, 2.3, 7.5)][n - 1]

    def world(basis, orbits, extra=True):
        P = Parameters(len(orbits), basis=basis)
        for n, o in enumerate(orbits, 1):
            for k, v in O.from_synth(basis, *o).items():
                P[k + str(n)] = Parameter(value=v)
        if extra:
            for k, v in (('dvdt', 0.3), ('gamma_j', 1.2), ('jit_j', 2.2), ('gp_amp', 3.0)):
                P[k] = Parameter(value=v)
        return P, Vector(P)

    def setv(P, V, name, value, how):
        if how == 'vector':
            V.vector[V.indices[name]][0] = value
        else:
            P[name].value = value
            V.dict_to_vector()

    def snapshot(P, V):
        return {k: (p.value, p.vary) for k, p in P.items()}, V.vector.copy(), P.basis.name, dict(V.indices)

    def same(a, b):
        return a[0] == b[0] and np.array_equal(a[1], b[1], equal_nan=True) and a[2] == b[2] and a[3] == b[3]

    # one-parameter priors: (constructor arguments, density, cdf, support)
    ONE = []
    for mu in (-3.0, 0.0, 9.9):
        for sg in (0.05, 1.0, 30.0):
            ONE.append(['Gaussian', [mu, sg]])
    for lo, hi in ((-4.0, 9.0), (0.0, 0.5), (1e-3, 1e4), (-7.0, -2.0)):
        ONE.append(['HardBounds', [lo, hi]])
    for lo, hi in ((0.1, 100.0), (2.0, 3.0), (1e-6, 1e3)):
        ONE.append(['Jeffreys', [lo, hi]])
    for lo, hi, kn in ((0.0, 100.0, -0.1), (2.0, 100.0, 1.0), (-5.0, 4.0, -9.0), (0.5, 0.6, 0.0)):
        ONE.append(['ModifiedJeffreys', [lo, hi, kn]])

    def dens(kind, a, x):
        if kind == 'Gaussian':
            return -0.5 * ((x - a[0]) / a[1]) ** 2 - math.log(a[1] * math.sqrt(O.TWOPI))
        if not a[0] <= x <= a[1]:
            return -INF
        if kind == 'HardBounds':
            return -math.log(a[1] - a[0])
        kn = a[2] if kind == 'ModifiedJeffreys' else 0.0
        return -math.log(x - kn) - math.log(math.log((a[1] - kn) / (a[0] - kn)))

    def cdf(kind, a, x):
        if kind == 'Gaussian':
            return float(ndtr((x - a[0]) / a[1]))
        if kind == 'HardBounds':
            return (x - a[0]) / (a[1] - a[0])
        kn = a[2] if kind == 'ModifiedJeffreys' else 0.0
        return math.log((x - kn) / (a[0] - kn)) / math.log((a[1] - kn) / (a[0] - kn))

    def points(kind, a):
        lo, hi = (a[0] - 6 * a[1], a[0] + 6 * a[1]) if kind == 'Gaussian' else (a[0], a[1])
        w = hi - lo
        return [lo - 10 * w, lo - 1e-6 * w, lo + 1e-9 * w, lo + 1e-3 * w, lo + 0.1 * w, lo + 0.5 * w, lo + 0.9 * w, hi - 1e-9 * w, hi + 1e-6 * w, hi + 1.0, hi + 100 * w]

    def one_cases():
        for b in O.BASES:
            for n in range(len(ONE)):
                yield [b, n]

    def one_run(ctx, case):
        basis, n = case
        kind, a = ONE[n]
        orbs = [orbit(1), orbit(2), orbit(3)]
        P, V = world(basis, orbs)
        names = [k + str(m) for m in (1, 2, 3) for k in basis.split()] + ['dvdt', 'gamma_j', 'jit_j', 'gp_amp']
        for name in names:
            pr = getattr(R, kind)(name, *a)
            keep = P[name].value
            for how in ('vector', 'dict'):
                for x in points(kind, a):
                    setv(P, V, name, x, how)
                    s0 = snapshot(P, V)
                    got = pr(P, V)
                    want = dens(kind, a, x)
                    ctx.check(close(got, want, 1e-9, 1e-9), "density-" + kind, lambda: "%s(%s, %s) in basis %r at %r: %r, expected %r" % (kind, name, a, basis, x, got, want))
                    ctx.check(same(s0, snapshot(P, V)) and close(pr(P, V), got, 0, 0), "evaluation-changes-something", lambda: "%s(%s)" % (kind, name))
                    # other parameters do not matter
                    setv(P, V, name, keep, how)
                ctx.trans(len(points(kind, a)))
            ctx.state(basis, n, name)
        other = R.Gaussian(names[0], 1.0, 2.0)
        v = other(P, V)
        for name in names[1:]:
            V.vector[V.indices[name]][0] += 0.125
        ctx.check(other(P, V) == v, "depends-on-other-parameter", lambda: str(case))
        ctx.trace()

    # transforms and normalisation
    U = sorted(set([1e-9, 1e-6, 1e-3, 0.5, 0.999, 1 - 1e-6, 1 - 1e-9] + [i / 64.0 for i in range(1, 64)]))

    def tr_run(ctx, case):
        kind, a = ONE[case[0]]
        pr = getattr(R, kind)('per1', *a)
        P, V = world(O.BASES[0], [orbit(1)])
        u = np.array(U)
        u0 = u.copy()
        x = np.asarray(pr.transform(u))
        ctx.check(np.array_equal(u, u0), "transform-input", str(case))
        ctx.check(x.shape == u.shape and bool(np.all(np.diff(x) > 0)), "transform-increasing-" + kind, lambda: "%s%s: %s" % (kind, a, x))
        for ui, xi in zip(U, x):
            ctx.check(close(pr.transform(ui), xi, 1e-13, 0), "transform-scalar", lambda: "%s%s" % (kind, a))
            f = cdf(kind, a, float(xi))
            ctx.check(abs(f - ui) < 1e-9 + 1e-7 * min(ui, 1 - ui), "transform-inverse-cdf-" + kind, lambda: "%s%s: transform(%r)=%r where the cdf is %r" % (kind, a, ui, xi, f))
            V.vector[0][0] = xi
            ctx.check(math.isfinite(pr(P, V)), "transform-outside-support-" + kind, lambda: "%s%s: transform(%r)=%r" % (kind, a, ui, xi))
            ctx.trans()
        # density is the derivative of the cdf along the transform: exp(p(T(u))) dT/du = 1
        for ui in U:
            if 0.01 < ui < 0.99:
                h = 1e-5
                d = (pr.transform(ui + h) - pr.transform(ui - h)) / (2 * h)
                V.vector[0][0] = pr.transform(ui)
                ctx.check(abs(math.exp(pr(P, V)) * d - 1) < 1e-5, "density-vs-transform-" + kind, lambda: "%s%s at u=%r: density times slope is %r" % (kind, a, ui, math.exp(pr(P, V)) * d))
        # end points
        if kind != 'Gaussian':
            ctx.check(close([pr.transform(0.0), pr.transform(1.0)], a[:2], 1e-9, 1e-12), "transform-end-points-" + kind, lambda: "%s%s: %s" % (kind, a, (pr.transform(0.0), pr.transform(1.0))))
        ctx.state("transform", case[0])
        ctx.trace()

    # priors on orbits, in every basis
    ES = [0.0, 0.05, 0.31, 0.62, 0.9, 0.985]
    WS = [0.0, 0.9, 2.2, 3.9, 5.5]
    KS = [1e-4, 0.3, 0.999, 1.001, 21.0, 5e3]

    def orb_cases():
        for b in O.BASES:
            for npl in (1, 2, 3, 4, 6, 10):
                yield [b, npl]

    def lims():
        return [0.99, 1, [0.99, 0.5, 0.2], (0.3, 0.7, 0.95), np.float64(0.6), 0.05000001]

    def orb_run(ctx, case):
        basis, npl = case
        for target in (range(1, npl + 1) if npl < 4 else (npl,)):
            for e, w, k in itertools.product(*((ES, WS, KS) if npl < 4 else (ES[-2:], WS[:2], KS[:1]))):
                orbs = [orbit(n + 1) for n in range(npl)]
                p, tp, _, _, _ = orbs[target - 1]
                orbs[target - 1] = (p, tp, e, w, k)
                P, V = world(basis, orbs)
                syn = [O.to_synth(basis, {x: P[x + str(n)].value for x in basis.split()}) for n in range(1, npl + 1)]
                eccs = [s[2] for s in syn]
                s0 = snapshot(P, V)
                for up in lims():
                    for planets in ([npl, list(range(1, npl + 1)), list(range(npl, 0, -1)), [target]] if k == KS[0] else [npl]):
                        pl = list(range(1, planets + 1)) if isinstance(planets, int) else planets
                        if not np.isscalar(up) and len(pl) > len(up):
                            continue
                        if not np.isscalar(up):
                            upl = list(up)[:len(pl)]
                            arg = up if len(up) == len(pl) else type(up)(upl)
                        else:
                            upl, arg = [up] * len(pl), up
                        pr = R.EccentricityPrior(planets, arg)
                        got = pr(P, V)
                        if any(abs(eccs[q - 1] - l) < 1e-9 for q, l in zip(pl, upl)):
                            continue
                        out = any(eccs[q - 1] > l for q, l in zip(pl, upl))
                        want = -INF if out else -sum(math.log(l) for l in upl)
                        ctx.check(close(got, want, 1e-12, 1e-12), "eccentricity", lambda: "EccentricityPrior(%s, %s) in basis %r, eccentricities %s: %r, expected %r" % (planets, arg, basis, eccs, got, want))
                        fin = pr(P, V, finite=True)
                        ctx.check(math.isfinite(fin) and (fin == got if not out else fin < -1e90), "eccentricity-finite", lambda: str(case))
                for q in range(target, npl + 1):
                    pr = R.PositiveKPrior(q)
                    ctx.check(pr(P, V) == 0 and pr(P, V, finite=True) == 0, "positive-k", lambda: "PositiveKPrior(%d) in basis %r, K=%r: %r, expected 0" % (q, basis, k, pr(P, V)))
                if 'k' in basis.split():
                    V.vector[V.indices['k%d' % target]][0] = -k
                    for q in range(1, npl + 1):
                        pr = R.PositiveKPrior(q)
                        want = -INF if q >= target else 0
                        ctx.check(pr(P, V) == want and (pr(P, V, finite=True) < -1e90) == (want == -INF), "negative-k", lambda: "PositiveKPrior(%d) in basis %r, K%d=%r: %r" % (q, basis, target, -k, pr(P, V)))
                    V.vector[V.indices['k%d' % target]][0] = k
                ctx.check(same(s0, snapshot(P, V)) or 'k' in basis.split(), "evaluation-changes-something", lambda: str(case))
                ctx.state("orb", basis, npl, target, e, w, k)
                ctx.trans()
        # 'e' bases: negative and hyperbolic eccentricities lie outside
        if 'e' in basis.split():
            for e in (-0.01, 1.0, 1.3):
                P, V = world(basis, [orbit(n + 1) for n in range(npl)])
                V.vector[V.indices['e%d' % npl]][0] = e
                ctx.check(R.EccentricityPrior(npl)(P, V) == -INF, "eccentricity-outside", lambda: "%s e=%r" % (case, e))
                ctx.check(e < 0 or not math.isnan(R.SecondaryEclipsePrior(npl, 3.0, 0.1)(P, V)), "secondary-unbound", lambda: "%s e=%r" % (case, e))
        ctx.trace()

    def sec_cases():
        for b in O.BASES:
            for e in ES:
                yield [b, e]

    def sec_run(ctx, case):
        basis, e = case
        for target in (1, 2, 3):
            for w in WS:
                orbs = [orbit(n + 1) for n in range(3)]
                p, tp, _, _, k = orbs[target - 1]
                orbs[target - 1] = (p, tp, e, w, k)
                P, V = world(basis, orbs)
                p, tp, ee, ww, k = O.to_synth(basis, {x: P[x + str(target)].value for x in basis.split()})
                nu = 1.5 * math.pi - ww
                E = 2 * math.atan2(math.sqrt(1 - ee) * math.sin(nu / 2), math.sqrt(1 + ee) * math.cos(nu / 2))
                tsec = tp + p / O.TWOPI * (E - ee * math.sin(E))
                for off in (0.0, 0.003, -0.003, 0.2, -0.2, 0.49, -0.49):
                    for cyc in (0, -3, 17):
                        for err in (0.01, 0.5):
                            ts = tsec + (off + cyc) * p
                            pr = R.SecondaryEclipsePrior(target, ts, err)
                            s0 = snapshot(P, V)
                            got = pr(P, V)
                            s = err / p
                            want = -0.5 * (off / s) ** 2 - math.log(s * math.sqrt(O.TWOPI))
                            ctx.check(close(got, want, 1e-5, 1e-5), "secondary", lambda: "SecondaryEclipsePrior(%d, eclipse time%+g periods, %g) in basis %r, e=%g w=%g: %r, expected %r" % (target, off + cyc, err, basis, e, w, got, want))
                            ctx.check(same(s0, snapshot(P, V)), "evaluation-changes-something", lambda: str(case))
                            ctx.trans()
                ctx.state("sec", basis, e, target, w)
        ctx.trace()

    # priors built from samples, functions, and baselines
    def num_cases():
        for b in O.BASES:
            for dim in (1, 2, 3):
                for bw in (None, 0.3, 'silverman'):
                    yield [b, dim, bw]

    def num_run(ctx, case):
        basis, dim, bw = case
        P, V = world(basis, [orbit(1), orbit(2)])
        names = [basis.split()[2] + '2', basis.split()[3] + '1', 'gamma_j'][:dim]
        j = np.arange(60)
        vals = np.array([0.3 * np.sin(1.7 * j) + 0.1 * np.cos(5.1 * j * j), 0.7 * np.cos(2.9 * j) + 2, 3 * np.sin(0.9 * j + 1) + 0.5 * np.sin(1.7 * j)][:dim])
        for perm in itertools.permutations(range(dim)):
            nm = [names[i] for i in perm]
            vv = vals[list(perm)]
            v0 = vv.copy()
            pr = R.NumericalPrior(nm, vv if dim > 1 else vv[0], bw_method=bw)
            f = bw if isinstance(bw, float) else 60 ** (-1.0 / (dim + 4)) * (1.0 if bw is None else (4.0 / (dim + 2)) ** (1.0 / (dim + 4)))
            C = np.atleast_2d(np.cov(vv)) * f ** 2
            Ci, nc = np.linalg.inv(C), 0.5 * np.log(np.linalg.det(2 * math.pi * C))
            for x in itertools.product((-0.2, 0.1), (1.7, 2.3), (0.0, 2.0)):
                x = [x[i] for i in perm]
                for n, q in zip(nm, x):
                    V.vector[V.indices[n]][0] = q
                got = pr(P, V)
                d = np.array(x)[:, None] - vv
                want = math.log(np.mean(np.exp(-0.5 * np.einsum('ik,ij,jk->k', d, Ci, d) - nc)))
                ctx.check(np.ndim(got) == 0 and close(got, want, 1e-8, 1e-8), "numerical-density", lambda: "%s at %s: %r, expected %r" % (case, x, got, want))
                ctx.trans()
            ctx.check(np.array_equal(vv, v0), "numerical-input", lambda: str(case))
        if dim == 1:
            pr = R.NumericalPrior(names[:1], vals[0], bw_method=bw, bins=30)
            u = np.array(U)
            x = pr.transform(u)
            q = np.quantile(vals[0], u)
            wd = (vals[0].max() - vals[0].min()) / 30
            ctx.check(bool(np.all(np.diff(x) >= 0)) and x.min() >= vals[0].min() - 1e-9 and x.max() <= vals[0].max() + 1e-9, "numerical-transform-range", lambda: str(case))
            ctx.check(bool(np.all((np.searchsorted(np.sort(vals[0]), x + 2 * wd) / 60. >= u - 0.05) & (np.searchsorted(np.sort(vals[0]), x - 2 * wd) / 60. <= u + 0.05))), "numerical-transform", lambda: "%s" % case)
        ctx.state("num", *map(str, case))
        ctx.trace()

    def user_run(ctx, case):
        basis = case[0]
        P, V = world(basis, [orbit(1), orbit(2)])
        names = [basis.split()[0] + '2', basis.split()[4] + '1', 'jit_j', 'dvdt']
        for r in (1, 2, 3, 4):
            for sel in itertools.permutations(names, r):
                seen = []

                def fn(x):
                    seen.append(list(x))
                    return -1.25 * len(x) + x[0]
                pr = R.UserDefinedPrior(list(sel), fn, 'tex', transform_func=lambda u: ('T', u))
                want = [V.vector[V.indices[n]][0] for n in sel]
                got = pr(P, V)
                ctx.check(seen == [want] and got == -1.25 * r + want[0], "user-values", lambda: "%s %s: %s vs %s" % (basis, sel, seen, want))
                ctx.check(pr.transform(0.3) == ('T', 0.3), "user-transform", lambda: str(sel))
                ctx.state("user", basis, sel)
        for nm in ('per', 'logper'):
            if nm not in basis.split():
                continue
            for n in (1, 2):
                for base in (10.0, 100.0):
                    for dur in (0.0, 2.0):
                        for per in (0.5, base - 0.01, base + dur - 1e-6, base + dur + 1e-6, 3 * base, 1e5):
                            V.vector[V.indices[nm + str(n)]][0] = per if nm == 'per' else math.log(per)
                            want = 0.0 if per - dur < base else math.log((base + dur) / per)
                            got = R.InformativeBaselinePrior(nm + str(n), base, dur)(P, V)
                            ctx.check(close(got, want, 1e-6, 1e-6), "baseline", lambda: "InformativeBaselinePrior(%s%d, %s, %s) at period %r: %r, expected %r" % (nm, n, base, dur, per, got, want))
                            ctx.trans()
        for lo, hi in ((-INF, 3.0), (0.0, INF), (-INF, INF)):
            pr = R.HardBounds(names[2], lo, hi)
            for x in (-1e6, -1.0, 0.5, 2.9, 3.1, 1e6):
                V.vector[V.indices[names[2]]][0] = x
                ctx.check(pr(P, V) == (0 if lo < x < hi else -INF), "half-bounded", lambda: "%s %s at %s" % (lo, hi, x))
            try:
                pr.transform(0.5)
                ctx.fail("half-bounded-transform", "a transform of an improper prior was offered")
            except ValueError:
                pass
        ctx.trace()

    # a prior that names an orbital parameter the basis does not have must not constrain another one
    def foreign_cases():
        for b in O.BASES:
            for k in sorted({k for bb in O.BASES for k in bb.split()} - set(b.split())):
                yield [b, k]

    def foreign_run(ctx, case):
        basis, k = case
        P, V = world(basis, [orbit(1)])
        p, tp, e, w, kk = orbit(1)
        allv = {}
        for b in O.BASES:
            allv.update(O.from_synth(b, p, tp, e, w, kk))
        pr = R.Gaussian(k + '1', 0.7, 0.9)
        want = dens('Gaussian', [0.7, 0.9], allv[k])
        try:
            got = pr(P, V)
        except (KeyError, ValueError):
            ctx.ev()
            return
        ctx.state("foreign", basis, k)
        ctx.check(close(got, want, 1e-6, 1e-6), "prior-on-parameter-of-another-basis",
                  lambda: "Gaussian prior on %s1 in basis %r: %r, which is neither refused nor the density at the orbit's %s=%r (%r)" % (k, basis, got, k, allv[k], want))

    return [Suite("one-parameter", one_cases, one_run), Suite("transforms", [[i] for i in range(len(ONE))], tr_run), Suite("orbits", orb_cases, orb_run),
            Suite("secondary", sec_cases, sec_run), Suite("numerical", num_cases, num_run), Suite("user", [[b] for b in O.BASES], user_run),
            Suite("foreign", foreign_cases, foreign_run)]


if __name__ == "__main__":
    main("R09", suites, "exploration",
         "every prior class x documented argument shapes x basis x planet x lattice of parameter values is executed on the real prior objects and compared with the "
         "closed-form density, cdf and support",
         "9 bases x 1-3 planets x 21 one-parameter priors x 11 value classes; 69 quantiles per transform; 6 eccentricities x 5 arguments x 6 semi-amplitudes")
