import math
from vlib.core import *
from vlib import oracle as O

ECC = [0.0, 1e-9, 1e-4, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.75, 0.8, 0.85, 0.9, 0.93, 0.95, 0.97, 0.98, 0.985, 0.99]
PER = [0.05, 0.7, 1.0, 3.5, 42.3633, 365.25, 4332.6, 1e5]
OM = [0.0, 0.3, math.pi / 4, math.pi / 2, 2.0, math.pi, 4.0, 3 * math.pi / 2, 6.0, 2 * math.pi, -0.5, -math.pi / 2, -3.0, 7.5]
KS = [1.0, 55.3, 0.02, 3.2e4]
TP = [0.0, 2450000.5, -17.25]


def suites():
    import numpy as np
    import radvel
    from radvel import kepler

    def mgrid(n):
        c = [10.0 ** x for x in np.arange(-14, 0, 0.5)]
        m = list(np.arange(n) * (2 * math.pi / n)) + c + [2 * math.pi - x for x in c] \
            + [math.pi - x for x in c] + [math.pi + x for x in c] + [math.pi / 2 - x for x in c] + [math.pi / 2 + x for x in c]
        return np.array(m)

    def call(t, orbel, solver):
        return np.ravel(kepler.rv_drive(t, orbel, use_c_kepler_solver=solver))

    # ---- every (e, period, omega) x dense mean-anomaly grid, both solvers, against the exact solution
    def solver_cases():
        es = ECC if not THOROUGH else sorted(set(ECC + [i / 200 for i in range(199)]))
        for e in es:
            for per in PER:
                for solver in (True, False):
                    yield [e, per, solver]

    def solver_run(ctx, case):
        e, per, solver = case
        M = mgrid(180 if not THOROUGH else 1440)
        for tp in TP:
            for orbit in (0, 1, -1, 37) if tp == 0 else (0, -3):
                t = tp + per * (M / (2 * math.pi) + orbit)
                for iw, w in enumerate(OM):
                    k = KS[iw % len(KS)]
                    orbel = np.array([per, tp, e, w, k])
                    t0, o0 = t.copy(), orbel.copy()
                    got = call(t, orbel, solver)
                    if not ctx.check(np.array_equal(t, t0) and np.array_equal(orbel, o0), "inputs-modified", str(case)):
                        return
                    if not ctx.check(got.shape == t.shape and np.isfinite(got).all(), "finite", lambda: "%s tp=%s w=%s: %s" % (case, tp, w, got[~np.isfinite(got)][:3])):
                        return
                    want = O.rv(t, per, tp, e, w, k)
                    d = np.abs(got - want) - O.rv_tol(t, per, tp, e, k)
                    i = int(np.argmax(d))
                    ctx.ev(len(t))
                    # two times one period apart may differ by wrap-around of a discontinuity-free function only
                    if not ctx.check(d[i] <= 0, "exact-rv-%s" % ("c" if solver else "py"), lambda: "e=%s per=%s tp=%s w=%s K=%s t=%r: model %r, exact %r" % (e, per, tp, w, k, t[i], got[i], want[i])):
                        return
                    ctx.state(e, per, solver, tp, orbit, iw)
        ctx.sample("solver e=%s per=%s %s" % (e, per, "C" if solver else "NumPy"))

    # ---- solution of Kepler's equation itself (public helper), arrays of any mean anomaly / eccentricity
    def keq_cases():
        return [[e] for e in ECC + [0.991, 0.995, 0.999]]

    def keq_run(ctx, case):
        e = case[0]
        M = mgrid(720)
        if e <= 0.9:
            M = np.concatenate([M, -M, M + 2 * math.pi])
        if e > 0.99:
            M = M[(M > 1e-6) & (M < 2 * math.pi - 1e-6)]
        M0 = M.copy()
        ecc = np.zeros_like(M) + e
        E = kepler.kepler(M, ecc)
        ctx.check(np.array_equal(M, M0) and np.all(ecc == e), "kepler-inputs-modified", str(case))
        res = np.abs(E - e * np.sin(E) - M)
        i = int(np.nanargmax(res))
        ctx.check(np.isfinite(E).all() and res[i] < 1e-11, "kepler-equation", lambda: "e=%s M=%r E=%r residual %g" % (e, M[i], E[i], res[i]))
        # mixed eccentricities in one call
        mixed = np.array([x for x in ECC for _ in range(50)])
        MM = np.tile(mgrid(50)[:50], len(ECC))
        E = kepler.kepler(MM.copy(), mixed.copy())
        res = np.abs(E - mixed * np.sin(E) - MM)
        ctx.check(np.isfinite(E).all() and res.max() < 1e-11, "kepler-mixed", lambda: "residual %g" % res.max())
        for j in (0, 3, 100, 700):
            one = kepler.kepler(M0[j:j + 1].copy(), np.array([e]))
            ctx.check(close(np.ravel(one), E_at(M0[j], e), 1e-9, 1e-8), "kepler-single", lambda: "e=%s M=%r: %r" % (e, M0[j], one))
        ctx.state("keq", e)

    def E_at(M, e):
        n = math.floor(M / (2 * math.pi))
        return [O.ecc_anomaly(np.array([M]), e)[0] + 2 * math.pi * n]

    # ---- element-wise: any subset / order of the times gives the same velocities; periodic
    def subset_cases():
        for e in ECC:
            for solver in (True, False):
                yield [e, solver]

    def subset_run(ctx, case):
        e, solver = case
        for per, tp in ((3.5, 2450000.5), (365.25, 100.0)):
            base = tp + per * np.array([0.0, 0.001, 0.13, 0.49999, 0.5, 0.77, 0.99999])
            orbel = [per, tp, e, 1.1, 10.0]
            full = call(base, orbel, solver)
            n = len(base)
            for mask in range(1, 2 ** n):
                idx = [i for i in range(n) if mask >> i & 1]
                for order in (idx, idx[::-1]):
                    got = call(base[order], orbel, solver)
                    ctx.check(got.shape == (len(order),) and close(got, full[order], 1e-9, 1e-8), "elementwise", lambda: "%s subset %s: %s vs %s" % (case, order, got, full[order]))
            for m in (1, -1, 10):
                got = call(base[1:-1] + m * per, orbel, solver)
                tol = O.rv_tol(base[1:-1] + m * per, per, tp, e, 10.0) * 50 + 1e-6 * 10
                ctx.check(np.all(np.abs(got - full[1:-1]) <= tol), "periodic", lambda: "%s shifted by %d periods: %s vs %s" % (case, m, got, full))
            a = call(np.array([t for t in base]), np.array(orbel), solver)
            ctx.check(np.array_equal(a, full), "repeatable", str(case))
            ctx.state("subset", e, solver, per)

    # ---- long series: every velocity is that of its own time whatever the length of the array
    def long_cases():
        return [[e, solver] for e in (0.0, 0.3, 0.97) for solver in (True, False)]

    def long_run(ctx, case):
        e, solver = case
        N = 65538 if THOROUGH else 20002
        per, tp = 7.77, 2450001.25
        t = tp - 300.0 + 0.1234567 * np.arange(N)
        t = np.concatenate([t[::2], t[1::2][::-1]])
        orbel = [per, tp, e, 1.1, 10.0]
        full = call(t, orbel, solver)
        want = O.rv(t, *orbel)
        ctx.check(full.shape == t.shape and np.all(np.abs(full - want) <= 50 * O.rv_tol(t, per, tp, e, 10.0)), "long-series", lambda: "%s: largest error %g" % (case, np.max(np.abs(full - want))))
        for n in sorted({m + d for m in (2, 8, 16, 32, 64, 100, 128, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 20000, 32768, 65536) for d in (-1, 0, 1)} - {3, 9}):
            if n > N:
                continue
            for off in (0, 1):
                got = call(t[off:n], orbel, solver) if n > off else full[:0]
                ctx.check(got.shape == (n - off,) and close(got, full[off:n], 1e-9, 1e-8), "length", lambda: "%s: times %d to %d" % (case, off, n))
            ctx.state("long", e, solver, n)

    # ---- the system model
    ORB = [(12.3, 2450004.0, 0.31, 0.9, 21.0), (3.7, 2450001.1, 0.6, 3.9, 5.5), (400.0, 2450100.0, 0.05, 5.5, 80.0), (1.0, 2450000.2, 0.0, 0.4, 2.0), (71.0, 2450033.0, 0.85, 1.8, 33.0)]
    ORB += [(5.1 + 13.7 * i, 2450000.3 + 1.7 * i, 0.04 + 0.06 * i, 0.3 + 0.77 * i, 1.5 + 2.3 * i) for i in range(8)]

    def model_cases():
        for b in O.BASES:
            for npl in (0, 1, 2, 3, 4, 5, 9, 10, 11, 13):
                for trend in ((), ('dvdt',), ('curv',), ('dvdt', 'curv'), ('curv', 'dvdt')):
                    for first in (False, True):
                        for tb in (0.0, 2450050.0, 2450007.25) if npl < 6 else (2450050.0,):
                            yield [b, npl, list(trend), first, tb]

    def model_run(ctx, case):
        b, npl, trend, first, tb = case
        P = radvel.Parameters(npl, basis=b)
        if first:
            P['gamma_j'] = radvel.Parameter(value=3.3)
            P['jit_j'] = radvel.Parameter(value=1.1)
        vals = {}
        for i, name in enumerate(trend):
            vals[name] = [0.011, -3.0e-4][('dvdt', 'curv').index(name)] if tb else [1e-6, 2e-12][('dvdt', 'curv').index(name)]
            P[name] = radvel.Parameter(value=vals[name], vary=bool(i))
        for n in range(1, npl + 1):
            for kk, v in O.from_synth(b, *ORB[n - 1]).items():
                P[kk + str(n)] = radvel.Parameter(value=v)
        mod = radvel.RVModel(P, time_base=tb)
        t = np.array([2450000.0, 2450001.7, 2450007.25, 2450050.0, 2450049.0, 2450113.1, 2450113.2, 2449000.9])
        t0 = t.copy()
        v0 = mod.vector.vector.copy()
        d0 = {k: (p.value, p.vary) for k, p in P.items()}
        tr = vals.get('dvdt', 0) * (t - tb) + vals.get('curv', 0) * (t - tb) ** 2
        planets = [O.rv(t, *ORB[n]) for n in range(npl)]
        tols = [np.max([O.rv_tol(t, o[0], o[1], o[2], o[4]) for o in ORB[:max(npl, 1)]], axis=0) * 5 + 3e-4 * 0]
        # conversions of conjunction times lose a few 1e-10 d: propagate
        extra = sum(2 * math.pi * 5e-9 / o[0] * o[4] * 30 for o in ORB[:npl])
        tol = tols[0] * max(npl, 1) + extra + 1e-9 * np.abs(tr)
        got = mod(t)
        want = sum(planets, np.zeros(len(t))) + tr
        ctx.check(np.all(np.abs(got - want) <= tol), "model-sum", lambda: "%s: model %s exact %s" % (case, got, want))
        for n in range(1, npl + 1):
            got = mod(t, planet_num=n)
            ctx.check(np.all(np.abs(got - planets[n - 1] - tr) <= tol), "single-planet", lambda: "%s planet %d: %s vs %s" % (case, n, got, planets[n - 1] + tr))
        ctx.check(np.array_equal(t, t0) and np.array_equal(v0, mod.vector.vector) and d0 == {k: (p.value, p.vary) for k, p in P.items()}, "model-side-effect", str(case))
        ctx.check(np.array_equal(mod(t), mod(t.copy())), "model-repeatable", str(case))
        # whole-day times, read-only times, strided times
        ti = np.array([2450000, 2450003, 2450113, 2449000])
        ref = mod(ti.astype(float))
        other = np.empty((len(ti), 2))
        other[:, 0] = ti
        frozen = ti.astype(float)
        frozen.flags.writeable = False
        for what, arr in (("integer", ti), ("strided", other[:, 0]), ("read-only", frozen)):
            try:
                got = mod(arr)
            except Exception as e:
                got = e
            ctx.check(not isinstance(got, Exception) and np.all(np.abs(got - ref) <= 1e-9 * (1 + np.abs(ref))), "model-%s-times" % what, lambda: "%s: %r vs %s" % (case, got, ref))
        # changed values through the vector are used
        if npl and 'k' in b.split():
            mod.vector.vector[mod.vector.indices['k1']][0] *= 2
            got = mod(t)
            ctx.check(np.all(np.abs(got - want - planets[0]) <= tol * 2), "model-uses-vector", str(case))
        ctx.state("model", *map(str, case))
        ctx.trans()

    # the whole model without the compiled solver: the package must fall back on the NumPy one
    return [Suite("solver", solver_cases, solver_run), Suite("kepler", keq_cases, keq_run),
            Suite("subset", subset_cases, subset_run), Suite("long", long_cases, long_run), Suite("model", model_cases, model_run)]


if __name__ == "__main__":
    main("R01", suites, "exploration",
         "one evaluation = one predicted velocity (or solver residual) compared with the exact orbit; distinct = "
         "(e, period, periastron, orbit number, omega, solver) or model configuration",
         "eccentricity grid x 8 periods x 14 omegas x dense mean anomalies incl. 1e-14-close to 0, pi/2, pi, 2 pi; "
         "all subsets of 7 times; 60 lengths up to 20001 (65537 thorough); all bases x 0-13 planets x trend terms x time bases")
