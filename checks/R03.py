import itertools
import math
from vlib.core import *
from vlib import oracle as O

ECC = [0.0, 1e-6, 0.01, 0.1, 0.25, 0.5, 0.7, 0.9, 0.95, 0.99]
PER = [0.3, 1.0, 3.5, 42.0, 365.25, 1e4]
T0 = [0.0, 2450000.5, -12.3]


def suites():
    import numpy as np
    from radvel import orbit
    NW = 72 if not THOROUGH else 720
    W = sorted({i * 2 * math.pi / NW for i in range(-NW, 2 * NW + 1)} | {s * math.pi / 2 + d for s in range(-4, 9) for d in (1e-9, -1e-9, 1e-4, -1e-4)} | {0.3, 1.1, -2.9, 5.7})

    def cases():
        for e in ECC + ([0.33, 0.8, 0.97] if not THOROUGH else [i / 50 for i in range(50)]):
            for per in PER:
                yield [e, per]

    def nu_at(t, tp, per, e):
        """(cos, sin) of the exact true anomaly"""
        E = O.ecc_anomaly(O.TWOPI * O.phase(t, tp, per), e)
        return (np.cos(E) - e) / (1 - e * np.cos(E)), math.sqrt(1 - e * e) * np.sin(E) / (1 - e * np.cos(E))

    def run(ctx, case):
        e, per = case
        F = (1 + e) ** .5 / (1 - e) ** 1.5
        for t0 in T0:
            eps = 4 * math.pi * (abs(t0) + per) * 2.3e-16 / per * 4 + 1e-13
            # a half-angle tangent loses digits when the angle approaches pi (about 1e-16 * 2/|pi - f|, all absorbed in E)
            tol_nu = F * eps * 20 + 1e-7
            tol_t = (abs(t0) + per) * 1e-14 + per * 1e-11
            Wa = np.array(W)
            for form in ("float", "np", "array"):
                tc = []
                tp = []
                ts = []
                if form == "array":
                    args = [np.full(len(Wa), t0), np.full(len(Wa), per), np.full(len(Wa), e), Wa.copy()]
                    keep = [a.copy() for a in args]
                    tc = orbit.timeperi_to_timetrans(*args)
                    tp = orbit.timetrans_to_timeperi(*args)
                    ts = orbit.timeperi_to_timetrans(*args, secondary=True)
                    ctx.check(all(np.array_equal(a, b) for a, b in zip(args, keep)), "arguments-modified", lambda: str(case))
                else:
                    f = float if form == "float" else np.float64
                    for w in W:
                        tc.append(orbit.timeperi_to_timetrans(f(t0), f(per), f(e), f(w)))
                        tp.append(orbit.timetrans_to_timeperi(f(t0), f(per), f(e), f(w)))
                        ts.append(orbit.timeperi_to_timetrans(f(t0), f(per), f(e), f(w), secondary=True))
                tc, tp, ts = (np.asarray(x, float) for x in (tc, tp, ts))
                if not ctx.check(tc.shape == tp.shape == ts.shape == Wa.shape and all(np.isfinite(x).all() for x in (tc, tp, ts)), "finite-%s" % form, lambda: str(case)):
                    return
                if form == "float":
                    base = (tc, tp, ts)
                else:
                    for nm, a, b in zip(("transit", "periastron", "secondary"), base, (tc, tp, ts)):
                        d = (a - b + per / 2) % per - per / 2
                        i = int(np.argmax(np.abs(d)))
                        strict = np.abs(a - b) if nm != "x" else d
                        # at exactly half a turn from periastron the branch may be chosen either way
                        near = np.abs(np.abs(d) - 0) < tol_t
                        ctx.check(abs(d[i]) <= tol_t, "scalar-vs-array-%s" % nm, lambda: "e=%s per=%s w=%s: scalar %r %s %r" % (e, per, W[i], a[i], form, b[i]))
                # geometry at the event times
                for nm, tt, pp, target in (("transit", tc, np.full(len(Wa), t0), math.pi / 2), ("transit-of-peri", np.full(len(Wa), t0), tp, math.pi / 2), ("secondary", ts, np.full(len(Wa), t0), 3 * math.pi / 2)):
                    x = (tt - pp) / per
                    E = O.ecc_anomaly(O.TWOPI * (x - np.floor(x)), e)
                    cn = (np.cos(E) - e) / (1 - e * np.cos(E))
                    sn = math.sqrt(1 - e * e) * np.sin(E) / (1 - e * np.cos(E))
                    d = np.abs((np.arctan2(sn, cn) + Wa - target + math.pi) % O.TWOPI - math.pi)
                    i = int(np.argmax(d))
                    ctx.ev(len(d))
                    ctx.check(d[i] <= tol_nu, "geometry-%s" % nm, lambda: "e=%s per=%s w=%r %s: true anomaly + w off by %g rad (time %r, periastron %r)" % (e, per, W[i], form, d[i], tt[i], pp[i]))
                # within half an orbit of periastron; secondary in the orbit after
                ctx.check(np.all(np.abs(tc - t0) <= per / 2 * (1 + 1e-9) + tol_t) and np.all(np.abs(tp - t0) <= per / 2 * (1 + 1e-9) + tol_t), "nearest-%s" % form, lambda: "e=%s per=%s t0=%s: %s" % (e, per, t0, (tc - t0, tp - t0)))
                bad = ~((ts >= t0 - tol_t - per * 1e-8) & (ts <= t0 + per + tol_t))
                ctx.check(not bad.any(), "secondary-first-%s" % form, lambda: "e=%s per=%s tp=%s w=%s: secondary eclipse at tp %+r" % (e, per, t0, Wa[bad][:3], (ts - t0)[bad][:3]))
                # inverse functions, both ways
                back = np.array([orbit.timetrans_to_timeperi(c, per, e, w) for c, w in zip(tc, W)]) if form != "array" else orbit.timetrans_to_timeperi(tc, per, e, Wa)
                d = np.abs(back - t0)
                ctx.check(np.all(d <= tol_t), "inverse-peri-%s" % form, lambda: "e=%s per=%s t0=%s: max %g at w=%r" % (e, per, t0, d.max(), W[int(d.argmax())]))
                back = np.array([orbit.timeperi_to_timetrans(c, per, e, w) for c, w in zip(tp, W)]) if form != "array" else orbit.timeperi_to_timetrans(tp, per, e, Wa)
                d = np.abs(back - t0)
                ctx.check(np.all(d <= tol_t), "inverse-trans-%s" % form, lambda: "e=%s per=%s t0=%s: max %g at w=%r" % (e, per, t0, d.max(), W[int(d.argmax())]))
                ctx.state(e, per, t0, form)
            # array in one argument only
            for mixed in (0, 3):
                args = [t0, per, e, 0.7]
                args[mixed] = np.array([args[mixed], args[mixed] + 0.5, args[mixed] - 2.0])
                for fn, kw in ((orbit.timeperi_to_timetrans, {}), (orbit.timetrans_to_timeperi, {}), (orbit.timeperi_to_timetrans, dict(secondary=True))):
                    got = fn(*args, **kw)
                    one = [fn(*[float(a[j]) if isinstance(a, np.ndarray) else a for a in args], **kw) for j in range(3)]
                    ctx.check(np.shape(got) == (3,) and np.all(np.abs(np.asarray(got) - one) <= tol_t), "mixed-arguments", lambda: "%s %s: %s vs %s" % (args, kw, got, one))
        # Series (chain columns)
        import pandas as pd
        ws = pd.Series(W[:9], index=range(5, 14))
        got = orbit.timeperi_to_timetrans(pd.Series([0.0] * 9, index=ws.index), per, e, ws)
        ctx.check(np.all(np.abs(np.asarray(got) - [orbit.timeperi_to_timetrans(0.0, per, e, w) for w in W[:9]]) <= per * 1e-11), "series", lambda: str(case))

    def nu_cases():
        return [[e, per] for e in ECC for per in PER]

    def nu_run(ctx, case):
        e, per = case
        for tp in T0:
            M = np.concatenate([np.arange(0, 360) / 360. * O.TWOPI, [1e-6, 1e-3, math.pi - 1e-6, math.pi + 1e-6, O.TWOPI - 1e-6]])
            for orb in (0, -2, 11):
                t = tp + per * (M / O.TWOPI + orb)
                tt = t.copy()
                nu = orbit.true_anomaly(t, tp, per, e)
                ctx.check(np.array_equal(t, tt), "times-modified", str(case))
                cn, sn = nu_at(t, tp, per, e)
                F = (1 + e) ** .5 / (1 - e) ** 1.5
                tol = F * (20 * (np.abs(t - tp) / per + 1) * 1e-15 + 8e-12) + 1e-9
                d = np.hypot(np.cos(nu) - cn, np.sin(nu) - sn)
                ctx.ev(len(t))
                ctx.check(np.shape(nu) == t.shape and np.all(d <= tol), "true-anomaly", lambda: "e=%s per=%s tp=%s: off by %g" % (e, per, tp, d.max()))
            one = orbit.true_anomaly(np.array([tp + 0.3 * per]), tp, per, e)
            cn, sn = nu_at(np.array([tp + 0.3 * per]), tp, per, e)
            ctx.check(abs(np.cos(np.ravel(one)[0]) - cn[0]) < 1e-6, "true-anomaly-single", str(case))
            ctx.state("nu", e, per, tp)

    # every ordered selection of up to three (thorough: four) different orbits in one array, bound and unbound
    MIX = [(0.0, 3.5, 0.0, 0.4), (2450000.5, 42.0, 0.3, 4.9), (-12.3, 0.3, 0.9, -2.0), (7.0, 365.25, 0.99, 1.5708), (1.0, 10.0, 0.5, 3 * math.pi / 2 + 0.01), (5.0, 20.0, 1.0, 0.3), (6.0, 30.0, 1.4, 2.0)]
    FNS = [("transit", lambda *a: orbit.timeperi_to_timetrans(*a)), ("periastron", lambda *a: orbit.timetrans_to_timeperi(*a)), ("secondary", lambda *a: orbit.timeperi_to_timetrans(*a, secondary=True))]

    def mix_cases():
        for n in range(2, 4 if not THOROUGH else 5):
            for c in itertools.permutations(range(len(MIX)), n):
                yield list(c)

    def mix_run(ctx, case):
        rows = [MIX[i] for i in case]
        for nm, fn in FNS:
            args = [np.array([r[k] for r in rows]) for k in range(4)]
            keep = [a.copy() for a in args]
            with np.errstate(all="ignore"):
                got = np.asarray(fn(*args))
            ctx.check(all(np.array_equal(a, b) for a, b in zip(args, keep)), "arguments-modified", lambda: str(case))
            if not ctx.check(got.shape == (len(rows),), "mixed-shape", lambda: str(case)):
                continue
            for i, r in enumerate(rows):
                if r[2] < 1:
                    one = fn(*r)
                    ctx.check(abs(got[i] - one) <= (abs(r[0]) + r[1]) * 1e-13, "mixed-orbits-%s" % nm, lambda: "orbits %s: element %d gives %r, alone %r" % (rows, i, got[i], one))
            ctx.trans()
        ctx.state("mix", tuple(case))

    return [Suite("times", cases, run), Suite("anomaly", nu_cases, nu_run), Suite("mixed", mix_cases, mix_run)]


if __name__ == "__main__":
    main("R03", suites, "exploration",
         "one evaluation = one conversion compared with the exact geometry; distinct = (e, period, reference time, argument form)",
         "eccentricity grid to 0.99 x 6 periods x 3 reference times x ~270 omegas over three turns incl. the quadrant edges +-1e-9; float, numpy scalar, array and mixed arguments; every ordered selection of 2-3 of 7 different orbits (two unbound) in one array, element by element against the scalar call")
