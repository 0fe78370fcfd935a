import itertools
import math
from vlib.core import *
from vlib import oracle as O

ORBS = [(12.3, 2450004.0, 0.31, 0.9, 21.0), (3.7, 1.1, 0.6, 3.9, 0.05), (400.0, 2450100.0, 0.05, -2.5, 80.0),
        (1.0, -0.2, 0.0, 0.4, 2.0), (71.0, 2450033.0, 0.95, 1.8, 33.0), (0.4, 0.01, 0.2, 2 * math.pi - 0.1, 1.0),
        (9000.0, 2455000.0, 1e-4, math.pi / 2, 12.0), (5.0, 3.0, 0.5, -math.pi / 2, 3.0), (5.0, 3.0, 0.5, 7.0, 3.0),
        (5.0, 3.0, 0.5, 3 * math.pi / 2 - 1e-3, 3.0), (5.0, 3.0, 0.5, math.pi, 3.0)]
EXTRA = dict(gamma_j=(3.25, False, 2.0, True), jit_j=(1.5, True, None, False), gamma_k=(-4.0, True, 0.5, False), jit_k=(0.75, False, None, False),
             dvdt=(0.01, True, 1e-3, False), curv=(-1e-4, False, None, False), gp_amp=(5.5, True, None, False), custom=(9.0, True, None, False))
PRINT = 'per tc tp e w k'


def suites():
    import numpy as np
    import pandas as pd
    import radvel
    from radvel import Parameter, Parameters

    def make(basis, orbs, extra=EXTRA, letters=None):
        P = Parameters(len(orbs), basis=basis, planet_letters=letters)
        i = 0
        names = basis.split()
        for n, o in enumerate(orbs, 1):
            for kk, v in O.from_synth(basis, *o).items():
                P[kk + str(n)] = Parameter(value=v, vary=(i % 3 != 1), mcmcscale=[None, 0.5][i % 2])
                i += 1
        for kk, (v, vary, sc, lin) in extra.items():
            P[kk] = Parameter(value=v, vary=vary, mcmcscale=sc, linear=lin)
        return P

    def snap(P):
        return (type(P).__name__, [(k, id(p), p.value, p.vary, p.mcmcscale, p.linear) for k, p in P.items()], P.basis.name,
                list(P.basis.params), P.basis.num_planets, P.num_planets, list(P.planet_parameters), repr(P.planet_letters))

    T = np.array([0.0, 0.13, 0.4, 0.5, 0.77, 0.95])

    def check_orbit(ctx, basis, getv, o, tag, msg):
        per, tp, e, w, k = o
        try:
            v = {n: float(getv(n)) for n in basis.split()}
        except KeyError as ex:
            ctx.fail("missing-%s" % tag, "%s: no %s in result" % (msg(), ex))
            return
        want = O.from_synth(basis, *o) if basis != PRINT else dict(per=per, tp=tp, e=e, w=w, k=k, tc=O.tc_of_tp(tp, per, e, w))
        if not ctx.check(all(math.isfinite(x) for x in v.values()), "nonfinite-%s" % tag, lambda: "%s: %s" % (msg(), v)):
            return
        if e > 1e-12:
            for n in v:
                ctx.check(O.same_value(n, v[n], want[n], per), "value-%s-%s" % (tag, n), lambda: "%s: %s = %r, expected %r" % (msg(), n, v[n], want[n]))
        t = tp + per * T
        s = O.to_synth(basis if basis != PRINT else 'per tp e w k', v)
        a, b = O.rv(t, *o), O.rv(t, *s)
        tol = k * (1e-6 + 2e-8 * (1 + e) ** .5 / (1 - e) ** 1.5 * 2 * math.pi * max(1, 1 / per))
        ctx.check(np.all(np.abs(a - b) <= tol), "orbit-%s" % tag, lambda: "%s: model %s, expected %s (values %s)" % (msg(), b, a, v))

    def check_dict(ctx, B, basis, orbs, tag, msg, leftovers=True, letters=None):
        for n, o in enumerate(orbs, 1):
            check_orbit(ctx, basis, lambda kk: B[kk + str(n)].value, o, tag, msg)
        want = {kk + str(n) for kk in basis.split() for n in range(1, len(orbs) + 1)} | set(EXTRA)
        if leftovers:
            ctx.check(set(B) == want, "names-%s" % tag, lambda: "%s: names %s, expected %s" % (msg(), sorted(B), sorted(want)))
        else:
            ctx.check(set(B) >= want, "names-%s" % tag, lambda: "%s: names %s, expected at least %s" % (msg(), sorted(B), sorted(want)))
        for kk, (v, vary, sc, lin) in EXTRA.items():
            q = B.get(kk)
            ctx.check(q is not None and (q.value, bool(q.vary), q.mcmcscale, q.linear) == (v, vary, sc, lin), "nonorbital-%s" % tag, lambda: "%s: %s became %s" % (msg(), kk, q))
        ctx.check(B.basis.name == basis and B.num_planets == len(orbs) and list(B.basis.params) == basis.split() and B.basis.num_planets == len(orbs)
                  and list(B.planet_parameters) == basis.split() and B.planet_letters == letters, "basis-%s" % tag, lambda: "%s: basis description %s %s %s" % (msg(), B.basis.name, B.basis.params, B.planet_parameters))

    # ---------- every ordered pair of bases, every orbit, dictionaries + vectors + tables
    def pair_cases():
        for a in O.BASES:
            for b in O.BASES:
                for npl in (1, 2, 3, 4):
                    for i in range(0, len(ORBS)):
                        if npl > 1 and i % (2 if npl == 2 else 3) and not THOROUGH:
                            continue
                        yield [a, b, npl, i]
                yield [a, b, 11, 1]     # indices of two digits

    def orbs_of(npl, i):
        return [ORBS[(i + 3 * j) % len(ORBS)] for j in range(npl)]

    def pair_run(ctx, case):
        a, b, npl, i = case
        orbs = orbs_of(npl, i)
        msg = lambda: "%s -> %s, %d planets, orbits %s" % (a, b, npl, orbs)
        letters = {n: 'bcdefghijklmnop'[n] for n in range(1, npl + 1)} if i % 2 else None
        P = make(a, orbs, letters=letters)
        s0 = snap(P)
        B = P.basis.to_any_basis(P, b)
        check_dict(ctx, B, b, orbs, "dict", msg, letters=letters)
        if not ctx.check(snap(P) == s0, "source-changed", lambda: msg() + "\nbefore %s\nafter %s" % (s0, snap(P))):
            return
        # the result can be used for a model
        mod = radvel.RVModel(B, time_base=2450000.)
        t = np.array([o[1] + o[0] * x for o in orbs for x in T])
        got = mod(t)
        tr = EXTRA['dvdt'][0] * (t - 2450000.) + EXTRA['curv'][0] * (t - 2450000.) ** 2
        want = sum(O.rv(t, *o) for o in orbs) + tr
        tol = sum(o[4] * (1e-6 + (np.abs((t - o[1]) / o[0]) * 3e-8 + 1e-7) * 7 * (1 + o[2]) ** .5 / (1 - o[2]) ** 1.5) for o in orbs) + 1e-8 * np.abs(tr)
        ctx.check(np.all(np.abs(got - want) <= tol), "model-after-conversion", lambda: "%s: %s vs %s" % (msg(), got, want))
        # and back
        s1 = snap(B)
        C = B.basis.to_any_basis(B, a)
        check_dict(ctx, C, a, orbs, "back", msg, letters=letters)
        ctx.check(snap(B) == s1, "source-changed", lambda: msg() + " (on the way back)")
        # original container again: same answer
        B2 = P.basis.to_any_basis(P, b)
        ctx.check([(k, p.value) for k, p in B.items()] == [(k, p.value) for k, p in B2.items()], "second-conversion", msg)
        # vectors
        V = radvel.model.Vector(P)
        v0 = V.vector.copy()
        vb = P.basis.v_to_any_basis(V, b)
        ctx.check(np.array_equal(V.vector, v0) and snap(P) == s0, "vector-source-changed", msg)
        idx = radvel.model.Vector(B).indices
        for n, o in enumerate(orbs, 1):
            check_orbit(ctx, b, lambda kk: vb[idx[kk + str(n)]][0], o, "vector", msg)
            for kk in b.split():
                d, v = B[kk + str(n)].value, vb[idx[kk + str(n)]][0]
                ctx.check(close(d, v, 1e-9, 1e-9), "vector-vs-dict", lambda: "%s: %s%d vector %r dict %r" % (msg(), kk, n, v, d))
        for kk in EXTRA:
            if kk in V.indices:
                ctx.check(np.array_equal(vb[V.indices[kk]], v0[V.indices[kk]], equal_nan=True), "vector-nonorbital", lambda: "%s: row of %s %s -> %s" % (msg(), kk, v0[V.indices[kk]], vb[V.indices[kk]]))
        vba = B.basis.v_to_any_basis(vb, a)
        for n, o in enumerate(orbs, 1):
            check_orbit(ctx, a, lambda kk: vba[idx[kk + str(n)]][0], o, "vector-back", msg)
        # chain tables
        rows = [orbs_of(npl, i + s) for s in range(3)]
        D = pd.DataFrame([{kk + str(n): v for n, o in enumerate(r, 1) for kk, v in O.from_synth(a, *o).items()} for r in rows], index=[7, 5, 9])
        for kk, x in EXTRA.items():
            D[kk] = x[0] + np.arange(3)
        D['lnprobability'] = [-3.0, -1.0, -2.0]
        D0 = D.copy()
        R = P.basis.to_any_basis(D, b)
        ctx.check(D.equals(D0) and list(D.columns) == list(D0.columns) and snap(P) == s0, "table-source-changed", msg)
        want = {kk + str(n) for kk in b.split() for n in range(1, npl + 1)} | set(EXTRA) | {'lnprobability'}
        if ctx.check(set(R.columns) == want and list(R.index) == [7, 5, 9], "table-names", lambda: "%s: columns %s expected %s" % (msg(), sorted(R.columns), sorted(want))):
            for kk in list(EXTRA) + ['lnprobability']:
                ctx.check(np.array_equal(R[kk].values, D0[kk].values), "table-nonorbital", lambda: "%s %s" % (msg(), kk))
            for j, r in enumerate(rows):
                for n, o in enumerate(r, 1):
                    check_orbit(ctx, b, lambda kk: R[kk + str(n)].values[j], o, "table", msg)
            for n in range(1, npl + 1):
                for kk in b.split():
                    ctx.check(close(R[kk + str(n)].values[0], B[kk + str(n)].value, 1e-9, 1e-9), "table-vs-dict", lambda: "%s %s%d" % (msg(), kk, n))
        ctx.state("pair", *map(str, case))
        ctx.trans(6)
        ctx.trace(3)

    # ---------- to the synthesis basis and the print basis, keeping the originals
    def keep_cases():
        for a in O.BASES:
            for b in O.BASES + [PRINT]:
                for npl in (1, 2, 3):
                    for nov in (None, True, False):
                        yield [a, b, npl, nov]

    def keep_run(ctx, case):
        a, b, npl, nov = case
        orbs = orbs_of(npl, 0)
        msg = lambda: "keep: %s -> %s, %d planets, noVary=%s" % (a, b, npl, nov)
        P = make(a, orbs)
        s0 = snap(P)
        S = P.basis.to_synth(P, **({} if nov is None else dict(noVary=nov)))
        check_dict(ctx, S, 'per tp e w k', orbs, "synth", msg, leftovers=False)
        for n in range(1, npl + 1):
            for kk in a.split():
                x, y = S.get(kk + str(n)), P[kk + str(n)]
                ctx.check(x is not None and x.value == y.value and x.vary == y.vary and x.mcmcscale == y.mcmcscale, "synth-keeps-original", lambda: "%s %s%d" % (msg(), kk, n))
        ctx.check(snap(P) == s0, "source-changed", msg)
        s1 = snap(S)
        B = S.basis.from_synth(S, b)
        check_dict(ctx, B, b, orbs, "kept", msg, leftovers=False)
        ctx.check(set(B) >= set(S), "keep-loses", lambda: msg() + str(set(S) - set(B)))
        ctx.check(snap(S) == s1 and snap(P) == s0, "source-changed", msg)
        B = S.basis.from_synth(S, b, keep=False)
        if b != PRINT:
            check_dict(ctx, B, b, orbs, "notkept", msg)
        # chain tables, as the report and driver do it (basis of origin given by name)
        D = pd.DataFrame([{kk + str(n): v for n, o in enumerate(orbs_of(npl, s), 1) for kk, v in O.from_synth(a, *o).items()} for s in range(4)])
        D0 = D.copy()
        S2 = B.basis.to_synth(D, basis_name=a)
        R = S2 if b == 'per tp e w k' else B.basis.from_synth(S2, b)
        for s in range(4):
            for n, o in enumerate(orbs_of(npl, s), 1):
                check_orbit(ctx, b, lambda kk: R[kk + str(n)].values[s], o, "named-basis-table", msg)
        ctx.check(D.equals(D0), "table-source-changed", msg)
        ctx.state("keep", *map(str, case))
        ctx.trans(4)
        ctx.trace()

    # ---------- conversion histories: breadth-first over sequences of conversions of live objects
    def hist_cases():
        for a in O.BASES:
            for npl in (1, 2):
                yield [a, npl]

    def hist_run(ctx, case):
        a, npl = case
        orbs = orbs_of(npl, 0)
        depth = 3 if not THOROUGH else 4
        # live objects: a list; an operation converts object #j into basis b and appends the result
        def go(objs, hist):
            ctx.state("hist", a, npl, tuple(hist))
            if len(hist) >= depth:
                return
            for j in range(len(objs)):
                for b in O.BASES:
                    snaps = [snap(x) for x in objs]
                    src = objs[j]
                    new = src.basis.to_any_basis(src, b)
                    ctx.trans()
                    h = hist + [(j, b)]
                    msg = lambda: "start %s, %d planets; conversions (object, target): %s" % (a, npl, h)
                    if not ctx.check([snap(x) for x in objs] == snaps, "history-source-changed", msg):
                        return
                    check_dict(ctx, new, b, orbs, "history", msg)
                    go(objs + [new], h)
        go([make(a, orbs)], [])
        ctx.trace()

    return [Suite("pairs", pair_cases, pair_run), Suite("keep", keep_cases, keep_run), Suite("history", hist_cases, hist_run, timeout=600)]


if __name__ == "__main__":
    main("R02", suites, "model_checking",
         "state = (source basis, target basis, planets, orbits) or history of conversions of live objects; a trace is "
         "one conversion history executed on the real code and compared with closed-form values in every step",
         "9 bases (all ordered pairs incl. identity, plus the print basis) x 1-4 planets x 11 orbits x 3 containers; "
         "histories of 3 conversions of any live object")
