import itertools
import math
from vlib.core import *
from vlib.chainstats import ref, ref_gr


def suites():
    import importlib
    import numpy as np
    mc = importlib.import_module("radvel.mcmc")

    LOOSE = dict(minAfactor=-1e300, maxArchange=1e300, minTz=-1e300, maxGR=1e300)

    def verify(ctx, chains, tag, limits=False):
        keep = [c.copy() for c in chains]
        lst = list(chains)
        out = mc.convergence_calculate(lst, 1.0, **LOOSE)
        ctx.ev()
        mixed, af, ac, tau, gr, tz = out
        ctx.check(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(keep, chains)) and len(lst) == len(keep) and all(a is b for a, b in zip(lst, chains)), "chains-modified", lambda: str(tag))
        rgr, rtz, rtau, n = ref(chains)
        big = [max(abs(c[p]).max() for c in chains) > 1e5 for p in range(len(rgr))]      # cancellation in the means
        msg = lambda: "%s: chains %s" % (tag, [c.tolist() for c in chains] if n < 12 else "...")
        gr = np.asarray(gr, dtype=float)
        ctx.check(gr.shape == (len(rgr),), "gr-shape", msg)
        for p in range(len(rgr)):
            g = rgr[p]
            if g == g and not math.isinf(g):
                ctx.check(abs(gr[p] - g) <= 1e-7 * (1 + g), "gelman-rubin", lambda: "%s: parameter %d GR=%r, definition %r" % (msg(), p, gr[p], g))
                if len(chains) > 1:
                    ctx.check(len(tz) == len(rgr) and abs(tz[p] - rtz[p]) <= (1e-4 if big[p] else 1e-7) * (1 + abs(rtz[p])), "tz", lambda: "%s: parameter %d Tz=%r, definition %r" % (msg(), p, list(tz), rtz))
        tau, af, ac = np.ravel(tau), np.ravel(af), np.ravel(ac)
        good = all(t[0] == t[0] for t in rtau)
        for p in range(len(rgr)):
            t = rtau[p]
            if t[0] != t[0]:
                continue
            hit = [x for x in t if abs(tau[p] - x) <= 1e-7 * (1 + abs(x))]
            if ctx.check(bool(hit), "autocorrelation", lambda: "%s: parameter %d tau=%r, definition %r" % (msg(), p, tau[p], t)) and abs(hit[0]) > 1e-9:
                ctx.check(close(af[p], n / tau[p], rtol=1e-9), "autocorrelation-factor", lambda: "%s: %r, expected %r/%r" % (msg(), af[p], n, tau[p]))
                ctx.check(close(ac[p], abs(tau[p] - 1.0), rtol=1e-9, atol=1e-9), "autocorrelation-change", lambda: "%s: %r from 1.0 to %r" % (msg(), ac[p], tau[p]))
        degenerate = any(not (g == g) or math.isinf(g) for g in rgr) or not good
        if degenerate:
            ctx.check(not mixed, "degenerate-converged", lambda: "%s GR=%s Tz=%s tau=%s" % (msg(), gr, tz, tau))
        else:
            ctx.check(bool(mixed), "all-limits-met", lambda: "%s: infinitely loose limits but not converged: GR=%s Tz=%s af=%s" % (msg(), gr, tz, af))
        # no memory of an earlier autocorrelation time: the relative change is undefined, so no verdict of convergence
        out0 = mc.convergence_calculate(list(chains), 0, **LOOSE)
        ctx.check(not out0[0], "first-check-converged", lambda: "%s: converged without an earlier autocorrelation time" % msg())
        if limits and not degenerate:
            # the earlier autocorrelation times of a history of checks: one per parameter, some of them undefined
            base = tau * np.array([1.25, 0.5, 1.0][:len(tau)])
            for bad in itertools.product((None, 0.0, np.nan, np.inf), repeat=len(tau)):
                old = np.array([b if x is None else x for b, x in zip(base, bad)])
                r = mc.convergence_calculate(list(chains), old.copy(), **LOOSE)
                und = any(x is not None for x in bad)
                ctx.check(bool(r[0]) == (not und), "undefined-change", lambda: "%s: earlier autocorrelation times %s, times %s -> %s" % (tag, old.tolist(), tau.tolist(), r[0]))
                got = np.ravel(r[2])
                ctx.check(all(close(got[p], abs(tau[p] - old[p]) / old[p], rtol=1e-9, atol=1e-9) for p in range(len(tau)) if bad[p] is None), "autocorrelation-change", lambda: "%s: %s from %s to %s" % (tag, got.tolist(), old.tolist(), tau.tolist()))
                ctx.trans()
            worst = dict(maxGR=float(np.max(gr)), minAfactor=float(np.min(af)), maxArchange=float(np.max(ac)))
            if len(chains) > 1:
                worst['minTz'] = float(np.min(tz))
            keys = sorted(worst)
            for bits in itertools.product((True, False), repeat=len(keys)):
                lim = dict(LOOSE)
                for k, ok in zip(keys, bits):
                    s = 1 if k.startswith('max') else -1
                    s = s if ok else -s
                    lim[k] = worst[k] + s * (1e-6 * (abs(worst[k]) + 1e-3))
                r = mc.convergence_calculate(list(chains), 1.0, **lim)
                ctx.check(bool(r[0]) == all(bits), "verdict", lambda: "%s: limits met %s -> %s" % (msg(), dict(zip(keys, bits)), r[0]))
                ctx.trans()
        return gr, tz

    # ------------------------------------------------------------------ all tiny chains over a small alphabet
    SHAPES = [(1, 1, 2), (1, 2, 3), (2, 1, 2), (2, 2, 2), (2, 1, 3), (3, 1, 2), (2, 1, 4), (3, 2, 1), (1, 1, 6), (4, 1, 2), (2, 4, 1), (1, 3, 2), (3, 1, 3)]

    def tiny_cases():
        for sh in SHAPES:
            n = sh[0] * sh[1] * sh[2]
            alpha = 3 if n <= (9 if THOROUGH else 7) else 2
            for head in itertools.product(range(alpha), repeat=min(2, n)):
                yield [list(sh), alpha, list(head)]

    def tiny_run(ctx, case):
        (C, W, S), alpha, head = case
        n = C * W * S
        for tail in itertools.product(range(alpha), repeat=n - len(head)):
            v = np.array(head + list(tail), dtype=float).reshape(C, 1, W, S)
            verify(ctx, [v[i].copy() for i in range(C)], (C, W, S))
            ctx.state(C, W, S, v.tobytes())
            ctx.trace()

    # ------------------------------------------------------------------ several parameters, orderings, limits
    def bank():
        rng = np.random.RandomState(12345)
        out = {}
        n = 40
        out['white'] = rng.randn(4, 3, n)
        ar = np.zeros((4, 3, n))
        for i in range(1, n):
            ar[:, :, i] = 0.9 * ar[:, :, i - 1] + rng.randn(4, 3)
        out['ar'] = ar
        out['off'] = rng.randn(4, 3, n) + np.array([0, 0, 0, 3.0])[:, None, None]
        out['drift'] = rng.randn(4, 3, n) * 0.1 + np.linspace(0, 1, n)
        out['wide'] = rng.randn(4, 3, n) * np.array([1, 2, 3, 10.0])[:, None, None]
        out['far'] = 2450000.0 + 0.01 * rng.randn(4, 3, n)
        out['equalmeans'] = np.tile(rng.randn(1, 3, n), (4, 1, 1))
        out['alternating'] = np.tile(np.array([1.0, -1.0] * (n // 2)), (4, 3, 1)) * (1 + 0.01 * np.arange(12).reshape(4, 3, 1))
        out['constant'] = np.full((4, 3, n), 2.0)
        out['stuck'] = np.tile(np.arange(12.0).reshape(4, 3, 1), (1, 1, n))
        out['onestuck'] = out['white'].copy()
        out['onestuck'][0] = 1.0
        out['nan'] = out['white'].copy()
        out['nan'][0, 1, 5] = np.nan
        out['inf'] = out['white'].copy()
        out['inf'][0, 1, 5] = np.inf
        return out

    NAMES = ['white', 'ar', 'off', 'drift', 'wide', 'far', 'equalmeans', 'alternating', 'constant', 'stuck', 'onestuck', 'nan', 'inf']
    BAD = {'constant', 'stuck', 'onestuck', 'nan', 'inf'}

    def multi_cases():
        for r in (1, 2, 3):
            for sel in itertools.permutations(NAMES, r):
                if r == 3 and not THOROUGH and (len(set(sel) & BAD) == 0 and sel != tuple(sorted(sel))):
                    continue
                for C in ((1, 2, 4) if r < 3 else (3,)):
                    yield [list(sel), C]

    def multi_run(ctx, case):
        sel, C = case
        B = bank()
        chains = [np.array([B[s][e] for s in sel]) for e in range(C)]
        if set(sel) & {'nan', 'inf'}:
            out = mc.convergence_calculate([c.copy() for c in chains], 1.0, **LOOSE)
            ctx.check(not out[0], "degenerate-converged", lambda: "%s: %s" % (sel, out))
        elif 'constant' not in sel and set(sel) & BAD:
            verify(ctx, chains, tuple(sel))
        elif set(sel) & BAD:
            out = mc.convergence_calculate([c.copy() for c in chains], 1.0, **LOOSE)
            ctx.check(not out[0], "degenerate-converged", lambda: "%s with %d ensembles: %s" % (sel, C, out))
            if C > 1:
                for i, s in enumerate(sel):
                    if s not in BAD:
                        g, t = ref_gr([[float(v) for v in c[i].ravel()] for c in chains])
                        ctx.check(close(np.asarray(out[4])[i], g, rtol=1e-6) and close(np.asarray(out[5])[i], t, rtol=1e-4), "order-of-parameters", lambda: "%s: %s" % (sel, out))
        else:
            gr, tz = verify(ctx, chains, tuple(sel), limits=True)
            for perm in itertools.permutations(range(C)):
                o = mc.convergence_calculate([chains[i].copy() for i in perm], 1.0, **LOOSE)
                ctx.check(close(o[4], gr, rtol=1e-9) and close(o[5], tz, rtol=1e-4), "order-of-ensembles", lambda: "%s %s: %s %s vs %s %s" % (sel, perm, o[4], o[5], gr, tz))
                ctx.trans()
            # units do not matter
            o = mc.convergence_calculate([c * 8.0 for c in chains], 1.0, **LOOSE)
            ctx.check(close(o[4], gr, rtol=1e-9) and close(o[5], tz, rtol=1e-9), "scale-invariance", lambda: str(sel))
        ctx.state("multi", tuple(sel), C)
        ctx.trace()

    # ------------------------------------------------------------------ every length of chain around round numbers
    def length_cases():
        for n in sorted({m + d for m in (8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024) + ((2000, 2048, 4096, 5000) if THOROUGH else ()) for d in (-1, 0, 1)}):
            for C in (1, 2, 3):
                yield [n, C]

    def length_run(ctx, case):
        n, C = case
        rng = np.random.RandomState(n)
        w = rng.randn(C, 2, n)
        ar = w.copy()
        for i in range(1, n):
            ar[:, :, i] += 0.8 * ar[:, :, i - 1]
        verify(ctx, [np.array([ar[c], 50.0 + w[c], ar[c] + np.linspace(0, 1, n)]) for c in range(C)], "%d steps of 2 walkers in %d ensembles" % (n, C), limits=n in (49, 50, 127, 128))
        many = rng.randn(C, 2, n, 3)
        verify(ctx, list(many), "3 steps of %d walkers in %d ensembles" % (n, C))
        if n < 60:
            verify(ctx, list(rng.randn(C, n, 2, 12)), "%d parameters in %d ensembles" % (n, C))
        ctx.state("length", n, C)
        ctx.trace()

    # ------------------------------------------------------------------ too short, and histories of calls
    def short_run(ctx, case):
        for C in (1, 2, 3):
            for lim in (LOOSE, dict(minAfactor=40, maxArchange=.03, minTz=1000, maxGR=1.01)):
                try:
                    out = mc.convergence_calculate([np.ones((2, 1, 1)) * i for i in range(C)], 1.0, **lim)
                    ctx.check(not out[0], "too-short-converged", lambda: "%d ensembles of 1 sample" % C)
                except AssertionError:
                    pass
                ctx.state("short", C, str(lim))

    def hist_run(ctx, case):
        B = bank()
        first = {}
        for hist in itertools.product(range(4), repeat=3):
            for h in hist:
                C, name = [(4, 'white'), (1, 'ar'), (2, 'far'), (3, 'constant')][h]
                o = mc.convergence_calculate([np.array([B[name][e], B['white'][e]]) for e in range(C)], 1.0, **LOOSE)
                key = repr([np.asarray(x, dtype=float).tolist() for x in o])
                ctx.check(first.setdefault(h, key) == key, "call-history", lambda: str(hist))
                ctx.trans()
            ctx.state("hist", hist)
            ctx.trace()

    return [Suite("lengths", length_cases, length_run), Suite("tiny", tiny_cases, tiny_run), Suite("multi", multi_cases, multi_run), Suite("short", [[0]], short_run), Suite("history", [[0]], hist_run)]


if __name__ == "__main__":
    main("R24", suites, "model_checking",
         "state = complete set of chains (every value of every sample); each is given to the real convergence_calculate and compared with the definitions of Ford (2006) "
         "and Sokal's windowed autocorrelation time computed independently; every subset of limits is set just inside / just outside",
         "all chains over a 2-3 letter alphabet for 13 shapes (ensembles x walkers x steps, up to 9 samples); permutations of up to 3 of 13 structured parameters x 1-4 ensembles, "
         "all permutations of ensembles, all subsets of violated limits")
