import itertools
import math
from vlib.core import *
from vlib import oracle as O
from vlib import models as M

INF = math.inf
HN = M.HN['Celerite']


def suites():
    import numpy as np
    from radvel import Parameter, Parameters, RVModel
    from radvel.likelihood import CeleriteLikelihood, GPLikelihood, RVLikelihood, CompositeLikelihood
    from radvel.posterior import Posterior
    T0 = M.T0
    BASE = [0.4, 3.1, 4.0, 9.7, 15.2, 16.0, 22.5]

    def dataset(order, dup=False):
        if len(order) > len(BASE):
            n = len(order)
            t = np.sort((7.13 * np.arange(n) + 2.1 * np.sin(1.7 * np.arange(n))) % (3.0 * n))
        else:
            t = np.array([BASE[i] for i in range(len(order))])
        if dup and len(t) > 2:
            t[2] = t[1]
        j = np.arange(len(t))
        v = 9 * np.sin(1.3 * t) + 3 * np.cos(2.3 * j)
        e = 1.0 + 0.4 * (j % 3)
        o = list(order)
        return T0 + t[o], v[o], e[o]

    def make(order, h, jit, gamma=1.5, suffix='', dup=False):
        P = Parameters(1, basis='per tp e w k')
        for k, v in zip(('per', 'tp', 'e', 'w', 'k'), M.ORB[0]):
            P[k + '1'] = Parameter(value=v)
        P['dvdt'] = Parameter(value=0.1)
        P['gamma' + suffix] = Parameter(value=gamma)
        P['jit' + suffix] = Parameter(value=jit)
        for k, v in h.items():
            P[k + suffix] = Parameter(value=v)
        mod = RVModel(P, time_base=T0 + 2.0)
        t, v, e = dataset(order, dup)
        return CeleriteLikelihood(mod, t, v, e, [k + suffix for k in HN], suffix=suffix), (t, v, e)

    def resid(d, gamma):
        t, v, e = d
        return v - gamma - O.rv(t, *M.ORB[0]) - 0.1 * (t - T0 - 2.0)

    def ref_ll(d, h, jit, gamma=1.5):
        t, v, e = d
        return O.mvn_loglike(resid(d, gamma), M.ref_kernel('Celerite', h, t, t) + np.diag(e ** 2 + jit ** 2))

    def ref_pred(d, h, jit, x, gamma=1.5):
        t, v, e = d
        K = M.ref_kernel('Celerite', h, t, t) + np.diag(e ** 2 + jit ** 2)
        Ks, Kss = M.ref_kernel('Celerite', h, x, t), M.ref_kernel('Celerite', h, x, x)
        sol = np.linalg.solve(K, np.column_stack([resid(d, gamma)[:, None], Ks.T]))
        return Ks @ sol[:, 0], np.diag(Kss) - np.einsum('ij,ji->i', Ks, sol[:, 1:])

    def xsets(d):
        t = d[0]
        return [np.sort(t), t.copy(), np.array([T0 + 2.2]), np.array([T0 + 50.0, T0 - 3.0, T0 + 4.5, T0 + 4.0]), T0 + np.linspace(-2, 25, len(t))]

    def pred_ok(ctx, like, d, h, jit, msg, gamma=1.5, which=None):
        for q, x in enumerate(xsets(d)):
            if which is not None and q not in which:
                continue
            x0 = x.copy()
            mu, sd = like.predict(x)
            m, var = ref_pred(d, h, jit, x, gamma)
            sc = max(1.0, abs(h['gp_B']))
            ctx.check(close(mu, m, 1e-6, 1e-6 * math.sqrt(sc)), "predict-mean", lambda: "%s point set %d: %s vs %s" % (msg(), q, mu, m))
            ctx.check(len(sd) == len(x) and bool(np.all(np.abs(sd ** 2 - var) < 1e-7 * sc)), "predict-std", lambda: "%s point set %d: %s vs %s" % (msg(), q, sd, np.sqrt(var)))
            ctx.check(np.array_equal(x, x0), "predict-input-modified", msg)

    # series of every length around round numbers, in order of time, reversed and mixed
    def size_cases():
        for n in sorted({m + d for m in (10, 16, 20, 32, 50, 64, 100, 128, 200, 256) + ((500, 512, 1000, 1024) if THOROUGH else ()) for d in (-1, 0, 1)}):
            for o in ('sorted', 'reversed', 'mixed'):
                yield [n, o]

    def size_run(ctx, case):
        n, o = case
        h = {k: VALS[k][1] for k in HN}
        order = {'sorted': list(range(n)), 'reversed': list(range(n))[::-1], 'mixed': [int(i) for i in np.argsort(np.sin(2.7 * np.arange(n)))]}[o]
        like, d = make(order, h, 1.7, suffix='_j')
        want = ref_ll(d, h, 1.7)
        ctx.check(close(like.logprob(), want, 1e-7, 1e-6), "size-loglike", lambda: "%s: %r vs %r" % (case, like.logprob(), want))
        pred_ok(ctx, like, d, h, 1.7, lambda: str(case))
        ctx.check(close(like.logprob(), want, 1e-7, 1e-6), "size-loglike-after-predict", lambda: str(case))
        ctx.state('size', n, o)

    # hyperparameter lattice
    VALS = dict(gp_B=[0.3, 36.0, 900.0], gp_C=[0.0, 0.4, 5.0], gp_L=[0.7, 9.0, 200.0], gp_Prot=[0.9, 7.3, 60.0])

    def lat_cases():
        for hv in itertools.product(*[VALS[k] for k in HN]):
            for o in ([0], [0, 1], [0, 1, 2, 3, 4, 5, 6], [5, 1, 3, 0, 6, 2, 4]):
                yield [list(hv), o]

    def lat_run(ctx, case):
        hv, o = case
        h = dict(zip(HN, hv))
        for jit in (0.0, 1.7):
            for sfx in ('', '_hires_rj'):
                for dup in (False, True):
                    msg = lambda: "%s order %s jit %s suffix %r dup %s" % (h, o, jit, sfx, dup)
                    like, d = make(o, h, jit, suffix=sfx, dup=dup)
                    want = ref_ll(d, h, jit)
                    got = like.logprob()
                    ctx.check(close(got, want, 1e-7, 1e-6), "loglike", lambda: "%s: %r vs %r" % (msg(), got, want))
                    pred_ok(ctx, like, d, h, jit, msg)
                    mu = ref_pred(d, h, jit, like.x)[0]
                    so = np.argsort(d[0], kind='stable')
                    dd = tuple(x[so] for x in d)
                    ctx.check(close(like.residuals(), resid((like.x, like.y, like.yerr), 1.5) - mu, 1e-6, 1e-5 * max(1, h['gp_B'] ** 0.5)), "residuals", msg)
                    ctx.check(close(like.errorbars(), np.sqrt(like.yerr ** 2 + jit ** 2)), "errorbars", msg)
                    ctx.check(sorted(zip(*d)) == sorted(zip(like.x, like.y, like.yerr)), "observations", msg)
                    ctx.check(close(like.logprob(), got, 1e-12, 1e-10), "loglike-after-predict", msg)
                    ctx.check(all(like.params[n + sfx].value == v for n, v in h.items()), "params-changed", msg)
                    ctx.state(*hv, tuple(o), jit, sfx, dup)
                    ctx.trace()

    # every order of the observations
    def perm_cases():
        for n in ((2, 3, 4, 5, 6, 7) if THOROUGH else (2, 3, 4, 5, 6)):
            for first in range(n):
                for dup in (False, True):
                    yield [n, first, dup]

    def perm_run(ctx, case):
        n, first, dup = case
        h = dict(gp_B=36.0, gp_C=0.4, gp_L=9.0, gp_Prot=7.3)
        for rest in itertools.permutations([i for i in range(n) if i != first]):
            o = [first] + list(rest)
            like, d = make(o, h, 1.2, dup=dup)
            t0 = [x.copy() for x in d]
            want = ref_ll(d, h, 1.2)
            got = like.logprob()
            ctx.check(close(got, want, 1e-8, 1e-7), "loglike-order", lambda: "observations in order %s: %r vs %r" % (o, got, want))
            pred_ok(ctx, like, d, h, 1.2, lambda: "order %s" % (o,), which=(1, 3))
            ctx.check(close(like.logprob(), want, 1e-8, 1e-7), "loglike-order-after-predict", lambda: "observations in order %s" % (o,))
            ctx.check(all(np.array_equal(a, b) for a, b in zip(d, t0)), "data-modified", lambda: str(o))
            ctx.state("perm", tuple(o), dup)
            ctx.trace()

    # values outside the legitimate range
    def bad_cases():
        for n in HN:
            for v in ('0.0', '-2.0', '-0.5', 'nan', 'inf', '-100.0'):
                yield [n, v]

    def bad_run(ctx, case):
        n, v = case
        good = dict(gp_B=36.0, gp_C=0.4, gp_L=9.0, gp_Prot=7.3)
        for o in ([0, 1, 2, 3, 4, 5, 6], [3, 1, 0, 2]):
            like, d = make(o, good, 1.1)
            names = like.name_vary_params()
            x0 = np.array(like.get_vary_params())
            x1 = x0.copy()
            x1[names.index(n)] = float(v)
            want = ref_ll(d, good, 1.1)
            for rep in range(2):
                like.set_vary_params(x1)
                got = float(like.logprob())
                ctx.check(not got == INF, "bad-value", lambda: "%s: %r" % (case, got))
                if v == 'nan' or (n == 'gp_B' and v == '-100.0'):
                    ctx.check(got == -INF, "impossible-covariance", lambda: "%s order %s: %r, expected -inf" % (case, o, got))
                if v == '0.0' and n == 'gp_B':
                    hh = dict(good, gp_B=0.0)
                    ctx.check(close(got, ref_ll(d, hh, 1.1), 1e-8, 1e-6), "zero-amplitude", lambda: "%s: %r, expected %r" % (case, got, ref_ll(d, hh, 1.1)))
                like.set_vary_params(x0)
                back = like.logprob()
                ctx.check(close(back, want, 1e-8, 1e-6), "history-after-impossible", lambda: "%s: %r, expected %r" % (case, back, want))
            pred_ok(ctx, like, d, good, 1.1, lambda: str(case))
        ctx.state("bad", *case)
        ctx.trace()

    # histories: one or two celerite instruments, one plain
    def hist_cases():
        for conf in ('single', 'unsorted', 'composite', 'mixed'):
            for first in range(8):
                yield [conf, first, 5 if THOROUGH else 4]

    def hist_run(ctx, case):
        conf, first, depth = case
        parts = {'single': [('', range(7), 1)], 'unsorted': [('', [4, 1, 5, 0, 3, 2], 1)],
                 'composite': [('_j', [2, 0, 1, 3], 1), ('_k', [1, 4, 2, 3, 0], 1)], 'mixed': [('_j', [3, 2, 1, 0], 1), ('_k', [1, 0, 2], 0)]}[conf]
        base = dict(zip(('per1', 'tp1', 'e1', 'w1', 'k1'), M.ORB[0]))
        base['dvdt'] = 0.1
        for i, (s, o, gp) in enumerate(parts):
            base['gamma' + s] = 1.5 + i
            base['jit' + s] = 1.1 + i
            if gp:
                for n, v in zip(HN, (36.0, 0.4, 9.0, 7.3)):
                    base[n + s] = v * (1 + 0.2 * i)

        def fresh():
            P = Parameters(1, basis='per tp e w k')
            for k, v in base.items():
                P[k] = Parameter(value=v)
            mod = RVModel(P, time_base=T0 + 2.0)
            likes = []
            for s, o, gp in parts:
                t, v, e = dataset(list(o))
                likes.append(CeleriteLikelihood(mod, t, v, e, [n + s for n in HN], suffix=s) if gp else RVLikelihood(mod, t, v, e, suffix=s))
            return Posterior(CompositeLikelihood(likes) if len(likes) > 1 else likes[0]), likes

        def point(q):
            v = dict(base)
            for n in base:
                if q == 1 and n.startswith('gp_'):
                    v[n] = base[n] * 1.7
                if q == 1 and n.startswith(('jit', 'gamma')):
                    v[n] = base[n] + 2.0
                if q == 2 and n.startswith('jit'):
                    v[n] = 0.0
                if q == 3 and n == 'gp_B' + parts[0][0]:
                    v[n] = -1e4
            return v

        def ref(v):
            out = []
            for i, (s, o, gp) in enumerate(parts):
                d = dataset(list(o))
                if gp:
                    h = {n: v[n + s] for n in HN}
                    out.append(-INF if h['gp_B'] < 0 else ref_ll(d, h, v['jit' + s], v['gamma' + s]))
                else:
                    out.append(O.gauss_loglike(resid(d, v['gamma' + s]), d[2] ** 2 + v['jit' + s] ** 2))
            return out
        P = [point(q) for q in range(4)]
        R = [ref(v) for v in P]
        for rest in itertools.product(range(8), repeat=depth - 1):
            hist = (first,) + rest
            post, likes = fresh()
            names = post.name_vary_params()
            q = 0
            for j, op in enumerate(hist):
                m = lambda: "%s after %s" % (conf, hist[:j + 1])
                if op < 4:
                    q = op
                    got = post.logprob_array(np.array([P[q][n] for n in names]))
                    ctx.check(close(got, sum(R[q]), 1e-8, 1e-6), "history-loglike", lambda: "%s: %r, expected %r" % (m(), got, sum(R[q])))
                elif op == 4:
                    q = 1
                    for n in names:
                        post.params[n].value = P[q][n]
                    post.vector.dict_to_vector()
                else:
                    for i, l in enumerate(likes):
                        if not parts[i][2] or not math.isfinite(R[q][i]):
                            continue
                        s, o, gp = parts[i]
                        d = dataset(list(o))
                        if op == 7:
                            l.residuals()
                        else:
                            x = T0 + np.array([2.2, 40.0, 1.0]) if op == 5 else d[0]
                            mu, sd = l.predict(x)
                            rm, var = ref_pred(d, {n: P[q][n + s] for n in HN}, P[q]['jit' + s], x, P[q]['gamma' + s])
                            ctx.check(close(mu, rm, 1e-6, 1e-6) and bool(np.all(np.abs(sd ** 2 - var) < 1e-6)), "history-predict", lambda: "%s: %s vs %s" % (m(), (mu, sd), (rm, np.sqrt(var))))
                got = [l.logprob() for l in likes]
                ctx.check(close(got, R[q], 1e-8, 1e-6), "history-parts", lambda: "%s at point %d: %s, expected %s" % (m(), q, got, R[q]))
                ctx.trans()
            ctx.state(conf, hist)
            ctx.trace()
            if ctx._vsigs:
                break

    return [Suite("sizes", size_cases, size_run), M.units_suite([dict(basis='per tc secosw sesinw k', npl=1, insts=i, trend=['dvdt'], order='first') for i in ([M.inst('j', 9, 'gp:Celerite')], [M.inst('j', 7, 'gp:Celerite', sort=False, decorr=['air']), M.inst('k', 6)], [M.inst('j', 8, 'gp:Celerite', sort=False, decorr=['air', 'temp'])])]), Suite("lattice", lat_cases, lat_run), Suite("orders", perm_cases, perm_run), Suite("impossible", bad_cases, bad_run),
            Suite("histories", hist_cases, hist_run, timeout=600)]


if __name__ == "__main__":
    main("R08", suites, "model_checking",
         "state = hyperparameter lattice point x data order x jitter, an order of the observations, or a history of operations; every one is executed on the "
         "real CeleriteLikelihood and compared with a dense multivariate normal with the documented kernel",
         "3 values per hyperparameter x 4 data orders x 2 jitters; ALL permutations of up to 6 (7 thorough) observations with and without "
         "duplicate times; all histories of length 4 (5 thorough) over 8 operations for 4 configurations")
