import itertools
import math
from vlib.core import *
from vlib import oracle as O
from vlib import models as M

KERN = ['SqExp', 'Per', 'QuasiPer']
INF, NAN = math.inf, math.nan


def suites():
    import numpy as np
    import radvel
    from radvel import Parameter, Parameters, RVModel
    from radvel.likelihood import GPLikelihood, RVLikelihood, CompositeLikelihood
    from radvel.posterior import Posterior
    T0 = M.T0

    def times(shape):
        if shape[0] == 'n':      # series of that length, not in order of time
            n = int(shape[1:])
            j = np.arange(n)
            return list((7.13 * j + 2.1 * np.sin(1.7 * j)) % (3.0 * n))
        return {'one': [3.0], 'two': [1.0, 4.5], 'seven': [0.3, 1.1, 2.9, 4.4, 7.0, 11.5, 12.1], 'dup': [0.3, 1.1, 1.1, 4.4, 4.4, 9.0],
                'unsorted': [5.1, 0.2, 9.9, 3.3, 7.4, 1.0]}[shape]

    def dataset(shape, shift=0.0):
        t = T0 + np.array(times(shape)) + shift
        j = np.arange(len(t))
        return t, 12 * np.sin(t - T0) + 3 * np.cos(2.3 * j) + 4, 1.0 + 0.4 * (j % 3)

    def make(kernel, shape, h, jit, gamma=1.5, suffix='', npl=1, hs=None):
        P = Parameters(npl, basis='per tp e w k')
        for n in range(1, npl + 1):
            for k, v in zip(('per', 'tp', 'e', 'w', 'k'), M.ORB[n - 1]):
                P[k + str(n)] = Parameter(value=v)
        hs = suffix if hs is None else hs
        P['dvdt'] = Parameter(value=0.1)
        P['gamma' + suffix] = Parameter(value=gamma)
        P['jit' + suffix] = Parameter(value=jit)
        for k, v in h.items():
            P[k + hs] = Parameter(value=v)
        mod = RVModel(P, time_base=T0 + 2.0)
        t, v, e = dataset(shape)
        return GPLikelihood(mod, t, v, e, [k + hs for k in M.HN[kernel]], suffix=suffix, kernel_name=kernel)

    def ref_resid(shape, gamma, npl=1, shift=0.0, dvdt=0.1):
        t, v, e = dataset(shape, shift)
        m = np.zeros(len(t))
        for n in range(npl):
            m = m + O.rv(t, *M.ORB[n])
        return v - gamma - m - dvdt * (t - T0 - 2.0)

    def valid(kernel, h):
        """None: no reference (any refusal is fine); True: a legitimate covariance; False: impossible"""
        vs = [h[k] for k in M.HN[kernel]]
        if any(not math.isfinite(v) for v in vs):
            return None if any(math.isinf(v) for v in vs) and not any(math.isnan(v) for v in vs) and kernel != 'QuasiPer' else False
        if kernel == 'QuasiPer':
            return all(v >= 0 for v in vs)
        return all(h[k] != 0 for k in M.HN[kernel] if k != 'gp_amp')

    def ref_ll(kernel, shape, h, jit, gamma, **kw):
        t, v, e = dataset(shape, kw.get('shift', 0.0))
        ok = valid(kernel, h)
        if ok is None:
            return None
        if not ok:
            return -INF
        K = M.ref_kernel(kernel, h, t, t) + np.diag(e ** 2 + jit ** 2)
        return O.mvn_loglike(ref_resid(shape, gamma, **kw), K)

    def ref_pred(kernel, shape, h, jit, gamma, x, **kw):
        t, v, e = dataset(shape, kw.get('shift', 0.0))
        K = M.ref_kernel(kernel, h, t, t) + np.diag(e ** 2 + jit ** 2)
        Ks = M.ref_kernel(kernel, h, x, t)
        Kss = M.ref_kernel(kernel, h, x, x)
        r = ref_resid(shape, gamma, **kw)
        sol = np.linalg.solve(K, np.column_stack([r[:, None], Ks.T]))
        return Ks @ sol[:, 0], np.diag(Kss) - np.einsum('ij,ji->i', Ks, sol[:, 1:])

    def xsets(shape):
        t = T0 + np.array(times(shape))
        return [t, t[::-1].copy(), np.array([T0 + 2.2]), T0 + np.linspace(-5, 30, len(t)), T0 + np.array([50.0, -3.0, 4.5, 4.5]),
                np.concatenate([t, t + 0.5])]

    VALS = dict(gp_length=[0.4, 3.0, 60.0], gp_amp=[0.0, 2.5, 40.0], gp_per=[0.9, 6.5, 300.0], gp_perlength=[0.2, 0.7, 5.0], gp_explength=[0.5, 11.0, 400.0])

    def lat_cases():
        for k in KERN:
            for shape in ('one', 'two', 'seven', 'dup', 'unsorted'):
                for hv in itertools.product(*[VALS[x] for x in M.HN[k]]):
                    yield [k, shape, list(hv)]

    def pred_ok(ctx, like, kernel, shape, h, jit, gamma, msg, **kw):
        for q, x in enumerate(xsets(shape)):
            x0 = x.copy()
            mu, sd = like.predict(x)
            m, var = ref_pred(kernel, shape, h, jit, gamma, x, **kw)
            sc = max(1.0, h['gp_amp'] ** 2)
            ctx.check(close(mu, m, 1e-7, 1e-7 * math.sqrt(sc)), "predict-mean", lambda: "%s at point set %d: %s vs %s" % (msg(), q, mu, m))
            ctx.check(len(sd) == len(x) and bool(np.all(np.abs(np.nan_to_num(sd) ** 2 - var) < 1e-8 * sc)), "predict-std", lambda: "%s at point set %d: %s vs %s" % (msg(), q, sd, np.sqrt(var)))
            ctx.check(np.array_equal(x, x0), "predict-input-modified", msg)

    def lat_run(ctx, case):
        k, shape, hv = case
        h = dict(zip(M.HN[k], hv))
        for jit in (0.0, 1.7):
            for sfx in ('', '_j', '_hires_rj'):
                msg = lambda: "%s %s %s jit %s suffix %r" % (k, shape, h, jit, sfx)
                like = make(k, shape, h, jit, suffix=sfx)
                want = ref_ll(k, shape, h, jit, 1.5)
                got = like.logprob()
                ctx.check(close(got, want, 1e-8, 1e-6), "loglike", lambda: "%s: %r vs %r" % (msg(), got, want))
                if sfx != '_j':
                    pred_ok(ctx, like, k, shape, h, jit, 1.5, msg)
                    t = dataset(shape)[0]
                    mu = ref_pred(k, shape, h, jit, 1.5, t)[0]
                    ctx.check(close(like.residuals(), ref_resid(shape, 1.5) - mu, 1e-7, 1e-6 * max(1, h['gp_amp'])), "residuals", msg)
                    ctx.check(close(like.errorbars(), np.sqrt(dataset(shape)[2] ** 2 + jit ** 2)), "errorbars", msg)
                    ctx.check(close(like.logprob(), want, 1e-8, 1e-6), "loglike-after-predict", lambda: "%s: %r vs %r" % (msg(), like.logprob(), want))
                ctx.check(all(like.params[n + sfx].value == v for n, v in h.items()), "params-changed", msg)
                ctx.state(k, shape, *hv, jit, sfx)
                ctx.trace()

    # series of every length around round numbers
    def size_cases():
        for n in sorted({m + d for m in (10, 16, 20, 32, 50, 64, 100, 128, 200, 256) + ((500, 512, 1000, 1024) if THOROUGH else ()) for d in (-1, 0, 1)}):
            for k in KERN:
                yield [k, 'n%d' % n]

    def size_run(ctx, case):
        k, shape = case
        h = {x: VALS[x][1] for x in M.HN[k]}
        msg = lambda: str(case)
        like = make(k, shape, h, 1.7, suffix='_j')
        want = ref_ll(k, shape, h, 1.7, 1.5)
        ctx.check(close(like.logprob(), want, 1e-8, 1e-6), "size-loglike", lambda: "%s: %r vs %r" % (msg(), like.logprob(), want))
        pred_ok(ctx, like, k, shape, h, 1.7, 1.5, msg)
        t = dataset(shape)[0]
        ctx.check(close(like.residuals(), ref_resid(shape, 1.5) - ref_pred(k, shape, h, 1.7, 1.5, t)[0], 1e-7, 1e-6), "size-residuals", msg)
        ctx.check(close(like.logprob(), want, 1e-8, 1e-6), "size-loglike-after-predict", msg)
        ctx.state(*case)

    # values outside the legitimate range
    def bad_cases():
        for k in KERN:
            for n in M.HN[k]:
                for v in ('0.0', '-2.0', 'nan', 'inf', '-inf', '1e-200', '1e200'):
                    yield [k, n, v]

    def bad_run(ctx, case):
        k, n, v = case
        good = {x: M.HV[x] for x in M.HN[k]}
        h = dict(good)
        h[n] = float(v)
        for shape in ('one', 'seven', 'dup'):
            like = make(k, shape, good, 1.1)
            names = like.name_vary_params()
            x0 = np.array(like.get_vary_params())
            x1 = x0.copy()
            x1[names.index(n)] = h[n]
            ref0 = ref_ll(k, shape, good, 1.1, 1.5)
            want = None if v in ('1e-200', '1e200') else ref_ll(k, shape, h, 1.1, 1.5)
            for rep in range(2):
                like.set_vary_params(x1)
                got = like.logprob()
                ctx.check(isinstance(float(got), float) and not got == INF, "bad-value", lambda: "%s %s: %r" % (case, shape, got))
                if want is not None:
                    ctx.check(close(got, want, 1e-8, 1e-6), "impossible-covariance", lambda: "%s %s: %r, expected %r" % (case, shape, got, want))
                try:
                    like.predict(np.array([T0, T0 + 1.0]))
                except (ValueError, np.linalg.LinAlgError):
                    pass
                like.set_vary_params(x0)
                back = like.logprob()
                ctx.check(close(back, ref0, 1e-8, 1e-6), "history-after-impossible", lambda: "%s %s: %r, expected %r" % (case, shape, back, ref0))
            pred_ok(ctx, like, k, shape, good, 1.1, 1.5, lambda: str(case))
        # fresh object built at the bad value, then moved to the good one
        like = make(k, 'seven', h, 1.1)
        got = like.logprob()
        want = None if v in ('1e-200', '1e200') else ref_ll(k, 'seven', h, 1.1, 1.5)
        if want is not None:
            ctx.check(close(got, want, 1e-8, 1e-6), "impossible-fresh", lambda: "%s: %r, expected %r" % (case, got, want))
        like.params[n].value = good[n]
        like.vector.dict_to_vector()
        ctx.check(close(like.logprob(), ref_ll(k, 'seven', good, 1.1, 1.5), 1e-8, 1e-6), "fresh-then-good", lambda: str(case))
        ctx.state("bad", *case)
        ctx.trace()

    # all histories of evaluations, predictions and parameter moves
    def hist_cases():
        depth = 5 if THOROUGH else 4
        for conf in ('SqExp', 'Per', 'QuasiPer', 'comp-own', 'comp-shared', 'comp-mixed', 'comp-kernels'):
            for first in range(9):
                yield [conf, first, depth, 'free']
                yield [conf, first, depth - 1, 'fixed']
                yield [conf, first, depth - 1, 'mixed']

    def hist_run(ctx, case):
        conf, first, depth, mode = case
        # points: (name -> value)
        if not conf.startswith('comp'):
            parts = [(conf, 'seven', '', '')]
        elif conf == 'comp-own':
            parts = [('QuasiPer', 'seven', '_j', '_j'), ('QuasiPer', 'unsorted', '_k', '_k')]
        elif conf == 'comp-shared':
            parts = [('QuasiPer', 'seven', '_j', ''), ('QuasiPer', 'two', '_k', '')]
        elif conf == 'comp-mixed':
            parts = [('Per', 'seven', '_j', '_j'), (None, 'dup', '_k', '')]
        else:
            parts = [('SqExp', 'seven', '_j', '_j'), ('Per', 'dup', '_k', '_k')]
        base = dict(zip(('per1', 'tp1', 'e1', 'w1', 'k1'), M.ORB[0]))
        base['dvdt'] = 0.1
        for i, (k, sh, s, hs) in enumerate(parts):
            base['gamma' + s] = 1.5 + i
            base['jit' + s] = 1.1 + i
            for n in (M.HN[k] if k else []):
                base.setdefault(n + hs, M.HV[n] * (1 + 0.2 * i))

        def fresh():
            P = Parameters(1, basis='per tp e w k')
            for j, (k, v) in enumerate(base.items()):
                # hyperparameters (and noise terms) held fixed by the user and edited through the dictionary
                P[k] = Parameter(value=v, vary=not (mode == 'fixed' and k.startswith(('gp_', 'jit')) or mode == 'mixed' and j % 2))
            mod = RVModel(P, time_base=T0 + 2.0)
            likes = []
            for i, (k, sh, s, hs) in enumerate(parts):
                t, v, e = dataset(sh)
                likes.append(GPLikelihood(mod, t, v, e, [n + hs for n in M.HN[k]], suffix=s, kernel_name=k) if k else RVLikelihood(mod, t, v, e, suffix=s))
            return Posterior(CompositeLikelihood(likes) if len(likes) > 1 else likes[0]), likes

        def point(q):
            v = dict(base)
            for n in base:
                if q == 1 and n.startswith('gp_'):
                    v[n] = base[n] * 1.7
                if q == 1 and n.startswith(('jit', 'gamma')):
                    v[n] = base[n] + 2.0
                if q == 2 and n.startswith('gp_amp'):
                    v[n] = 0.0
                if q == 3 and n.startswith('gp_') and n == [x for x in base if x.startswith('gp_per') or x.startswith('gp_length')][-1]:
                    v[n] = math.nan
            return v

        def ref(v):
            tot = []
            for i, (k, sh, s, hs) in enumerate(parts):
                if k is None:
                    t, vv, e = dataset(sh)
                    tot.append(O.gauss_loglike(ref_resid(sh, v['gamma' + s], dvdt=v['dvdt']), e ** 2 + v['jit' + s] ** 2))
                else:
                    tot.append(ref_ll(k, sh, {n: v[n + hs] for n in M.HN[k]}, v['jit' + s], v['gamma' + s]))
            return tot
        P = [point(q) for q in range(4)]
        R = [ref(v) for v in P]
        XS = [T0 + np.array([2.2, 40.0]), dataset('seven')[0]]
        pc = {}

        def predref(q, xi):
            if (q, xi) not in pc:
                pc[q, xi] = [ref_pred(k, sh, {n: P[q][n + hs] for n in M.HN[k]}, P[q]['jit' + s], P[q]['gamma' + s], XS[xi]) if k else None for k, sh, s, hs in parts]
            return pc[q, xi]
        # operations: 0-3 move to point (by array), 4 move to point 0 by dictionary, 5,6 predict at X0/X1, 7 residuals, 8 move by dictionary to point 1
        post, likes = None, None

        def step(op, q, post, likes, names, h):
            if op in (0, 1, 2, 3):
                q = op
                if mode != 'free':
                    for n in base:
                        if n not in names:
                            post.params[n].value = P[q][n]
                    post.vector.dict_to_vector()
                got = post.logprob_array(np.array([P[q][n] for n in names]))
                want = sum(R[q])
                ctx.check(close(got, want, 1e-8, 1e-6), "history-loglike", lambda: "%s after %s: %r, expected %r" % (conf, h, got, want))
            elif op in (4, 8):
                q = 0 if op == 4 else 1
                for n in base:
                    post.params[n].value = P[q][n]
                post.vector.dict_to_vector()
            elif op in (5, 6):
                ok = all(math.isfinite(r) for r in R[q])
                for i, l in enumerate(likes):
                    if parts[i][0] is None:
                        continue
                    try:
                        mu, sd = l.predict(XS[op - 5])
                    except (ValueError, np.linalg.LinAlgError):
                        ctx.check(not ok, "predict-refused", lambda: "%s after %s" % (conf, h))
                        continue
                    if ok:
                        m, var = predref(q, op - 5)[i]
                        ctx.check(close(mu, m, 1e-7, 1e-6) and close(sd, np.sqrt(var), 1e-6, 1e-6), "history-predict", lambda: "%s after %s: %s %s vs %s %s" % (conf, h, mu, sd, m, np.sqrt(var)))
            else:
                for i, l in enumerate(likes):
                    if math.isfinite(R[q][i]):
                        l.residuals()
                        l.errorbars()
            got = [l.logprob() for l in likes]
            ctx.check(close(got, R[q], 1e-8, 1e-6), "history-parts", lambda: "%s after %s at point %d: %s, expected %s" % (conf, h, q, got, R[q]))
            return q
        for rest in itertools.product(range(9), repeat=depth - 1):
            # the common prefix is re-executed: histories share nothing
            h = (first,) + rest
            if h[-1] in (4, 8) and depth > 1 and h[-2] in (4, 8):
                continue
            post, likes = fresh()
            names = post.name_vary_params()
            q = 0
            for j, op in enumerate(h):
                q = step(op, q, post, likes, names, h[:j + 1])
                ctx.trans()
            ctx.state(conf, mode, h)
            ctx.trace()
            if ctx._vsigs:
                break

    return [Suite("sizes", size_cases, size_run), M.units_suite([dict(basis='per tc secosw sesinw logk', npl=1, insts=i, trend=['dvdt'], order='first') for k in KERN for i in ([M.inst('j', 9, 'gp:' + k)], [M.inst('j', 7, 'gp:' + k, sort=False, decorr=['air']), M.inst('k', 6)], [M.inst('j', 8, 'gp:' + k, sort='dup')])]), Suite("lattice", lat_cases, lat_run), Suite("impossible", bad_cases, bad_run), Suite("histories", hist_cases, hist_run, timeout=600)]


if __name__ == "__main__":
    main("R07", suites, "model_checking",
         "state = (kernel, data shape, hyperparameter lattice point, jitter, naming) or history of operations on a GP posterior (move by array, move by "
         "dictionary, predict at two point sets, residuals; points include zero amplitude and an impossible covariance); each is executed on the real "
         "objects and every likelihood/prediction compared with a dense textbook multivariate normal",
         "3 kernels x 5 data shapes x 3 values per hyperparameter x 2 jitters x 3 name suffixes; every hyperparameter at 0, negative, nan, inf, tiny, huge; "
         "all operation histories of length 4 (5 thorough) over 9 operations for 7 configurations")
