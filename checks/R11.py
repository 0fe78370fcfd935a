import itertools
import math
from vlib.core import *
from vlib import oracle as O
from vlib import models as M
from vlib.checks_util import patch_minimize

INF = math.inf
I = M.inst


def suites():
    import numpy as np
    import scipy.optimize
    import radvel
    from radvel import prior as R
    from radvel.fitting import maxlike_fitting
    from radvel.likelihood import CompositeLikelihood
    from radvel.posterior import Posterior

    SPECS = {
        'one': dict(basis='per tc secosw sesinw k', npl=1, insts=[I('j', 8)], trend=['dvdt']),
        'two': dict(basis='per tp e w k', npl=2, insts=[I('j', 9), I('k', 8)], trend=['dvdt', 'curv']),
        'log': dict(basis='logper tc secosw sesinw logk', npl=1, insts=[I('j', 8), I('k', 7)]),
        'gp': dict(basis='per tc e w k', npl=1, insts=[I('j', 8, 'gp:QuasiPer'), I('k', 6)]),
        'lin': dict(basis='per tc se w k', npl=1, insts=[I('j', 8, linear=True), I('k', 7)]),
        'trend': dict(basis='per tp e w k', npl=0, insts=[I('j', 7)], trend=['dvdt', 'curv']),
    }

    def state(post):
        return {k: (p.value, bool(p.vary)) for k, p in post.params.items()}

    def agree(ctx, post, msg, sig):
        for k, p in post.params.items():
            v = post.vector.vector[post.vector.indices[k]]
            ctx.check(p.value == v[0] and bool(p.vary) == bool(v[1]), sig, lambda: "%s: %s is %r (vary %s) in the dictionary, %r (%s) in the vector" % (msg(), k, p.value, p.vary, v[0], v[1]))
        names = post.name_vary_params()
        ctx.check([post.params[n].value for n in names] == list(post.get_vary_params()) and sorted(names) == sorted(k for k, p in post.params.items() if p.vary), sig + "-free", msg)
        for n in names:
            ctx.check(("%g" % post.params[n].value) in repr(post) or n[:2] in ('tc', 'tp'), sig + "-printed", msg)

    def unchanged_fixed(ctx, before, post, spec, msg):
        lin = {'gamma' + ('_' + x['suffix'] if x['suffix'] else '') for x in spec['insts'] if x['linear']}
        for k, (v, vary) in before.items():
            if not vary and k not in lin:
                ctx.check(post.params[k].value == v and post.vector.vector[post.vector.indices[k]][0] == v, "fixed-parameter-changed", lambda: "%s: %s %r -> %r" % (msg(), k, v, post.params[k].value))
            ctx.check(bool(post.params[k].vary) == vary, "vary-flag-changed", msg)
        ctx.check(set(before) == set(post.params), "parameters-changed", msg)

    # ------------------------------------------------------------------ arbitrary minimiser behaviour
    ALPH = ['start', 'better', 'best', 'worse', 'excluded', 'bad']

    def env_cases():
        for s in ('one', 'lin', 'gp'):
            for res in ALPH + ['scalar']:
                for n in range(0, 4 if not THOROUGH else 5):
                    yield [s, res, n]

    def env_run(ctx, case):
        s, res, n = case
        spec = SPECS[s]
        v = M.start_values(spec)
        vary = {k: k in ('gamma_j', 'gamma_k', 'k1', 'gp_amp_j') for k in v}
        if s == 'lin':
            vary['gamma_j'] = False
        if res == 'scalar':
            vary = {k: k == 'k1' for k in v}
        pri = lambda: [R.HardBounds('k1', 0.0, 90.0)]
        base = M.build(spec, vary=vary, priors=pri())
        names = base.name_vary_params()
        x0 = np.array(base.get_vary_params())

        def ll(x):
            w = dict(v)
            w.update(zip(names, x))
            if not 0 < w['k1'] < 90:
                return -INF
            if w.get('gp_amp_j', 1) < 0 or not all(math.isfinite(q) for q in w.values()):
                return -INF
            return M.ref_loglike(spec, w) - math.log(90.0)
        ki = names.index('k1')
        cand = []
        for k in np.arange(1.0, 89.0, 0.5):
            x = x0.copy()
            x[ki] = k
            cand.append((ll(x), k))
        cand.sort()
        pts = {'start': x0}
        l0 = ll(x0)
        better = [c for c in cand if c[0] > l0]
        for nm, k in (('best', cand[-1][1]), ('worse', cand[0][1]), ('better', better[0][1]), ('excluded', -5.0)):
            pts[nm] = x0.copy()
            pts[nm][ki] = k
        pts['bad'] = x0.copy()
        if s == 'gp' and 'gp_amp_j' in names:
            pts['bad'][names.index('gp_amp_j')] = -3.0
        else:
            pts['bad'][ki] = math.nan
        for seq in itertools.product(ALPH, repeat=n):
            for success in (True, False):
                post = M.build(spec, vary=vary, priors=pri())
                before = state(post)
                lp0 = post.logprob()
                calls = []

                def fake(fun, x, *a, **kw):
                    calls.append(np.array(x))
                    for q in seq:
                        fun(pts[q].copy())
                    rx = pts['better' if res == 'scalar' else res].copy()
                    if res == 'scalar':
                        rx = np.array(float(rx[0]))
                    return scipy.optimize.OptimizeResult(x=rx, fun=-ll(np.atleast_1d(rx)), success=success, status=0 if success else 2, message='', nit=1, nfev=len(seq))
                restore = patch_minimize(fake)
                try:
                    out = maxlike_fitting(post, verbose=False)
                finally:
                    restore()
                msg = lambda: "%s: minimiser tried %s and returned %r (success %s)" % (s, seq, res, success)
                if not calls:
                    ctx.notes['other-minimiser'] = 1
                lp = out.logprob()
                ctx.check(lp >= lp0 - 1e-9, "worse-than-start", lambda: "%s: log-posterior %r, was %r" % (msg(), lp, lp0))
                if calls and res in ('better', 'best', 'scalar'):
                    ctx.check(lp > lp0, "improvement-lost", lambda: "%s: log-posterior %r, was %r" % (msg(), lp, lp0))
                    ctx.check(close(lp, ll(pts['better' if res == 'scalar' else res]), 1e-9, 1e-7), "optimum-not-kept", lambda: "%s: log-posterior %r, that of the reported optimum is %r" % (msg(), lp, ll(pts['better'])))
                unchanged_fixed(ctx, before, out, spec, msg)
                agree(ctx, out, msg, "out-of-step")
                ctx.check(close(out.logprob_array(out.get_vary_params()), lp, 1e-12, 1e-10), "array-value", msg)
                ctx.trans()
            ctx.state(s, res, seq)
            ctx.trace()

    # ------------------------------------------------------------------ real minimisers, real problems
    METHODS = ['Powell', 'Nelder-Mead'] + (['BFGS', 'L-BFGS-B', 'COBYLA', 'TNC', 'CG', 'SLSQP'] if THOROUGH else ['BFGS', 'SLSQP'])

    def real_cases():
        for s in SPECS:
            for m in METHODS:
                for mask in ('offsets', 'amplitude', 'jitter', 'phase', 'all', 'none', 'single'):
                    for start in (0, 1):
                        yield [s, m, mask, start]

    def free(spec, v, mask):
        if mask == 'all':
            f = list(v)
        elif mask == 'none':
            f = []
        elif mask == 'single':
            f = [k for k in v if k.startswith('gamma')][-1:]
        else:
            f = [k for k in v if k.startswith({'offsets': ('gamma', 'dvdt', 'curv'), 'amplitude': ('k', 'logk', 'gamma'), 'jitter': ('jit', 'gamma_k'), 'phase': ('tc', 'tp', 'k')}[mask])]
        lin = {'gamma' + ('_' + x['suffix'] if x['suffix'] else '') for x in spec['insts'] if x['linear']}
        return [k for k in f if k not in lin]

    def real_run(ctx, case):
        s, m, mask, start = case
        spec = SPECS[s]
        v = M.start_values(spec)
        f = free(spec, v, mask)
        if mask == 'all' and m != 'Powell' and not THOROUGH:
            f = f[:4]
        vals = dict(v)
        if start:
            for k in f:
                vals[k] = v[k] + {'g': 30.0, 'j': 20.0, 'd': 1.0, 'c': 0.05}.get(k[0], 0.02 * abs(v[k]) if k[0] != 't' else 1.0)
        post = M.build(spec, values=vals, vary={k: k in f for k in v}, priors=[R.HardBounds('jit_j', -100., 300.)] + ([R.EccentricityPrior(spec['npl'], 0.97)] if spec['npl'] else []))
        before = state(post)
        lp0 = post.logprob()
        msg = lambda: "%s %s free %s from start %d" % (s, m, f, start)
        for rep in range(2):
            out = maxlike_fitting(post, verbose=False, method=m)
            lp = out.logprob()
            ctx.check(lp >= lp0 - 1e-9, "worse-than-start", lambda: "%s fit %d: %r, was %r" % (msg(), rep, lp, lp0))
            w = {k: p.value for k, p in out.params.items()}
            ref = M.ref_loglike(spec, w) - math.log(400.0) - spec['npl'] * math.log(0.97)
            ctx.check(close(lp, ref, 1e-8, 1e-6), "value-at-optimum", lambda: "%s: %r, density at the reported parameters %r" % (msg(), lp, ref))
            unchanged_fixed(ctx, before, out, spec, msg)
            agree(ctx, out, msg, "out-of-step")
            if not f:
                ctx.check(lp == lp0 and {k: x for k, x in state(out).items() if k != 'gamma_j'} == {k: x for k, x in before.items() if k != 'gamma_j'}, "nothing-free-but-changed", msg)
            lp0 = lp
            ctx.trans()
        # local optimality: no step along an axis improves noticeably (derivative-free methods on smooth problems)
        if m == 'Powell' and mask in ('offsets', 'amplitude', 'single', 'phase') and s != 'gp':
            x = np.array(out.get_vary_params())
            for i in range(len(x)):
                for sc in (1e-3, 1e-2, 0.1):
                    for sgn in (-1, 1):
                        y = x.copy()
                        y[i] += sgn * sc * (1.0 if f[i][:4] not in ('dvdt', 'curv') else 0.01)
                        g = post.logprob_array(y)
                        ctx.check(g <= lp0 + 0.02, "not-an-optimum", lambda: "%s: moving %s by %g improves the log-posterior by %g" % (msg(), out.name_vary_params()[i], y[i] - x[i], g - lp0))
            post.logprob_array(x)
        ctx.state("real", *case)
        ctx.trace()

    # ------------------------------------------------------------------ linear problems: exact solution, any description of the problem
    def lin_cases():
        for order in ('first', 'reversed', 'late', 'rotated'):
            for perm in itertools.permutations(range(3)):
                for f in (['gamma_apf', 'gamma_j', 'gamma_k'], ['gamma_apf', 'gamma_j', 'gamma_k', 'dvdt'], ['k1', 'gamma_j'], ['k1', 'gamma_apf', 'gamma_j', 'gamma_k', 'dvdt']):
                    yield [order, list(perm), f]

    def lin_run(ctx, case):
        order, perm, f = case
        spec = dict(basis='per tp e w k', npl=1, insts=[I('apf', 5), I('j', 7), I('k', 6)], trend=['dvdt'], order=order)
        v = M.start_values(spec)
        # weighted least squares
        rows, rhs, wt = [], [], []
        z = dict(v)
        z.update({k: 0.0 for k in f})
        for i, ins in enumerate(spec['insts']):
            t, y, e = M.data(i, ins['n'], ins['sort'])
            var = e ** 2 + v['jit_' + ins['suffix']] ** 2
            cols = []
            for k in f:
                u = dict(z)
                u[k] = 1.0
                g = lambda q: M.ref_model(spec, q, t) + q['gamma_' + ins['suffix']]
                cols.append(g(u) - g(z))
            rows.append(np.array(cols).T)
            rhs.append(y - M.ref_model(spec, z, t) - z['gamma_' + ins['suffix']])
            wt.append(1 / np.sqrt(var))
        A, y, w = np.vstack(rows), np.concatenate(rhs), np.concatenate(wt)
        sol = dict(zip(f, np.linalg.lstsq(A * w[:, None], y * w, rcond=None)[0]))
        best = dict(v)
        best.update(sol)
        lbest = M.ref_loglike(spec, best)
        post = M.build(spec, vary={k: k in f for k in v})
        post = Posterior(CompositeLikelihood([post.likelihood.like_list[i] for i in perm]))
        before = state(post)
        post = maxlike_fitting(post, verbose=False)
        lp = post.logprob()
        msg = lambda: "parameters %s in order %r, instruments %s" % (f, order, perm)
        ctx.check(lp <= lbest + 1e-6, "above-maximum", lambda: "%s: %r, maximum %r" % (msg(), lp, lbest))
        ctx.check(lp > lbest - 0.02, "maximum-missed", lambda: "%s: %r, maximum %r" % (msg(), lp, lbest))
        for k in f:
            ctx.check(abs(post.params[k].value - sol[k]) < 0.1 * max(1.0, abs(sol[k])), "parameters-at-maximum", lambda: "%s: %s=%r, exact %r" % (msg(), k, post.params[k].value, sol[k]))
        unchanged_fixed(ctx, before, post, spec, msg)
        agree(ctx, post, msg, "out-of-step")
        ctx.state("lin", order, tuple(perm), tuple(f))
        ctx.trace()

    # ------------------------------------------------------------------ histories: fit, refit, free and fix parameters, move
    def hist_cases():
        for s in ('one', 'lin', 'log'):
            for first in range(6):
                yield [s, first, 4 if THOROUGH else 3]

    def hist_run(ctx, case):
        s, first, depth = case
        spec = SPECS[s]
        v = M.start_values(spec)
        for rest in itertools.product(range(6), repeat=depth - 1):
            h = (first,) + rest
            post = M.build(spec, vary={k: k in ('k1', 'logk1', 'gamma_k') for k in v})
            for j, op in enumerate(h):
                msg = lambda: "%s after %s" % (s, h[:j + 1])
                lp0 = post.logprob()
                before = state(post)
                if op in (0, 1):
                    post = maxlike_fitting(post, verbose=False, method='Powell' if op == 0 else 'Nelder-Mead')
                    ctx.check(post.logprob() >= lp0 - 1e-9, "history-worse", lambda: "%s: %r was %r" % (msg(), post.logprob(), lp0))
                    unchanged_fixed(ctx, before, post, spec, msg)
                elif op == 2:
                    for k in ('jit_j', 'jit_k'):
                        if k in post.params:
                            post.params[k].vary = not post.params[k].vary
                    post.vector.dict_to_vector()
                elif op == 3:
                    kk = 'k1' if 'k1' in v else 'logk1'
                    post.params[kk].vary = not post.params[kk].vary
                    post.vector.dict_to_vector()
                elif op == 4:
                    for k in v:
                        post.params[k].vary = False
                    post.vector.dict_to_vector()
                else:
                    post.params['jit_j'].value = 7.0
                    post.vector.dict_to_vector()
                agree(ctx, post, msg, "history-out-of-step")
                w = {k: p.value for k, p in post.params.items()}
                ctx.check(close(post.logprob(), M.ref_loglike(spec, w), 1e-8, 1e-6), "history-value", msg)
                ctx.trans()
            ctx.state("hist", s, h)
            ctx.trace()

    return [Suite("minimiser", env_cases, env_run), Suite("real", real_cases, real_run, timeout=600), Suite("linear", lin_cases, lin_run), Suite("histories", hist_cases, hist_run)]


if __name__ == "__main__":
    main("R11", suites, "model_checking",
         "state = behaviour of the minimiser (sequence of points tried, reported optimum, success flag) or history of fits and edits; the real maxlike_fitting runs "
         "against every one, and against scipy's own minimisers on enumerated problems with exact weighted-least-squares solutions",
         "all sequences of up to 3 (4 thorough) trial points from {start, better, best, worse, excluded, invalid} x 7 reported optima x success flag; "
         "6 configurations x 4 (8) methods x 7 free sets x 2 starts; 96 orderings of linear problems; all histories of 3 (4) of 6 operations")
