import itertools
import math
from vlib.core import *
from vlib import oracle as O
from vlib import models as M

INF = math.inf
I = M.inst


def suites():
    import numpy as np
    import radvel
    from radvel import prior as R
    from scipy.special import ndtri

    SPECS = {
        'rv1': dict(basis='per tc secosw sesinw logk', npl=1, insts=[I('j', 6)]),
        'rv2': dict(basis='per tp e w k', npl=2, insts=[I('j', 6), I('k', 5)], trend=['dvdt', 'curv']),
        'log': dict(basis='logper tc secosw sesinw k', npl=1, insts=[I('j', 6), I('k', 5)], trend=['dvdt']),
        'gp': dict(basis='per tc e w k', npl=1, insts=[I('j', 6, 'gp:QuasiPer'), I('k', 5)]),
        'lin': dict(basis='per tc secosw sesinw k', npl=1, insts=[I('j', 6, linear=True), I('k', 5)]),
    }

    # a prior described by data: [class, args...]; oracle gives (log density at values v), quantile
    def mk(d):
        c = d[0]
        x = None
        if c == 'user':
            x = R.UserDefinedPrior(list(d[1]), lambda v: sum(-0.5 * ((q - 10 - 0.1 * i) / 2.0) ** 2 for i, q in enumerate(v)), 'tex',
                                   transform_func=(lambda u: np.array([2.0 * ndtri(q) + 10 + 0.1 * i for i, q in enumerate(np.atleast_1d(u))])))
        elif c == 'extra':
            x = R.Gaussian(*d[1:])
            x.extra_constraint = True
        else:
            x = getattr(R, c)(*d[1:])
        return x

    def val(d, v, basis):
        c = d[0]
        n = basis.split()
        if c in ('Gaussian', 'extra'):
            return -0.5 * ((v[d[1]] - d[2]) / d[3]) ** 2 - math.log(d[3] * math.sqrt(O.TWOPI))
        if c == 'HardBounds':
            return -math.log(d[3] - d[2]) if d[2] < v[d[1]] < d[3] else -INF
        if c == 'Jeffreys':
            return -math.log(v[d[1]]) - math.log(math.log(d[3] / d[2])) if d[2] <= v[d[1]] <= d[3] else -INF
        if c == 'user':
            return sum(-0.5 * ((v[p] - 10 - 0.1 * i) / 2.0) ** 2 for i, p in enumerate(d[1]))
        if c == 'EccentricityPrior':
            tot = 0.0
            for k in range(1, d[1] + 1):
                e = O.to_synth(basis, {q: v[q + str(k)] for q in n})[2] if 'e' not in n else v['e%d' % k]
                if e < 0 or e > d[2]:
                    return -INF
                tot -= math.log(d[2])
            return tot
        if c == 'PositiveKPrior':
            return -INF if 'k' in n and any(v['k%d' % k] < 0 for k in range(1, d[1] + 1)) else 0.0
        raise AssertionError(c)

    def quant(d, u):
        if d[0] == 'Gaussian':
            return d[2] + d[3] * float(ndtri(u))
        if d[0] == 'HardBounds':
            return d[2] + u * (d[3] - d[2])
        return d[2] * (d[3] / d[2]) ** u

    EXTRA = ('extra', 'EccentricityPrior', 'PositiveKPrior')

    def prior_sets(s):
        spec = SPECS[s]
        v = M.start_values(spec)
        names = list(v)
        a, b, c = names[0], names[2], names[-1]
        npl = spec['npl']
        base = [['Gaussian', a, v[a] + 0.1, 0.7], ['HardBounds', b, v[b] - 0.4, v[b] + 0.3], ['Jeffreys', c, 0.1, 50.0], ['user', [c, a]],
                ['EccentricityPrior', npl, 0.8], ['PositiveKPrior', npl], ['extra', b, 0.0, 3.0]]
        return base

    # ---- sum of priors and likelihood, for all subsets of priors and a lattice of points
    def sum_cases():
        for s in SPECS:
            for r in range(0, 5):
                for sub in itertools.combinations(range(7), r):
                    yield [s, list(sub)]
            yield [s, list(range(7))]

    def points(spec, v, names, basis):
        pts = [{}]
        n = basis.split()
        pts.append({names[0]: v[names[0]] + 1.0})
        pts.append({names[2]: v[names[2]] + 0.35})      # outside the hard bounds
        pts.append({names[2]: max(v[names[2]] - 0.39, 0.01) if names[2] == "e1" else v[names[2]] - 0.39})
        pts.append({names[-1]: 0.05})                     # below Jeffreys
        pts.append({names[-1]: 49.0})
        e = 'e1' if 'e' in n else 'secosw1' if 'secosw' in n else None
        pts.append({e: 0.87 if e == 'e1' else math.sqrt(0.87 - v['sesinw1'] ** 2)})   # too eccentric
        if 'k' in n:
            pts.append({'k%d' % spec['npl']: -3.0})
        pts.append({names[0]: v[names[0]] - 0.5, names[-1]: 3.0, 'k1' if 'k' in n else 'logk1': 2.0})
        return pts

    def sum_run(ctx, case):
        s, sub = case
        spec = SPECS[s]
        basis = spec['basis']
        v = M.start_values(spec)
        names = list(v)
        ds = [prior_sets(s)[i] for i in sub]
        post = M.build(spec, priors=[mk(d) for d in ds])
        free = post.name_vary_params()
        x0 = np.array(post.get_vary_params())
        by_name = M.build(spec, priors=[mk(d) for d in ds])
        for q, ch in enumerate(points(spec, v, names, basis)):
            ch = {k: y for k, y in ch.items() if k in free}
            w = dict(v)
            w.update(ch)
            pri = [val(d, w, basis) for d in ds]
            like = M.ref_loglike(spec, w)
            want = -INF if -INF in pri else sum(pri) + like
            msg = lambda: "%s priors %s at %s" % (s, ds, ch)
            x = np.array([w[n] for n in free])
            xc = x.copy()
            got = post.logprob_array(x)
            ctx.check(close(got, want, 1e-9, 1e-7), "sum" if want > -INF else "excluded", lambda: "%s: %r, expected %r" % (msg(), got, want))
            ctx.check(np.array_equal(x, xc), "array-modified", msg)
            ctx.check(close(post.logprob(), got, 1e-13, 0), "array-vs-state", msg)
            for k in free:
                by_name.params[k].value = w[k]
            by_name.vector.dict_to_vector()
            ctx.check(close(by_name.logprob(), want, 1e-9, 1e-7), "by-name", lambda: "%s: %r, expected %r" % (msg(), by_name.logprob(), want))
            # nested form: likelihood + extra constraints
            ex = [p for d, p in zip(ds, pri) if d[0] in EXTRA]
            nsw = sum(ex) + like if -INF not in ex else None
            ns = post.likelihood_ns_array(x)
            if nsw is None:
                ctx.check(math.isfinite(ns) and ns < -1e90, "ns-excluded", lambda: "%s: %r" % (msg(), ns))
            else:
                ctx.check(close(ns, nsw, 1e-9, 1e-7), "ns-loglike", lambda: "%s: %r, expected %r" % (msg(), ns, nsw))
                rest = [p for d, p in zip(ds, pri) if d[0] not in EXTRA]
                ctx.check(close(ns + sum(rest), got, 1e-9, 1e-6) if -INF not in rest else got == -INF, "ns-plus-priors-is-posterior", msg)
            exa = post.extra_likelihood_array(x)
            ctx.check(close(exa, sum(ex), 1e-9, 1e-9) if -INF not in ex else exa < -1e90, "extra-likelihood", lambda: "%s: %r vs %s" % (msg(), exa, ex))
            ctx.state(s, tuple(sub), q)
            ctx.trans()
        ctx.check(close(post.logprob_array(x0), by_name.logprob_array(x0), 0, 0), "back-to-start", lambda: str(case))
        ctx.trace()

    # ---- impossible covariance with nested sampling
    def imp_run(ctx, case):
        post = M.build(SPECS['gp'])
        names = post.name_vary_params()
        x = np.array(post.get_vary_params())
        for v in (-1.0, math.nan):
            y = x.copy()
            y[names.index('gp_amp_j')] = v
            ctx.check(math.isfinite(post.likelihood_ns_array(y)) and post.likelihood_ns_array(y) < -1e90, "ns-finite", lambda: "%r" % post.likelihood_ns_array(y))
            ctx.check(not post.logprob_array(y) > -1e90, "impossible", lambda: "%r" % post.logprob_array(y))
        ctx.check(math.isfinite(post.logprob_array(x)), "after-impossible", "")
        ctx.state("imp")

    # ---- the unit-cube map: every order of the priors list, every arrangement of free parameters
    FREE = ['per1', 'k1', 'gamma_j', 'jit_j']

    def cube_cases():
        for nfree in (1, 2, 3, 4):
            for free in itertools.combinations(FREE, nfree):
                for joint in (None,) + tuple(itertools.permutations(free, 2)):
                    for order in range(3 if nfree > 1 else 1):
                        yield [list(free), list(joint) if joint else None, order]

    def cube_run(ctx, case):
        free, joint, order = case
        spec = SPECS['lin']
        spec = dict(basis='per tc secosw sesinw k', npl=1, insts=[I('j', 6)])
        v = M.start_values(spec)
        vary = {k: k in free for k in v}
        kinds = dict(per1=['Gaussian', 'per1', 12.0, 0.5], k1=['HardBounds', 'k1', 1.0, 40.0], gamma_j=['Gaussian', 'gamma_j', -1.0, 4.0], jit_j=['Jeffreys', 'jit_j', 0.1, 20.0])
        ds = [kinds[p] for p in free if not joint or p not in joint]
        if joint:
            ds.append(['user', joint])
        full = ds + [['EccentricityPrior', 1, 0.9], ['PositiveKPrior', 1], ['extra', free[0], 12.0, 30.0]]
        perms = list(itertools.permutations(range(len(full))))
        perms = perms[order::3] if len(full) < 6 else perms[order * 7::31]
        for perm in perms:
            post = M.build(spec, vary=vary, priors=[mk(full[i]) for i in perm])
            post.check_proper_priors()
            names = post.name_vary_params()
            ctx.check(sorted(names) == sorted(free), "free-names", lambda: "%s %s" % (case, names))
            for us in ([0.5] * len(free), [0.1 + 0.2 * i for i in range(len(free))], [0.93 - 0.27 * i for i in range(len(free))]):
                want = {}
                for d in ds:
                    if d[0] == 'user':
                        for i, p in enumerate(d[1]):
                            want[p] = 2.0 * float(ndtri(us[names.index(p)])) + 10 + 0.1 * i
                    else:
                        want[d[1]] = quant(d, us[names.index(d[1])])
                w = [want[n] for n in names]
                u = np.array(us)
                got = post.prior_transform(u)
                ctx.check(close(got, w, 1e-9, 1e-9), "cube", lambda: "%s priors order %s: cube point %s -> %s, expected %s" % (case, perm, us, got, w))
                ctx.check(np.array_equal(u, us), "cube-input-modified", lambda: str(case))
                ctx.check(close(post.prior_transform(list(us)), w, 1e-9, 1e-9), "cube-list", lambda: str(case))
                r = post.prior_transform(u, inplace=True)
                ctx.check(close(u, w, 1e-9, 1e-9), "cube-inplace", lambda: str(case))
                # together: posterior = nested likelihood + priors under the map
                vals = dict(v)
                vals.update(want)
                pri = [val(d, vals, spec['basis']) for d in full]
                like = M.ref_loglike(spec, vals)
                tot = post.logprob_array(np.array(w))
                ctx.check(close(tot, -INF if -INF in pri else sum(pri) + like, 1e-9, 1e-7), "cube-posterior", lambda: "%s %s" % (case, tot))
                ctx.trans()
            ctx.state("cube", tuple(free), tuple(joint or ()), perm)
        ctx.trace()

    # ---- the check for proper priors: all configurations of three parameters
    OPT = ['none', 'proper', 'two', 'extra', 'proper+extra', 'improper', 'baseline', 'numerical']

    def proper_cases():
        for f in itertools.product((0, 1), repeat=3):
            for o in itertools.product(range(len(OPT)), repeat=2):
                yield [list(f), list(o)]

    def proper_run(ctx, case):
        f, o2 = case
        names = ['per1', 'k1', 'jit_j']
        spec = dict(basis='per tc secosw sesinw k', npl=1, insts=[I('j', 6)])
        v = M.start_values(spec)
        num = 2.0 + np.sin(np.arange(30.0))
        for o3 in range(len(OPT)):
            opt = [OPT[o2[0]], OPT[o2[1]], OPT[o3]]
            pr = []
            ok = True
            for p, fr, q in zip(names, f, opt):
                if q in ('proper', 'proper+extra'):
                    pr.append(R.Gaussian(p, v[p], 1.0))
                if q == 'two':
                    pr += [R.Gaussian(p, v[p], 1.0), R.HardBounds(p, v[p] - 3, v[p] + 3)]
                if q in ('extra', 'proper+extra'):
                    e = R.HardBounds(p, v[p] - 2, v[p] + 2)
                    e.extra_constraint = True
                    pr.append(e)
                if q == 'improper':
                    pr.append(R.HardBounds(p, 0.0, INF))
                if q == 'baseline':
                    pr.append(R.InformativeBaselinePrior(p, 10.0))
                if q == 'numerical':
                    pr.append(R.NumericalPrior([p], num))
                good = q in ('proper', 'proper+extra', 'numerical')
                ok = ok and (good if fr else q in ('none', 'extra'))
            for extra in ([], [R.EccentricityPrior(1), R.PositiveKPrior(1)]):
                post = M.build(spec, vary={k: (k in names and bool(f[names.index(k)])) for k in v}, priors=pr + extra)
                x = np.array(post.get_vary_params())
                try:
                    post.check_proper_priors()
                    got = True
                except ValueError:
                    got = False
                ctx.check(got == ok, "proper-%s" % ('accepted' if got else 'refused'), lambda: "free %s, priors %s: %s" % (dict(zip(names, f)), dict(zip(names, opt)), "accepted" if got else "refused"))
                ctx.check(np.array_equal(x, post.get_vary_params()), "proper-changes", lambda: str(case))
                if got and ok:
                    post.prior_transform(np.full(len(x), 0.3))
                ctx.state("proper", tuple(f), tuple(opt), bool(extra))
                ctx.trans()
        ctx.trace()

    def joint_run(ctx, case):
        """joint priors in the proper-prior check"""
        names = ['per1', 'k1', 'jit_j']
        spec = dict(basis='per tc secosw sesinw k', npl=1, insts=[I('j', 6)])
        v = M.start_values(spec)
        for f in itertools.product((0, 1), repeat=3):
            for cover in itertools.product(('joint', 'own', 'both', 'none'), repeat=3):
                jl = [n for n, c in zip(names, cover) if c in ('joint', 'both')]
                if len(jl) < 2:
                    continue
                for tf in (True, False):
                    pr = [R.UserDefinedPrior(jl, lambda x: 0.0, 't', transform_func=(lambda u: 5.0 + np.asarray(u)) if tf else None)]
                    pr += [R.Gaussian(n, v[n], 1.0) for n, c in zip(names, cover) if c in ('own', 'both')]
                    ok = tf and all((c in ('joint', 'own')) if fr else c == 'none' for fr, c in zip(f, cover))
                    post = M.build(spec, vary={k: (k in names and bool(f[names.index(k)])) for k in v}, priors=pr)
                    try:
                        post.check_proper_priors()
                        got = True
                    except ValueError:
                        got = False
                    ctx.check(got == ok, "joint-%s" % ('accepted' if got else 'refused'), lambda: "free %s, cover %s, transform %s" % (f, cover, tf))
                    ctx.state("joint", f, cover, tf)
        pr = [R.NumericalPrior(['per1', 'k1'], np.array([12 + np.sin(np.arange(30.)), 20 + np.cos(np.arange(30.) * 2)]))]
        post = M.build(spec, vary={k: k in ('per1', 'k1') for k in v}, priors=pr)
        try:
            post.check_proper_priors()
            ctx.fail("joint-numerical", "a multivariate numerical prior was accepted for nested sampling")
        except ValueError:
            ctx.ev()
        ctx.trace()

    # priors list edited between evaluations
    def edit_run(ctx, case):
        spec = SPECS[case[0]]
        ds = prior_sets(case[0])
        v = M.start_values(spec)
        post = M.build(spec)
        like = M.ref_loglike(spec, v)
        x = np.array(post.get_vary_params())
        for h in itertools.product(range(5), repeat=4):
            post.priors = []
            cur = []
            for op in h:
                if op < 3:
                    post.priors += [mk(ds[op])]
                    cur.append(ds[op])
                elif op == 3 and cur:
                    post.priors = post.priors[1:]
                    cur = cur[1:]
                else:
                    post.priors = post.priors[::-1]
                    cur = cur[::-1]
                want = like + sum(val(d, v, spec['basis']) for d in cur)
                got = post.logprob_array(x)
                ctx.check(close(got, want, 1e-9, 1e-7), "edited-priors", lambda: "%s after %s: %r, expected %r" % (case, h, got, want))
                ctx.trans()
            ctx.state("edit", case[0], h)
        ctx.trace()

    return [Suite("sums", sum_cases, sum_run), Suite("impossible", [[0]], imp_run), Suite("cube", cube_cases, cube_run), Suite("proper", proper_cases, proper_run),
            Suite("joint", [[0]], joint_run), Suite("edits", [[s] for s in SPECS], edit_run)]


if __name__ == "__main__":
    main("R10", suites, "model_checking",
         "state = (configuration, subset of priors, parameter point), (free parameters, joint prior, order of the priors list, cube point), or "
         "(vary flag x prior arrangement)^3; every one is executed on the real Posterior and compared with the sum of independent densities / quantile functions",
         "5 configurations x all subsets of up to 4 (and all 7) priors x 8-9 points; up to 4 free parameters with every joint pair; all 8^3 x 2^3 x 2 arrangements for the proper-prior check")
