import math
from vlib.core import *
from vlib import oracle as O
from vlib import models as M

I = M.inst
SETS = {
    'one': [I('j', 7)], 'single-point': [I('j', 1)], 'two-points': [I('j', 2), I('k', 1)], 'anon': [I('', 6)],
    'two': [I('j', 6), I('k', 5)], 'unsorted': [I('j', 6, sort=False), I('k', 5, sort=False)],
    'three': [I('apf', 4), I('j', 5), I('hires_rj', 4)],
    'decorr1': [I('j', 6, decorr=['air'])], 'decorr2': [I('j', 6, decorr=['air', 'temp']), I('k', 5, decorr=['temp'])],
    'decorr-names': [I('j', 6, decorr=['a', 'airmass']), I('k', 5, decorr=['airmass', 'a', 'seeing'])],
    'decorr-underscore': [I('j', 6, decorr=['x_pos', 'x']), I('hires_rj', 5, decorr=['x_pos'])],
    'linear1': [I('j', 7, linear=True)], 'linear2': [I('j', 6, linear=True), I('k', 5)], 'linear3': [I('j', 5), I('k', 5, linear=True), I('m', 4, linear=True)],
    'lin-decorr': [I('j', 6, decorr=['air'], linear=True)],
}
JITS = [0.0, 1e-3, 1.7, 40.0, -1.7]


def suites():
    import numpy as np
    import radvel
    from radvel.likelihood import loglike_jitter, CompositeLikelihood

    def sfx(ins):
        return '_' + ins['suffix'] if ins['suffix'] else ''

    def cases():
        for s in SETS:
            for npl in (0, 1, 2):
                for tr in ([], ['dvdt', 'curv']):
                    for j in range(len(JITS)):
                        for g in (0.0, -3.5, 250.0):
                            yield [s, npl, tr, j, g]

    def run(ctx, case):
        s, npl, tr, j, g = case
        insts = SETS[s]
        spec = dict(basis='per tc secosw sesinw k', npl=npl, insts=insts, trend=tr, order='first')
        vals = M.start_values(spec)
        for i, ins in enumerate(insts):
            vals['jit' + sfx(ins)] = JITS[(j + i) % len(JITS)]
            vals['gamma' + sfx(ins)] = g + i
        post = M.build(spec, values=vals)
        like = post.likelihood
        msg = lambda: "%s, %d planets, trend %s, values %s" % (s, npl, tr, {k: v for k, v in vals.items() if not k[-1].isdigit()})
        parts = [M.ref_inst(spec, i, vals) for i in range(len(insts))]
        kind = 'linear' if any(x['linear'] for x in insts) else 'decorr' if any(x['decorr'] for x in insts) else 'plain'
        want = sum(p[2] for p in parts)
        got = like.logprob()
        ctx.check(close(got, want, 1e-9, 1e-7), "loglike-%s" % kind, lambda: "%s: %r, expected %r" % (msg(), got, want))
        ctx.check(close(like.logprob(), got, 1e-14, 0) and close(post.logprob(), got, 1e-14, 0), "repeat", msg)
        res = like.residuals()
        ctx.check(close(res, np.concatenate([p[0] for p in parts]), 1e-7, 1e-6), "residuals-%s" % kind, lambda: "%s: %s vs %s" % (msg(), res, [p[0] for p in parts]))
        ctx.check(close(like.errorbars(), np.concatenate([p[1] for p in parts]), 1e-12, 1e-12), "errorbars", msg)
        d = [M.data(i, ins['n'], ins['sort']) for i, ins in enumerate(insts)]
        ctx.check(np.array_equal(like.x, np.concatenate([x[0] for x in d])) and np.array_equal(like.yerr, np.concatenate([x[2] for x in d])), "composite-times", msg)
        ctx.check(list(like.telvec) == [ins['suffix'] for ins in insts for _ in range(ins['n'])], "instrument-labels", lambda: "%s: %s" % (msg(), list(like.telvec)))
        # the composite is the sum of its parts
        if len(insts) > 1:
            ctx.check(close(sum(l.logprob() for l in like.like_list), got, 1e-12, 1e-10), "composite-sum", msg)
            for i, l in enumerate(like.like_list):
                ctx.check(close(l.logprob(), parts[i][2], 1e-9, 1e-7), "part-%s" % kind, lambda: "%s part %d: %r vs %r" % (msg(), i, l.logprob(), parts[i][2]))
        # information criteria
        n = sum(x['n'] for x in insts)
        for mask in range(3):
            names = list(vals)
            free = [x for i, x in enumerate(names) if (mask == 0) or (mask == 1 and i % 2) or (mask == 2 and i < 2)]
            free = [x for x in free if not any(ins['linear'] and x == 'gamma' + sfx(ins) for ins in insts)]
            p2 = M.build(spec, values=vals, vary={x: x in free for x in names})
            k = len(free)
            L = p2.likelihood.logprob()
            bic = math.log(n) * k - 2 * L
            aic = 2 * k - 2 * L + (2.0 * k * (k + 1) / (n - k - 1) if n - k - 1 > 0 else math.inf)
            for o in (p2.likelihood, p2):
                ctx.check(close(o.bic(), bic, 1e-12, 1e-9), "bic", lambda: "%s n=%d k=%d: %r vs %r" % (msg(), n, k, o.bic(), bic))
                ctx.check(close(o.aic(), aic, 1e-12, 1e-9), "aicc", lambda: "%s n=%d k=%d: %r vs %r" % (msg(), n, k, o.aic(), aic))
        # data handed in are not modified, and the value is that of the likelihood's own copy
        ctx.check(all(np.array_equal(a, b) for x, y in zip(d, [M.data(i, ins['n'], ins['sort']) for i, ins in enumerate(insts)]) for a, b in zip(x, y)), "data-modified", msg)
        ctx.state(*map(str, case))
        ctx.trace()

    # marginalised offset = numerical integral over the offset
    def lin_cases():
        for s in ('linear1', 'linear2', 'linear3', 'lin-decorr'):
            for npl in (0, 1):
                for j in JITS:
                    for g0 in (0.0, 17.0):
                        yield [s, npl, j, g0]

    def lin_run(ctx, case):
        s, npl, j, g0 = case
        insts = SETS[s]
        spec = dict(basis='per tp e w k', npl=npl, insts=insts, trend=['dvdt'], order='first')
        vals = M.start_values(spec)
        for ins in insts:
            vals['jit' + sfx(ins)] = j
            vals['gamma' + sfx(ins)] = g0
        post = M.build(spec, values=vals)
        got = post.likelihood.logprob()
        # numerical: product of one-dimensional integrals (trapezoid, exact to rounding for Gaussians)
        tot = 0.0
        for i, ins in enumerate(insts):
            if not ins['linear']:
                tot += M.ref_inst(spec, i, vals)[2]
                continue
            free = dict(vals)
            r, err, _ = M.ref_inst(spec, i, free, fixed_linear=True)
            t, v, e = M.data(i, ins['n'], ins['sort'])
            base = r  # residual at the best offset; scan offsets around it
            sg = 1 / math.sqrt(np.sum(1 / err ** 2))
            h = sg / 20
            z = np.arange(-400, 401) * h
            ll = np.array([O.gauss_loglike(base - x, err ** 2) for x in z])
            m = ll.max()
            tot += m + math.log(np.sum(np.exp(ll - m)) * h)
        ctx.check(close(got, tot, 1e-9, 1e-6), "marginal-integral", lambda: "%s: %r, integral %r" % (case, got, tot))
        # the starting offset must not matter, and the value used is the weighted mean
        for i, ins in enumerate(insts):
            if ins['linear']:
                sx = sfx(ins)
                r, err, _ = M.ref_inst(spec, i, vals)
                l = post.likelihood if len(insts) == 1 else post.likelihood.like_list[i]
                ctx.check(abs(np.sum(l.residuals() / err ** 2)) * (1 / np.sum(1 / err ** 2)) < 1e-6 * 1 or ins['decorr'], "weighted-mean-offset", lambda: str(case))
        # turning the flag off, or letting it vary, restores the plain likelihood
        for vary in (True, False):
            p = M.build(dict(spec, insts=[dict(x, linear=False) for x in insts]), values=vals, vary={k: vary for k in vals})
            want = M.ref_loglike(dict(spec, insts=[dict(x, linear=False) for x in insts]), vals)
            ctx.check(close(p.likelihood.logprob(), want, 1e-9, 1e-7), "plain-again", lambda: str(case))
        names = [k for k in vals]
        p = M.build(spec, values=vals, vary={k: True for k in vals})   # linear but free: no marginalisation
        want = M.ref_loglike(dict(spec, insts=[dict(x, linear=False) for x in insts]), vals)
        ctx.check(close(p.likelihood.logprob(), want, 1e-9, 1e-7), "linear-but-free", lambda: "%s: %r vs %r" % (case, p.likelihood.logprob(), want))
        ctx.state("lin", *map(str, case))
        ctx.trace()

    # the elementary formula over a value lattice
    def form_run(ctx, case):
        n = case[0]
        import itertools
        for r in itertools.product((0.0, -2.5, 1e3), repeat=n):
            for sg in itertools.product((0.5, 3.0), repeat=n):
                for j in (0.0, 0.7, 25.0):
                    got = loglike_jitter(np.array(r), np.array(sg), j)
                    want = O.gauss_loglike(r, np.array(sg) ** 2 + j * j)
                    ctx.check(close(got, want, 1e-12, 1e-12), "formula", lambda: "%s %s %s: %r vs %r" % (r, sg, j, got, want))
        ctx.state("formula", n)

    # order of instruments / of data does not matter
    def perm_cases():
        import itertools
        for s in ('two', 'three', 'decorr2', 'linear3', 'mixedgp'):
            for perm in itertools.permutations(range(len(SETS.get(s, [0, 0])))):
                yield [s, list(perm)]

    SETS2 = dict(SETS, mixedgp=[I('j', 6, 'gp:QuasiPer'), I('k', 5)])

    def perm_run(ctx, case):
        s, perm = case
        insts = SETS2[s]
        spec = dict(basis='per tp e w k', npl=1, insts=insts, trend=['dvdt'], order='first')
        vals = M.start_values(spec)
        want = M.ref_loglike(spec, vals)
        post = M.build(spec, values=vals)
        likes = post.likelihood.like_list
        c = CompositeLikelihood([likes[i] for i in perm])
        ctx.check(close(c.logprob(), want, 1e-9, 1e-7), "instrument-order", lambda: "%s %s: %r vs %r" % (s, perm, c.logprob(), want))
        off = [np.concatenate([l.residuals() for l in c.like_list]), np.concatenate([l.errorbars() for l in c.like_list])]
        ctx.check(close(c.residuals(), off[0]) and close(c.errorbars(), off[1]) and list(c.telvec) == [x for l in c.like_list for x in l.telvec]
                  and np.array_equal(c.x, np.concatenate([l.x for l in c.like_list])), "composite-order", lambda: "%s %s" % (s, perm))
        ctx.check(set(c.extra_params) >= {p for i in perm for p in ('gamma' + sfx(insts[i]), 'jit' + sfx(insts[i]))}, "extra-params", lambda: "%s %s" % (s, perm))
        ctx.state("perm", s, tuple(perm))
        ctx.trace()

    # the same likelihood observed through different histories of parameter values
    def hist_cases():
        for s in ('two', 'linear2', 'decorr2', 'linear3'):
            yield [s]

    def hist_run(ctx, case):
        s = case[0]
        insts = SETS[s]
        spec = dict(basis='per tp e w k', npl=1, insts=insts, trend=['dvdt'], order='first')
        vals = M.start_values(spec)
        post = M.build(spec, values=vals)
        names = post.name_vary_params()
        x0 = np.array(post.get_vary_params())
        pts = []
        for q in range(4):
            x = x0.copy()
            for i, n in enumerate(names):
                if n.startswith('jit'):
                    x[i] = [1.1, 0.0, 9.0, 2.0][q]
                if n == 'k1':
                    x[i] = [21.0, 5.0, 300.0, 20.0][q]
                if n == 'dvdt':
                    x[i] = [0.05, 0.0, -3.0, 0.1][q]
            v = dict(vals)
            v.update(zip(names, x))
            pts.append((x, M.ref_loglike(spec, v)))
        import itertools
        depth = 4 if not THOROUGH else 6
        for h in itertools.product(range(4), repeat=depth):
            for q in h:
                got = post.logprob_array(pts[q][0])
                ctx.trans()
                ctx.check(close(got, pts[q][1], 1e-9, 1e-7), "history", lambda: "%s visited %s: %r expected %r" % (s, h, got, pts[q][1]))
            ctx.state("hist", s, h)
            ctx.trace()

    # ---- series of every length around round numbers
    SIZES = sorted({m + d for m in (4, 8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048) for d in (-1, 0, 1)})

    def size_cases():
        for n in SIZES:
            for sort in (True, False, 'dup'):
                yield [n, sort]

    def size_run(ctx, case):
        n, sort = case
        for what, insts in (('plain', [I('j', n, sort=sort)]), ('decorr', [I('j', n, sort=sort, decorr=['air'])]), ('linear', [I('j', n, sort=sort, linear=True)]),
                            ('first', [I('j', n, sort=sort), I('k', 1)]), ('last', [I('j', 3), I('k', n, sort=sort), ]), ('both', [I('j', n, sort=sort), I('k', n + 1, sort=sort, decorr=['air'])])):
            spec = dict(basis='per tc secosw sesinw k', npl=1, insts=insts, trend=['dvdt'], order='first')
            vals = M.start_values(spec)
            post = M.build(spec)
            like = post.likelihood
            msg = lambda: "%s, %d observations, sorted %s" % (what, n, sort)
            parts = [M.ref_inst(spec, i, vals) for i in range(len(insts))]
            ctx.check(close(like.logprob(), sum(p[2] for p in parts), 1e-9, 1e-6), "size-loglike", lambda: "%s: %r, expected %r" % (msg(), like.logprob(), sum(p[2] for p in parts)))
            ctx.check(close(like.residuals(), np.concatenate([p[0] for p in parts]), 1e-7, 1e-6), "size-residuals", msg)
            ctx.check(close(like.errorbars(), np.concatenate([p[1] for p in parts]), 1e-12, 1e-12), "size-errorbars", msg)
            N, k, L = sum(x['n'] for x in insts), len(post.name_vary_params()), like.logprob()
            ctx.check(close(post.bic(), math.log(N) * k - 2 * L, 1e-12, 1e-9), "size-bic", msg)
            ctx.check(close(post.aic(), 2 * k - 2 * L + (2.0 * k * (k + 1) / (N - k - 1) if N - k - 1 > 0 else math.inf), 1e-12, 1e-9), "size-aicc", msg)
            ctx.state('size', n, str(sort), what)

    return [Suite("sizes", size_cases, size_run), M.units_suite([dict(basis='per tc secosw sesinw k', npl=1, insts=SETS[s], trend=['dvdt', 'curv'], order='first') for s in ('one', 'three', 'unsorted', 'decorr2', 'linear3', 'lin-decorr')]), Suite("formula", [[1], [2], [3]], form_run), Suite("configurations", cases, run), Suite("marginal", lin_cases, lin_run),
            Suite("permutations", perm_cases, perm_run), Suite("histories", hist_cases, hist_run)]


if __name__ == "__main__":
    main("R06", suites, "model_checking",
         "state = (instrument set, planets, trend, jitter and offset values) or visiting history of parameter points; a trace is a real "
         "likelihood built and evaluated, compared with an independent Gaussian density / numerical integral",
         "15 instrument sets x 0-2 planets x trends x 5 jitters x 3 offsets; all permutations of instruments; all visiting "
         "histories of 4 parameter points of length 4 (6 thorough)")
