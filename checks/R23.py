import itertools
import json
import math
import os
from vlib.core import *
from vlib import models as M
from vlib import setups as S
from vlib import oracle as O

I = M.inst
BASES = ['per tp e w k', 'per tc secosw sesinw logk', 'per tc secosw sesinw k', 'per tc ecosw esinw k', 'per tc e w k', 'logper tc secosw sesinw k',
         'logper tc secosw sesinw logk', 'per tc se w k', 'logper tp e w logk']
PRI = {
    'none': [],
    'std': ["radvel.prior.Gaussian('dvdt', 0.0, 0.1)", "radvel.prior.HardBounds('jit_{0}', 0.0, 20.0)", "radvel.prior.EccentricityPrior({1})", "radvel.prior.PositiveKPrior({1})"],
}


def suites():
    import numpy as np
    import radvel
    from radvel import utils as U

    def observe(post, spec):
        names = list(post.name_vary_params())
        parts = post.likelihood.like_list
        return dict(names=names, values={k: (float(p.value), bool(p.vary), bool(p.linear)) for k, p in post.params.items()}, vec=post.vector.vector.tolist(),
                    lp=float(post.logprob()), priors=[str(p) for p in post.priors], parts=[(p.suffix, type(p).__name__, p.x.tolist(), p.y.tolist(), p.yerr.tolist()) for p in parts])

    def check(ctx, f, spec, vals, vary, decorr, priors, msg, rtol=1e-8, given=None):
        text = open(f).read()
        try:
            P, post = U.initialize_posterior(f, decorr=decorr)
        except TypeError:
            raise
        like = post.likelihood
        parts = like.like_list
        insts = spec['insts']
        ok = ctx.check(len(parts) == len(insts) and sorted(p.suffix for p in parts) == sorted(i['suffix'] for i in insts), "instruments", lambda: "%s: %s" % (msg(), [p.suffix for p in parts]))
        if not ok:
            return None
        dec = decorr
        for i, ins in enumerate(insts):
            p = [q for q in parts if q.suffix == ins['suffix']][0]
            t, v, e = M.data(i, ins['n'], ins['sort'])
            ctx.check(sorted(zip(p.x, p.y, p.yerr)) == sorted(zip(t, v, e)), "observations", lambda: "%s: %s has %s" % (msg(), ins['suffix'], list(zip(p.x, p.y, p.yerr))))
            want = dict(rv='RVLikelihood').get(ins['kind'], 'CeleriteLikelihood' if 'Celerite' in ins['kind'] else 'GPLikelihood')
            ctx.check(type(p).__name__ == want, "likelihood-type", lambda: "%s: %s is %s" % (msg(), ins['suffix'], type(p).__name__))
            if ':' in ins['kind']:
                ctx.check(type(p.kernel).__name__ == ins['kind'].split(':')[1] + 'Kernel', "kernel", lambda: "%s: %s has %s" % (msg(), ins['suffix'], type(p.kernel).__name__))
            ctx.check(list(p.telvec) == [ins['suffix']] * ins['n'], "labels", lambda: "%s: %s" % (msg(), p.telvec))
        n = sum(x['n'] for x in insts)
        ctx.check(len(like.x) == len(like.telvec) == len(like.yerr) == n, "combined", lambda: "%s: %d observations" % (msg(), len(like.x)))
        ctx.check(post.params.basis.name == spec['basis'] and post.params.num_planets == spec['npl'] and like.model.time_base == spec.get('time_base', M.T0 + 20.0), "basis", msg)
        exp = {k: (v, vary.get(k, True)) for k, v in vals.items()}
        got = {k: (p.value, bool(p.vary)) for k, p in post.params.items()}
        ctx.check(set(got) == set(exp), "parameters", lambda: "%s: %s, expected %s" % (msg(), sorted(got), sorted(exp)))
        if set(got) == set(exp):
            lin = {'gamma_' + x['suffix'] for x in insts if x['linear'] and x['kind'] == 'rv'}
            ctx.check(all(close(got[k][0], exp[k][0], rtol, 1e-9) for k in exp if k not in lin), "values", lambda: "%s: %s" % (msg(), {k: (got[k][0], exp[k][0]) for k in exp if not close(got[k][0], exp[k][0], rtol, 1e-9)}))
            ctx.check(all(got[k][1] == exp[k][1] for k in exp), "flags", lambda: "%s: %s" % (msg(), [k for k in exp if got[k][1] != exp[k][1]]))
        ctx.check(sorted(post.name_vary_params()) == sorted(k for k in exp if exp[k][1]), "free-names", lambda: "%s: %s" % (msg(), post.name_vary_params()))
        ctx.check(list(post.get_vary_params()) == [post.params[k].value for k in post.name_vary_params()], "free-values", msg)
        ref_spec = dict(spec, insts=[dict(x, decorr=x['decorr'] if dec else []) for x in insts])
        want = M.ref_loglike(ref_spec, vals)
        ctx.check(close(like.logprob(), want, 1e-7, 1e-6), "loglike", lambda: "%s: %r, expected %r" % (msg(), like.logprob(), want))
        ctx.check(len(post.priors) == len(priors), "priors", lambda: "%s: %s" % (msg(), post.priors))
        ref = sum(eval(q, dict(radvel=radvel))(post.params, post.vector) for q in priors)
        ctx.check(close(post.logprob(), ref + want, 1e-7, 1e-6), "logprob", lambda: "%s: %r, expected %r" % (msg(), post.logprob(), ref + want))
        # a move through the reported names has the described effect
        names = post.name_vary_params()
        x = np.array(post.get_vary_params(), dtype=float)
        x2 = x * 1.0001 + 1e-5
        moved = dict(vals)
        moved.update(zip(names, x2))
        w2 = M.ref_loglike(ref_spec, moved)
        g2 = like.logprob_array(x2)
        ctx.check(close(g2, w2, 1e-7, 1e-5), "moved", lambda: "%s: %r, expected %r" % (msg(), g2, w2))
        # the file and the described data stay as they are, a second initialisation gives the same
        o1 = observe(U.initialize_posterior(f, decorr=decorr)[1], spec)
        post.set_vary_params(x2)
        P.data.iloc[:, 1] = 0.0
        o2 = observe(U.initialize_posterior(f, decorr=decorr)[1], spec)
        ctx.check(o1 == o2, "twice", lambda: "%s: %s\nvs %s" % (msg(), o1, o2))
        ctx.check(open(f).read() == text and sorted(os.listdir(os.path.dirname(f))) == [os.path.basename(f)], "files", lambda: "%s: %s" % (msg(), os.listdir(os.path.dirname(f))))
        ctx.trace()
        return post

    INST = {'one': [('j', 8)], 'two': [('hires_rj', 7), ('apf', 6)], 'three': [('k', 6), ('j', 7), ('harps-n', 5)], 'numeric': [('2', 6), ('10', 5)], 'prefix': [('a', 5), ('ab', 6)]}

    def flags(spec, vals, mode):
        b = spec['basis'].split()
        ecc = {'e', 'w', 'secosw', 'sesinw', 'ecosw', 'esinw', 'se'}
        if mode == 'all':
            return {}
        if mode == 'circular':
            return {x + str(n): False for x in b if x in ecc for n in range(1, spec['npl'] + 1)}
        if mode == 'odd':
            return {k: False for i, k in enumerate(sorted(vals)) if i % 2}
        if mode == 'fixed-rest':
            return {k: False for k in vals if not k.startswith(('k', 'logk', 'gamma'))}
        raise ValueError(mode)

    def folder():
        d = os.path.join(scratch(), 'r23_%d' % os.getpid())
        os.makedirs(d, exist_ok=True)
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        return d

    def plain_cases():
        for b, npl, ins in itertools.product(range(len(BASES)), (1, 2, 3), INST):
            yield [b, npl, ins]
        for b in range(len(BASES)):
            yield [b, 11, 'two']

    def plain_run(ctx, case):
        b, npl, ins = case
        spec = dict(basis=BASES[b], npl=npl, insts=[I(s, n, sort=(k + b) % 3 != 0) for k, (s, n) in enumerate(INST[ins])], trend=[['dvdt', 'curv'], ['dvdt'], ['dvdt']][b % 3])
        vals = M.start_values(spec)
        for layout, index, mode in itertools.product(('blocks', 'reversed-blocks', 'interleaved', 'by-time'), ('plain', 'gaps', 'duplicate', 'reversed'), ('all', 'circular', 'odd')):
            for extra in (None, 'unused'):
                if extra and (mode != 'all' or index == 'reversed'):
                    continue
                pri = [p.format(INST[ins][0][0], npl) for p in PRI['std' if mode == 'all' else 'none']]
                vary = flags(spec, vals, mode)
                f = S.write_setup(folder(), 'sys', spec, vary=vary, layout=layout, index=index, extra=extra, priors=pri)
                check(ctx, f, spec, vals, vary, False, pri, lambda: "%s layout %s index %s vary %s extra %s" % (case, layout, index, mode, extra))
                ctx.state('plain', *case, layout, index, mode, extra)

    # described in one basis, fitted in another
    def via_cases():
        for a, b in itertools.product(range(len(BASES)), repeat=2):
            if a != b:
                yield [a, b]

    def via_run(ctx, case):
        a, b = case
        for npl in (1, 2):
            for mode in ('all', 'circular'):
                spec = dict(basis=BASES[b], npl=npl, insts=[I('j', 7), I('k', 5)], trend=['dvdt'])
                vals = M.start_values(spec)
                vary = flags(spec, vals, mode)
                f = S.write_setup(folder(), 'sys', spec, vary=vary, via=BASES[a])
                # reading tc back from another basis may return another transit of the same orbit: compare through the likelihood
                P, post = U.initialize_posterior(f)
                full = dict(vals)
                ctx.check(set(post.params) == set(full), "via-parameters", lambda: "%s: %s" % (case, sorted(post.params)))
                ctx.check(close(post.likelihood.logprob(), M.ref_loglike(spec, vals), 1e-7, 1e-6), "via-loglike", lambda: "%s: %r vs %r" % (case, post.likelihood.logprob(), M.ref_loglike(spec, vals)))
                ctx.check(sorted(post.name_vary_params()) == sorted(k for k in full if vary.get(k, True)), "via-names", lambda: "%s: %s" % (case, post.name_vary_params()))
                ctx.state('via', *case, npl, mode)
                ctx.trace()

    # kernels, decorrelation, marginalised offsets, log-jitter
    KIND = ['rv', 'gp:QuasiPer', 'gp:SqExp', 'gp:Per', 'gp:Celerite']

    def spec_cases():
        for k1, k2 in itertools.product(KIND, repeat=2):
            for shared in (False, True):
                for dec in ('none', 'one', 'two'):
                    yield [k1, k2, shared, dec]

    def spec_run(ctx, case):
        k1, k2, shared, dec = case
        if shared and (k1 != k2 or k1 == 'rv'):
            return
        d = {'none': [], 'one': ['s'], 'two': ['bis', 's']}[dec]
        for order, lin, opt in itertools.product(('as-is', 'swapped'), (False, True), (False, True)):
            ins = [I('j', 8, k1, decorr=d, linear=lin, shared=shared, sort=order == 'as-is'), I('hires_rk', 7, k2, decorr=d, linear=lin and k2 == 'rv', shared=shared)]
            if order == 'swapped':
                ins = ins[::-1]
            if opt and not d:
                spec = dict(basis=BASES[4], npl=1, insts=ins, trend=['dvdt'])
                f = S.write_setup(folder(), 'sys', spec)
                try:
                    U.initialize_posterior(f, decorr=True)
                except Exception as ex:
                    ctx.check('decorr' in str(ex), "decorr-message", lambda: "%s: %r" % (case, ex))
                else:
                    ctx.fail("decorr-not-refused", str(case))
                continue
            for default in ((False, True, 'some') if {k1, k2} <= {'rv', 'gp:QuasiPer'} else (False, 'some') if 'gp:QuasiPer' in (k1, k2) else (False,)):
                for lj in (False, True):
                    spec = dict(basis=BASES[4], npl=1, insts=ins, trend=['dvdt'])
                    vals = M.start_values(spec)
                    vary = {'gamma_' + x['suffix']: False for x in ins if x['linear']}
                    if default is False:
                        vary['jit_' + ins[0]['suffix']] = False
                    f = S.write_setup(folder(), 'sys', spec, vary=vary, layout='interleaved', default_kernel=default, logjit=lj)
                    check(ctx, f, spec, vals, vary, opt, [], lambda: "%s order %s linear %s decorr option %s default kernel %s logjit %s" % (case, order, lin, opt, default, lj))
                    ctx.state('spec', *case, order, lin, opt, default, lj)

    # setups that do not describe a posterior
    def bad_cases():
        return [[x] for x in ('missing-instrument', 'wrong-basis', 'decorr')]

    def bad_run(ctx, case):
        spec = dict(basis=BASES[4], npl=1, insts=[I('j', 8), I('k', 7)], trend=['dvdt'])
        more = {'missing-instrument': "instnames = ['j', 'k', 'apf']", 'wrong-basis': "fitting_basis = 'per tp e w k'", 'decorr': ''}[case[0]]
        f = S.write_setup(folder(), 'sys', spec, more=more)
        try:
            U.initialize_posterior(f, decorr=case[0] == 'decorr')
        except Exception as ex:
            ctx.check(bool(str(ex).strip()), "refusal-explained", lambda: repr(ex))
            return
        ctx.fail("accepted", str(case))

    # the shipped examples
    def example_cases():
        return [[x] for x in sorted(os.listdir(os.path.join(REPO, 'example_planets'))) if x.endswith('.py')]

    def example_run(ctx, case):
        f = os.path.join(REPO, 'example_planets', case[0])
        o = []
        for _ in range(2):
            P, post = U.initialize_posterior(f)
            d = P.data[P.data.tel.isin(P.instnames)]
            ctx.check(sorted(post.likelihood.x) == sorted(d.time) and sorted(post.likelihood.yerr) == sorted(d.errvel), "example-data", str(case))
            for p in post.likelihood.like_list:
                q = d[d.tel == p.suffix]
                ctx.check(sorted(zip(p.x, p.y, p.yerr)) == sorted(zip(q.time, q.mnvel, q.errvel)), "example-instrument", lambda: "%s %s" % (case, p.suffix))
            orb = [O.to_synth(P.fitting_basis, {k: post.params[k + str(n)].value for k in P.fitting_basis.split()}) for n in range(1, P.nplanets + 1)]
            ll = 0.0
            for p in post.likelihood.like_list:
                m = sum(O.rv(p.x, *q) for q in orb) + post.params['dvdt'].value * (p.x - P.time_base) + post.params['curv'].value * (p.x - P.time_base) ** 2
                r = p.y - m
                var = p.yerr ** 2 + post.params['jit_' + p.suffix].value ** 2
                g = post.params['gamma_' + p.suffix]
                if type(p).__name__ == 'RVLikelihood':
                    lin = g.linear and not g.vary
                    r = r - (np.sum(r / var) / np.sum(1 / var) if lin else g.value)
                    ll += O.gauss_loglike(r, var) + (0.5 * math.log(O.TWOPI / np.sum(1 / var)) if lin else 0)
                else:
                    k = type(p.kernel).__name__[:-6]
                    h = {'_'.join(x.split('_')[:2]): post.params[x].value for x in P.hnames[p.suffix]}
                    ll += O.mvn_loglike(r - g.value, M.ref_kernel(k, h, p.x, p.x) + np.diag(var))
            ctx.check(close(post.likelihood.logprob(), ll, 1e-7, 1e-5), "example-loglike", lambda: "%s: %r vs %r" % (case, post.likelihood.logprob(), ll))
            o.append(observe(post, None))
        ctx.check(o[0] == o[1], "twice", str(case))
        ctx.state('example', *case)
        ctx.trace()

    return [Suite("plain", plain_cases, plain_run), Suite("bases", via_cases, via_run), Suite("components", spec_cases, spec_run), Suite("refused", bad_cases, bad_run), Suite("examples", example_cases, example_run)]


if __name__ == "__main__":
    main("R23", suites, "model_checking",
         "state = described setup (basis, planets, instruments, data layout, index, flags, kernels, decorrelation, options); each is written as a setup file, initialised "
         "by the real loader and compared with the description: observations per instrument, parameters, flags, priors, log-probability at the start and after a move",
         "9 bases x 3 system sizes x 5 instrument sets x 4 row layouts x 4 table indices x 3 flag patterns; all ordered basis pairs; 5x5 likelihood kinds x shared/own "
         "hyperparameters x decorrelation x marginalisation x log-jitter; refusals; the shipped examples")
