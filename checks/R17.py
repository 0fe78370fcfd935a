import copy
import itertools
import math
import os
import subprocess
import sys
from vlib.core import *
from vlib import models as M
from vlib import setups as S
from vlib.checks_util import patch_minimize

I = M.inst
BASES = ['per tp e w k', 'per tc secosw sesinw logk', 'per tc secosw sesinw k', 'per tc ecosw esinw k', 'per tc e w k', 'logper tc secosw sesinw k',
         'logper tc secosw sesinw logk', 'per tc se w k', 'logper tp e w logk']


def module_signal(t, params, vector):
    return vector.vector[vector.indices['k1']][0] * (t - t[0]) * 0.01


def conf():
    C = {}
    for i, b in enumerate(BASES):
        C['b%d' % i] = dict(basis=b, npl=1 + i % 3, insts=[I('j', 8), I('k', 6)][:1 + i % 2], trend=[['dvdt', 'curv'], ['dvdt'], ['curv'], []][i % 4])
    C['nosuffix'] = dict(basis=BASES[4], npl=1, insts=[I('', 8)], trend=[])
    C['unsorted'] = dict(basis=BASES[2], npl=2, insts=[I('j', 8, sort=False), I('k', 7, sort=False)], trend=['dvdt'])
    C['letters'] = dict(basis=BASES[2], npl=2, insts=[I('j', 8)], trend=['dvdt'], letters={'1': 'd', '2': 'b'})
    C['decorr'] = dict(basis=BASES[4], npl=1, insts=[I('j', 9, decorr=['s', 'bis']), I('k', 7)], trend=[])
    C['linear'] = dict(basis=BASES[4], npl=1, insts=[I('j', 9, linear=True), I('k', 7, linear=True)], trend=['dvdt'])
    C['gpsq'] = dict(basis=BASES[4], npl=1, insts=[I('j', 8, 'gp:SqExp')], trend=[])
    C['gpper'] = dict(basis=BASES[2], npl=1, insts=[I('j', 8, 'gp:Per'), I('k', 6)], trend=[])
    C['gpqp'] = dict(basis=BASES[1], npl=1, insts=[I('j', 7, 'gp:QuasiPer', shared=True), I('k', 6, 'gp:QuasiPer', shared=True)], trend=['dvdt'])
    C['cel'] = dict(basis=BASES[4], npl=1, insts=[I('j', 9, 'gp:Celerite', sort=False)], trend=[])
    C['order'] = dict(basis=BASES[4], npl=2, insts=[I('j', 9), I('k', 7)], trend=['dvdt'], order='reversed')
    C['late'] = dict(basis=BASES[2], npl=1, insts=[I('j', 9), I('k', 7, 'gp:SqExp')], trend=['dvdt'], order='late')
    return C


CONF = conf()
OPS = ['edit', 'vary', 'array', 'set', 'fit', 'results', 'prior', 'scale', 'repr']


def suites():
    import numpy as np
    import scipy.optimize
    import radvel
    from radvel import prior as R
    import radvel.fitting as F

    def fake(fun, x, *a, **kw):
        x = np.array(x, dtype=float)
        fun(x)
        fun(x * 1.0001)
        return scipy.optimize.OptimizeResult(x=x, fun=fun(x), success=True, status=0, message='', nit=1, nfev=2)

    def priors(spec, v):
        b = spec['basis'].split()
        n = b[0] + '1'
        lim = 3.0

        def closure(x):
            return -abs(x[0] - lim)
        out = [R.Gaussian(n, v[n], 0.1), R.HardBounds(b[4] + '1', -5e3, 5e3), R.EccentricityPrior(spec['npl']), R.EccentricityPrior(spec['npl'], upperlims=[0.9] * spec['npl']), R.PositiveKPrior(spec['npl']),
               R.UserDefinedPrior([b[4] + '1'], closure, 'bla'), R.NumericalPrior([b[4] + '1'], np.array([v[b[4] + '1'] + 0.3 * np.sin(np.arange(30.))]))]
        if 'jit' in ''.join(v):
            j = [k for k in v if k.startswith('jit')][0]
            out += [R.Jeffreys(j, 0.01, 50.), R.ModifiedJeffreys(j, 0.01, 50., -0.5)]
        if 'per' in b:
            out += [R.InformativeBaselinePrior('per1', 1000., duration=0.2), R.SecondaryEclipsePrior(1, M.T0 + 5.0, 0.5)]
        return out

    def fresh(c):
        spec = CONF[c]
        post = M.build(spec)
        post.priors = priors(spec, M.start_values(spec))
        return post

    def do(post, op):
        names = post.name_vary_params()
        allp = list(post.params.keys())
        if op == 'edit':
            post.params[allp[0]].value += 0.003
            post.params[allp[-1]].value += 0.002
            post.vector.dict_to_vector()
        elif op == 'vary':
            for i, k in enumerate(allp):
                if i % 3 == 1:
                    post.params[k].vary = not post.params[k].vary
            post.vector.dict_to_vector()
            post.list_vary_params()
        elif op == 'array':
            post.logprob_array(np.array(post.get_vary_params()) * 1.0002)
        elif op == 'set':
            post.set_vary_params(np.array(post.get_vary_params()) * 1.0003)
        elif op == 'fit':
            undo = patch_minimize(fake)
            try:
                post = F.maxlike_fitting(post, verbose=False)
            finally:
                undo()
        elif op == 'results':
            post.uparams = {k: 0.1 for k in allp}
            post.medparams = {k: 0.2 for k in allp}
            post.maxparams = {k: 0.3 for k in allp}
            import pandas as pd
            post.derived = pd.DataFrame({'mpsini1': [1.0, 2.0, 3.0]}, index=[0.159, 0.5, 0.841])
        elif op == 'prior':
            post.priors = post.priors[1:] + [R.Gaussian(allp[-1], 1.0, 2.0)]
        elif op == 'scale':
            for i, k in enumerate(allp):
                post.params[k].mcmcscale = [0.5, None, 2.0][i % 3]
            post.vector.dict_to_vector()
        elif op == 'repr':
            repr(post)
        return post

    def num(x):
        return float(x) if x is not None else None

    def describe(post):
        """everything a user can observe without evaluating anything"""
        d = {}
        P = post.params
        d['params'] = [(k, num(p.value), bool(p.vary), num(p.mcmcscale), bool(p.linear)) for k, p in P.items()]
        d['meta'] = (P.num_planets, P.basis.name, P.basis.num_planets, P.planet_letters, list(P.planet_parameters), P.tex_labels())
        d['vector'] = post.vector.vector.tolist()
        d['names'] = list(post.vector.names)
        d['indices'] = sorted(post.vector.indices.items())
        d['priors'] = [(type(p).__name__, str(p), repr(p)) for p in post.priors]
        L = post.likelihood
        d['data'] = [np.asarray(getattr(L, a)).tolist() for a in ('x', 'y', 'yerr', 'telvec')]
        d['labels'] = [str(sorted(map(str, np.atleast_1d(L.extra_params)))), str(list(np.atleast_1d(L.suffixes if hasattr(L, 'suffixes') else L.suffix)))]
        d['base'] = L.model.time_base
        parts = getattr(L, 'like_list', [L])
        d['parts'] = [(type(p).__name__, p.x.tolist(), p.y.tolist(), p.yerr.tolist(), p.suffix, list(getattr(p, 'hnames', None) or []), list(p.decorr_vars), [np.asarray(p.decorr_vectors[v]).tolist() for v in p.decorr_vars] if len(p.decorr_vars) else [],
                       type(getattr(p, 'kernel', None)).__name__) for p in parts]
        for a in ('uparams', 'medparams', 'maxparams'):
            d[a] = getattr(post, a, None)
        if hasattr(post, 'derived'):
            d['derived'] = post.derived.to_dict()
        d['alias'] = [post.params is L.params, post.params is post.model.params, post.vector is L.vector, post.vector is post.model.vector, post.vector.params is post.params] + [
            x for p in parts for x in (p.params is post.params, p.vector is post.vector, p.model is post.model or p.model.vector is post.vector)]
        return d

    def evaluate(post):
        """everything obtained by evaluating it (the vector is put back)"""
        names = list(post.name_vary_params())
        keep = post.vector.vector.copy()
        out = [names]
        x = np.array(post.get_vary_params(), dtype=float)
        vals = [post.logprob(), post.likelihood.logprob(), post.bic(), post.aic()]
        vals += list(post.likelihood.residuals()) + list(post.likelihood.errorbars())
        for f in (0.999, 1.001, 0.3):
            vals.append(post.logprob_array(x * f))
        for p in post.priors:
            vals.append(p(post.params, post.vector))
        vals += list(post.likelihood.model(np.array([M.T0 + 1.3, M.T0 + 55.5])))
        post.vector.vector[:] = keep
        return out, np.array(vals, float)

    def differs(a, b):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k) and repr(a.get(k)) != repr(b.get(k)):
                return "%s: %s became %s" % (k, str(a.get(k))[:600], str(b.get(k))[:600])
        return None

    def store(post, how, tag):
        if how == 'deepcopy':
            return copy.deepcopy(post)
        f = os.path.join(scratch(), 'r17_%d_%s.pkl' % (os.getpid(), tag))
        post.writeto(f)
        out = radvel.posterior.load(f)
        os.unlink(f)
        return out

    def equal(ctx, a, b, what, msg):
        da, db = describe(a), describe(b)
        w = differs(da, db)
        ctx.check(w is None, what + "-structure", lambda: "%s: %s" % (msg(), w))
        ea, eb = evaluate(a), evaluate(b)
        ctx.check(ea[0] == eb[0], what + "-names", lambda: "%s: %s vs %s" % (msg(), ea[0], eb[0]))
        ctx.check(ea[1].shape == eb[1].shape and close(ea[1], eb[1], 1e-11, 1e-11), what + "-values", lambda: "%s: %s vs %s" % (msg(), ea[1], eb[1]))

    def cases():
        for c in CONF:
            for how in ('file', 'deepcopy'):
                for first in [None] + OPS:
                    yield [c, how, first, 3 if (THOROUGH or (how == 'file' and c in ('b1', 'gpper', 'linear'))) and first else 2]

    def run(ctx, case):
        c, how, first, depth = case
        hists = [()] if first is None else [(first,) + r for d in range(depth) for r in itertools.product(OPS, repeat=d)]
        for h in hists:
            msg = lambda: "%s after %s, %s" % (c, h, how)
            post = fresh(c)
            for op in h:
                post = do(post, op)
            ref = fresh(c)
            for op in h:
                ref = do(ref, op)
            before = describe(post)
            q = store(post, how, 'a')
            w = differs(before, describe(post))
            ctx.check(w is None, "saving-changes", lambda: "%s: %s" % (msg(), w))
            equal(ctx, ref, q, "reloaded", msg)
            if len(h) <= 1:
                q2 = store(q, how, 'b')
                equal(ctx, ref, q2, "second-generation", msg)
                # all further operations behave as on the original, and do not reach the other object
                for op in OPS:
                    before = describe(post)
                    q3 = do(q2, op)
                    w = differs(before, describe(post))
                    ctx.check(w is None, "independent", lambda: "%s, then %s on the reloaded: %s" % (msg(), op, w))
                    ref3 = do(ref, op)
                    equal(ctx, ref3, q3, "usable", lambda: "%s, then %s" % (msg(), op))
                    q2 = store(q3, how, 'c')
                    equal(ctx, ref3, q2, "saved-again", lambda: "%s, then %s" % (msg(), op))
                    ref = ref3
                    ctx.trans(2)
                before = describe(q)
                for op in OPS:
                    post = do(post, op)
                w = differs(before, describe(q))
                ctx.check(w is None, "independent", lambda: "%s: editing the original changed the reloaded one: %s" % (msg(), w))
            ctx.trans(len(h) + 1)
            ctx.trace()
            ctx.state(c, how, h)

    # posteriors built by the workflow and custom models, read in another process
    def proc_cases():
        return [['setup'], ['setup-gp'], ['setup-cel'], ['setup-user-prior'], ['general'], ['general-closure']] + [['conf', c] for c in ('b1', 'b6', 'decorr', 'gpqp', 'linear', 'cel')]

    CODE = r"""
import sys, os, json
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
import vlib.core as C
sys.dont_write_bytecode = True
import warnings; warnings.simplefilter('ignore')
import radvel, numpy as np
warnings.simplefilter('ignore')
p = radvel.posterior.load(sys.argv[3])
x = np.array(p.get_vary_params())
out = [p.name_vary_params(), [float(p.logprob()), float(p.logprob_array(x * 1.001))], {k: [float(v.value), bool(v.vary)] for k, v in p.params.items()}]
p.set_vary_params(x); p.writeto(sys.argv[3] + '.again')
print(json.dumps(out))
"""

    def proc_run(ctx, case):
        d = os.path.join(scratch(), 'r17p_%d' % os.getpid())
        os.makedirs(d, exist_ok=True)
        kind = case[0]
        if kind == 'conf':
            post = fresh(case[1])
        elif kind.startswith('setup'):
            sp = {'setup': CONF['b2'], 'setup-gp': CONF['gpqp'], 'setup-cel': dict(CONF['cel'], insts=[I('j', 9, 'gp:Celerite')]), 'setup-user-prior': CONF['b4']}[kind]
            f = S.write_setup(d, 'planet_' + kind.replace('-', '_'), sp, priors=["radvel.prior.Gaussian('dvdt', 0, 1)"] if sp['trend'] and 'dvdt' in sp['trend'] else [],
                              more="def fun(x):\n    return -x[0]**2\npriors.append(radvel.prior.UserDefinedPrior(['gamma_j'], fun, 'bla'))\n" if kind == 'setup-user-prior' else '')
            P, post = radvel.utils.initialize_posterior(f)
        else:
            prm = radvel.Parameters(1, basis='per tc e w k')
            for k, v in dict(per1=10., tc1=3., e1=.1, w1=.2, k1=5., dvdt=.1, curv=.0).items():
                prm[k] = radvel.Parameter(value=v)
            slope = 0.02

            def closure(t, params, vector):
                return vector.vector[vector.indices['k1']][0] * (t - t[0]) * slope
            mod = radvel.model.GeneralRVModel(prm, module_signal if kind == 'general' else closure, time_base=3.0)
            t = np.arange(9.) * 1.7
            lk = radvel.likelihood.RVLikelihood(mod, t, np.sin(t), np.ones(9), suffix='_j')
            lk.params['gamma_j'] = radvel.Parameter(value=0.3)
            lk.params['jit_j'] = radvel.Parameter(value=0.4)
            lk.vector.dict_to_vector()
            post = radvel.posterior.Posterior(lk)
        x = np.array(post.get_vary_params())
        want = [list(post.name_vary_params()), [float(post.logprob()), float(post.logprob_array(x * 1.001))]]
        post.set_vary_params(x)
        f = os.path.join(d, 'a.pkl')
        post.writeto(f)
        e = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
        p = subprocess.run([sys.executable, '-c', CODE, REPO, VERIF, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=d)
        if not ctx.check(p.returncode == 0, "other-process", lambda: "%s: %s" % (case, p.stderr.decode()[-1500:])):
            return
        got = json.loads(p.stdout.decode().strip().splitlines()[-1])
        ctx.check(got[0] == want[0] and close(got[1], want[1], 1e-9, 1e-9), "other-process-values", lambda: "%s: %s vs %s" % (case, got, want))
        ctx.check(got[2] == {k: [float(v.value), bool(v.vary)] for k, v in post.params.items()}, "other-process-params", lambda: "%s: %s" % (case, got[2]))
        again = radvel.posterior.load(f + '.again')
        ctx.check(close(again.logprob(), post.logprob(), 1e-9, 1e-9) and again.name_vary_params() == want[0], "other-process-back", lambda: str(case))
        ctx.state('proc', *case)
        ctx.trace()

    return [Suite("histories", cases, run, timeout=600), Suite("processes", proc_cases, proc_run)]


if __name__ == "__main__":
    main("R17", suites, "model_checking",
         "state = (model configuration, history of edits/evaluations/fits before saving, storage way, generation); every history is executed twice on real objects, one "
         "of which goes through saving and loading; structure, aliasing and all evaluations are compared, then every operation is applied to both and compared again",
         "23 configurations (9 bases, composite, decorrelated, marginalised, 3 dense kernels, celerite, custom orders) x all histories of length <= 2 (3 for three "
         "configurations; all in the thorough tier) over 9 operations x file/deep copy x 2 generations x 9 follow-up operations; 12 posteriors reloaded in another process")
