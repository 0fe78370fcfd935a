import contextlib
import copy
import io
import itertools
import math
import pickle
import re
from vlib.core import *
from vlib import oracle as O
from vlib import models as M

I = M.inst
CONFIGS = {
    'circ': dict(basis='per tc secosw sesinw k', npl=1, insts=[I('j', 6)], trend=[]),
    'log': dict(basis='logper tc secosw sesinw logk', npl=2, insts=[I('j', 5), I('k', 4)], trend=['dvdt', 'curv']),
    'synth': dict(basis='per tp e w k', npl=1, insts=[I('', 5)], trend=['dvdt']),
    'gp': dict(basis='per tc e w k', npl=1, insts=[I('j', 5, 'gp:QuasiPer'), I('hires_rj', 5, 'gp:QuasiPer')], trend=['curv']),
    'celerite': dict(basis='per tc ecosw esinw k', npl=1, insts=[I('j', 5, 'gp:Celerite')], trend=[]),
    'decorr': dict(basis='per tc se w k', npl=2, insts=[I('j', 5, decorr=['air']), I('k', 4, decorr=['air'])], trend=[]),
}
SYN = ['per', 'tp', 'e', 'w', 'k']


def rows_of(text):
    """(rows as lists of words, text after the table)"""
    head, _, rest = text.partition('\nPriors\n')
    lines = head.split('\n')
    return lines[0].split(), [l.split() for l in lines[1:] if l.strip()], rest


def expected(spec, vals, tb):
    """printed value of every parameter, and of every orbital parameter of the physical basis the model does not have itself"""
    def shown(n, v):
        return v - tb if n.startswith(('tc', 'tp')) and v > 1e6 else v
    own = {n: shown(n, v) for n, v in vals.items()}
    syn = {}
    for p in range(1, spec['npl'] + 1):
        b = {n: vals[n + str(p)] for n in spec['basis'].split()}
        for n, v in zip(SYN, O.to_synth(spec['basis'], b)):
            if n + str(p) not in vals:
                syn[n + str(p)] = (shown(n, v), b.get('per', None) or math.exp(b['logper']))
    return own, syn


def same(got, want):
    try:
        return abs(float(got) - want) <= 1e-5 * abs(want) + 1e-12
    except ValueError:
        return False


def same_time(got, want, per):
    try:
        d = (float(got) - want + per / 2) % per - per / 2
    except ValueError:
        return False
    return abs(d) <= 2e-5 * max(abs(want), abs(float(got)), 1.0)


def check_table(ctx, text, spec, vals, vary, upar, msg):
    tb = spec.get('time_base', M.T0 + 20.0)
    own, syn = expected(spec, vals, tb)
    head, rows, rest = rows_of(text)
    names = [r[0] for r in rows]
    ok = ctx.check(sorted(names) == sorted(list(own) + list(syn)), "rows", lambda: "%s: printed rows %s, parameters %s and %s" % (msg(), names, list(own), list(syn)))
    ctx.check((upar is None) == ('+/-' not in head), "uncertainty-column", lambda: "%s: header %s, uncertainties %s" % (msg(), head, upar))
    if not ok:
        return rest
    for r in rows:
        n = r[0]
        want_words = 2 + (upar is not None) + (n in own)
        if not ctx.check(len(r) == want_words, "row-shape", lambda: "%s: row %r cannot be read as name, value%s%s" % (msg(), r, '' if upar is None else ', uncertainty', ', free flag' if n in own else '')):
            continue
        if n in own:
            ctx.check(same(r[1], own[n]), "value", lambda: "%s: %s printed %s, is %r" % (msg(), n, r[1], own[n]))
            ctx.check(r[-1] == str(bool(vary[n])), "flag", lambda: "%s: %s printed free=%s, is %s" % (msg(), n, r[-1], vary[n]))
        else:
            v, per = syn[n]
            k = n.rstrip('0123456789')
            good = same_time(r[1], v, per) if k == 'tp' else (same_time(r[1], v, 2 * math.pi) if k == 'w' else same(r[1], v))
            ctx.check(good, "physical-value", lambda: "%s: %s printed %s, is %r" % (msg(), n, r[1], v))
        if upar is not None:
            ctx.check(same(r[2], upar.get(n, 0)), "uncertainty", lambda: "%s: %s printed +/- %s, is %r" % (msg(), n, r[2], upar.get(n, 0)))
    return rest


def suites():
    import numpy as np
    import radvel
    from radvel import prior as R
    from radvel import fitting

    def uncertainties(spec, vals, which):
        own, syn = expected(spec, vals, 0.0)
        names = list(own) + list(syn)
        if which == 'none':
            return None
        if which == 'empty':
            return {}
        if which == 'some':
            return {n: 0.125 * (i + 1) for i, n in enumerate(names) if i % 2}
        if which == 'tiny':
            return {n: (0.000123457, 1.23457e-05, 123.457, 0.0)[i % 4] for i, n in enumerate(names)}
        return {n: 0.0625 + 0.3 * i for i, n in enumerate(names)}

    def mutable(post):
        return ({n: (p.value, p.vary, p.mcmcscale, p.linear) for n, p in post.params.items()}, post.vector.vector.copy().tolist(), dict(post.vector.indices),
                list(post.params), copy.copy(post.uparams))

    def look(ctx, post, spec, vals, vary, upar, like_upar, msg):
        post.vector.vector_to_dict()
        before = mutable(post)
        free = post.name_vary_params()
        L = post.logprob_array(np.array(post.get_vary_params())) if free else post.logprob()
        text = repr(post)
        check_table(ctx, text, spec, vals, vary, upar, msg)
        check_table(ctx, repr(post.likelihood), spec, vals, vary, like_upar, msg)
        ctx.check(repr(post) == text and str(post) == text, "printed-twice", msg)
        after = mutable(post)
        ctx.check(after[1:] == before[1:] and after[0] == before[0], "printing-changes-state", lambda: "%s: before %s, after %s" % (msg(), before, after))
        ctx.check(post.name_vary_params() == free and close(post.logprob(), L, 1e-12, 1e-9), "printing-changes-probability", lambda: "%s: %r, then %r" % (msg(), L, post.logprob()))

    # ------------------------------------------------------------------------------ histories
    OPS = 'SLDFEUTNCK'

    def moved(n, v, j):
        k = n.rstrip('0123456789').split('_')[0]
        if k in ('e', 'se'):
            return 0.1 + 0.07 * j
        if k in ('secosw', 'sesinw', 'ecosw', 'esinw'):
            return 0.11 * j - 0.2
        if k in ('tc', 'tp'):
            return v + 0.3 * j
        return v * (1 + 0.03 * j) + 0.01 * j

    def hist_cases():
        depth = 4 if THOROUGH else 3
        for c in CONFIGS:
            for n in range(depth + 1):
                for ops in itertools.product(OPS, repeat=n):
                    if any(a == b and a in 'NUTC' for a, b in zip(ops, ops[1:])):
                        continue
                    if n == depth and c not in ('log', 'gp') and not THOROUGH and sum(map(OPS.index, ops)) % 3:
                        continue
                    yield [c, ''.join(ops)]

    def hist_run(ctx, case):
        c, ops = case
        spec = CONFIGS[c]
        vals = M.start_values(spec)
        vary = {n: i % 4 != 1 for i, n in enumerate(vals)}
        post = M.build(spec, vary=vary)
        names = list(vals)
        upar = None
        msg = lambda: "%s after %s" % (c, ops)
        for j, op in enumerate(ops, 1):
            free = post.name_vary_params()
            if op in 'SL':
                new = {n: moved(n, vals[n], j) for n in free}
                x = np.array([new[n] for n in free])
                (post.set_vary_params if op == 'S' else post.logprob_array)(x)
                vals.update(new)
            elif op == 'D':
                n = names[(3 * j) % len(names)]
                vals[n] = moved(n, vals[n], j)
                post.vector.vector_to_dict()
                post.params[n].value = vals[n]
                post.vector.dict_to_vector()
            elif op == 'F':
                n = names[(2 * j + 1) % len(names)]
                vary[n] = not vary[n]
                post.vector.vector_to_dict()
                post.params[n].vary = vary[n]
                post.vector.dict_to_vector()
                post.list_vary_params()
                post.likelihood.list_vary_params()
            elif op == 'E':
                n = names[(5 * j) % len(names)]
                vals[n] = moved(n, vals[n], j)
                post.vector.vector[post.vector.indices[n]][0] = vals[n]
            elif op in 'UTN':
                upar = uncertainties(spec, vals, dict(U='all', T='some', N='none')[op])
                post.uparams = upar
            elif op == 'C':
                post = copy.deepcopy(post)
            elif op == 'K':
                post = pickle.loads(pickle.dumps(post))
            ctx.trans()
            if j < len(ops):
                # what is printed on the way does not influence what is printed later
                repr(post)
        look(ctx, post, spec, vals, vary, upar, None, msg)
        ctx.state(c, ops)
        ctx.trace()

    # ------------------------------------------------------------------------------ configurations
    def conf_cases():
        INS = dict(one=[I('j', 5)], anon=[I('', 5)], two=[I('j', 4), I('hires_rj', 4)], gpq=[I('j', 5, 'gp:QuasiPer')],
                   gplong=[I('harpn_post', 5, 'gp:QuasiPer')], cel=[I('j', 5, 'gp:Celerite')], linear=[I('j', 5, linear=True)])
        for b in O.BASES:
            for npl in (0, 1, 2, 3, 11):
                for ins in INS:
                    for up in ('none', 'empty', 'some', 'all', 'tiny'):
                        for times in ('jd', 'short', 'edge'):
                            if not THOROUGH and npl in (3, 11) and ins not in ('one', 'gplong'):
                                continue
                            yield [b, npl, ins, up, times]

    def conf_run(ctx, case):
        b, npl, ins, up, times = case
        INS = dict(one=[I('j', 5)], anon=[I('', 5)], two=[I('j', 4), I('hires_rj', 4)], gpq=[I('j', 5, 'gp:QuasiPer')],
                   gplong=[I('harpn_post', 5, 'gp:QuasiPer')], cel=[I('j', 5, 'gp:Celerite')], linear=[I('j', 5, linear=True)])
        spec = dict(basis=b, npl=npl, insts=INS[ins], trend=['dvdt'] if npl % 2 else ['dvdt', 'curv'])
        if times != 'jd':
            vals = M.start_values(spec)
            shift = M.T0 if times == 'short' else M.T0 - 999990.0   # the latter: some times below and some above one million
            spec['start'] = {n: v - shift for n, v in vals.items() if n.startswith(('tc', 'tp'))}
            spec['time_base'] = M.T0 + 20.0 - shift
        vals = M.start_values(spec)
        vary = {n: i % 3 != 1 for i, n in enumerate(vals)}
        post = M.build(spec, vary=vary)
        for n in [x for x in vals if spec['insts'][0]['linear'] and x.startswith('gamma')]:
            vary[n] = post.params[n].vary
        msg = lambda: "%s, %d planets, instruments %s, uncertainties %s, times %s" % tuple(case)
        upar = uncertainties(spec, vals, up)
        post.uparams = upar
        look(ctx, post, spec, vals, vary, upar, None, msg)
        post.likelihood.uparams = upar
        check_table(ctx, repr(post.likelihood), spec, vals, vary, upar, msg)
        # single likelihoods of a composite share the parameters
        for lk in getattr(post.likelihood, 'like_list', []):
            check_table(ctx, repr(lk), spec, vals, vary, lk.uparams, msg)
        ctx.state(*map(str, case))
        ctx.trace()
        ctx.sample("%s -> %d rows" % (case, len(vals)))

    # ------------------------------------------------------------------------------ uncertainties of combined likelihoods
    def comb_cases():
        for c in ('log', 'gp', 'decorr'):
            for a in ('all', 'some', 'empty', 'none'):
                for b in ('all', 'some', 'empty', 'none'):
                    for third in (False, True):
                        yield [c, a, b, third]

    def comb_run(ctx, case):
        c, a, b, third = case
        spec = dict(CONFIGS[c])
        if third:
            spec['insts'] = spec['insts'] + [I('m', 4)]
        vals = M.start_values(spec)
        vary = {n: True for n in vals}
        post = M.build(spec)
        likes = post.likelihood.like_list
        us = [uncertainties(spec, vals, a), uncertainties(spec, vals, b)] + [{'per1': 7.75, 'jit_m': 0.875}] * third
        for u in us[1:]:
            for n in u or ():
                u[n] = next((w[n] for w in us if w and n in w), u[n])   # members agree about what they share
        if us[0] and us[1]:
            us[1].pop(sorted(us[1])[0])
            us[0].pop(sorted(us[0])[-1])
        kept = copy.deepcopy(us)
        for lk, u in zip(likes, us):
            lk.uparams = u
        comp = radvel.likelihood.CompositeLikelihood(likes)
        msg = lambda: "%s: members with uncertainties %s" % (c, case[1:])
        if None not in us:
            want = {}
            for u in kept:
                want.update(u)
            check_table(ctx, repr(radvel.posterior.Posterior(comp)), spec, vals, vary, want, msg)
        else:
            repr(comp)
        ctx.check(us == kept and all(lk.uparams is u for lk, u in zip(likes, us)), "members-changed", lambda: "%s: %s" % (msg(), us))
        ctx.state('comb', *map(str, case))
        ctx.trace()

    # ------------------------------------------------------------------------------ priors
    PR = {'Gaussian': lambda: R.Gaussian('k1', 21.125, 2.375), 'Ecc': lambda: R.EccentricityPrior(2, 0.625), 'Ecc2': lambda: R.EccentricityPrior([2], [0.375]),
          'Ecc3': lambda: R.EccentricityPrior([1, 2], [0.375, 0.875]), 'PosK': lambda: R.PositiveKPrior(2),
          'Hard': lambda: R.HardBounds('jit_j', 0.125, 9.875), 'Secondary': lambda: R.SecondaryEclipsePrior(1, 2450002.125, 0.375), 'Jeffreys': lambda: R.Jeffreys('k2', 0.125, 99.5),
          'Mod': lambda: R.ModifiedJeffreys('per1', 0.125, 99.5, -1.25), 'Inf': lambda: R.InformativeBaselinePrior('per1', 100.25, duration=0.75),
          'User': lambda: R.UserDefinedPrior(['per1', 'k2'], len, 'MYTEX'), 'Num': lambda: R.NumericalPrior(['k1'], np.linspace(1, 9, 40).reshape(1, -1))}
    SAYS = {'Gaussian': [['k1', '21.125', '2.375']], 'Ecc': [['e1', '0.625'], ['e2', '0.625']], 'Ecc2': [['e2', '0.375']], 'Ecc3': [['e1', '0.375'], ['e2', '0.875']], 'PosK': [['K', '> 0']],
            'Hard': [['jit_j', '0.125', '9.875']], 'Secondary': [['2450002.125', '0.375']], 'Jeffreys': [['k2', '0.125', '99.5']], 'Mod': [['per1', '-1.25', '0.125', '99.5']],
            'Inf': [['per1', '100.25', '0.75']], 'User': [['per1', 'k2']], 'Num': [['k1']]}

    def prior_cases():
        yield []
        for n in (1, 2, 3) if THOROUGH else (1, 2):
            for ks in itertools.product(PR, repeat=n):
                yield list(ks)

    def prior_run(ctx, case):
        spec = dict(basis='per tc e w k', npl=2, insts=[I('j', 6)], trend=[])
        vals = M.start_values(spec)
        post = M.build(spec, priors=[PR[k]() for k in case])
        rest = check_table(ctx, repr(post), spec, vals, {n: True for n in vals}, None, lambda: str(case))
        lines = [l for l in rest.split('\n') if l.strip() and set(l.strip()) != {'-'}]
        want = [w for k in case for w in SAYS[k]]
        if ctx.check(len(lines) == len(want), "prior-lines", lambda: "%s: %s" % (case, lines)):
            for l, w in zip(lines, want):
                pos = [l.find(x) for x in w]
                ctx.check(-1 not in pos and pos == sorted(pos), "prior-text", lambda: "%s: %r does not state %s" % (case, l, w))
        # an edited or removed prior is no longer printed
        if case:
            gone = post.priors.pop(0)
            post.priors.append(R.HardBounds('per2', 1.375, 77.25))
            t2 = repr(post).partition('\nPriors\n')[2]
            n0 = len(SAYS[case[0]])
            l2 = [l for l in t2.split('\n') if l.strip() and set(l.strip()) != {'-'}]
            ctx.check(l2[:-1] == lines[n0:] and all(x in l2[-1] for x in ('per2', '1.375', '77.25')), "prior-edited", lambda: "%s: %s" % (case, l2))
        ctx.state('priors', *case)
        ctx.trace()

    # ------------------------------------------------------------------------------ messages of the fitting steps
    def said(text, label):
        m = re.findall(r'^%s = (\S+)\s*$' % re.escape(label), text, re.M)
        return [float(x) for x in m]

    def near(got, want, digits):
        return abs(got - want) <= 0.51 * 10 ** -digits + 1e-9 * abs(want)

    def fit_cases():
        for c in CONFIGS:
            for mask in ('few', 'none', 'jit'):
                for method in ('Powell', 'Nelder-Mead'):
                    for prior in (False, True):
                        yield [c, mask, method, prior]

    def fit_run(ctx, case):
        c, mask, method, prior = case
        spec = CONFIGS[c]
        vals = M.start_values(spec)
        pick = dict(few=('k1', 'logk1', 'dvdt', 'gamma'), none=(), jit=('jit',))[mask]
        vary = {n: bool(pick) and n.startswith(pick) for n in vals}
        msg = lambda: "%s" % case
        kn = 'logk1' if 'logk1' in vals else 'k1'

        def make():
            return M.build(spec, vary=vary, priors=[R.Gaussian(kn, vals[kn] * 0.9, 0.5)] if prior else [])
        quiet = fitting.maxlike_fitting(make(), verbose=False, method=method)
        post = make()
        L0 = post.logprob()
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            res = fitting.maxlike_fitting(post, verbose=True, method=method)
        text = out.getvalue()
        a, b = said(text, 'Initial loglikelihood'), said(text, 'Final loglikelihood')
        ctx.check(len(a) == 1 and near(a[0], L0, 6), "initial-probability", lambda: "%s: printed %s, is %r" % (msg(), a, L0))
        ctx.check(len(b) == 1 and near(b[0], res.logprob(), 6), "final-probability", lambda: "%s: printed %s, is %r" % (msg(), b, res.logprob()))
        now = {n: p.value for n, p in res.params.items()}
        table = text.partition('Best-fit parameters:\n')[2]
        check_table(ctx, table, spec, now, vary, None, msg)
        ctx.check(list(quiet.get_vary_params()) == list(res.get_vary_params()), "verbose-changes-fit", lambda: "%s: %s, silent %s" % (msg(), list(res.get_vary_params()), list(quiet.get_vary_params())))
        # the statistics of a comparison without alternatives
        if method == 'Powell':
            start = make()
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                mc = fitting.model_comp(start, params=[], verbose=True)
            text = out.getvalue()
            table = text.rpartition('parameter ')[2]
            r = np.concatenate([np.atleast_1d(l.residuals()) for l in getattr(quiet.likelihood, 'like_list', [quiet.likelihood])])
            eb = np.concatenate([np.atleast_1d(l.errorbars()) for l in getattr(quiet.likelihood, 'like_list', [quiet.likelihood])])
            nd, nf = len(r), len(quiet.get_vary_params())
            chi = float(np.sum((r / eb) ** 2))
            want = {'N_free': nf, 'RMS': float(np.std(r)), 'logprob': quiet.logprob(), 'chi': chi, 'chi_red': chi / (nd - nf),
                    'BIC': nf * math.log(nd) - 2 * quiet.likelihood.logprob(), 'AIC': quiet.likelihood.aic()}
            for n, w in want.items():
                g = said(text, n)
                if n == 'AIC' and not g:
                    g = said(text, 'AICc')
                ctx.check(len(g) == 1 and near(g[0], w, 2), "printed-statistic", lambda: "%s: %s printed %s, is %r" % (msg(), n, g, w))
            with contextlib.redirect_stdout(io.StringIO()):
                mc2 = fitting.model_comp(make(), params=[], verbose=False)
            ctx.check([{k: v[0] for k, v in d.items()} for d in mc] == [{k: v[0] for k, v in d.items()} for d in mc2] or repr(mc) == repr(mc2), "verbose-changes-comparison", msg)
        ctx.state('fit', *map(str, case))
        ctx.trace()

    # ------------------------------------------------------------------------------ summary after sampling
    def post_cases():
        for c in CONFIGS:
            for spread in (0.0, 1.0):
                for prior in (False, True):
                    yield [c, spread, prior]

    def post_run(ctx, case):
        import pandas as pd
        from radvel import driver
        c, spread, prior = case
        spec = CONFIGS[c]
        vals = M.start_values(spec)
        vary = {n: n.startswith(('k1', 'logk1', 'dvdt', 'gamma', 'jit')) or n in ('tc1', 'tp1') for n in vals}
        kn = 'logk1' if 'logk1' in vals else 'k1'
        post = M.build(spec, vary=vary, priors=[R.Gaussian(kn, vals[kn] * 0.9, 0.5)] if prior else [])
        msg = lambda: "%s" % case
        free = post.name_vary_params()
        q = np.arange(101)
        df = pd.DataFrame({n: vals[n] + spread * 0.02 * (1 + i) * np.sin(1.0 + q * (1.3 + 0.11 * i)) for i, n in enumerate(free)})
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            res, summary, chains = driver.sampling_postprocessing(post, df.copy())
        text = out.getvalue()
        likes = getattr(res.likelihood, 'like_list', [res.likelihood])
        r = np.concatenate([np.atleast_1d(l.residuals()) for l in likes])
        eb = np.concatenate([np.atleast_1d(l.errorbars()) for l in likes])
        nd, nf = len(r), len(free)
        for label, w in (('Final loglikelihood', res.logprob()), ('Final RMS', float(np.std(r))), ('Final reduced chi-square', float(np.sum((r / eb) ** 2)) / (nd - nf) if nd != nf else None)):
            g = said(text, label)
            if w is not None:
                ctx.check(len(g) == 1 and near(g[0], w, 6), "sampling-summary", lambda: "%s: %s printed %s, is %r" % (msg(), label, g, w))
        table = text.partition('Best-fit parameters:\n')[2]
        now = {n: p.value for n, p in res.params.items()}
        check_table(ctx, table, spec, now, vary, res.uparams, msg)
        ctx.state('post', *map(str, case))
        ctx.trace()

    # ------------------------------------------------------------------------------ kernels and single parameters
    def kern_cases():
        for kind in M.HN:
            for ops in itertools.product('SLCK', repeat=3 if THOROUGH else 2):
                for sfx in ('j', ''):
                    yield [kind, ''.join(ops), sfx]

    def kern_run(ctx, case):
        kind, ops, sfx = case
        spec = dict(basis='per tc e w k', npl=1, insts=[I(sfx, 6, 'gp:' + kind)], trend=[])
        vals = M.start_values(spec)
        post = M.build(spec)
        msg = lambda: "%s kernel after %s" % (kind, ops)
        for j, op in enumerate(ops, 1):
            if op in 'SL':
                free = post.name_vary_params()
                vals = {n: moved(n, vals[n], j) for n in vals}
                (post.set_vary_params if op == 'S' else post.logprob_array)(np.array([vals[n] for n in free]))
            elif op == 'C':
                post = copy.deepcopy(post)
            else:
                post = pickle.loads(pickle.dumps(post))
            post.logprob()
            ctx.trans()
        text = repr(post.likelihood.kernel)
        nums = sorted(float(x) for x in re.findall(r'-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?', text))
        want = sorted(vals[h] for h in M.hnames(spec['insts'][0]))
        ctx.check(len(nums) == len(want) and all(close(a, b, 1e-9, 1e-12) for a, b in zip(nums, want)) and kind in text, "kernel-text", lambda: "%s: %r, values %s" % (msg(), text, want))
        for label, h in (('exp length', 'gp_explength'), ('per length', 'gp_perlength'), ('amp', 'gp_amp'), ('Prot', 'gp_Prot'), ('B', 'gp_B'), ('C', 'gp_C'), ('L', 'gp_L')):
            m = re.search(r'(?:^|[\s,])%s\s*[:=]\s*(-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)' % label, text)
            full = h + ('_' + sfx if sfx else '')
            if m and h in M.HN[kind]:
                ctx.check(close(float(m.group(1)), vals[full], 1e-9, 1e-12), "kernel-label", lambda: "%s: %r states %s=%s, is %r" % (msg(), text, label, m.group(1), vals[full]))
        for n, p in post.params.items():
            t = repr(p)
            ctx.check(repr(p.value) in t or str(p.value) in t, "parameter-text", lambda: "%s: %s: %r" % (msg(), n, t))
            ctx.check(str(p.vary) in t, "parameter-text", lambda: "%s: %s: %r" % (msg(), n, t))
        ctx.state('kern', *case)
        ctx.trace()

    return [Suite("histories", hist_cases, hist_run), Suite("configurations", conf_cases, conf_run), Suite("combined", comb_cases, comb_run), Suite("priors", prior_cases, prior_run),
            Suite("fits", fit_cases, fit_run), Suite("sampling", post_cases, post_run), Suite("kernels", kern_cases, kern_run)]


if __name__ == "__main__":
    main("R27", suites, "model_checking",
         "state = (configuration, history of array/dictionary/vector edits, flag flips, uncertainty assignments, copies and saves), every history up to the bound is run on the real "
         "posterior; the printed table is parsed back and compared with the values, flags and uncertainties of a reference dictionary, and printing must change nothing",
         "histories of up to 3 (4 thorough) of 10 operations on 6 configurations; 9 bases x 0-11 planets x 7 instrument sets x 5 uncertainty sets x 3 time scales; lists of up to "
         "2 (3) of 12 priors; printed statistics of fits and sampling summaries; kernels x histories of 2 (3)")
