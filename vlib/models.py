"""Enumerable model configurations ("specs"): building the real posterior of a spec, and the reference value of its
log-likelihood as a function of parameter values *by name* (independent of slots, vectors and bases in the code)."""
import math
import numpy as np
from . import oracle as O

T0 = 2450000.0
ORB = [(12.3, T0 + 4.0, 0.31, 0.9, 21.0), (3.7, T0 + 1.1, 0.2, 3.9, 5.5), (40.0, T0 + 10.0, 0.05, 5.5, 8.0),
       (1.7, T0 + 0.2, 0.4, 2.2, 2.5)]
ORB += [(7.1 + 11.3 * i, T0 + 0.7 * i + 1.3, 0.06 + 0.03 * i, 0.3 + 0.77 * i, 1.5 + 0.9 * i) for i in range(8)]
HN = dict(SqExp=['gp_length', 'gp_amp'], Per=['gp_per', 'gp_length', 'gp_amp'],
          QuasiPer=['gp_per', 'gp_perlength', 'gp_explength', 'gp_amp'], Celerite=['gp_B', 'gp_C', 'gp_L', 'gp_Prot'])
HV = dict(gp_length=4.0, gp_amp=3.0, gp_per=6.5, gp_perlength=0.7, gp_explength=11.0, gp_B=6.0, gp_C=0.4, gp_L=9.0, gp_Prot=7.3)


def data(i, n, sort=True):
    j = np.arange(n)
    t = T0 + (j * 7.13 + i * 3.3 + 2.1 * np.sin(j * 1.7 + i)) % (9.0 * n)
    if sort:
        t = np.sort(t)
    elif sort is False:
        t = np.sort(t)[np.argsort(np.sin(j * 2.7 + i))]
    if sort == 'dup':
        t[1::2] = t[0::2][:n // 2]
    v = 15.0 * np.sin(2 * math.pi * (t - T0) / 12.3 + i) + 3.0 * np.cos(j * 2.3) + 4.0 * i
    e = 1.0 + 0.3 * (j % 4) + 0.2 * i
    return t, v, e


def inst(suffix, n=8, kind='rv', decorr=(), linear=False, sort=True, shared=False):
    return dict(suffix=suffix, n=n, kind=kind, decorr=list(decorr), linear=linear, sort=sort, shared=shared)


def hnames(ins):
    k = ins['kind'].split(':')[1]
    sfx = '' if ins.get('shared') else ('_' + ins['suffix'] if ins['suffix'] else '')
    return [h + sfx for h in HN[k]]


def start_values(spec):
    vals = {}
    for n in range(1, spec['npl'] + 1):
        for kk, v in O.from_synth(spec['basis'], *ORB[n - 1]).items():
            vals[kk + str(n)] = v
    tr = dict(dvdt=0.05, curv=-0.002)
    for x in spec.get('trend', ()):
        vals[x] = tr[x]
    for i, ins in enumerate(spec['insts']):
        s = '_' + ins['suffix'] if ins['suffix'] else ''
        vals['gamma' + s] = 1.5 * (i + 1) - 2.0
        vals['jit' + s] = 1.1 + 0.4 * i
        for d in ins['decorr']:
            vals['c1_' + d + s] = 0.8 - 0.5 * i
        if ':' in ins['kind']:
            for h in hnames(ins):
                vals.setdefault(h, HV['_'.join(h.split('_')[:2])] * (1 + 0.1 * i))
    S = spec.get('scale', 1.0)
    if S != 1.0:
        for k in vals:
            if k.startswith(('gamma', 'jit', 'dvdt', 'curv', 'c1_', 'gp_amp')) or (k[0] == 'k' and k[1:].isdigit()):
                vals[k] *= S
            elif k.startswith('gp_B'):
                vals[k] *= S * S
            elif k.startswith('logk'):
                vals[k] += math.log(S)
    vals.update(spec.get('start', {}))
    return vals


def decorr_vec(ins, d, i):
    j = np.arange(ins['n'])
    return 1.0 + 0.5 * np.sin(j * (1.3 + len(d)) + i + sum(map(ord, d)) % 7)


def build(spec, values=None, vary=None, priors=None):
    """The real posterior object of the spec."""
    import radvel
    from radvel import Parameter, Parameters, RVModel
    from radvel.likelihood import RVLikelihood, GPLikelihood, CeleriteLikelihood, CompositeLikelihood
    from radvel.posterior import Posterior
    vals = start_values(spec)
    if values:
        vals.update(values)
    vary = vary or {}
    P = Parameters(spec['npl'], basis=spec['basis'], planet_letters={int(k): v for k, v in spec['letters'].items()} if spec.get('letters') else None)
    linear = {'gamma' + ('_' + x['suffix'] if x['suffix'] else '') for x in spec['insts'] if x['linear']}
    orb = [k for k in vals if k in P]
    rest = [k for k in vals if k not in P]
    order = spec.get('order', 'first')
    early = {'first': rest, 'reversed': rest[::-1], 'late': [k for k in rest if k.startswith('gp_') or k in ('dvdt', 'curv')],
             'rotated': rest[1:] + rest[:1]}[order]
    def par(k):
        return Parameter(value=vals[k], vary=bool(vary.get(k, k not in linear)), linear=(k in linear))
    for k in orb + list(early):
        P[k] = par(k)
    mod = RVModel(P, time_base=spec.get('time_base', T0 + 20.0))
    likes = []
    for i, ins in enumerate(spec['insts']):
        s = '_' + ins['suffix'] if ins['suffix'] else ''
        t, v, e = data(i, ins['n'], ins['sort'])
        v, e = v * spec.get('scale', 1.0), e * spec.get('scale', 1.0)
        dec = dict(decorr_vars=list(ins['decorr']), decorr_vectors={d: decorr_vec(ins, d, i) for d in ins['decorr']})
        if ins['kind'] == 'rv':
            lk = RVLikelihood(mod, t, v, e, suffix=s, **dec)
        elif ins['kind'] == 'gp:Celerite':
            lk = CeleriteLikelihood(mod, t, v, e, hnames(ins), suffix=s, **dec)
        else:
            lk = GPLikelihood(mod, t, v, e, hnames(ins), suffix=s, kernel_name=ins['kind'].split(':')[1], **dec)
        likes.append(lk)
    for k in rest:
        if k not in early:
            mod.params[k] = par(k)
    if order == 'late':
        mod.vector.dict_to_vector()
    like = likes[0] if len(likes) == 1 and not spec.get('composite') else CompositeLikelihood(likes)
    post = Posterior(like)
    if priors is not None:
        post.priors = priors
    return post


def ref_model(spec, vals, t):
    tb = spec.get('time_base', T0 + 20.0)
    m = np.zeros(len(t))
    for n in range(1, spec['npl'] + 1):
        m = m + O.rv(t, *O.to_synth(spec['basis'], {k: vals[k + str(n)] for k in spec['basis'].split()}))
    return m + vals.get('dvdt', 0.0) * (t - tb) + vals.get('curv', 0.0) * (t - tb) ** 2


def ref_kernel(kind, h, a, b):
    d = np.abs(np.asarray(a, float)[:, None] - np.asarray(b, float)[None, :])
    if kind == 'SqExp':
        return h['gp_amp'] ** 2 * np.exp(-d ** 2 / h['gp_length'] ** 2)
    if kind == 'Per':
        return h['gp_amp'] ** 2 * np.exp(-np.sin(math.pi * d / h['gp_per']) ** 2 / (2 * h['gp_length'] ** 2))
    if kind == 'QuasiPer':
        if 0 in (h['gp_amp'], h['gp_per'], h['gp_perlength'], h['gp_explength']):
            return np.zeros_like(d)
        return h['gp_amp'] ** 2 * np.exp(-d ** 2 / h['gp_explength'] ** 2 - np.sin(math.pi * d / h['gp_per']) ** 2 / (2 * h['gp_perlength'] ** 2))
    B, C, L, P = h['gp_B'], h['gp_C'], h['gp_L'], h['gp_Prot']
    return B / (2 + C) * np.exp(-d / L) * (np.cos(2 * math.pi * d / P) + 1 + C)


def hyper(ins, vals):
    return {'_'.join(k.split('_')[:2]): vals[k] for k in hnames(ins)}


def ref_inst(spec, i, vals, fixed_linear=True):
    """(residual before GP, error bars, log-likelihood) of instrument i"""
    ins = spec['insts'][i]
    s = '_' + ins['suffix'] if ins['suffix'] else ''
    t, v, e = data(i, ins['n'], ins['sort'])
    v, e = v * spec.get('scale', 1.0), e * spec.get('scale', 1.0)
    m = ref_model(spec, vals, t)
    var = e ** 2 + vals['jit' + s] ** 2
    tr = 0.0
    for d in ins['decorr']:
        x = decorr_vec(ins, d, i)
        tr = tr + vals['c1_' + d + s] * (x - x.mean())
    if ins['kind'] == 'rv':
        lin = ins['linear'] and fixed_linear
        r = v - m - tr
        r = r - (np.sum(r / var) / np.sum(1 / var) if lin else vals['gamma' + s])
        ll = O.gauss_loglike(r, var)
        if lin:
            ll += 0.5 * math.log(O.TWOPI / np.sum(1 / var))
        return r, np.sqrt(var), ll
    r = v - m - tr - vals['gamma' + s]
    K = ref_kernel(ins['kind'].split(':')[1], hyper(ins, vals), t, t) + np.diag(var)
    return r, np.sqrt(var), O.mvn_loglike(r, K)


def ref_loglike(spec, vals):
    return sum(ref_inst(spec, i, vals)[2] for i in range(len(spec['insts'])))


def units_suite(ctx_check_specs):
    """The same data and model in other velocity units (km/s, cm/s, ...): the log-likelihood moves by -n ln(scale) and equals the
    reference, the residuals, error bars and GP prediction scale."""
    from .core import Suite, close
    SC = [1e-6, 1e-4, 1e-3, 1.0, 1e3, 1e5]

    def cases():
        for n in range(len(ctx_check_specs)):
            for S in SC:
                yield [n, S]

    def run(ctx, case):
        n, S = case
        spec = dict(ctx_check_specs[n], scale=S)
        base = build(dict(spec, scale=1.0))
        post = build(spec)
        N = sum(i['n'] for i in spec['insts'])
        msg = lambda: "spec %s in units of %g" % (spec, 1 / S)
        a, b = base.likelihood.logprob(), post.likelihood.logprob()
        ctx.check(close(b, a - N * math.log(S) + sum(math.log(S) for i in spec['insts'] if i['linear']), 1e-7, 1e-5), "loglike-units", lambda: "%s: %r, in original units %r" % (msg(), b, a))
        ctx.check(close(b, ref_loglike(spec, start_values(spec)), 1e-7, 1e-5), "loglike-scaled", lambda: "%s: %r vs %r" % (msg(), b, ref_loglike(spec, start_values(spec))))
        for who in ('residuals', 'errorbars'):
            x, y = np.ravel(getattr(base.likelihood, who)()), np.ravel(getattr(post.likelihood, who)())
            ctx.check(close(y / S, x, 1e-6, 1e-5), "%s-units" % who, lambda: "%s: %s vs %s" % (msg(), y / S, x))
        for i, (p, q) in enumerate(zip(getattr(base.likelihood, 'like_list', [base.likelihood]), getattr(post.likelihood, 'like_list', [post.likelihood]))):
            if ':' in spec['insts'][i]['kind']:
                x = T0 + np.array([-3.0, 2.2, 4.0, 17.7, 90.0])
                for j, (u, w) in enumerate(zip(p.predict(x), q.predict(x))):
                    ctx.check(close(np.ravel(w) / S, np.ravel(u), 1e-5, 1e-5), "predict-units-%d" % j, lambda: "%s: %s vs %s" % (msg(), w / S, u))
        ctx.state("units", n, S)
        ctx.trace()

    return Suite("units", cases, run)
