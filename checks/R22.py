import contextlib
import copy
import io
import itertools
import re
import types
from vlib.core import *
from vlib import models as M
from vlib import oracle as O

I = M.inst
TABLES = ['tab_params', 'tab_derived', 'tab_rv', 'tab_prior_summary', 'tab_crit', 'tab_comparison']
Q = (0.159, 0.5, 0.841)
N = 301


def suites():
    import collections
    import numpy as np
    import pandas as pd
    import radvel
    from radvel import driver, report, prior as R
    from matplotlib import mathtext
    driver.radvel.fitting.maxlike_fitting, real_fit = (lambda post, **k: post), driver.radvel.fitting.maxlike_fitting

    def noise(i, shape='normal'):
        """N values with mean about 0 and unit width in an order depending on i; not symmetric for 'skew'"""
        from statistics import NormalDist
        u = (np.arange(N) + 0.5) / N
        z = np.array([NormalDist().inv_cdf(x) for x in u])
        if shape == 'skew':
            z = np.where(z > 0, 2.2 * z, 0.7 * z)
        return z[(np.arange(N) * (7 + 4 * i) + 13 * i) % N]

    def width(p):
        for k, s in dict(logper=1e-4, per=2e-3, tc=0.02, tp=0.03, secosw=0.02, sesinw=0.02, ecosw=0.01, esinw=0.01, se=0.02, logk=0.03, e=0.01, w=0.05, k=0.4, dvdt=0.004,
                         curv=0.0003, gamma=0.3, jit=0.11).items():
            if p.rstrip('0123456789') == k or (k in ('gamma', 'jit') and p.startswith(k)):
                return s
        return 0.05

    def chain_of(spec, vals, vary, shape='normal'):
        d = {}
        for i, p in enumerate(k for k in vals if vary.get(k, True)):
            d[p] = vals[p] + width(p) * noise(i, shape)
        df = pd.DataFrame(d)
        df['lnprobability'] = -100.0 - 0.5 * noise(99) ** 2
        if shape == 'skew':
            df.index = np.arange(N)[::-1] + 3           # the rows of a thinned or reordered chain keep their labels
        return df

    def planet_of(spec, name='star_x'):
        return types.SimpleNamespace(starname=name, nplanets=spec['npl'], fitting_basis=spec['basis'],
                                     **({'planet_letters': {int(k): v for k, v in spec['letters'].items()}} if spec.get('letters') else {}))

    def setup(spec, fixed=(), shape='normal', values=None, priors=None, **chainkw):
        spec = dict(spec, composite=True)
        vals = dict(M.start_values(spec), **(values or {}))
        vary = {k: k not in fixed for k in vals}
        post = M.build(spec, values=values, vary=vary, priors=priors)
        df = chain_of(spec, vals, vary, shape)
        with contextlib.redirect_stdout(io.StringIO()):
            post = driver.sampling_postprocessing(post, df)[0]
        return spec, vals, vary, post, df

    def make_report(spec, post, df, **kw):
        a = dict(minafactor='40.123', maxarchange='0.0312', maxgr='1.0051', mintz='1234.5')
        a.update(kw)
        return report.RadvelReport(planet_of(spec), post, df, **a)

    def rows_of(text):
        out = []
        for l in text.split('\n'):
            m = re.match(r'^\s*(\S.*?) & \$(.*)\$ & \$(.*)\$ & (.*?) \\\\\s*$', l)
            if m:
                out.append(m.groups())
        return out

    def number(s):
        m = re.match(r'^(-?[0-9.]+(?:e[-+]?\d+)?)(?:\\pm ([0-9.e+-]+)|\^\{\+([0-9.e+-]+)\}_\{-([0-9.e+-]+)\})$', s)
        if m:
            v, pm, hi, lo = m.groups()
            return float(v), float(pm or lo), float(pm or hi), digit(v), max(digit(pm or lo), digit(pm or hi))
        m = re.match(r'^\\equiv(-?[0-9.]+(?:e[-+]?\d+)?)$', s)
        if m:
            return float(m.group(1)), None, None, digit(m.group(1)), None
        return None

    def digit(v):
        m = re.match(r'^-?\d+(?:\.(\d*))?(?:e([-+]?\d+))?$', v)
        return 10.0 ** (-len(m.group(1) or '') + int(m.group(2) or 0))

    def exact(spec, vals, vary, df, fit=True):
        """name -> array of the chain of every parameter the table can show"""
        n = len(df)
        full = {k: df[k].values if vary[k] else np.full(n, vals[k]) for k in vals}
        out = dict(full)
        b = spec['basis'].split()
        for pl in range(1, spec['npl'] + 1):
            rows = [O.to_synth(spec['basis'], {k: full[k + str(pl)][i] for k in b}) for i in range(n)]
            al = [O.from_synth('per tc tp e w k', *r) for r in rows]
            for k in 'per tc tp e w k'.split():
                if k + str(pl) not in full:
                    out[k + str(pl)] = np.array([a[k] for a in al])
        return out

    def expect(ctx, name, row, chain, unit, period, msg, maxv=None):
        label, med, ml, u = row
        x = np.array(chain, float)
        if name.startswith('w'):
            # same branch as the majority
            c = np.angle(np.mean(np.exp(1j * x)))
            x = c + (x - c + math.pi) % O.TWOPI - math.pi
        elif re.match('t[cp][0-9]+$', name):
            y = x[0] + (x - x[0] + period / 2) % period - period / 2
            if not (np.ptp(x) > 0.5 * period and number(med) and (number(med)[1] or 0) + (number(med)[2] or 0) > 0.5 * period):
                x = y       # (samples on both sides of a period boundary: quantiles with or without unwrapping)
        q = np.quantile(x, Q)
        got = number(med)
        if not ctx.check(got is not None, "number", lambda: "%s: %s is %r" % (msg(), name, row)):
            return
        turn = O.TWOPI if name.startswith('w') else period if re.match('t[cp][0-9]+$', name) else None

        def dist(a, b):
            d = a - b
            if turn:
                d = (d + turn / 2) % turn - turn / 2
            return abs(d)
        gap = max(np.diff(np.sort(x))[int(0.1 * len(x)):int(0.9 * len(x))]) if len(x) > 1 else 0
        lo, hi = q[1] - q[0], q[2] - q[1]
        if np.ptp(x) == 0:
            ctx.check(got[1] is None, "fixed-mark", lambda: "%s: the fixed %s is printed as %s" % (msg(), name, med))
            ctx.check(dist(got[0], q[1]) <= 0.51e-4, "fixed-value", lambda: "%s: %s printed %s, fixed at %r" % (msg(), name, med, q[1]))
        elif ctx.check(got[1] is not None, "free-mark", lambda: "%s: %s printed as fixed (%s), interval %s" % (msg(), name, med, q)):
            ctx.check(dist(got[0], q[1]) <= 0.51 * got[4] + gap, "median", lambda: "%s: %s printed %s, quantiles %s" % (msg(), name, med, q))
            for what, g, w in (('lower', got[1], lo), ('upper', got[2], hi)):
                ctx.check(abs(g - w) <= 0.06 * w + 0.51 * got[4] + gap, "interval", lambda: "%s: %s %s error printed in %s, quantiles %s" % (msg(), name, what, med, q))
            if maxv is not None:
                try:
                    g = float(ml)
                except ValueError:
                    g = float('nan')
                ctx.check(dist(g, maxv) <= 0.11 * min(lo, hi) + digit(ml) * 0.51, "maximum-likelihood", lambda: "%s: %s printed %s, fit %r" % (msg(), name, ml, maxv))
        ctx.check(u.strip() == unit, "unit", lambda: "%s: %s in %r, expected %r" % (msg(), name, u, unit))

    # ------------------------------------------------------------------------------ labels
    SYM = dict(per='P', logper=r'\ln{P}', logk=r'\ln{K}', tc=r'T\rm{conj}', secosw=r'\sqrt{e}\cos{\omega}', sesinw=r'\sqrt{e}\sin{\omega}', ecosw=r'e\cos{\omega}', esinw=r'e\sin{\omega}',
               e='e', w=r'\omega', tp=r'T\rm{peri}', k='K', se='se')
    UNIT = dict(per='days', tp='JD', tc='JD', w='radians', k='m s$^{-1}$', logk=r'$\ln{(\rm m\ s^{-1})}$')
    EXTRA = {'gamma': report.units['gamma'], 'jit': report.units['jit'], 'gp_amp': report.units['gp_amp'], 'gp_explength': 'days', 'gp_per': 'days', 'gp_perlength': ''}

    def letter(spec, n):
        return spec['letters'][str(n)] if spec.get('letters') else 'abcdefghijkl'[n]

    # ------------------------------------------------------------------------------ parameter table
    SETS = {'one': [I('j', 6)], 'two': [I('hires', 6), I('k', 5)], 'prefix': [I('j', 5), I('j1', 5)], 'sub': [I('h', 5), I('hires', 5), I('rh', 4)],
            'long': [I('harps-n', 12)], 'under': [I('hires_rj', 5), I('hires_rk', 5), I('apf', 4)], 'words': [I('jitter', 5), I('curvA', 5), I('gammax', 4)],
            'gp': [I('hires', 6, 'gp:QuasiPer'), I('k', 5)], 'gp2': [I('j', 6, 'gp:QuasiPer'), I('j1', 6, 'gp:QuasiPer')], 'gpshared': [I('j', 6, 'gp:QuasiPer', shared=True), I('hires', 5, 'gp:QuasiPer', shared=True)]}

    def cases():
        for b in O.BASES:
            for npl in (1, 2):
                for tr in ((), ('dvdt',), ('dvdt', 'curv')):
                    for fixed in ('none', 'orbit', 'inst'):
                        yield [dict(basis=b, npl=npl, insts='two', trend=list(tr)), fixed, 'normal']
        for s in SETS:
            for b in (O.BASES[1], O.BASES[4]):
                for shape in ('normal', 'skew'):
                    for letters in (None, {'1': 'd', '2': 'b'}):
                        yield [dict(basis=b, npl=2, insts=s, trend=['dvdt'], letters=letters), 'none', shape]
        for s in ('gp', 'gp2', 'gpshared'):
            for b in (O.BASES[1], O.BASES[4]):
                for fix in ('gp', 'gpall'):
                    yield [dict(basis=b, npl=1, insts=s, trend=[]), fix, 'skew']
        for w in (-3.1, -1.6, 0.0, 1.57, 3.1):
            yield [dict(basis='per tc e w k', npl=1, insts='one', trend=[], w=w), 'none', 'normal']
        for npl in (0, 3, 4, 9, 10, 11):
            for b in ('per tc e w k', O.BASES[1]):
                yield [dict(basis=b, npl=npl, insts='one', trend=[]), 'none', 'normal']

    def run(ctx, case):
        sp, fix, shape = case
        spec = dict(sp, insts=SETS[sp['insts']])
        vals0 = M.start_values(spec)
        fixed = {'none': (), 'orbit': [k for k in vals0 if re.match('(per|logper|tc|tp|w|e|se|secosw|sesinw|ecosw|esinw)1$', k)], 'inst': ['gamma_hires', 'jit_k'] + list(sp['trend']),
                 'gp': [k for k in vals0 if k.startswith(('gp_per', 'gp_explength'))], 'gpall': [k for k in vals0 if k.startswith('gp_')]}[fix]
        values = {'w1': sp['w']} if 'w' in sp else {}
        if 'w1' in vals0 and 'w' not in sp:
            values = {'w%d' % n: (vals0['w%d' % n] + math.pi) % O.TWOPI - math.pi for n in range(1, sp['npl'] + 1)}
        spec, vals, vary, post, df = setup(spec, fixed, shape, values)
        msg = lambda: json.dumps(case)
        df0, post0 = df.copy(deep=True), {k: (p.value, p.vary) for k, p in post.params.items()}
        basis0, max0 = post.params.basis.name, copy.deepcopy(post.maxparams)
        rep = make_report(spec, post, df)
        text = report.TexTable(rep).tab_params()
        ctx.check(df.equals(df0) and list(df.columns) == list(df0.columns), "chains-changed", lambda: "%s: columns %s, were %s" % (msg(), list(df.columns), list(df0.columns)))
        ctx.check({k: (p.value, p.vary) for k, p in post.params.items()} == post0 and post.params.basis.name == basis0 and post.maxparams == max0, "posterior-changed", lambda: "%s: %s" % (msg(), post.params))
        ex = exact(spec, vals, vary, df)
        secs = re.split(r'\\sidehead', text)
        if not ctx.check(len(secs) == 4, "sections", lambda: "%s: %s" % (msg(), text)):
            return
        b = spec['basis'].split()
        planets = range(1, spec['npl'] + 1)
        maxv = {}
        for n in planets:
            o = O.to_synth(spec['basis'], {k: float(np.quantile(ex[k + str(n)], 0.5)) for k in b})
            for k, v in O.from_synth('per tc tp e w k', *o).items():
                maxv[k + str(n)] = v
        for k in vals:
            maxv[k] = float(np.quantile(ex[k], 0.5))
        for sec, names in ((1, b), (2, 'per tc tp e w k'.split())):
            rows = rows_of(secs[sec])
            want = {}
            for n in planets:
                for p in names:
                    want['$%s_{%s}$' % (SYM[p], letter(spec, n))] = (p, n)
            # time of conjunction and periastron are both listed if the fit knows both
            optional = {k for k, (p, n) in want.items() if sec == 2 and p == 'tc' and 'tc' not in b}
            labels = [r[0] for r in rows]
            ctx.check(len(set(labels)) == len(labels) and set(labels) <= set(want) and set(want) - optional <= set(labels), "rows-%d" % sec, lambda: "%s: rows %s, expected %s" % (msg(), labels, sorted(want)))
            for r in rows:
                if r[0] in want:
                    p, n = want[r[0]]
                    expect(ctx, p + str(n), r, ex[p + str(n)], UNIT.get(p, ''), float(np.median(ex['per%d' % n])), msg, maxv.get(p + str(n)))
        rows = rows_of(secs[3])
        want = {}
        for ins in spec['insts']:
            s = ins['suffix']
            want[r'$\gamma_{\rm %s}$' % s] = ('gamma_' + s, EXTRA['gamma'])
            want[r'$\sigma_{\rm %s}$' % s] = ('jit_' + s, EXTRA['jit'])
            if ':' in ins['kind']:
                for h in M.hnames(ins):
                    hb = '_'.join(h.split('_')[:2])
                    num = {'gp_amp': 1, 'gp_explength': 2, 'gp_per': 3, 'gp_perlength': 4}[hb]
                    want[r'$\eta_{%d%s}$' % (num, '' if ins.get('shared') else r', \rm ' + s)] = (h, EXTRA[hb])
        for x, l in (('dvdt', r'$\dot{\gamma}$'), ('curv', r'$\ddot{\gamma}$')):
            if x in vals:
                want[l] = (x, report.units[x])
        labels = [r[0] for r in rows]
        ctx.check(sorted(labels) == sorted(want), "rows-3", lambda: "%s: rows %s, expected %s" % (msg(), sorted(labels), sorted(want)))
        for r in rows:
            if r[0] in want:
                p, u = want[r[0]]
                expect(ctx, p, r, ex[p], u, 1.0, msg, maxv[p])
        ctx.check(' %d links saved' % N in text and re.search(r'Reference epoch[^\n]*: %s' % re.escape(str(post.likelihood.model.time_base)), text), "notes", lambda: "%s: %s" % (msg(), text[-400:]))
        t2 = report.TexTable(rep).tab_params(name_in_title=True)
        ctx.check('star_x' in t2 or r'star\_x' in t2, "title", lambda: "%s: %s" % (msg(), t2[:200]))
        ctx.check(t2.split(r'\startdata')[1] == text.split(r'\startdata')[1], "titled-table", msg)
        ctx.state('params', sp['basis'], sp['npl'], sp['insts'], fix, shape)
        ctx.trace()

    # ------------------------------------------------------------------------------ observations
    def rv_cases():
        for s in ('one', 'two', 'prefix', 'sub', 'long', 'under', 'gp', 'many', 'three_words', 'unsorted'):
            for linear in (False, True):
                for ml in (None, 1, 5, 11, 12, 50, 7.6):
                    yield [s, linear, ml]

    def rv_run(ctx, case):
        s, linear, ml = case
        ins = {'many': [I('j', 40), I('k', 35)], 'three_words': [I('a_b_c', 4), I('a_b_d', 3)], 'unsorted': [I('j', 6, sort=False), I('k', 5, sort=False)]}.get(s) or SETS[s]
        ins = [dict(x, linear=linear and ':' not in x['kind']) for x in ins]
        spec, vals, vary, post, df = setup(dict(basis='per tc e w k', npl=1, insts=ins, trend=[]), values={'gamma_' + x['suffix']: 31.7 * (i + 1) for i, x in enumerate(ins)},
                                           fixed=['gamma_' + x['suffix'] for x in ins] if linear else ())
        tt = report.TexTable(make_report(spec, post, df))
        text = tt.tab_rv(max_lines=ml)
        rows = [l.strip() for l in text.split(r'\startdata')[1].split(r'\tablecomments')[0].split('\n') if l.strip()]
        want = []
        for i, x in enumerate(ins):
            t, v, e = M.data(i, x['n'], x['sort'])
            nm = x['suffix']
            want += [('%.5f' % t[j], '%.2f' % v[j], '%.2f' % e[j], nm) for j in range(len(t))]
        got = []
        for r in rows:
            ctx.check(r.count('{') == r.count('}') and r.count('$') % 2 == 0 and r.endswith('\\\\'), "row-tex", lambda: "%s: %s" % (case, r))
            c = [z.strip() for z in r.rstrip('\\').split('&')]
            if not ctx.check(len(c) == 4, "row-cells", lambda: "%s: %s" % (case, r)):
                return
            got.append((c[0], c[1], c[2], re.sub(r'[ ${}\\]|\\rm', '', c[3].replace(r'$_{\rm ', '_').replace('\\', ''))))
        n = len(want) if ml is None else min(len(want), int(np.round(ml)))
        ctx.check(len(got) == n and got == want[:n], "observations", lambda: "%s: %d rows, expected %d; first difference %s" % (case, len(got), n, [(a, b) for a, b in zip(got, want) if a != b][:1]))
        note = re.search(r'Only the first (\d+) of (\d+)', text)
        if n < len(want):
            ctx.check(note and note.groups() == (str(n), str(len(want))), "note", lambda: "%s: %s" % (case, text[-300:]))
        else:
            ctx.check(not note, "note-complete", lambda: "%s: complete table says %s" % (case, note.group(0)))
        ctx.state('rv', s, linear, ml)
        ctx.trace()

    # ------------------------------------------------------------------------------ priors
    PR = {'Gaussian': lambda: R.Gaussian('k1', 21.125, 2.375), 'Ecc': lambda: R.EccentricityPrior(2, 0.625), 'Ecc2': lambda: R.EccentricityPrior([2], [0.375]), 'PosK': lambda: R.PositiveKPrior(2),
          'Hard': lambda: R.HardBounds('jit_j', 0.125, 9.875), 'Secondary': lambda: R.SecondaryEclipsePrior(1, 2450002.125, 0.375), 'Jeffreys': lambda: R.Jeffreys('k2', 0.125, 99.5),
          'Mod': lambda: R.ModifiedJeffreys('per1', 0.125, 99.5, -1.25), 'Inf': lambda: R.InformativeBaselinePrior('per1', 100.25, duration=0.75), 'User': lambda: R.UserDefinedPrior(['per1'], len, 'MYTEX'),
          'Num': lambda: R.NumericalPrior(['k1'], np.linspace(1, 9, 40).reshape(1, -1)),
          'Ecc11': lambda: R.EccentricityPrior([11, 3, 10], [0.125, 0.25, 0.375]), 'K11': lambda: R.Gaussian('k11', 31.5, 2.75), 'P10': lambda: R.HardBounds('per10', 100.5, 200.25)}
    SAYS = {'Gaussian': ['21.125', '2.375'], 'Ecc': ['0.625', '0.625', 'e_{b}', 'e_{c}'], 'Ecc2': ['0.375', 'e_{c}'], 'PosK': ['K', '>0'], 'Hard': ['0.125', '9.875', 'sigma_{\\rm j}'], 'Secondary': ['2450002.125', '0.375'],
            'Jeffreys': ['0.125', '99.5', 'K_{c}'], 'Mod': ['0.125', '99.5', '-1.25', 'P_{b}'], 'Inf': ['per1', '100.25', '0.75'], 'User': ['MYTEX'], 'Num': ['K_{b}'], 'K11': ['K_{l}', '31.5', '2.75'], 'P10': ['P_{k}', '100.5', '200.25']}
    ROWS = {'Ecc': [['0.625', 'e_{b}'], ['0.625', 'e_{c}']], 'Ecc11': [['0.125', 'e_{l}'], ['0.25', 'e_{d}'], ['0.375', 'e_{k}']]}

    def prior_cases():
        yield []
        for k in PR:
            yield [k]
        for a, b in itertools.product(PR, repeat=2):
            yield [a, b]

    def prior_run(ctx, case):
        spec, vals, vary, post, df = setup(dict(basis='per tc e w k', npl=2, insts=[I('j', 6)], trend=[]), priors=[])
        post.priors = [PR[k]() for k in case]
        text = report.TexTable(make_report(spec, post, df)).tab_prior_summary()
        body = text.split(r'\startdata')[1].split(r'\enddata')[0]
        pieces = [x.strip() for x in re.split(r'\\\\', body) if x.strip()]
        want = [q for k in case for q in (ROWS[k] if k in ROWS else [SAYS[k]])]
        if ctx.check(len(pieces) == len(want), "prior-rows", lambda: "%s: %s" % (case, pieces)):
            for p, w in zip(pieces, want):
                ctx.check(all(z in p for z in w) and p.count('$') % 2 == 0, "prior-text", lambda: "%s: %r does not state %s" % (case, p, w))
        ctx.state('priors', *case)

    # ------------------------------------------------------------------------------ convergence
    def crit_cases():
        for v in itertools.product((None, '40.1234', 'nan', 1.00251, '0'), repeat=2):
            for k in range(4):
                yield [list(v), k]

    def crit_run(ctx, case):
        v, k = case
        names = ['minafactor', 'maxarchange', 'maxgr', 'mintz']
        vals = {n: '%d.5' % (11 * (i + 1)) for i, n in enumerate(names)}
        vals[names[k]], vals[names[(k + 1) % 4]] = v
        spec, _, _, post, df = setup(dict(basis='per tc e w k', npl=1, insts=[I('j', 6)], trend=[]))
        text = report.TexTable(make_report(spec, post, df, **vals)).tab_crit()
        for n, label in zip(names, ('minAfactor', 'maxArchange', 'maxGR', 'minTz')):
            m = re.search(r'^\s*%s & (.*?) \\\\' % label, text, re.M)
            x = vals[n]
            s = m and m.group(1).strip().strip('$').strip()
            ctx.check(s is not None and (s == 'None' if x is None else s == '%.3f' % float(x)), "criterion", lambda: "%s: %s printed %r, is %r" % (case, label, s, x))
        ctx.state('crit', *case)

    # ------------------------------------------------------------------------------ model comparison
    D = [0.0, 0.5, 1.99, 2.01, 3.0, 3.99, 4.01, 7.0, 9.99, 10.01, 50.0, float('inf')]
    CAT = ["AICc Favored Model", "Nearly Indistinguishable", "Somewhat Disfavored", "Strongly Disfavored", "Ruled Out"]

    def comp_cases():
        for n in (1, 2, 3):
            for d in itertools.product(range(len(D)), repeat=n):
                if 0 in d:
                    yield list(d)
        for d in itertools.combinations(range(1, len(D)), 4):
            yield [d[2], 0, d[3], d[0], d[1]]
        yield list(range(len(D)))[::-1]
        for n in (50, 51, 60):
            yield ['many', n]

    def stat(i, d, base=-37.25):
        o = collections.OrderedDict()
        o['Free Params'] = (['$K_{%s}$' % 'bcdefghij'[i % 9], '$e_{%d}$' % i], "The free parameters in this model")
        o[r'$N_{\rm free}$'] = (3 + i, 'number of free parameters')
        o[r'$N_{\rm data}$'] = (41, 'number of measurements')
        o['RMS'] = (np.float64(1.5 + i), 'RMS')
        o[r'$\ln{\mathcal{L}}$'] = (np.float64(-11.25 - i), 'lnL')
        o['BIC'] = (100.5 + i, 'BIC')
        o['AICc'] = (np.round(base + d, 2), 'AICc')
        return o

    base_setup = []

    def comp_run(ctx, case):
        if not base_setup:
            base_setup.append(setup(dict(basis='per tc e w k', npl=1, insts=[I('j', 6)], trend=[])))
        spec, _, _, post, df = base_setup[0]
        deltas = [0.3 * ((7 * i) % case[1]) for i in range(case[1])] if case[0] == 'many' else [D[i] for i in case]
        stats = [stat(i, d) for i, d in enumerate(deltas)]
        s0 = copy.deepcopy(stats)
        with contextlib.redirect_stdout(io.StringIO()):
            tt = report.TexTable(make_report(spec, post, df, compstats=stats))
            text = tt.tab_comparison()
        ctx.check(stats == s0 or any(d == float('inf') for d in deltas), "statistics-changed", lambda: str(case))
        cols = re.findall(r'\\colhead\{((?:[^{}]|\{(?:[^{}]|\{[^{}]*\})*\})*)\}', text)
        want = ['AICc Qualitative Comparison', 'Free Parameters', r'$N_{\rm free}$', r'$N_{\rm data}$', 'RMS', r'$\ln{\mathcal{L}}$', 'BIC', 'AICc', r'$\Delta$AICc']
        ctx.check(cols == want, "columns", lambda: "%s: %s" % (case, cols))
        m = re.search(r'\\begin\{deluxetable\*\}\{([lrc]+)\}', text)
        ctx.check(m and len(m.group(1)) == len(want), "column-count", lambda: "%s: %s" % (case, text[:100]))
        body = text.split(r'\startdata')[1].split(r'\enddata')[0]
        body = body.replace(r'\hline', '')
        rows = [[c.strip() for c in r.split('&')] for r in re.split(r'\\\\', body) if r.strip()]
        order = sorted(range(len(stats)), key=lambda i: deltas[i])[:50]
        if not ctx.check(len(rows) == len(order), "models", lambda: "%s: %d rows for %d models" % (case, len(rows), len(stats))):
            return
        seen = []
        cat = ''
        for pos, r in enumerate(rows):
            if not ctx.check(len(r) == len(want), "cells", lambda: "%s: %s" % (case, r)):
                return
            k = re.search(r'e_\{(\d+)\}', r[1])
            i = int(k.group(1)) if k else -1
            if not ctx.check(0 <= i < len(stats) and i not in seen, "model-identity", lambda: "%s: %s" % (case, r)):
                return
            seen.append(i)
            s = stats[i]
            ctx.check(r[2] == str(3 + i) and r[3] == '41' and r[4] == '%.2f' % (1.5 + i) and r[5] == '%.2f' % (-11.25 - i) and r[6] == '%.2f' % (100.5 + i) and r[7] == '%.2f' % s['AICc'][0], "model-values", lambda: "%s: %s" % (case, r))
            d = s['AICc'][0] - min(x['AICc'][0] for x in stats)
            ctx.check(r[8] == '%.2f' % d, "delta", lambda: "%s: %s, expected %.2f" % (case, r, d))
            if pos:
                ctx.check(s['AICc'][0] >= stats[seen[-2]]['AICc'][0], "order", lambda: "%s: %s" % (case, [stats[q]['AICc'][0] for q in seen]))
            if r[0]:
                ctx.check(r[0] != cat, "category-repeated", lambda: "%s: %s" % (case, r))
                cat = r[0]
            right = CAT[0] if d == 0 else CAT[1] if d <= 2 else CAT[2] if d <= 4 else CAT[3] if d <= 10 else CAT[4]
            ctx.check(cat == right, "category", lambda: "%s: model with difference %.2f under %r, expected %r" % (case, d, cat, right))
        ctx.state('comparison', *case)
        ctx.trace()

    # ------------------------------------------------------------------------------ derived parameters
    def der_cases():
        for npl in (1, 2, 3):
            for m in itertools.product((0.5, 12.0, 99.0, 101.0, 2500.0), repeat=min(npl, 2)):
                for cols in (['mpsini', 'rhop', 'a'], ['mpsini', 'a'], ['a']):
                    for letters in (None, {'1': 'd', '2': 'b', '3': 'f'}):
                        yield [npl, list(m), cols, letters, False]
        yield [1, [12.0], ['mpsini', 'rhop', 'a'], None, True]
        yield [2, [300.0, 3.0], ['mpsini', 'rhop', 'a'], None, True]
        yield [10, [12.0, 300.0], ['mpsini', 'rhop', 'a'], None, False]
        yield [10, [300.0, 3.0], ['mpsini', 'a'], dict(zip(map(str, range(1, 11)), 'jihgfedcbz')), False]

    def derive(df, npl, masses, cols, nan):
        df = df.copy()
        for n in range(1, npl + 1):
            m = masses[min(n, len(masses)) - 1]
            if 'mpsini' in cols:
                df['mpsini%d' % n] = m * (1 + 0.04 * noise(3 * n))
            if 'rhop' in cols:
                df['rhop%d' % n] = 3.25 * n * (1 + 0.1 * noise(3 * n + 1))
                if nan and n == 1:
                    df.loc[5, 'rhop1'] = np.nan
            if 'a' in cols:
                df['a%d' % n] = 0.125 * n * (1 + 0.01 * noise(3 * n + 2))
        return df

    def der_run(ctx, case):
        npl, masses, cols, letters, nan = case
        spec, vals, vary, post, df = setup(dict(basis='per tc e w k', npl=npl, insts=[I('j', 9)], trend=[], letters=letters), shape='skew' if len(cols) == 3 else 'normal')
        df = derive(df, npl, masses, cols, nan)
        df0 = df.copy(deep=True)
        msg = lambda: json.dumps(case)
        seen = lambda: ({k: (p.value, p.vary) for k, p in post.params.items()}, post.params.basis.name, dict(post.maxparams), dict(post.medparams))
        post0 = seen()
        rep = make_report(spec, post, df, derived=True)
        texts = []
        for i in range(2):
            for j in range(2):
                tt = report.TexTable(rep)
                texts += [tt.tab_derived(), tt.tab_derived()]
            rep = make_report(spec, post, df, derived=True)
        ctx.check(len(set(texts)) == 1, "derived-repeat", lambda: "%s: %d different texts, e.g.\n%s\n%s" % (msg(), len(set(texts)), texts[0], [t for t in texts if t != texts[0]][:1]))
        ctx.check(df.equals(df0), "derived-chains-changed", msg)
        ctx.check(seen() == post0, "posterior-changed", lambda: "%s: %s, was %s" % (msg(), seen(), post0))
        text = texts[0]
        rows = rows_of(text)
        want = {}
        best = df['lnprobability'].values.argmax()
        for n in range(1, npl + 1):
            l = letter(spec, n)
            for k, t in (('mpsini', '$M_%s\\sin i$' % l), ('rhop', '$\\rho_%s$' % l), ('a', '$a_%s$' % l)):
                if k in cols and not (nan and k == 'rhop' and n == 1):
                    want[t] = k, n
        ctx.check(sorted(r[0] for r in rows) == sorted(want), "derived-rows", lambda: "%s: %s, expected %s" % (msg(), [r[0] for r in rows], sorted(want)))
        for r in rows:
            if r[0] not in want:
                continue
            k, n = want[r[0]]
            x = df[k + str(n)].values.copy()
            u = r[3].strip()
            if k == 'mpsini':
                big = np.median(x) > 100
                unit = 'M$_{\\rm Jup}$' if big else 'M$_{\\oplus}$'
                if 'Jup' in u:
                    x = x * 0.00315
            else:
                unit = dict(rhop='g cm$^{-3}$', a='AU')[k]
            expect(ctx, k + str(n), r, x, unit, 1.0, msg, None)
            q = np.quantile(x, Q)
            g = number(r[1])
            if g and g[1]:
                ctx.check(abs(float(r[2]) - x[best]) <= 0.11 * (q[2] - q[0]) + 0.51 * digit(r[2]), "derived-best", lambda: "%s: %s, sample of highest probability %r" % (msg(), r, x[best]))
        ctx.state('derived', npl, tuple(masses), tuple(cols), bool(letters), nan)
        ctx.trace()

    # ------------------------------------------------------------------------------ histories of renderings
    def hist_cases():
        for d in (1, 2, 3):
            for h in itertools.product(range(len(TABLES)), repeat=d):
                yield list(h)

    ctxt = {}

    def material():
        if not ctxt:
            spec, vals, vary, post, df = setup(dict(basis='per tc secosw sesinw logk', npl=2, insts=SETS['under'], trend=['dvdt']), priors=[R.Gaussian('logk1', 3.0, 0.5), R.EccentricityPrior(2)])
            df = derive(df, 2, [450.0, 7.0], ['mpsini', 'rhop', 'a'], False)
            ctxt['x'] = spec, post, df, [stat(i, d) for i, d in enumerate((3.0, 0.0, 12.0))]
            rep = lambda: make_report(spec, copy.deepcopy(post), df.copy(deep=True), derived=True, compstats=copy.deepcopy(ctxt['x'][3]))
            ctxt['ref'] = {t: getattr(report.TexTable(rep()), t)() for t in TABLES}
            ctxt['doc'] = rep().texdoc()
        return ctxt

    def hist_run(ctx, case):
        m = material()
        spec, post, df, st = m['x']
        for mode in ('same table', 'same report', 'same posterior'):
            rep = make_report(spec, post, df, derived=True, compstats=st)
            tt = report.TexTable(rep)
            for i, t in enumerate(case):
                if mode != 'same table':
                    if mode == 'same posterior':
                        rep = make_report(spec, post, df, derived=True, compstats=st)
                    tt = report.TexTable(rep)
                got = getattr(tt, TABLES[t])()
                ctx.check(got == m['ref'][TABLES[t]], "history", lambda: "%s after %s (%s):\n%s\ninstead of\n%s" % (TABLES[t], [TABLES[x] for x in case[:i]], mode, got, m['ref'][TABLES[t]]))
                ctx.trans()
            if len(case) <= 2:
                ctx.check(rep.texdoc() == m['doc'], "history-document", lambda: "document after %s (%s)" % ([TABLES[x] for x in case], mode))
        ctx.state('history', *case)
        ctx.trace()

    # ------------------------------------------------------------------------------ labels
    def label_cases():
        for s in ('', '_j', '_k', '_hires_rj', '_harps-n', '_APF2'):
            yield [s]

    def label_run(ctx, case):
        s = case[0]
        names = [b + str(n) for n in (1, 2, 3) for b in SYM] + ['dvdt', 'curv'] + [x + s for x in ('gamma', 'jit', 'gp_amp', 'gp_explength', 'gp_per', 'gp_perlength', 'gp_B', 'gp_C', 'gp_L', 'gp_Prot')]
        lab = radvel.Parameters(3, basis='per tc e w k').tex_labels(param_list=names)
        parser = mathtext.MathTextParser('agg')
        ctx.check(sorted(lab) == sorted(names), "labels", lambda: "%s: %s" % (case, lab))
        ctx.check(len(set(lab.values())) == len(names), "label-ambiguous", lambda: "%s: %s" % (case, [x for x in names if list(lab.values()).count(lab[x]) > 1]))
        for n in names:
            l = lab[n]
            ctx.check(l.count('{') == l.count('}') and l.count('$') in (0, 2), "label-tex", lambda: "%s: %r" % (n, l))
            try:
                parser.parse(l)
            except ValueError as e:
                ctx.fail("label-unreadable", "%s: %r %s" % (n, l, e))
            ctx.state('label', n)

    return [Suite("parameters", cases, run), Suite("observations", rv_cases, rv_run), Suite("priors", prior_cases, prior_run), Suite("criteria", crit_cases, crit_run), Suite("comparison", comp_cases, comp_run),
            Suite("derived", der_cases, der_run), Suite("renderings", hist_cases, hist_run), Suite("labels", label_cases, label_run)]


if __name__ == "__main__":
    main("R22", suites, "model_checking",
         "every configuration of basis, planets, instruments, trend, fixed parameters, chain shape and planet letters within the bounds is rendered and its rows compared with quantiles computed "
         "independently; all sequences of up to three table renderings on one table, one report and one posterior must give the text a first rendering gives",
         bounds="9 bases, up to 4 planets, 10 instrument sets, 12 AICc differences in all multisets up to 3 models (selected up to 60), 5 masses, all rendering histories to depth 3")
