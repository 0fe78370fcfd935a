import itertools
import math
from vlib.core import *
from vlib import oracle as O
from vlib import models as M
from vlib.checks_util import patch_minimize

I = M.inst
OPTS = ['e', 'nplanets', 'trend', 'jit', 'gp']


def suites():
    import numpy as np
    import scipy.optimize
    import radvel
    import radvel.fitting as F
    from radvel import prior as R

    SPECS = {
        'sec1': dict(basis='per tc secosw sesinw k', npl=1, insts=[I('j', 9), I('k', 8)], trend=['dvdt', 'curv']),
        'logk2': dict(basis='per tc secosw sesinw logk', npl=2, insts=[I('j', 14)], trend=['dvdt', 'curv']),
        'synth2': dict(basis='per tp e w k', npl=2, insts=[I('j', 9), I('k', 8)], trend=['dvdt']),
        'ecosw1': dict(basis='per tc ecosw esinw k', npl=1, insts=[I('j', 9)], trend=['curv']),
        'sametimes': dict(basis='per tc e w k', npl=1, insts=[I('j', 9, sort='dup'), I('k', 8, sort='dup')], trend=['dvdt']),
        'se2': dict(basis='per tc se w k', npl=2, insts=[I('j', 14)], trend=[], letters={'1': 'c', '2': 'b'}),
        'logper1': dict(basis='logper tc secosw sesinw k', npl=1, insts=[I('', 12)], trend=['dvdt', 'curv']),
        'logtp2': dict(basis='logper tp e w logk', npl=2, insts=[I('j', 14)], trend=['dvdt']),
        'three': dict(basis='per tc e w k', npl=3, insts=[I('j', 12), I('k', 10)], trend=['dvdt', 'curv']),
        'four': dict(basis='per tc secosw sesinw k', npl=4, insts=[I('j', 14), I('k', 12)], trend=['dvdt', 'curv']),
        'gp1': dict(basis='per tc e w k', npl=1, insts=[I('j', 12, 'gp:QuasiPer')], trend=['dvdt']),
        'gp2': dict(basis='per tc secosw sesinw k', npl=1, insts=[I('j', 9, 'gp:QuasiPer'), I('k', 8, 'gp:QuasiPer')], trend=[]),
        'gpmix': dict(basis='per tc secosw sesinw k', npl=2, insts=[I('j', 9, 'gp:SqExp'), I('k', 8)], trend=['dvdt']),
        'gpmix2': dict(basis='per tc secosw sesinw k', npl=1, insts=[I('k', 8), I('j', 9, 'gp:Per')], trend=['dvdt']),
        'gpshared': dict(basis='per tc secosw sesinw k', npl=1, insts=[I('j', 9, 'gp:QuasiPer', shared=True), I('k', 8, 'gp:QuasiPer', shared=True)], trend=[]),
    }
    MASKS = ['all', 'circular', 'first-circular', 'jitfixed', 'onejit', 'notrend', 'only-curv', 'k-only', 'planet2-fixed', 'gpfixed', 'amp-only', 'amp-fixed', 'minimal']

    def free_of(spec, v, mask):
        b = spec['basis'].split()
        f = set(v)
        eps = eparams(spec['basis'])
        if mask == 'circular':
            f -= {e + str(n) for e in eps for n in (1, 2, 3)}
        if mask == 'first-circular':
            f -= {e + '1' for e in eps}
        if mask == 'jitfixed':
            f -= {k for k in v if k.startswith('jit')}
        if mask == 'onejit':
            f -= {k for k in v if k.startswith('jit')} - {[k for k in v if k.startswith('jit')][0]}
        if mask == 'notrend':
            f -= {'dvdt', 'curv'}
        if mask == 'only-curv':
            f -= {'dvdt'}
        if mask == 'k-only':
            f = {k for k in v if k.startswith(('k', 'logk', 'gamma'))}
        if mask == 'planet2-fixed':
            f -= {x + '2' for x in b}
        if mask == 'gpfixed':
            f -= {k for k in v if k.startswith('gp_')}
        if mask == 'amp-only':
            f -= {k for k in v if k.startswith('gp_') and not k.startswith('gp_amp')}
        if mask == 'amp-fixed':
            f -= {k for k in v if k.startswith('gp_amp')}
        if mask == 'w-only':
            f -= {e + str(n) for e in eps[:1] for n in (1, 2, 3)}
        if mask == 'minimal':
            f = {k for k in v if k.startswith('gamma')}
        return f

    def eparams(basis):
        b = basis.split()
        return [x for x in b if x in ('e', 'w', 'secosw', 'sesinw', 'ecosw', 'esinw', 'se')]

    def expected(spec, v, free, sel):
        """list of (free set, {parameter: required value}) of the nested models"""
        b = spec['basis'].split()
        kpar = 'k' if 'k' in b else 'logk'
        models = [(frozenset(free), {})]
        if 'gp' in sel:
            hp = [h for ins in spec['insts'] if ':' in ins['kind'] for h in M.hnames(ins)]
            if any(h.startswith('gp_amp') for h in hp) and any(h in free for h in hp):
                models += [(f - set(hp), dict(r, **{h: 0.0 for h in hp if h.startswith('gp_amp')})) for f, r in models]
        if 'jit' in sel:
            jits = {k for k in v if k.startswith('jit') and k in free}
            if jits:
                models += [(f - jits, dict(r, **{j: 0.0 for j in jits})) for f, r in models]
        if 'trend' in sel:
            out = list(models)
            off = []
            for c in ('curv', 'dvdt'):
                if c in free:
                    off.append(c)
                    out += [(f - set(off), dict(r, **{o: 0.0 for o in off})) for f, r in models]
            models = out
        if 'nplanets' in sel:
            out = list(models)
            ok = [n for n in range(1, spec['npl'] + 1) if any(x + str(n) in free for x in b)]
            for r_ in range(1, len(ok) + 1):
                for g in itertools.combinations(ok, r_):
                    gone = {x + str(n) for x in b for n in g}
                    out += [(f - gone, dict(r, **{kpar + str(n): (0.0 if kpar == 'k' else -math.inf) for n in g})) for f, r in models]
            models = out
        if 'e' in sel:
            eps = eparams(spec['basis'])
            out = []
            for f, r in models:
                out.append((f, r))
                ok = [n for n in range(1, spec['npl'] + 1) if any(x + str(n) in f for x in eps)]
                for r_ in range(1, len(ok) + 1):
                    for g in itertools.combinations(ok, r_):
                        gone = {x + str(n) for x in eps for n in g}
                        out.append((f - gone, dict(r, **{x: 0.0 for x in gone if x[0] != 'w'})))
            models = out
        return models

    def snapshot(post):
        return {k: (p.value, bool(p.vary)) for k, p in post.params.items()}, post.vector.vector.copy(), list(post.name_vary_params())

    def same(a, b):
        return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2] == b[2]

    def fake(fun, x, *a, **kw):
        x = np.array(x, dtype=float)
        fun(x)
        fun(x + 1e-4)
        return scipy.optimize.OptimizeResult(x=x, fun=fun(x), success=True, status=0, message='', nit=1, nfev=2)

    def compare(post, params, recorded, **kw):
        real = F.maxlike_fitting

        def rec(p, *a, **k):
            out = real(p, *a, **k)
            recorded.append(({q: out.vector.vector[out.vector.indices[q]][0] for q in out.params}, list(out.name_vary_params())))
            return out
        undo = patch_minimize(fake) if not kw.pop('real', False) else (lambda: None)
        F.maxlike_fitting = rec
        try:
            return F.model_comp(post, params=params, **kw)
        finally:
            F.maxlike_fitting = real
            undo()

    def labels(spec, f):
        b = spec['basis'].split()
        kpar = 'k' if 'k' in b else 'logk'
        e0 = eparams(spec['basis'])[0]
        let = (lambda n: spec['letters'][str(n)]) if spec.get('letters') else (lambda n: 'abcdefgh'[n])
        out = []
        for n in range(1, spec['npl'] + 1):
            if kpar + str(n) in f:
                out.append('$K_{' + let(n) + '}$')
            if e0 + str(n) in f:
                out.append('$e_{' + let(n) + '}$')
        if 'dvdt' in f:
            out.append(r'$\dot{\gamma}$')
        if 'curv' in f:
            out.append(r'$\ddot{\gamma}$')
        if any(k.startswith('jit') for k in f):
            out.append(r'{$\sigma$}')
        out += [r'GP$_{\rm %s}$' % k[6:].replace('_', '') for k in f if k.startswith('gp_amp')]
        return sorted(out)

    def stats(spec, vals, nfree):
        parts = [M.ref_inst(spec, i, vals) for i in range(len(spec['insts']))]
        L = sum(p[2] for p in parts)
        n = sum(x['n'] for x in spec['insts'])
        res = []
        for i, ins in enumerate(spec['insts']):
            r = parts[i][0]
            if ':' in ins['kind']:
                t = M.data(i, ins['n'], ins['sort'])[0]
                K = M.ref_kernel(ins['kind'].split(':')[1], M.hyper(ins, vals), t, t)
                r = r - K @ np.linalg.solve(K + np.diag(parts[i][1] ** 2), r)
            res.append(r)
        rms = float(np.std(np.concatenate(res)))
        k = nfree
        aic = 2 * k - 2 * L + (2.0 * k * (k + 1) / (n - k - 1) if n - k - 1 > 0 else math.inf)
        return n, rms, L, math.log(n) * k - 2 * L, aic

    def check_table(ctx, msg, spec, v, free, sel, table, recorded, skip=0):
        exp = expected(spec, v, free, sel)
        rows = table[skip:]
        ctx.check(len(rows) == len(exp), "number-of-models", lambda: "%s: %d rows, expected %d" % (msg(), len(rows), len(exp)))
        if recorded:
            ctx.check(len(recorded) == len(rows), "fits-per-row", msg)
            todo = list(exp)
            for row, (vals, names) in zip(rows, recorded):
                hit = None
                for m in todo:
                    if set(names) == m[0] and all((vals[k] == x) if x != 0.0 else abs(vals[k]) <= (1e-3 if k.startswith('jit') else 0.0) for k, x in m[1].items()):
                        hit = m
                        break
                if hit is None:
                    ctx.fail("model-not-requested", "%s: a model with free parameters %s and values %s was compared; outstanding are %s" % (msg(), names, vals, todo[:3]))
                    continue
                todo.remove(hit)
                for k in vals:
                    if k[0] == 'w' and k[1:].isdigit() and any(x + k[1:] in hit[1] for x in ('e', 'se')):
                        continue        # the direction of a circular orbit is meaningless
                    if k not in hit[1] and k not in hit[0] and k not in free:
                        ctx.check(vals[k] == v[k], "fixed-value-changed", lambda: "%s: %s=%r was %r" % (msg(), k, vals[k], v[k]))
                n, rms, L, bic, aic = stats(spec, vals, len(hit[0]))
                ctx.check(row[r'$N_{\rm free}$'][0] == len(hit[0]), "n-free", lambda: "%s: %s for free %s" % (msg(), row, sorted(hit[0])))
                ctx.check(row[r'$N_{\rm data}$'][0] == n, "n-data", msg)
                ctx.check(abs(row['RMS'][0] - rms) < 0.0051 + 1e-9 * rms, "rms", lambda: "%s: RMS %r, expected %r (free %s)" % (msg(), row['RMS'][0], rms, sorted(hit[0])))
                for nm, w in ((r'$\ln{\mathcal{L}}$', L), ('BIC', bic), ('AICc', aic)):
                    g = row[nm][0]
                    ctx.check(g == w or abs(g - w) < 0.0051 + 1e-7 * abs(w), nm.strip('$\\') if nm[0] != '$' else 'lnL', lambda: "%s: %s=%r, expected %r (free %s)" % (msg(), nm, g, w, sorted(hit[0])))
                ctx.check(sorted(row['Free Params'][0]) == labels(spec, hit[0]), "labels", lambda: "%s: %s, expected %s" % (msg(), row['Free Params'][0], labels(spec, hit[0])))
                ctx.trans()
        else:
            ctx.check(sorted(r[r'$N_{\rm free}$'][0] for r in rows) == sorted(len(m[0]) for m in exp), "n-free", msg)

    def sel_cases():
        for s in SPECS:
            for mask in MASKS:
                for r in range(0, 6):
                    for sel in itertools.combinations(OPTS, r):
                        if s == 'four' and (mask not in ('all', 'planet2-fixed') or len(sel) > 2):
                            continue
                        if s == 'three' and mask not in ('all', 'planet2-fixed') and not THOROUGH:
                            continue
                        if 'gp' in sel and not s.startswith('gp') and mask != 'all':
                            continue
                        yield [s, mask, list(sel)]

    def sel_run(ctx, case):
        s, mask, sel = case
        spec = SPECS[s]
        v = M.start_values(spec)
        free = free_of(spec, v, mask)
        for order in ([sel] if len(sel) < 2 or s == 'three' else [sel, sel[::-1]]):
            post = M.build(spec, vary={k: k in free for k in v}, priors=[R.Gaussian('gamma_j' if 'gamma_j' in v else 'gamma', 0.0, 30.0)])
            s0 = snapshot(post)
            lp0 = post.logprob()
            rec = []
            table = compare(post, list(order), rec)
            msg = lambda: "%s (%s) comparisons %s" % (s, mask, order)
            check_table(ctx, msg, spec, v, free, sel, table, rec)
            ctx.check(same(s0, snapshot(post)) and post.logprob() == lp0, "posterior-changed", lambda: "%s: %s" % (msg(), post))
            ctx.state(s, mask, tuple(order))
            ctx.trace()

    # histories of comparisons in one process: the answer depends on the request alone
    def hist_cases():
        for s in ('sec1', 'gpmix', 'logk2'):
            for a in range(6):
                for b in range(6):
                    yield [s, a, b]

    def hist_run(ctx, case):
        s, a, b = case
        reqs = [[], ['e'], ['trend'], ['jit'], ['gp'], ['nplanets', 'e']]
        spec, spec2 = SPECS[s], SPECS['ecosw1']
        v = M.start_values(spec)
        free = set(v)
        post = M.build(spec)
        other = M.build(spec2)
        for hist in itertools.product(range(3), repeat=3):
            lst = []
            exp = 0
            for j, h in enumerate(hist):
                msg = lambda: "%s after %s: request %s" % (case, hist[:j], req)
                if h == 0:
                    req = reqs[a]
                    rec = []
                    t = compare(post, list(req), rec)
                    check_table(ctx, msg, spec, v, free, req, t, rec)
                elif h == 1:
                    req = reqs[b]
                    rec = []
                    t = compare(other, list(req), rec)
                    v2 = M.start_values(spec2)
                    check_table(ctx, msg, spec2, v2, set(v2), req, t, rec)
                else:
                    req = reqs[b]
                    rec = []
                    t = compare(post, list(req), rec, mc_list=list(lst))
                    check_table(ctx, msg, spec, v, free, req, t, rec, skip=len(lst))
                    ctx.check(t[:len(lst)] == lst, "given-list-kept", msg)
                    lst = t
                ctx.trans()
            ctx.state("hist", *case, hist)
            ctx.trace()

    # real fits: nested models are ordered, statistics belong to the fitted values
    def real_cases():
        for s in ('sec1', 'synth2', 'ecosw1', 'gp1'):
            for sel in (['e'], ['trend'], ['jit'], ['nplanets'], ['gp', 'e']):
                yield [s, sel]

    def real_run(ctx, case):
        s, sel = case
        spec = SPECS[s]
        v = M.start_values(spec)
        free = {k for k in v if k.startswith(('k', 'gamma', 'dvdt', 'jit', 'e', 'secosw', 'gp_amp'))}
        post = M.build(spec, vary={k: k in free for k in v}, priors=[R.EccentricityPrior(spec['npl'], 0.95)])
        s0 = snapshot(post)
        rec = []
        table = compare(post, list(sel), rec, real=True)
        check_table(ctx, lambda: "%s %s (real fit)" % (s, sel), spec, v, free, sel, table, rec)
        ctx.check(same(s0, snapshot(post)), "posterior-changed", lambda: str(case))
        ctx.state("real", s, tuple(sel))
        ctx.trace()

    def bad_run(ctx, case):
        post = M.build(SPECS['sec1'])
        s0 = snapshot(post)
        for req in (['foo'], ['e', 'foo'], 'e', [['e']], ['E']):
            n = []
            try:
                compare(post, req, n)
                ctx.fail("invalid-request-accepted", "%r" % (req,))
            except (AssertionError, NotImplementedError, TypeError):
                ctx.check(not n, "invalid-request-fitted", "%r" % (req,))
        ctx.check(same(s0, snapshot(post)), "posterior-changed", "invalid request")
        ctx.state("bad")

    # the `ic` command: which tables the options ask for, on the stored fit
    def cmd_cases():
        for s in ('sec1', 'logk2', 'gp1', 'gpmix', 'tc_e') if not THOROUGH else list(SPECS) + ['tc_e']:
            for mask in ('all', 'circular', 'onejit', 'amp-fixed', 'w-only', 'planet2-fixed', 'minimal'):
                if mask == 'amp-fixed' and not s.startswith('gp') or mask == 'planet2-fixed' and not s.endswith('2') or mask == 'w-only' and s != 'tc_e':
                    continue
                yield [s, mask]

    class Args(object):
        pass

    def cmd_run(ctx, case):
        import contextlib
        import io
        from radvel import driver
        from vlib import setups as S
        from collections import OrderedDict
        s, mask = case
        spec = SPECS.get(s) or dict(basis='per tc e w k', npl=2, insts=[I('j', 10), I('k', 8)], trend=['dvdt', 'curv'])
        v = M.start_values(spec)
        d = os.path.join(scratch(), "r12_%d" % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        free0 = free_of(spec, v, mask)
        # the setup file describes other values than the stored fit
        S.write_setup(d, 'sys', spec, values={k: x * 1.01 for k, x in v.items() if k.startswith(('gamma', 'jit'))})
        post = M.build(spec, vary={k: k in free0 for k in v}, priors=[R.Gaussian('gamma_j' if 'gamma_j' in v else 'gamma', 0.0, 30.0)])
        cwd = os.getcwd()
        os.chdir(d)
        sels = [list(q) for r in range(1, 6) for q in itertools.combinations(OPTS, r) if 'gp' not in q or s.startswith('gp')]
        reqs = [(q, False, fj, False) for q in sels for fj in (False, True) if len(q) != 2 or not fj]
        reqs += [(q[::-1], False, False, False) for q in sels if len(q) == 2] + [(['e', 'e'], False, False, False), (['jit', 'trend', 'jit'], True, False, False)]
        reqs += [(q, True, fj, False) for q in sels for fj in (False, True) if len(q) == 1 or (len(q) == 2 and not fj)]
        reqs += [(['e'], m, fj, True) for m in (False, True) for fj in (False, True)]
        NS = dict(np=np, OrderedDict=OrderedDict, inf=math.inf, nan=math.nan)
        try:
            post.writeto('sys_post_obj.pkl')
            stored = open('sys_post_obj.pkl', 'rb').read()
            driver.save_status('sys_radvel.stat', 'fit', dict(run=True, postfile='sys_post_obj.pkl'))
            for types, mixed, fj, simple in reqs:
                msg = lambda: "%s (%s): ic -t %s%s%s%s" % (s, mask, ' '.join(types), '' if mixed else ' --un-mixed', ' --fixjitter' if fj else '', ' --simple' if simple else '')
                a = Args()
                a.setupfn, a.outputdir, a.decorr, a.type, a.mixed, a.fixjitter, a.simple, a.verbose = os.path.join(d, 'sys.py'), '.', False, list(types), mixed, fj, simple, False
                rec = []
                real, real_fit = F.model_comp, F.maxlike_fitting

                def logged(p, *aa, **k):
                    out = real_fit(p, *aa, **k)
                    rec.append(({q: out.vector.vector[out.vector.indices[q]][0] for q in out.params}, list(out.name_vary_params())))
                    return out
                undo = patch_minimize(fake)
                F.maxlike_fitting = logged
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        driver.ic_compare(a)
                finally:
                    F.maxlike_fitting = real_fit
                    undo()
                rows = eval(driver.load_status('sys_radvel.stat').get('ic_compare', 'ic'), NS)
                free = free0 - ({k for k in v if k.startswith('jit')} if fj and not simple else set())
                if simple:
                    want = expected(spec, v, free, [])
                elif mixed:
                    want = expected(spec, v, free, list(dict.fromkeys(types)))
                else:
                    want = []
                    for t in types:
                        want += [m for m in expected(spec, v, free, [t]) if m not in want]
                if not ctx.check(len(rows) == len(want), "command-number-of-models", lambda: "%s: %d rows with free parameters %s, expected %d: %s" % (msg(), len(rows), [r['Free Params'][0] for r in rows], len(want), [sorted(m[0]) for m in want])):
                    continue
                left = list(rows)
                for f, req in want:
                    vals = [q for q, names in rec if set(names) == f and all((q[k] == x) if x != 0.0 else abs(q[k]) <= (1e-3 if k.startswith('jit') else 0.0) for k, x in req.items())]
                    if not ctx.check(bool(vals), "command-model-missing", lambda: "%s: no fit with free parameters %s and %s" % (msg(), sorted(f), req)):
                        continue
                    for k in v:
                        if k not in req and k not in f and k not in free and not (k[0] == 'w' and any(x + k[1:] in req for x in ('e', 'se'))):
                            ctx.check(vals[0][k] == v[k], "command-fixed-value", lambda: "%s: %s is %r in the model with free %s, was %r" % (msg(), k, vals[0][k], sorted(f), v[k]))
                    n, rms, L, bic, aic = stats(spec, vals[0], len(f))
                    hit = [r for r in left if r[r'$N_{\rm free}$'][0] == len(f) and sorted(r['Free Params'][0]) == labels(spec, f)
                           and all(g == w or abs(g - w) < 0.0051 + 1e-7 * abs(w) for g, w in ((r[r'$\ln{\mathcal{L}}$'][0], L), (r['BIC'][0], bic), (r['AICc'][0], aic), (r['RMS'][0], rms)))]
                    if ctx.check(bool(hit), "command-row", lambda: "%s: no row for free %s: lnL %r BIC %r AICc %r; rows %s" % (msg(), sorted(f), L, bic, aic, left)):
                        left.remove(hit[0])
                ctx.check(open('sys_post_obj.pkl', 'rb').read() == stored, "command-stored-fit-changed", msg)
                ctx.state('command', s, mask, tuple(types), mixed, fj, simple)
                ctx.trans()
            ctx.trace()
        finally:
            os.chdir(cwd)

    return [Suite("command", cmd_cases, cmd_run, timeout=600), Suite("selections", sel_cases, sel_run, timeout=600), Suite("histories", hist_cases, hist_run), Suite("real", real_cases, real_run, timeout=600), Suite("invalid", [[0]], bad_run)]


if __name__ == "__main__":
    main("R12", suites, "model_checking",
         "state = (configuration, vary mask, selection of comparisons) or history of comparison requests; a model enumerates the nested models of the selection "
         "(product of on/off choices per component), the real model_comp runs with the minimiser replaced by one that stays at the start (and, separately, with real "
         "fits) and every row is matched one to one with the model's set and its statistics recomputed",
         "13 configurations x 12 vary masks x all 32 selections in two list orders; all histories of 3 of 3 request kinds x 36 request pairs; the ic command with all type subsets, mixed and separate, jitter free and fixed, simple")
