import contextlib
import copy
import ctypes
import hashlib
import io
import itertools
import shutil
import tempfile
import types
from vlib.core import *
from vlib import models as M
from vlib import oracle as O

I = M.inst
SAMPLERS = ['dynesty-static', 'dynesty-dynamic', 'nautilus', 'ultranest', 'multinest']
OPT = {
    'dynesty-static': (dict(nlive=20), dict(maxiter=60, print_progress=False)),
    'dynesty-dynamic': (dict(nlive=20), dict(maxiter=60, print_progress=False)),
    'nautilus': (dict(n_live=50, n_networks=0, seed=1), dict(n_eff=20, f_live=0.5, verbose=False)),
    'ultranest': (dict(), dict(min_num_live_points=20, max_ncalls=500, viz_callback=False, show_status=False, frac_remain=0.5, min_ess=10)),
    'multinest': (None, dict(n_live_points=50, verbose=False)),
}
LONG = {
    'dynesty-static': (dict(nlive=100), dict(dlogz=0.1, print_progress=False)),
    'dynesty-dynamic': (dict(nlive=100), dict(dlogz_init=0.1, maxbatch=1, print_progress=False)),
    'nautilus': (dict(n_live=200, n_networks=0, seed=1), dict(n_eff=300, verbose=False)),
    'ultranest': (dict(), dict(min_num_live_points=100, viz_callback=False, show_status=False, frac_remain=0.05, min_ess=100)),
}
BEFORE = ['absent', 'empty', 'foreign', 'finished', 'interrupted', 'finished-other']
OTHER = {'dynesty-static': 'nautilus', 'dynesty-dynamic': 'ultranest', 'nautilus': 'dynesty-static', 'ultranest': 'multinest', 'multinest': 'nautilus'}


def suites():
    import numpy as np
    import h5py
    import radvel
    from radvel import nested_sampling as N
    from radvel import prior as R
    import dynesty
    import dynesty.dynesty as dyn
    import nautilus
    import ultranest
    from radvel.posterior import Posterior

    # ------------------------------------------------------------------------------ the libraries, observed
    grg = dyn.get_random_generator
    counter = [0]

    def seeded(seed=None):
        counter[0] += 1
        return grg(counter[0] if seed is None else seed)
    dyn.get_random_generator = seeded

    made = []       # (class, positional arguments, keyword arguments) of every sampler constructed
    runs = []       # keyword arguments of every run

    class Proxy:
        def __init__(self, orig):
            self.__dict__['orig'] = orig

        def __call__(self, *a, **k):
            made.append((self.orig.__name__, a, dict(k)))
            return self.orig(*a, **k)

        def __getattr__(self, x):
            if x == 'restore':
                def restore(*a, **k):
                    made.append((self.orig.__name__ + '.restore', a, dict(k)))
                    return self.orig.restore(*a, **k)
                return restore
            return getattr(self.orig, x)

    def watch(cls, name):
        f = getattr(cls, name)

        def g(self, *a, **k):
            runs.append(dict(k))
            with contextlib.redirect_stdout(io.StringIO()):
                return f(self, *a, **k)
        setattr(cls, name, g)
    import dynesty.sampler as ds
    import dynesty.dynamicsampler as dd
    watch(ds.Sampler, 'run_nested')
    watch(dd.DynamicSampler, 'run_nested')
    watch(nautilus.Sampler, 'run')
    watch(ultranest.ReactiveNestedSampler, 'run')
    dynesty.NestedSampler = Proxy(dynesty.NestedSampler)
    dynesty.DynamicNestedSampler = Proxy(dynesty.DynamicNestedSampler)
    nautilus.Sampler = Proxy(nautilus.Sampler)
    ultranest.ReactiveNestedSampler = Proxy(ultranest.ReactiveNestedSampler)

    # pymultinest is not installed: a stand-in with its interface (ctypes pointers, files by basename)
    pm = types.ModuleType('pymultinest')

    def pmrun(LogLikelihood, Prior, n_dims, n_params=None, outputfiles_basename='chains/1-', resume=True, n_live_points=400, **kw):
        made.append(('multinest', (LogLikelihood, Prior, n_dims), {}))
        runs.append(dict(kw, n_live_points=n_live_points, outputfiles_basename=outputfiles_basename, resume=resume))
        f = outputfiles_basename + 'post_equal_weights.dat'
        if resume and os.path.exists(f):
            return
        rng = np.random.RandomState(3)
        rows = []
        for _ in range(n_live_points):
            c = (ctypes.c_double * n_dims)(*rng.uniform(size=n_dims))
            p = ctypes.cast(c, ctypes.POINTER(ctypes.c_double))
            Prior(p, n_dims, n_dims)
            rows.append([p[i] for i in range(n_dims)] + [LogLikelihood(p, n_dims, n_dims)])
        np.savetxt(f, np.array(rows), fmt='%.17g')
        open(outputfiles_basename + 'stats.dat', 'w').write('-12.5 0.25')

    class Analyzer:
        def __init__(self, n_params, outputfiles_basename='chains/1-', verbose=True):
            self.n, self.b = n_params, outputfiles_basename

        def get_equal_weighted_posterior(self):
            return np.loadtxt(self.b + 'post_equal_weights.dat', ndmin=2)

        def get_stats(self):
            z, e = open(self.b + 'stats.dat').read().split()
            return {'global evidence': float(z), 'global evidence error': float(e)}
    pm.run, pm.Analyzer = pmrun, Analyzer
    sys.modules['pymultinest'] = pm

    calls = [0]
    lna = Posterior.likelihood_ns_array

    def counted(self, x):
        calls[0] += 1
        return lna(self, x)
    counted.__name__ = 'likelihood_ns_array'        # bound methods are stored by name
    counted.__qualname__ = lna.__qualname__
    Posterior.likelihood_ns_array = counted

    # ------------------------------------------------------------------------------ problems
    def make(kind='two'):
        trend = ['dvdt'] if kind in ('many', 'sevens') else []
        ins = [I('j', 4)] if kind in ('one', 'two', 'gauss') else [I('j', 5), I('k', 4)]
        spec = dict(basis='per tc e w k', npl=1, insts=ins, trend=trend)
        free = {'one': ['gamma_j'], 'two': ['k1', 'gamma_j'], 'gauss': ['k1', 'gamma_j'], 'times': ['tc1', 'k1', 'gamma_k'], 'seven': ['per1', 'tc1', 'e1', 'w1', 'k1', 'gamma_j', 'gamma_k'],
                'many': ['per1', 'tc1', 'e1', 'w1', 'k1', 'dvdt', 'gamma_j', 'gamma_k']}[kind]
        v = M.start_values(spec)
        pri = [R.HardBounds(k, v[k] - 15, v[k] + 15) for k in free if k not in ('e1', 'per1')]
        if 'e1' in free:
            pri += [R.HardBounds('e1', 0.0, 0.9), R.HardBounds('per1', v['per1'] * 0.9, v['per1'] * 1.1)]
        if kind == 'gauss':
            pri = [R.Gaussian('gamma_j', v['gamma_j'], 4.0), R.HardBounds('k1', 1.0, 40.0), R.PositiveKPrior(1)]
        if kind == 'two':
            pri.append(R.PositiveKPrior(1))
        return M.build(spec, vary={q: q in free for q in v}, priors=pri), spec, free, v

    def hashes(d):
        r = {}
        for root, dirs, names in os.walk(d):
            for n in dirs:
                r[os.path.relpath(os.path.join(root, n), d) + '/'] = ''
            for n in names:
                p = os.path.join(root, n)
                r[os.path.relpath(p, d)] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
        return r

    class Place:
        def __init__(self):
            self.d = os.path.join(scratch(), 'r18_%d' % os.getpid())
            shutil.rmtree(self.d, ignore_errors=True)
            self.cwd, self.tmp = os.path.join(self.d, 'cwd'), os.path.join(self.d, 'tmp')
            os.makedirs(self.cwd)
            os.makedirs(self.tmp)
            os.makedirs(os.path.join(self.cwd, 'tmpdir'))
            for n in ('tmpdir/mine.txt', 'chains.txt', 'results.hdf5', 'out'):
                open(os.path.join(self.cwd, n), 'w').write('user data')
            self.out = os.path.join(self.d, 'runs', 'x')
            self.old = tempfile.tempdir, os.environ.get('TMPDIR')
            tempfile.tempdir = self.tmp
            os.environ['TMPDIR'] = self.tmp
            os.chdir(self.cwd)

        def close(self):
            tempfile.tempdir = self.old[0]
            if self.old[1] is None:
                os.environ.pop('TMPDIR', None)
            else:
                os.environ['TMPDIR'] = self.old[1]
            os.chdir(scratch())
            shutil.rmtree(self.d, ignore_errors=True)

    def call(post, sampler, out, sk, rk, seed=7, **kw):
        np.random.seed(seed)
        counter[0] = seed * 1000
        calls[0] = 0
        del made[:], runs[:]
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return N.run(post, output_dir=out, sampler=sampler, sampler_kwargs=sk, run_kwargs=rk, **kw)

    def judge(ctx, res, post, spec, free, out, sampler, sk, rk, msg):
        """what every accepted run has to satisfy"""
        names = post.name_vary_params()
        df = res['samples']
        ctx.check(sorted(names) == sorted(free) and list(df.columns) == list(names) + ['lnprobability'] and len(df) > 0, "columns", lambda: "%s: %s" % (msg(), list(df.columns)))
        fresh = M.build(spec, vary={q: q in free for q in M.start_values(spec)}, priors=post.priors)
        rows = range(0, len(df), max(1, len(df) // 9))
        ref = [fresh.logprob_array(df.loc[df.index[r], fresh.name_vary_params()].values.astype(float)) for r in rows]
        ctx.check(close(df['lnprobability'].values[list(rows)], ref, 1e-10, 1e-8), "lnprobability", lambda: "%s: %s vs %s" % (msg(), df['lnprobability'].values[list(rows)], ref))
        ctx.check(np.all(np.isfinite(df['lnprobability'])), "support", lambda: "%s: samples outside the prior" % msg())
        ctx.check(np.isfinite(res['lnZ']) and res['lnZerr'] >= 0, "evidence-finite", lambda: "%s: %s +- %s" % (msg(), res['lnZ'], res['lnZerr']))
        # options as given
        given_s, given_r = sk or {}, rk or {}
        if made and not made[-1][0].endswith('.restore'):
            k = made[-1][2]
            if sampler != 'multinest':
                ctx.check({q: k.get(q) for q in given_s} == given_s and set(k) - set(given_s) <= {'resume', 'log_dir', 'filepath', 'wrapped_params', 'n_dim', 'ndim', 'param_names', 'prior', 'likelihood', 'loglike', 'loglikelihood', 'prior_transform', 'transform'}, "sampler-options", lambda: "%s: %s, given %s" % (msg(), k, given_s))
        if ctx.check(len(runs) == 1, "one-run", lambda: "%s: %d runs" % (msg(), len(runs))):
            k = runs[0]
            ctx.check({q: k.get(q) for q in given_r} == given_r and set(k) - set(given_r) <= {'resume', 'checkpoint_file', 'outputfiles_basename', 'verbose', 'n_live_points'}, "run-options", lambda: "%s: %s, given %s" % (msg(), k, given_r))
        if out is not None:
            f = os.path.join(out, 'results.hdf5')
            if ctx.check(os.path.exists(f), "results-file", msg):
                r2 = N.load_results(f)
                ctx.check(sorted(r2) == ['lnZ', 'lnZerr', 'samples'] and r2['lnZ'] == res['lnZ'] and r2['lnZerr'] == res['lnZerr'] and r2['samples'].equals(df), "reload", lambda: "%s: %s" % (msg(), {q: r2[q] for q in r2 if q != 'samples'}))

    cache = {}

    def fresh_result(sampler, kind):
        """the run in a new directory (same seed)"""
        key = (sampler, kind)
        if key not in cache:
            d = tempfile.mkdtemp(dir=scratch())
            post = make(kind)[0]
            sk, rk = OPT[sampler]
            r = call(post, sampler, os.path.join(d, 'new'), copy.deepcopy(sk), copy.deepcopy(rk))
            cache[key] = (r['samples'], r['lnZ'], calls[0], r['lnZerr'])
            shutil.rmtree(d)
        return cache[key]

    def same(sampler, r, ref):
        if sampler.startswith('dynesty'):
            # drawing equally weighted samples uses up more random numbers, so only the run itself is the same
            return r['lnZ'] == ref[1] and r['lnZerr'] == ref[3] and calls[0] == ref[2]
        return list(r['samples'].columns) == list(ref[0].columns) and np.array_equal(r['samples'].values, ref[0].values) and r['lnZ'] == ref[1]

    # ------------------------------------------------------------------------------ location x flags x state of the directory
    def place_cases():
        for s, b in itertools.product(SAMPLERS, BEFORE):
            for ow, pr in itertools.product((False, True), repeat=2):
                yield [s, b, ow, pr]

    def place_run(ctx, case):
        sampler, before, ow, pr = case
        P = Place()
        try:
            post, spec, free, v = make('two')
            sk, rk = copy.deepcopy(OPT[sampler])
            msg = lambda: str(case)
            ref = fresh_result(sampler, 'two')
            os.chdir(P.cwd)
            made_by = None
            if before in ('empty', 'foreign'):
                os.makedirs(P.out)
            elif before != 'absent':
                made_by = OTHER[sampler] if before == 'finished-other' else sampler
                call(make('two')[0], made_by, P.out, *copy.deepcopy(OPT[made_by]), seed=11)
                if before == 'interrupted':
                    os.unlink(os.path.join(P.out, 'results.hdf5'))
            if before == 'foreign' or before.startswith('finished'):
                os.makedirs(os.path.join(P.out, 'keep', 'sub'))
                for n in ('keep/sub/x.txt', 'notes.txt', 'keep.hdf5'):
                    open(os.path.join(P.out, n), 'w').write('user data')
            mine = {'keep/', 'keep/sub/', 'keep/sub/x.txt', 'notes.txt', 'keep.hdf5'}
            h0 = hashes(P.d)
            sk0, rk0 = copy.deepcopy((sk, rk))
            # PyMultiNest writes over whatever it finds under its prefix, so the directory has to be new
            must_refuse = (before.startswith('finished') or (sampler == 'multinest' and before != 'absent')) and not (ow or pr)
            for attempt in (1, 2):
                try:
                    res = call(post, sampler, P.out, sk, rk, overwrite=ow, proceed=pr)
                except FileExistsError as ex:
                    ok = must_refuse or (attempt == 2 and not (ow or pr))
                    ctx.check(ok, "refused", lambda: "%s attempt %d: %r" % (msg(), attempt, ex))
                    ctx.check(hashes(P.d) == h0, "refusal-changed-files", lambda: "%s: %s" % (msg(), set(hashes(P.d).items()) ^ set(h0.items())))
                    ctx.check((sk, rk) == (sk0, rk0), "options-changed", lambda: "%s: %s %s" % (msg(), sk, rk))
                    ctx.state('place', *case, attempt, 'refused')
                    continue
                if not ctx.check(not must_refuse and not (attempt == 2 and not (ow or pr)), "not-refused", lambda: "%s attempt %d" % (msg(), attempt)):
                    return
                n = calls[0]
                judge(ctx, res, post, spec, free, P.out, sampler, sk, rk, msg)
                ctx.check((sk, rk) == (sk0, rk0), "options-changed", lambda: "%s: %s %s, given %s %s" % (msg(), sk, rk, sk0, rk0))
                h1 = hashes(P.d)
                o = os.path.relpath(P.out, P.d) + '/'
                bad = [k for k in set(h0) | set(h1) if h0.get(k) != h1.get(k) and not k.startswith(o) and k != 'runs/']
                ctx.check(not bad, "other-files", lambda: "%s: %s" % (msg(), bad))
                bad = [k for k in mine if o + k in h0 and h1.get(o + k) != h0[o + k]]
                ctx.check(not bad, "foreign-files", lambda: "%s: %s" % (msg(), bad))
                prior_run = before in ('finished', 'interrupted') or attempt == 2
                if pr and prior_run:
                    # continues the stored run instead of starting again
                    ctx.check(n <= 0.6 * ref[2], "not-resumed", lambda: "%s attempt %d: %d evaluations, a new run takes %d" % (msg(), attempt, n, ref[2]))
                else:
                    ctx.check(same(sampler, res, ref) and n > 0.6 * ref[2], "not-fresh", lambda: "%s attempt %d: %d evaluations, lnZ %r, a new run gives %d, %r" % (msg(), attempt, n, res['lnZ'], ref[2], ref[1]))
                ctx.state('place', *case, attempt)
                ctx.trans()
                h0 = h1
            ctx.trace()
        finally:
            P.close()

    # ------------------------------------------------------------------------------ no output directory
    def none_cases():
        for s in SAMPLERS:
            for ow, pr in itertools.product((False, True), repeat=2):
                yield [s, ow, pr]

    def none_run(ctx, case):
        sampler, ow, pr = case
        P = Place()
        try:
            post, spec, free, v = make('two')
            ref = fresh_result(sampler, 'two')
            os.chdir(P.cwd)
            h0 = hashes(P.d)
            for empty in (False, True):
                sk, rk = copy.deepcopy(OPT[sampler])
                if empty and sampler != 'multinest' and sk == {}:
                    sk = None
                if empty and 'verbose' in rk:
                    del rk['verbose']       # the default is filled in, but not in the caller's options
                sk0, rk0 = copy.deepcopy((sk, rk))
                for attempt in (1, 2):
                    res = call(post, sampler, None, sk, rk, overwrite=ow, proceed=pr)
                    judge(ctx, res, post, spec, free, None, sampler, sk, rk, lambda: str(case))
                    ctx.check(hashes(P.d) == h0, "files-without-output-directory", lambda: "%s: %s" % (case, sorted(set(hashes(P.d).items()) ^ set(h0.items()))[:9]))
                    ctx.check((sk, rk) == (sk0, rk0), "options-changed", lambda: "%s: %s %s" % (case, sk, rk))
                    ctx.check(same(sampler, res, ref), "depends-on-output", lambda: "%s: lnZ %r, with an output directory %r" % (case, res['lnZ'], ref[1]))
                ctx.state('none', *case, empty)
            ctx.trace()
        finally:
            P.close()

    # ------------------------------------------------------------------------------ what the library is given
    def handed_cases():
        for s in SAMPLERS:
            for k in ('one', 'two', 'gauss', 'times', 'seven', 'many'):
                if not (s == 'nautilus' and k in ('one', 'seven', 'many')):     # needs two parameters; too slow with many
                    yield [s, k]

    def handed_run(ctx, case):
        sampler, kind = case
        P = Place()
        try:
            post, spec, free, v = make(kind)
            sk, rk = copy.deepcopy(OPT[sampler])
            if sampler == 'ultranest':
                rk['max_ncalls'] = 200
            for name in {sampler, sampler.upper(), sampler.title(), 'pymultinest' if sampler == 'multinest' else sampler}:
                res = call(post, name, os.path.join(P.out, name), sk, rk)
                judge(ctx, res, post, spec, free, os.path.join(P.out, name), sampler, sk, rk, lambda: "%s as %r" % (case, name))
            cls, a, k = made[0]
            n = len(free)
            names = post.name_vary_params()
            flat = [x for x in a] + list(k.values())
            fns = [x for x in flat if callable(x)]
            ctx.check(len(fns) == 2, "callables", lambda: "%s: %s" % (case, flat))
            dims = [x for x in flat if isinstance(x, (int, np.integer)) and not isinstance(x, bool) and x == n]
            if sampler == 'ultranest':
                ctx.check(list(a[0]) == names or list(k.get('param_names', [])) == names, "names", lambda: "%s: %s" % (case, flat))
                ctx.check([bool(x) for x in k['wrapped_params']] == [x.startswith(('tc', 'tp')) for x in names], "wrapped", lambda: "%s: %s for %s" % (case, k['wrapped_params'], names))
                ctx.check((res['sampler'].stepsampler is not None) == (n > 7), "step-sampler", lambda: "%s: %s" % (case, res['sampler'].stepsampler))
            else:
                ctx.check(len(dims) >= 1, "dimension", lambda: "%s: %s" % (case, flat))
            other = make(kind)[0]
            grid = list(itertools.product((0.1, 0.5, 0.93), repeat=n)) if n <= 3 else [[(0.13 + 0.37 * i + 0.11 * j) % 1 for i in range(n)] for j in range(5)]
            ll, pt = (a[1], a[2]) if sampler == 'ultranest' else (a[1], a[0]) if sampler in ('nautilus', 'multinest') else (a[0], a[1])
            if sampler == 'multinest':
                ll, pt = a[0], a[1]
            for u in grid:
                want = other.prior_transform(np.array(u))
                if sampler == 'multinest':
                    c = (ctypes.c_double * n)(*u)
                    p = ctypes.cast(c, ctypes.POINTER(ctypes.c_double))
                    pt(p, n, n)
                    got = [p[i] for i in range(n)]
                    l = ll(p, n, n)
                else:
                    got = pt(np.array(u))
                    l = ll(np.array(want))
                ctx.check(close(got, want, 1e-12, 1e-12), "transform", lambda: "%s: %s -> %s, expected %s" % (case, u, got, want))
                ctx.check(close(l, other.likelihood_ns_array(want), 1e-12, 1e-12), "likelihood", lambda: "%s: %s" % (case, u))
            ctx.state('handed', *case)
            ctx.trace()
        finally:
            P.close()

    # ------------------------------------------------------------------------------ evidence and samples
    def z_cases():
        return [[s, k] for s in LONG for k in ('one', 'two', 'gauss') if (s, k) != ('nautilus', 'one')]

    def z_run(ctx, case):
        sampler, kind = case
        post, spec, free, v = make(kind)
        res = call(post, sampler, None, *copy.deepcopy(LONG[sampler]))
        names = post.name_vary_params()
        axes = [np.linspace(v[x] - 24, v[x] + 24, 481) for x in names]
        if 'k1' in names and kind == 'gauss':
            axes[names.index('k1')] = np.linspace(1.0, 40.0, 401)
        lp = np.array([post.logprob_array(np.array(p)) for p in itertools.product(*axes)])
        lp[~np.isfinite(lp)] = -np.inf
        m = lp.max()
        w = np.exp(lp - m)
        cell = np.prod([a[1] - a[0] for a in axes])
        # logprob: priors are normalised except where documented (bounds are 0 inside): divide by the volume of the bounds
        vol = 1.0
        for p in post.priors:
            if type(p).__name__ == 'HardBounds':
                vol *= p.maxval - p.minval
        z = math.log(w.sum() * cell) + m - (0 if hb_normalised else math.log(vol))
        ctx.check(abs(res['lnZ'] - z) < 4 * max(res['lnZerr'], 0.1), "evidence", lambda: "%s: lnZ %s +- %s, by quadrature %s" % (case, res['lnZ'], res['lnZerr'], z))
        W = w.reshape([len(a) for a in axes])
        for i, x in enumerate(names):
            pdf = W.sum(axis=tuple(j for j in range(len(names)) if j != i))
            mean = (pdf * axes[i]).sum() / pdf.sum()
            sd = math.sqrt((pdf * (axes[i] - mean) ** 2).sum() / pdf.sum())
            s = res['samples'][x]
            ctx.check(abs(s.mean() - mean) < 0.4 * sd and 0.6 * sd < s.std() < 1.5 * sd, "posterior", lambda: "%s: %s %s +- %s, exact %s +- %s" % (case, x, s.mean(), s.std(), mean, sd))
        ctx.state('evidence', *case)
        ctx.trace()
    import radvel.model as rm
    hb = R.HardBounds('per1', 0.0, 4.0)
    pp = rm.Parameters(1, basis='per tc e w k')
    pp['per1'] = rm.Parameter(value=1.0)
    hv = rm.Vector(pp)
    hb_normalised = abs(hb(pp, hv) + math.log(4.0)) < 1e-9

    # ------------------------------------------------------------------------------ refusals
    BADOPT = [('dynesty-static', 'run', 'resume', True), ('dynesty-dynamic', 'run', 'resume', False), ('dynesty-static', 'run', 'checkpoint_file', 'x'), ('ultranest', 'sampler', 'log_dir', 'x'),
              ('ultranest', 'sampler', 'resume', True), ('multinest', 'run', 'resume', True), ('multinest', 'run', 'outputfiles_basename', 'x'), ('multinest', 'sampler', 'n_live', 3),
              ('nautilus', 'sampler', 'filepath', 'x.h5'), ('nautilus', 'sampler', 'resume', True)]

    def bad_cases():
        for i in range(len(BADOPT)):
            for out, ow, pr in itertools.product((False, True), repeat=3):
                yield ['option', i, out, ow, pr]
        for s in SAMPLERS + ['foo', '']:
            yield ['improper', s, True, False, False]
        for s in ('foo', '', 'dynesty', 'emcee'):
            for out in (False, True):
                yield ['unknown', s, out, False, False]

    def bad_run(ctx, case):
        what, x, out, ow, pr = case
        P = Place()
        try:
            post = make('two')[0]
            sk, rk = {}, {}
            sampler = x
            if what == 'option':
                sampler, where, key, val = BADOPT[x]
                sk, rk = copy.deepcopy(OPT[sampler])
                sk = sk if sk is not None else {}
                dict(sampler=sk, run=rk)[where][key] = val
            if what == 'improper':
                post.priors = post.priors[:1]
            h0 = hashes(P.d)
            k0 = copy.deepcopy((sk, rk))
            try:
                call(post, sampler, P.out if out else None, sk, rk, overwrite=ow, proceed=pr)
            except Exception as ex:
                ctx.check(len(str(ex)) > 10, "refusal-explained", lambda: "%s: %r" % (case, ex))
            else:
                ctx.fail("accepted", str(case))
            ctx.check(calls[0] == 0, "ran-before-refusing", lambda: "%s: %d evaluations" % (case, calls[0]))
            ctx.check(hashes(P.d) == h0 and (sk, rk) == k0, "refusal-changed", lambda: "%s: %s" % (case, set(hashes(P.d)) ^ set(h0)))
            ctx.state('refused', *case)
        finally:
            P.close()

    return [Suite("location", place_cases, place_run), Suite("no-output", none_cases, none_run), Suite("handed-over", handed_cases, handed_run), Suite("evidence", z_cases, z_run), Suite("refused", bad_cases, bad_run)]


if __name__ == "__main__":
    main("R18", suites, "model_checking",
         "state = content of the output location (absent, empty, foreign files, finished / interrupted run of the same or another sampler) x overwrite x proceed x sampler; each is built "
         "for real, the run is made twice with the same option dictionaries, and files, options handed to the library, refusals, results and reloads are compared; plus the evidence by quadrature",
         bounds="5 samplers (the real dynesty, nautilus, ultranest with few live points; a stand-in for pymultinest, which is not installed), 6 directory states, all flag combinations, 6 sets of free parameters")
