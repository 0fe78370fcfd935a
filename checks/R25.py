import contextlib
import copy
import inspect
import io
import itertools
import pickle
import shutil
import types
from vlib.core import *
from vlib import models as M
from vlib import setups as S

I = M.inst
SAMPLERS = ['ultranest', 'dynesty-static', 'dynesty-dynamic', 'nautilus', 'multinest']
PLOTS = ['rv', 'auto', 'corner', 'trend', 'derived']
TABLES = ['params', 'priors', 'rv', 'ic_compare', 'derived', 'crit']
IC = ['nplanets', 'e', 'trend', 'jit', 'gp']
F = None    # flag without a value

# sub-command -> (driver step, {documented defaults}, {option name: [(words, {attribute: value}), ...]})
COMMON = {'-d': [(['-d', 'out'], {'outputdir': 'out'}), (['-d', 'a/b/c'], {'outputdir': 'a/b/c'})], '--decorr': [(['--decorr'], {'decorr': True})]}


def opt(name, dest, *vals):
    return name, [([name, w], {dest: v}) for w, v in vals]


def samp(*names):
    return '--sampler', [(['--sampler', n], {'sampler': n}) for n in names]


CMD = {
    'fit': ('fit', {}, {}),
    'plot': ('plots', dict(plotkw={}, gp=False, sampler='auto'), dict([
        ('-t', [(['-t'] + list(t), {'type': list(t)}) for t in (('rv',), ('auto', 'corner'), ('trend', 'derived', 'rv'))] + [(['--type', 'corner'], {'type': ['corner']})]),
        opt('--plotkw', 'plotkw', ("{'yscale_auto': True}", {'yscale_auto': True}), ("{}", {}), ("dict(epoch=5, nobin=True)", dict(epoch=5, nobin=True))),
        ('--gp', [(['--gp'], {'gp': True})]), samp('mcmc', 'ns', 'auto')])),
    'mcmc': ('mcmc', dict(nsteps=10000, nwalkers=50, ensembles=8, minAfactor=40, maxArchange=.03, maxGR=1.01, burnGR=1.03, burnAfactor=25, minTz=1000, minsteps=1000, minpercent=5, thin=10,
                          serial=False, save=False, proceed=False, headless=False), dict([
        opt('--nsteps', 'nsteps', ('123', 123), ('1e3', 1000)), opt('--nwalkers', 'nwalkers', ('7', 7)), opt('--nensembles', 'ensembles', ('3', 3)), opt('--minAfactor', 'minAfactor', ('2.5', 2.5), ('0', 0)),
        opt('--maxArchange', 'maxArchange', ('.5', .5)), opt('--maxGR', 'maxGR', ('1.5', 1.5)), opt('--burnGR', 'burnGR', ('2', 2)), opt('--burnAfactor', 'burnAfactor', ('3', 3)),
        opt('--minTz', 'minTz', ('17', 17)), opt('--minsteps', 'minsteps', ('0', 0), ('19', 19)), opt('--minpercent', 'minpercent', ('0', 0), ('12.5', 12.5)), opt('--thin', 'thin', ('1', 1)),
        opt('--serial', 'serial', ('True', True), ('False', False)), ('--save', [(['--save'], {'save': True})]), ('--proceed', [(['--proceed'], {'proceed': True})]),
        ('--headless', [(['--headless'], {'headless': True})])])),
    'ns': ('nested_sampling', dict(sampler='ultranest', proceed=False, overwrite=False, sampler_kwargs=None, run_kwargs=None), dict([
        samp(*SAMPLERS), ('--proceed', [(['--proceed'], {'proceed': True})]), ('--overwrite', [(['--overwrite'], {'overwrite': True})]),
        opt('--sampler-kwargs', 'sampler_kwargs', ('a=1 b=x', 'a=1 b=x')), opt('--run-kwargs', 'run_kwargs', ('c=2.5', 'c=2.5'))])),
    'derive': ('derive', dict(sampler='auto'), dict([samp('mcmc', 'ns', 'auto')])),
    'ic': ('ic_compare', dict(type=['trend'], mixed=True, fixjitter=False, simple=False, verbose=False), dict([
        ('-t', [(['-t'] + list(t), {'type': list(t)}) for t in (('e',), ('nplanets', 'jit'), ('gp', 'trend', 'e'))]),
        ('-m', [(['-m'], {'mixed': True}), (['--mixed'], {'mixed': True})]), ('-u', [(['-u'], {'mixed': False}), (['--un-mixed'], {'mixed': False})]),
        ('-f', [(['-f'], {'fixjitter': True}), (['--fixjitter'], {'fixjitter': True})]), ('-n', [(['-n'], {'fixjitter': False}), (['--no-fixjitter'], {'fixjitter': False})]),
        ('--simple', [(['--simple'], {'simple': True})]), ('-v', [(['-v'], {'verbose': True}), (['--verbose'], {'verbose': True})])])),
    'table': ('tables', dict(header=False, name_in_title=False, sampler='auto'), dict([
        ('-t', [(['-t'] + list(t), {'type': list(t)}) for t in (('params',), ('priors', 'rv'), ('ic_compare', 'derived', 'crit'))]),
        ('--header', [(['--header'], {'header': True})]), ('--name_in_title', [(['--name_in_title'], {'name_in_title': True})]), samp('mcmc', 'ns', 'auto')])),
    'report': ('report', dict(comptype='ic', sampler='auto'), dict([
        opt('--comptype', 'comptype', ('aic', 'aic')), ('--latex-compiler', [(['--latex-compiler', '/x/y/tex'], {'latex_compiler': '/x/y/tex'})]), samp('mcmc', 'ns', 'auto')])),
}
CMD['report'][1]['latex_compiler'] = 'pdflatex'
NEEDS_T = ('plot', 'table')


def suites():
    import numpy as np
    import pandas as pd
    import radvel
    import radvel.cli as cli
    import radvel.driver as driver
    import radvel.fitting
    import radvel.nested_sampling as NS
    import radvel.report
    from radvel.mcmc import statevars

    def replace(old, new):
        """put `new` in the place of `old` wherever a radvel module refers to it; returns the undo list"""
        undo = []
        for name, mod in list(sys.modules.items()):
            if name.split('.')[0] == 'radvel' and mod is not None:
                for k, v in list(vars(mod).items()):
                    if v is old:
                        undo.append((mod, k, v))
                        setattr(mod, k, new)
        return undo

    @contextlib.contextmanager
    def patched(pairs):
        undo = []
        try:
            for old, new in pairs:
                undo += replace(old, new)
            yield
        finally:
            for mod, k, v in undo:
                setattr(mod, k, v)

    steps = {v[0]: getattr(driver, v[0]) for v in CMD.values()}

    class Dir:
        def __enter__(self):
            self.d = os.path.join(scratch(), 'r25_%d' % os.getpid())
            shutil.rmtree(self.d, ignore_errors=True)
            os.makedirs(os.path.join(self.d, 'where'))
            open(os.path.join(self.d, 'where', 'sys1.py'), 'w').write('raise RuntimeError("not to be read by the parser")\n')
            os.chdir(self.d)
            return self

        def __exit__(self, *a):
            os.chdir(scratch())
            shutil.rmtree(self.d, ignore_errors=True)

        def files(self):
            return sorted(os.path.relpath(os.path.join(r, x), self.d) for r, ds, fs in os.walk(self.d) for x in ds + fs)

    def command(words):
        """run main() -> (exit code or None, output)"""
        out, old = io.StringIO(), sys.argv
        sys.argv = ['radvel'] + list(words)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                try:
                    cli.main()
                    code = None
                except SystemExit as ex:
                    code = ex.code if ex.code is not None else 0
        finally:
            sys.argv = old
        return code, out.getvalue()

    # ------------------------------------------------------------------------------ parsing
    def cases():
        for sub, (step, defaults, opts) in CMD.items():
            opts = dict(COMMON, **opts)
            names = list(opts)
            for r in range(0, 4):
                for sel in itertools.combinations(names, r):
                    if sub in NEEDS_T and '-t' not in sel:
                        if r == 3:
                            continue
                        sel = sel + ('-t',)
                    yield [sub, list(sel)]

    def run(ctx, case):
        sub, sel = case
        step, defaults, opts = CMD[sub]
        opts = dict(COMMON, **opts)
        with Dir() as D:
            called = []
            with patched([(f, (lambda n: lambda args: called.append((n, copy.deepcopy(vars(args)))))(n)) for n, f in steps.items()]):
                for choice in itertools.product(*[opts[n] for n in sel]):
                    for order in (0, 1):
                        ch = choice if not order else choice[::-1]
                        if order and len(choice) < 2:
                            continue
                        for where in ((0, 1) if len(choice) < 3 else (0,)):
                            setup = [['-s', 'where/sys1.py'], ['--setup', D.d + '/where/sys1.py']][where]
                            # a list option swallows what follows, so the setup file comes first or after another option
                            w = [sub] + setup + [x for c in ch for x in c[0]] if not where else [sub] + [x for c in ch for x in c[0]] + setup
                            want = dict(defaults, decorr=False, setupfn=setup[1], outputdir=None)
                            for c in ch:
                                want.update(c[1])
                            del called[:]
                            before = D.files()
                            code, out = command(w)
                            msg = lambda: "radvel %s" % ' '.join(w)
                            if not ctx.check(code is None and len(called) == 1 and called[0][0] == step, "step", lambda: "%s: exit %s, ran %s\n%s" % (msg(), code, [c[0] for c in called], out[-500:])):
                                continue
                            got = called[0][1]
                            od = want.pop('outputdir')
                            bad = {k: (got.get(k, '<missing>'), v) for k, v in want.items() if k not in got or got[k] != v or isinstance(got[k], bool) != isinstance(v, bool)}
                            ctx.check(not bad, "value", lambda: "%s: (got, expected) %s" % (msg(), bad))
                            if ctx.check('outputdir' in got and os.path.normpath(got['outputdir']) == (od or 'sys1'), "output-directory", lambda: "%s: %s" % (msg(), got.get('outputdir'))):
                                made = set(D.files()) - set(before)
                                parts = (od or 'sys1').split('/')
                                ok = {'/'.join(parts[:i + 1]) for i in range(len(parts))}
                                ctx.check(made == ok - set(before) and os.path.isdir(od or 'sys1'), "directories-made", lambda: "%s: %s" % (msg(), made))
                                shutil.rmtree(parts[0])
                            ctx.trans()
            ctx.state('options', sub, *sel)
        ctx.trace()

    # ------------------------------------------------------------------------------ refusals
    def bad_cases():
        for sub in CMD:
            base = [sub, '-s', 'where/sys1.py'] + (['-t', 'rv'] if sub in NEEDS_T else [])
            yield base + ['--nosuchoption']
            yield base + ['--nosuchoption', '3']
            yield base + ['surplus'] if sub not in NEEDS_T else base + ['surplus']
            yield [sub] + base[3:]                            # no setup file
            yield base + ['-s']
            yield base + ['-d']
            for name, alts in dict(COMMON, **CMD[sub][2]).items():
                if len(alts[0][0]) > 1:
                    yield [w for w in base if not (name == '-t' and w in ('-t', 'rv'))] + [name]
            if sub in NEEDS_T:
                yield [sub, '-s', 'where/sys1.py']
                for bad in ('RV', 'foo', '', 'chains'):
                    yield [sub, '-s', 'where/sys1.py', '-t', bad]
                    yield [sub, '-s', 'where/sys1.py', '-t', 'rv', bad]
            if sub == 'ic':
                for bad in ('E', 'trends', 't', ''):
                    yield base + ['-t', bad]
                    yield base + ['-t', 'e', bad]
            if '--sampler' in CMD[sub][2]:
                for bad in ('MCMC', 'emcee', '', 'auto ', 'dynesty'):
                    yield base + ['--sampler', bad]
            if sub == 'ns':
                yield base + ['--sampler', 'auto']
        for n in ('nwalkers', 'nensembles', 'minTz', 'minsteps', 'thin'):
            for bad in ('x', '', '2.5', 'None'):
                yield ['mcmc', '-s', 'where/sys1.py', '--' + n, bad]
        for n in ('nsteps', 'minAfactor', 'maxArchange', 'maxGR', 'burnGR', 'burnAfactor', 'minpercent'):
            for bad in ('x', '', '1,5', 'None'):
                yield ['mcmc', '-s', 'where/sys1.py', '--' + n, bad]
        for bad in ('x', '2'):
            yield ['mcmc', '-s', 'where/sys1.py', '--serial', bad]
        yield []
        for w in ('fits', 'MCMC', 'nested', '', 'radvel', '--nosuch', '-t'):
            yield [w]
            yield [w, '-s', 'where/sys1.py']

    def bad_run(ctx, case):
        with Dir() as D:
            called = []
            before = D.files()
            with patched([(f, (lambda n: lambda args: called.append(n))(n)) for n, f in steps.items()]):
                code, out = command(case)
            msg = lambda: "radvel %s: exit %s, ran %s\n%s" % (case, code, called, out[-400:])
            ctx.check(not called and code not in (None, 0), "accepted", msg)
            ctx.check(len(out.strip()) > 10, "refusal-explained", msg)
            ctx.check(D.files() == before, "refusal-left-files", lambda: "%s: %s" % (case, set(D.files()) - set(before)))
            ctx.state('refused', *case)
        ctx.trace()

    # ------------------------------------------------------------------------------ effects: the analysis layer below the driver is observed
    spec = dict(basis='per tc secosw sesinw k', npl=2, insts=[I('j', 9, decorr=['bis']), I('k', 8)], trend=['dvdt'])
    spec['insts'][1]['decorr'] = []
    gpspec = dict(basis='per tc e w k', npl=1, insts=[I('j', 8, 'gp:QuasiPer'), I('k', 7)], trend=[])
    worlds = {}

    class Log(list):
        def calls(self, name):
            return [c for c in self if c[0] == name]

    log = Log()

    def recorder(name, f, result):
        sig = inspect.signature(f)

        def g(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            log.append((name, dict(b.arguments)))
            return result(dict(b.arguments))
        return g

    def fake_chain(post):
        names = post.name_vary_params()
        v0 = post.get_vary_params()
        z = np.sin(np.arange(60) * 1.7)
        df = pd.DataFrame({n: v0[i] + 0.01 * np.roll(z, i) for i, n in enumerate(names)})
        df['lnprobability'] = -50 - z ** 2
        return df

    def fake_mcmc(a):
        statevars.reset()
        for k, v in dict(mintz=1234.0, maxgr=1.001, minafactor=50.0, maxarchange=0.01, ncomplete=100, nburn=10, nwalkers=a['nwalkers']).items():
            setattr(statevars, k, v)
        for k in ('autosamples', 'automin', 'automean', 'automax', 'factor'):
            setattr(statevars, k, [30.0, 40.0])
        return fake_chain(a['post'])

    def fake_plot(cls, name):
        sig = inspect.signature(cls.__init__)

        class Fake:
            def __init__(self, *a, **k):
                b = sig.bind(self, *a, **k)
                b.apply_defaults()
                log.append((name, {x: v for x, v in b.arguments.items() if x != 'self'}))
                self.out = b.arguments.get('saveplot', b.arguments.get('outfile'))

            def plot(self, *a, **k):
                log.append((name + '.plot', dict(k)))
                open(self.out, 'w').write('x')
                return None, []
            plot_multipanel = plot
        return Fake

    real = dict(mcmc=radvel.mcmc if callable(radvel.mcmc) else radvel.mcmc.mcmc, ns=NS.run, fit=radvel.fitting.maxlike_fitting, comp=radvel.fitting.model_comp)
    real_plots = {'rv': radvel.plot.orbit_plots.MultipanelPlot, 'gp': radvel.plot.orbit_plots.GPMultipanelPlot, 'auto': radvel.plot.mcmc_plots.AutoPlot, 'corner': radvel.plot.mcmc_plots.CornerPlot,
                  'trend': radvel.plot.mcmc_plots.TrendPlot, 'derived': radvel.plot.mcmc_plots.DerivedPlot}

    def stat_list(a):
        import collections
        o = collections.OrderedDict()
        o['Free Params'] = (['$K_{b}$', str(a['params'])], 'x')
        # the same rows as the real table
        for k, v in ((r'$N_{\rm free}$', 100 + len(log)), (r'$N_{\rm data}$', 99), ('RMS', 3.21), (r'$\ln{\mathcal{L}}$', -10.5), ('BIC', 2.0 + len(log))):
            o[k] = (v, 'y')
        o['AICc'] = (1.0 + len(log), 'y')
        return [o]

    def layer(fit=False, plots=True):
        pairs = [(real['mcmc'], recorder('mcmc', real['mcmc'], fake_mcmc)), (real['ns'], recorder('ns', real['ns'], lambda a: dict(samples=fake_chain(a['post']), lnZ=-1.0, lnZerr=0.1))),
                 (real['fit'], recorder('fit', real['fit'], lambda a: a['post'])), (real['comp'], recorder('comp', real['comp'], stat_list))]
        if plots:
            pairs += [(c, fake_plot(c, n)) for n, c in real_plots.items()]
        return patched(pairs)

    def world(which):
        """a directory in which every step has been run once (with the analysis stubbed)"""
        if which not in worlds:
            d = os.path.join(scratch(), 'r25w_%s_%d' % (which, os.getpid()))
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            S.write_setup(d, 'sys1', gpspec if which == 'gp' else spec, stellar=dict(mstar=1.0, mstar_err=0.05), planet=dict(rp1=2.0, rp_err1=0.1), bjd0=M.T0 - 1234.5,
                          priors=["radvel.prior.Gaussian('k1', 20.0, 3.0)"])
            os.chdir(d)
            with layer():
                for w in (['fit'], ['mcmc'], ['ns'], ['derive'], ['ic'], ['plot', '-t', 'rv']):
                    code, out = command([w[0], '-s', 'sys1.py'] + w[1:])
                    assert code is None, out
            os.chdir(scratch())
            worlds[which] = d
        return worlds[which]

    EFF = {
        'fit': [[]], 'fit-decorr': [['--decorr']],
        'mcmc': [[x for c in ch for x in c[0]] for r in (0, 1, 2) for sel in itertools.combinations(CMD['mcmc'][2], r) for ch in itertools.product(*[CMD['mcmc'][2][n][:2] for n in sel])],
        'ns': [[x for c in ch for x in c[0]] for r in (0, 1, 2) for sel in itertools.combinations([n for n in CMD['ns'][2] if 'kwargs' not in n], r) for ch in itertools.product(*[CMD['ns'][2][n] for n in sel])],
        'ic': [[x for c in ch for x in c[0]] for r in (0, 1, 2, 3) for sel in itertools.permutations(CMD['ic'][2], r) for ch in itertools.product(*[CMD['ic'][2][n][:3] if n == '-t' else CMD['ic'][2][n][:1] for n in sel])],
        'table': [['-t'] + list(t) + x for r in (1, 2, 3) for t in itertools.permutations(TABLES, r) for x in ([], ['--name_in_title'])],
        'plot': [['-t'] + list(t) + x for r in (1, 2) for t in itertools.permutations(PLOTS, r) for x in ([], ['--gp'], ['--sampler', 'mcmc'])] +
                [['-t', 'rv', '--plotkw', k] + g for k in ("{}", "{'yscale_auto': True}", "dict(nobin=True, phase_ncols=2)", "dict(epoch=17)", "dict(saveplot='mine.pdf')", "dict(saveplot='mine.pdf', legend=False, yscale_sigma=4.5)") for g in ([], ['--gp'])],
        'report': [[], ['--latex-compiler', '/x/tex'], ['--sampler', 'ns'], ['--sampler', 'mcmc', '--latex-compiler', 't']],
    }
    KW = [('', {}), ('a=1', {'a': 1}), ('a=1 b=2.5', {'a': 1, 'b': 2.5}), ('a=1  b=x', {'a': 1, 'b': 'x'}), ('v=True w=false x=1e-3', {'v': True, 'w': False, 'x': 1e-3}), ('f=a=b', {'f': 'a=b'}), (' a=-4 ', {'a': -4}),
          ('k=0', {'k': 0}), ('k=1.0', {'k': 1.0}), ('s=inf', {'s': float('inf')}), ('n=007 d=0x10', {'n': 7, 'd': '0x10'}), ('name=slice', {'name': 'slice'})]

    def eff_cases():
        for k, alts in EFF.items():
            for a in alts:
                for wh in (('rv', 'gp') if k == 'plot' and len(a) < 5 else ('rv',)):
                    yield [k.split('-')[0], a, wh]
        for (a, _), (b, _) in itertools.product(KW, repeat=2):
            yield ['ns', ['--sampler-kwargs', a, '--run-kwargs', b], 'rv']
        for t in TABLES:
            yield ['header', ['-t', t], 'rv']

    def status():
        import configparser
        c = configparser.ConfigParser()
        c.read('sys1/sys1_radvel.stat')
        return c

    def eff_run(ctx, case):
        sub, words, wh = case
        src = world(wh)
        d = os.path.join(scratch(), 'r25_%d' % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(src, d)
        os.chdir(d)
        msg = lambda: "radvel %s %s" % (sub, ' '.join(map(repr, words)))
        try:
            del log[:]
            if sub == 'header':
                text = []
                for x in ([], ['--header']):
                    with layer(plots=False):
                        command(['table', '-s', 'sys1.py'] + words + x)
                    text.append(open('sys1/sys1_%s.tex' % words[1]).read())
                ctx.check(text[0] != text[1], "header-ignored", lambda: "table %s is the same with and without --header" % words)
                return
            want = dict(CMD[sub][1])
            alts = [c for n in CMD[sub][2] for c in CMD[sub][2][n]]
            i = 0
            while i < len(words):               # attribute values of the words given
                for c in alts:
                    if c[0] == words[i:i + len(c[0])] and not (words[i] == '-t' and sub in NEEDS_T):
                        if not (words[i] == '-t' and i + len(c[0]) < len(words) and not words[i + len(c[0])].startswith('-')):
                            want.update(c[1])
                i += 1
            comp = []
            if sub == 'report':
                cls = radvel.report.RadvelReport
                old = cls.compile
                cls.compile = lambda self, *a, **k: comp.append((self, inspect.signature(old).bind(self, *a, **k).arguments))
            try:
                with layer(plots=sub == 'plot'):
                    code, out = command([sub, '-s', 'sys1.py'] + words)
            finally:
                if sub == 'report':
                    cls.compile = old
            if not ctx.check(code is None, "ran", lambda: "%s: exit %s\n%s" % (msg(), code, out[-500:])):
                return
            if sub == 'fit':
                c = log.calls('fit')
                if ctx.check(len(c) == 1 and len(log) == 1, "one-step", lambda: "%s: %s" % (msg(), [x[0] for x in log])):
                    p = c[0][1]['post']
                    ctx.check(('c1_bis_j' in p.likelihood.params) and (any(getattr(l, 'decorr_params', []) for l in p.likelihood.like_list) == ('--decorr' in words)), "decorrelation",
                              lambda: "%s: %s" % (msg(), [getattr(l, 'decorr_params', []) for l in p.likelihood.like_list]))
            elif sub == 'mcmc':
                c = log.calls('mcmc')
                if ctx.check(len(c) == 1, "one-step", lambda: "%s: %s" % (msg(), [x[0] for x in log])):
                    a = c[0][1]
                    w = dict(nwalkers=want['nwalkers'], nrun=want['nsteps'], **{k: want[k] for k in ('ensembles', 'minAfactor', 'maxArchange', 'burnAfactor', 'burnGR', 'maxGR', 'minTz', 'minsteps', 'minpercent', 'thin', 'serial', 'save', 'proceed', 'headless')})
                    bad = {k: (a.get(k), v) for k, v in w.items() if a.get(k) != v}
                    ctx.check(not bad, "analysis-options", lambda: "%s: (given, expected) %s" % (msg(), bad))
                    f = 'sys1/sys1_rawchain.h5'
                    for flag, name in (('save', 'savename'), ('proceed', 'proceedname')):
                        if want[flag]:
                            ctx.check(a[name] is not None and os.path.normpath(a[name]) == f, "chain-file", lambda: "%s: %s=%s" % (msg(), name, a[name]))
                    st = status()['mcmc']
                    ctx.check(int(st['nensembles']) == want['ensembles'] and float(st['maxsteps']) == want['nsteps'] * want['nwalkers'] * want['ensembles'], "recorded-options", lambda: "%s: %s" % (msg(), dict(st)))
            elif sub == 'ns':
                c = log.calls('ns')
                kw = dict(KW)
                if ctx.check(len(c) == 1, "one-step", lambda: "%s: %s" % (msg(), [x[0] for x in log])):
                    a = c[0][1]
                    ctx.check(a['sampler'] == want['sampler'] and a['proceed'] == want['proceed'] and a['overwrite'] == want['overwrite'] and os.path.normpath(a['output_dir']) == 'sys1/sys1_ns', "analysis-options", lambda: "%s: %s" % (msg(), a))
                    for o, name in (('--sampler-kwargs', 'sampler_kwargs'), ('--run-kwargs', 'run_kwargs')):
                        v = kw[words[words.index(o) + 1]] if o in words else {}
                        g = a[name] or {}
                        ctx.check(g == v and all(type(g[k]) is type(v[k]) for k in v), "key-values", lambda: "%s: %s=%r, expected %r" % (msg(), name, g, v))
            elif sub == 'ic':
                c = log.calls('comp')
                types_ = want['type']
                w = [[]] if want['simple'] else [types_] if want['mixed'] else [[t] for t in types_]
                ctx.check([list(x[1]['params']) for x in c] == w, "comparisons", lambda: "%s: %s, expected %s" % (msg(), [x[1]['params'] for x in c], w))
                for x in c:
                    v = {k: bool(q.vary) for k, q in x[1]['post'].params.items() if k.startswith('jit')}
                    fixed = want['fixjitter'] and not want['simple']
                    ctx.check(bool(x[1]['verbose']) == want['verbose'], "verbose", lambda: "%s: %s" % (msg(), x[1]['verbose']))
                    if not want['simple']:
                        ctx.check(set(v.values()) == {not fixed}, "jitter", lambda: "%s: %s" % (msg(), v))
            elif sub == 'table':
                k = next((i for i, x in enumerate(words) if x.startswith('--')), len(words))
                for t in words[1:k]:
                    f = 'sys1/sys1_%s.tex' % t
                    if ctx.check(os.path.exists(f), "table-file", lambda: "%s: %s" % (msg(), f)):
                        text = open(f).read()
                        mark = dict(params='Posteriors', priors='Summary of Priors', rv='Radial Velocities', ic_compare='Model Comparison', derived='Derived Posteriors', crit='Convergence Criterion')[t]
                        ctx.check(mark in text, "table-kind", lambda: "%s: %s" % (msg(), text[:200]))
                        if t != 'ic_compare':
                            ctx.check(('star_x' in text or r'star\_x' in text) == ('--name_in_title' in words), "title", lambda: "%s: %s" % (msg(), text[:200]))
                have = {x for x in os.listdir('sys1') if x.endswith('.tex')}
                ctx.check(have == {'sys1_%s.tex' % t for t in words[1:k]}, "only-these", lambda: "%s: %s" % (msg(), have))
            elif sub == 'plot':
                k = next((i for i, x in enumerate(words) if x.startswith('--')), len(words))
                made = [x[0] for x in log if '.' not in x[0]]
                want_p = [('gp' if '--gp' in words else 'rv') if t == 'rv' else t for t in words[1:k]]
                ctx.check(made == want_p and [x[0] for x in log if '.' in x[0]] == [x + '.plot' for x in want_p], "plots", lambda: "%s: %s" % (msg(), [x[0] for x in log]))
                for n, a in [x for x in log if x[0] in ('rv', 'gp')]:
                    kw = eval(words[words.index('--plotkw') + 1]) if '--plotkw' in words else {}
                    kw.setdefault('saveplot', 'sys1/sys1_rv_multipanel.pdf')
                    kw.setdefault('epoch', M.T0 - 1234.5)
                    bad = {x: (a.get(x), v) for x, v in kw.items() if x not in a or a[x] != v and not (x == 'saveplot' and os.path.normpath(a[x]) == v)}
                    ctx.check(not bad, "plot-options", lambda: "%s: (given, expected) %s" % (msg(), bad))
                    others = {x: (a[x], p.default) for x, p in inspect.signature(real_plots[n].__init__).parameters.items() if x in a and x not in kw and x not in ('post', 'uparams', 'status') and a[x] != p.default}
                    ctx.check(not others, "plot-defaults", lambda: "%s: %s" % (msg(), others))
                    f = kw['saveplot']
                    ctx.check(os.path.exists(f) and os.path.normpath(status()['plot']['rv_plot']) == f, "plot-file", lambda: "%s: %s" % (msg(), dict(status()['plot'])))
                for n, a in [x for x in log if x[0] == 'trend']:
                    ctx.check(a['nwalkers'] == 50 and a['nensembles'] == 8, "trend-shape", lambda: "%s: %s" % (msg(), {q: a[q] for q in ('nwalkers', 'nensembles')}))
            elif sub == 'report':
                if ctx.check(len(comp) == 1, "one-report", lambda: "%s: %d" % (msg(), len(comp))):
                    a = comp[0][1]
                    ctx.check(a.get('latex_compiler', 'pdflatex') == (words[words.index('--latex-compiler') + 1] if '--latex-compiler' in words else 'pdflatex'), "latex-compiler", lambda: "%s: %s" % (msg(), a))
                    ctx.check((comp[0][0].minafactor is None) == (words[:2] == ['--sampler', 'ns']), "report-sampler", lambda: "%s: %s" % (msg(), comp[0][0].minafactor))
            ctx.state('effect', sub, wh, *words)
            ctx.trace()
        finally:
            os.chdir(scratch())
            shutil.rmtree(d, ignore_errors=True)

    return [Suite("options", cases, run), Suite("refused", bad_cases, bad_run), Suite("effects", eff_cases, eff_run)]


if __name__ == "__main__":
    main("R25", suites, "model_checking",
         "every subset of up to three options of every sub-command with every alternative value, in both orders and around the setup file, is parsed by the real main() and the step it runs and "
         "the values it receives are compared with a table of the documented options; the steps are then run on a stubbed analysis layer which records what reaches it",
         bounds="8 sub-commands, all their options, up to 3 at a time (analysis layer: up to 2, ic 3), malformed command lines of every kind")
