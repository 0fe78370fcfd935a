import collections
import hashlib
import io
import itertools
import re
import resource
import signal
import tempfile
import contextlib
from vlib.core import *
from vlib import setups as S
from vlib import models as M
from vlib import oracle as O

I = M.inst
SPEC = dict(basis='per tc secosw sesinw k', npl=1, insts=[I('j', 8), I('hires_rk', 6)], trend=['dvdt', 'curv'])
FREE = ('k1', 'gamma_j', 'gamma_hires_rk')
MC = dict(nsteps=150, asked=5, nwalkers=6, nensembles=2, thin=5)   # fewer walkers than twice the three free parameters are raised to that number


# ------------------------------------------------------------------------------------------ the abstract workflow
# state: fit done; owner of the shared posterior file; mcmc done; ns done; sampler the derived chains belong to; ic done
CORE = ['fit', 'mcmc', 'ns', 'derive', 'derive:mcmc', 'derive:ns', 'ic']
State = collections.namedtuple('State', 'fit post mcmc ns derive ic')
START = State(False, None, False, False, None, False)


def pick(s, which):
    if which == 'auto':
        return 'mcmc' if s.mcmc else 'ns' if s.ns else None
    return which if getattr(s, which) else None


def step(s, c):
    """successor state, or None when the step has to refuse"""
    n, _, a = c.partition(':')
    if n == 'fit':
        return s._replace(fit=True, post='fit')
    if n == 'mcmc':
        return s._replace(mcmc=True, post='mcmc') if s.fit else None
    if n == 'ns':
        return s._replace(ns=True)
    if n == 'ic':
        return s._replace(ic=True) if s.fit else None
    if n == 'derive':
        p = pick(s, a or 'auto')
        return s._replace(derive=p) if p else None
    # consumers
    kind, which = (a.split('@') + ['auto'])[:2]
    if n == 'plot':
        if not s.fit:
            return None
        if kind == 'rv':
            return s
        if kind == 'derived':
            return s if s.derive and which in ('auto', s.derive) else None
        p = pick(s, which)
        return s if p and (kind == 'corner' or p == 'mcmc') else None
    p = pick(s, which)
    if not p:
        return None
    if n == 'table':
        if 'derived' in kind and s.derive != p:
            return None
        if 'ic_compare' in kind and not s.ic:
            return None
        return s
    if n == 'report':
        return s            # needs some plot, made first
    raise ValueError(c)


CONSUMERS = (['table:%s@%s' % (k, w) for k in ('params', 'derived') for w in ('auto', 'mcmc', 'ns')] +
             ['table:%s' % k for k in ('priors', 'rv', 'crit', 'ic_compare', 'ic_compare+derived', 'params+derived+rv')] +
             ['report:@%s' % w for w in ('auto', 'mcmc', 'ns')])
PLOTS = ['plot:rv', 'plot:auto', 'plot:trend', 'plot:derived', 'plot:derived@mcmc', 'plot:derived@ns', 'plot:corner', 'plot:corner@mcmc', 'plot:corner@ns', 'plot:trend@ns']
# what explains a refusal: the name of a step that is missing
WORDS = {'mcmc': ['fit'], 'ic': ['fit'], 'derive': ['MCMC', 'nested'], 'plot': ['fit', 'MCMC', 'nested', 'derive'], 'table': ['MCMC', 'nested', 'derive', 'Information Criteria', 'NS results'], 'report': ['MCMC', 'nested', 'NS results', 'plot']}


def prec(half):
    """how far a printed value may be from the real one: half a unit of the second digit of its uncertainty (of the first, if the second is zero)"""
    if not half > 0:
        return 0.0
    h = float('%.1e' % half)
    return max(0.06 * half, 0.51 * 10 ** math.floor(math.log10(h)) if ('%.1e' % half)[2] == '0' else 0.0)


def reachable():
    """shortest command sequence to every state of the abstract workflow"""
    seen = {START: []}
    todo = [START]
    while todo:
        s = todo.pop(0)
        for c in CORE:
            t = step(s, c)
            if t is not None and t not in seen:
                seen[t] = seen[s] + [c]
                todo.append(t)
    return seen


def suites():
    import numpy as np
    import pandas as pd
    import radvel
    from radvel import cli, driver, utils
    import matplotlib.pyplot as pl
    from numpy import inf, nan
    OrderedDict = collections.OrderedDict
    NS = dict(np=np, inf=inf, nan=nan, OrderedDict=OrderedDict)

    import dynesty.dynesty as dyn
    grg = dyn.get_random_generator
    counter = [0]

    def seeded(seed=None):
        counter[0] += 1
        return grg(counter[0] if seed is None else seed)
    dyn.get_random_generator = seeded           # the library takes its seed from the system

    latex = os.path.join(scratch(), 'fakelatex')
    with open(latex, 'w') as f:
        f.write('#!/bin/sh\ncp "$1" "${1%.tex}.pdf"\n')
    os.chmod(latex, 0o755)
    for mode, body in (('failing', 'exit 1\n'), ('partial', 'echo x > "${1%.tex}.log"; kill -9 $$\n')):
        f = os.path.join(scratch(), mode + 'latex')
        with open(f, 'w') as g:
            g.write('#!/bin/sh\n' + body)
        os.chmod(f, 0o755)

    log = []
    active = [False]

    def audit(event, args):
        if active[0] and event == 'open' and isinstance(args[0], (str, bytes)):
            p = os.fsdecode(args[0])
            m = args[1]
            log.append((os.path.abspath(p), bool((args[2] or 0) & (os.O_WRONLY | os.O_RDWR)) if m is None else any(x in m for x in 'wax+')))
    sys.addaudithook(audit)

    class Work:
        """one working directory and the reference of what it holds"""

        def __init__(self, tag, outdir='out', name='sys', spec=SPEC):
            self.d = os.path.join(scratch(), 'r16_%d_%s' % (os.getpid(), tag))
            shutil.rmtree(self.d, ignore_errors=True)
            os.makedirs(self.d)
            self.latex = latex
            self.here = self.d
            self.vals = M.start_values(spec)
            self.base = name.split('.')[0]
            self.out = os.path.join(self.d, outdir)
            self.outarg = outdir
            self.f = S.write_setup(self.d, name, spec, vary={k: k in FREE for k in self.vals}, starname='star_x',
                                   priors=["radvel.prior.HardBounds('%s',%r,%r)" % (k, self.vals[k] - 30, self.vals[k] + 30) for k in sorted(FREE)],
                                   stellar=dict(mstar=1.0, mstar_err=0.05), planet=dict(rp1=3.0, rp_err1=0.2))
            self.state = START
            self.n = 0
            self.status = {}
            os.chdir(self.d)

        def close(self):
            os.chdir(scratch())
            shutil.rmtree(self.d, ignore_errors=True)

        def stat(self):
            p = os.path.join(self.out, self.base + '_radvel.stat')
            return open(p).read() if os.path.exists(p) else None

        def sections(self):
            c = driver.load_status(os.path.join(self.out, self.base + '_radvel.stat'))
            return {s: dict(c.items(s)) for s in c.sections()}

        def files(self):
            r = {}
            for root, _, names in os.walk(self.d):
                for n in names:
                    p = os.path.join(root, n)
                    r[os.path.relpath(p, self.d)] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
            return r

        def argv(self, c, extra=()):
            n, _, a = c.partition(':')
            kind, which = (a.split('@') + [''])[:2] if n not in ('derive',) else ('', a)
            v = [n, '-s', os.path.basename(self.f), '-d', self.outarg]
            if n in ('table', 'plot'):
                v += ['-t'] + kind.split('+')
            if which:
                v += ['--sampler', which]
            if n == 'mcmc':
                v += ['--nsteps', str(MC['nsteps']), '--nwalkers', str(MC['asked']), '--nensembles', str(MC['nensembles']), '--serial', 'True', '--thin', str(MC['thin']), '--headless', '--minsteps', '10', '--burnGR', '20']
            if n == 'ns':
                v += ['--overwrite', '--sampler', 'dynesty-static', '--sampler-kwargs', 'nlive=30', '--run-kwargs', 'maxiter=300 print_progress=False']
            if n == 'ic':
                v += ['-t', 'trend', 'e']
            if n == 'report':
                v += ['--latex-compiler', self.latex]
            return v + list(extra)

        def cli(self, c, extra=()):
            self.n += 1
            np.random.seed(self.n)
            counter[0] = self.n * 1000
            old = sys.argv
            sys.argv = ['radvel'] + self.argv(c, extra)
            del log[:]
            active[0] = True
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    cli.main()
            finally:
                active[0] = False
                sys.argv = old
                pl.close('all')
                here = self.here = os.getcwd()
                os.chdir(self.d)
            return here

        def path(self, rel):
            return os.path.join(self.d, rel)

    def owns(w, c, s):
        """files a successful command may write (relative to the working directory)"""
        b = os.path.join(w.outarg, w.base)
        n, _, a = c.partition(':')
        st = b + '_radvel.stat'
        if n == 'fit':
            return {b + '_post_obj.pkl', st}
        if n == 'mcmc':
            return {b + x for x in ('_post_obj.pkl', '_post_summary.csv', '_chains.csv.bz2', '_autocorr.csv')} | {st}
        if n == 'ns':
            return {b + x for x in ('_post_obj_ns.pkl', '_post_summary_ns.csv', '_chains_ns.csv.bz2')} | {st, b + '_ns/'}
        if n == 'derive':
            return {b + '_derived_quantiles.csv', b + '_derived.csv.bz2', st, w.status[pick(s, a or 'auto')]['postfile']}
        if n == 'ic':
            return {st}
        kind = a.split('@')[0]
        if n == 'table':
            return {b + '_%s.tex' % k for k in kind.split('+')} | {st}
        if n == 'plot':
            return {b + dict(rv='_rv_multipanel.pdf', auto='_auto.pdf', trend='_trends.pdf', corner='_corner.pdf', derived='_corner_derived_pars.pdf')[kind], st}
        return {b + '_results.pdf', b + '_results.tex'}

    def own_section(c):
        n, _, a = c.partition(':')
        kind = a.split('@')[0]
        return dict(fit='fit', mcmc='mcmc', ns='ns', derive='derive', ic='ic_compare', table='table', plot='plot', report=None)[n]

    def run(ctx, w, c, hist):
        """one transition of the real workflow compared with the abstract one"""
        s = w.state
        t = step(s, c)
        msg = lambda: "%s after %s" % (c, hist)
        before, files0 = w.stat(), w.files()
        n, _, a = c.partition(':')
        ctx.trans()
        lost = s.mcmc and s.post == 'fit' and (n == 'table' or n == 'report') and pick(s, (a.split('@') + ['auto'])[1] if '@' in a else 'auto') == 'mcmc'
        try:
            here = w.cli(c)
        except BaseException as ex:
            if isinstance(ex, KeyboardInterrupt):
                raise
            after, files1 = w.stat(), w.files()
            ctx.check(w.here == w.d, "working-directory", lambda: "%s (%r): left in %s" % (msg(), ex, w.here))
            if lost and isinstance(ex, AttributeError):
                ctx.fail("refit-loses-mcmc-results", "%s: %r" % (msg(), ex))
                return False
            if t is None:
                ctx.check(any(x in str(ex) for x in WORDS[n]), "refusal-not-explained", lambda: "%s: %r" % (msg(), ex))
                ctx.check(after == before, "refusal-changed-status", lambda: "%s:\n%s\n->\n%s" % (msg(), before, after))
                ctx.check(all(files1.get(k) == v for k, v in files0.items()), "refusal-changed-files", lambda: "%s: %s" % (msg(), [k for k in files0 if files1.get(k) != files0[k]]))
                return False
            ctx.fail("step-failed", "%s: %r\n%s" % (msg(), ex, traceback.format_exc()[-1500:]))
            return False
        if t is None:
            ctx.fail("not-refused", msg())
            return False
        ctx.check(here == w.d, "working-directory", lambda: "%s: left in %s" % (msg(), here))
        files1 = w.files()
        own = owns(w, c, s)
        wrong = sorted(k for k in set(files0) | set(files1) if files0.get(k) != files1.get(k) and k not in own and not any(o.endswith('/') and k.startswith(o) for o in own))
        ctx.check(not wrong, "other-files-changed", lambda: "%s: %s" % (msg(), wrong))
        ctx.check(all(o in files1 for o in own if not o.endswith('/')), "output-missing", lambda: "%s: %s" % (msg(), [o for o in own if o not in files1]))
        new = w.sections()
        sec = own_section(c)
        ctx.check({k: v for k, v in new.items() if k != sec} == {k: v for k, v in w.status.items() if k != sec}, "other-sections", lambda: "%s: %s -> %s" % (msg(), w.status, new))
        if n == 'report':
            ctx.check(w.stat() == before, "report-status", msg)
        if n in ('table', 'plot'):
            ctx.check(all(new[sec].get(k) == v for k, v in w.status.get(sec, {}).items()), "own-section-lost", lambda: "%s: %s -> %s" % (msg(), w.status[sec], new[sec]))
        results(ctx, w, c, s, new, msg)
        if n == 'report':
            typesetting(ctx, w, c, msg)
        w.status = new
        w.state = t
        return True

    def typesetting(ctx, w, c, msg):
        """the compiler is missing, or fails: the results stay as they are and nothing is left behind"""
        tmp = os.path.join(scratch(), 'tmp_%d' % os.getpid())
        os.makedirs(tmp, exist_ok=True)
        saved, tempfile.tempdir = tempfile.tempdir, tmp
        try:
            for mode in ('missing', 'failing', 'partial'):
                w.latex = os.path.join(scratch(), mode + 'latex')
                stat0, files0 = w.stat(), w.files()
                try:
                    w.cli(c)
                except Exception as ex:
                    ctx.check(mode != 'missing', "missing-compiler", lambda: "%s: %r" % (msg(), ex))
                m2 = lambda: "%s with the %s compiler" % (msg(), mode)
                ctx.check(w.here == w.d, "working-directory", lambda: "%s: left in %s" % (m2(), w.here))
                ctx.check(w.stat() == stat0, "report-status", m2)
                files1 = w.files()
                bad = sorted(k for k in set(files0) | set(files1) if files0.get(k) != files1.get(k))
                ctx.check(not bad, "failed-report-changed-files", lambda: "%s: %s" % (m2(), bad))
                ctx.check(not os.listdir(tmp), "temporary-files", lambda: "%s: %s" % (m2(), os.listdir(tmp)))
                ctx.trans()
        finally:
            tempfile.tempdir = saved
            w.latex = latex
            w.here = w.d

    def tex_value(text, label):
        """median and errors printed in the row that starts with the label"""
        for line in text.split('\n'):
            if line.strip().startswith(label + ' &'):
                m = re.search(r'\$\s*(\\equiv)?(-?[\d.e+-]+?)\s*(?:\\pm ([\d.e+-]+)|\^\{\+([\d.e+-]+)\}_\{-([\d.e+-]+)\})?\$', line)
                if m:
                    return float(m.group(2)), m.group(3) or m.group(4)
        return None

    def chain(w, sampler, st):
        return pd.read_csv(w.path(st[sampler]['chainfile']))

    def shows(ctx, w, st, text, p, kind, msg):
        if kind == 'params':
            ch = chain(w, p, st)
            for name, label in (('k1', '$K_{b}$'), ('gamma_j', '$\\gamma_{\\rm j}$')):
                got = tex_value(text, label)
                med = ch[name].median()
                half = (ch[name].quantile(0.841) - ch[name].quantile(0.159)) / 2
                if ctx.check(got is not None, "table-row-missing", lambda: "%s: %s not in\n%s" % (msg(), label, text)):
                    ctx.check(abs(got[0] - med) <= prec(half) + 1e-3, "table-values", lambda: "%s: %s printed %s, median of the %s chain %s +- %s" % (msg(), name, got, p, med, half))
        if kind == 'derived':
            dc = pd.read_csv(w.path(st['derive']['chainfile']))
            got = tex_value(text, '$M_b\\sin i$')
            med = dc['mpsini1'].median()
            half = (dc['mpsini1'].quantile(0.841) - dc['mpsini1'].quantile(0.159)) / 2
            f = 0.00315 if med > 100 else 1.0
            if ctx.check(got is not None, "derived-row-missing", lambda: "%s: %s" % (msg(), text)):
                ctx.check(abs(got[0] - med * f) <= f * prec(half) + 1e-3 * f, "derived-values", lambda: "%s: printed %s, median %s (of the %s chain)" % (msg(), got, med * f, st['derive']['chainfile']))

    def results(ctx, w, c, s, st, msg):
        n, _, a = c.partition(':')
        rel = lambda x: os.path.join(w.outarg, w.base + x)
        reads = {p for p, wr in log if not wr}
        opened = lambda sec, key: w.path(st[sec][key]) in reads
        if n == 'fit':
            ctx.check(st['fit'] == dict(run='True', postfile=rel('_post_obj.pkl')), "fit-status", lambda: "%s: %s" % (msg(), st['fit']))
            post = radvel.posterior.load(w.path(st['fit']['postfile']))
            ctx.check(sorted(post.name_vary_params()) == sorted(FREE), "fit-free", msg)
            start = utils.initialize_posterior(w.f)[1]
            ctx.check(post.logprob() >= start.logprob() - 1e-9, "fit-worse", msg)
            g = [(post.logprob_array(post.get_vary_params() + d) - post.logprob()) for i in range(3) for d in (np.eye(3)[i] * 0.05, -np.eye(3)[i] * 0.05)]
            post.vector.dict_to_vector()
            ctx.check(max(g) < 1e-2, "fit-not-maximal", lambda: "%s: %s" % (msg(), g))
        elif n in ('mcmc', 'ns'):
            sfx = '' if n == 'mcmc' else '_ns'
            want = dict(run='True', postfile=rel('_post_obj%s.pkl' % sfx), chainfile=rel('_chains%s.csv.bz2' % sfx), summaryfile=rel('_post_summary%s.csv' % sfx))
            if n == 'mcmc':
                want.update(autocorrfile=rel('_autocorr.csv'), nwalkers=str(MC['nwalkers']), nensembles=str(MC['nensembles']))
                ctx.check(opened('fit', 'postfile'), "fit-not-used", lambda: "%s: the fit was not loaded" % msg())
            else:
                want.update(ns_outdir=rel('_ns'), nlive='30', maxiter='300', print_progress='False')
            ctx.check({k: st[n].get(k) for k in want} == want, n + "-status", lambda: "%s: %s, expected %s" % (msg(), st[n], want))
            ch = chain(w, n, st)
            ctx.check(set(FREE) | {'lnprobability'} <= set(ch.columns) and not ch[list(FREE)].isnull().any().any(), n + "-columns", lambda: "%s: %s" % (msg(), list(ch.columns)))
            fresh = utils.initialize_posterior(w.f)[1]
            names = fresh.name_vary_params()
            rows = list(range(0, len(ch), max(1, len(ch) // 7)))
            lp = [fresh.logprob_array(ch.loc[r, names].values) for r in rows]
            ctx.check(close(ch['lnprobability'].values[rows], lp, 1e-9, 1e-7), n + "-lnprobability", lambda: "%s: %s vs %s" % (msg(), ch['lnprobability'].values[rows], lp))
            q = pd.read_csv(w.path(st[n]['summaryfile']), index_col=0)
            for k in FREE:
                ctx.check(close(q[k].values, ch[k].quantile([0.159, 0.5, 0.841]).values, 1e-9, 1e-9) and list(q.index) == [0.159, 0.5, 0.841], n + "-summary", lambda: "%s: %s\n%s" % (msg(), k, q))
            post = radvel.posterior.load(w.path(st[n]['postfile']))
            for k in list(FREE) + ['per1', 'jit_j', 'e1']:
                fixed = None if k in FREE else {'e1': w.vals['secosw1'] ** 2 + w.vals['sesinw1'] ** 2}.get(k, w.vals.get(k))
                med = ch[k].median() if k in FREE else fixed
                half = (ch[k].quantile(0.841) - ch[k].quantile(0.159)) / 2 if k in FREE else 0.0
                ctx.check(abs(post.uparams[k] - half) <= 0.06 * half + 1e-12, n + "-uncertainty", lambda: "%s: %s %s, half width %s" % (msg(), k, post.uparams[k], half))
                tol = prec(half)
                ctx.check(abs(post.medparams[k] - med) <= tol + 1e-9 * abs(med), n + "-median", lambda: "%s: %s %s, median %s" % (msg(), k, post.medparams[k], med))
                best = post.params[k].value if k in post.params else fixed
                ctx.check(abs(post.maxparams[k] - best) <= tol + 1e-9 * abs(best), n + "-maximum", lambda: "%s: %s %s, best %s" % (msg(), k, post.maxparams[k], best))
            ctx.check(post.logprob() >= ch['lnprobability'].max() - 0.02, n + "-not-maximal", lambda: "%s: %s, chain %s" % (msg(), post.logprob(), ch['lnprobability'].max()))
            if n == 'mcmc':
                steps = int(float(st[n]['nsteps']))
                ctx.check(len(ch) % (MC['nwalkers'] * MC['nensembles']) == 0 and len(ch) * MC['thin'] == steps - float(st[n]['nburn']) > 0 and steps <= float(st[n]['maxsteps']) == MC['nsteps'] * MC['nwalkers'] * MC['nensembles'], "mcmc-counts", lambda: "%s: %s rows, status %s" % (msg(), len(ch), st[n]))
                au = pd.read_csv(w.path(st[n]['autocorrfile']))
                ctx.check(len(au) == 2 and (au['factor'] == 40).all(), "mcmc-autocorr", lambda: "%s:\n%s" % (msg(), au))
                af = au['autosamples'].values[-1] / au['automax'].values[-1]
                ctx.check(close(float(st[n]['minafactor']), af, 1e-6, 1e-9), "mcmc-statistics", lambda: "%s: minafactor %s, from the saved history %s" % (msg(), st[n]['minafactor'], af))
        elif n == 'derive':
            p = pick(s, a or 'auto')
            o = 'ns' if p == 'mcmc' else 'mcmc'
            ctx.check(st['derive'].get('run') == 'True' and st['derive'].get('quantfile') == rel('_derived_quantiles.csv') and st['derive'].get('chainfile') == rel('_derived.csv.bz2'), "derive-status", lambda: "%s: %s" % (msg(), st['derive']))
            ctx.check(opened(p, 'chainfile') and (o not in st or not opened(o, 'chainfile')), "derive-source", lambda: "%s: read %s" % (msg(), sorted(reads)))
            ch = chain(w, p, st)
            dc = pd.read_csv(w.path(st['derive']['chainfile']))
            ok = ctx.check(len(dc) == len(ch) and {'mpsini1', 'a1', 'musini1', 'rhop1'} <= set(dc.columns), "derive-rows", lambda: "%s: %d rows %s, chain %d" % (msg(), len(dc), list(dc.columns), len(ch)))
            if ok:
                e = w.vals['secosw1'] ** 2 + w.vals['sesinw1'] ** 2
                ME, MS, G, AU = 5.9721678e24, 1.988409870698051e30, 6.6743e-11, 1.495978707e11
                mstar = dc['mpsini1'] * ME / (dc['musini1'] * MS)
                per = w.vals['per1'] * 86400
                k = ch['k1'].abs().values
                # K of these masses is the K of the row of the chain
                K = (O.TWOPI * G / per) ** (1 / 3.) * dc['mpsini1'] * ME / (mstar * MS) ** (2 / 3.) / (1 - e * e) ** 0.5
                K2 = (O.TWOPI * G / per) ** (1 / 3.) * dc['mpsini1'] * ME / (mstar * MS + dc['mpsini1'] * ME) ** (2 / 3.) / (1 - e * e) ** 0.5
                ctx.check(np.all(np.minimum(abs(K / k - 1), abs(K2 / k - 1)) < 2e-3), "derive-mass", lambda: "%s: K from the masses %s, of the chain %s" % (msg(), K.values[:3], k[:3]))
                ax = (G * (mstar * MS + dc['mpsini1'] * ME) * per ** 2 / (O.TWOPI) ** 2) ** (1 / 3.) / AU
                ctx.check(close(ax.values, dc['a1'].values, 1e-4, 0), "derive-axis", lambda: "%s: %s vs %s" % (msg(), ax.values[:3], dc['a1'].values[:3]))
                ctx.check(abs(mstar.mean() - 1) < 0.05 and 0.02 < mstar.std() < 0.1, "derive-star", lambda: "%s: %s +- %s" % (msg(), mstar.mean(), mstar.std()))
                rp = (dc['mpsini1'] * ME * 1e3 / dc['rhop1'] * 3 / (4 * math.pi)) ** (1 / 3.) / 6.3781e8
                ctx.check(abs(rp.mean() - 3) < 0.2 and 0.05 < rp.std() < 0.5, "derive-radius", lambda: "%s: %s +- %s" % (msg(), rp.mean(), rp.std()))
                q = pd.read_csv(w.path(st['derive']['quantfile']), index_col=0)
                for k in ('mpsini1', 'a1', 'musini1', 'rhop1'):
                    ctx.check(close(q[k].values, dc[k].quantile([0.159, 0.5, 0.841]).values, 1e-9, 1e-12), "derive-quantiles", lambda: "%s: %s\n%s" % (msg(), k, q))
                post = radvel.posterior.load(w.path(st[p]['postfile']))
                ctx.check(all(k in post.derived and close(post.derived[k].values, q[k].values, 1e-9, 0) for k in ('mpsini1', 'a1', 'musini1', 'rhop1')), "derive-posterior", lambda: "%s: %s" % (msg(), post.derived))
        elif n == 'ic':
            comp = eval(st['ic_compare']['ic'], NS)
            ctx.check(len(comp) >= 1 and all('AICc' in x and 'BIC' in x for x in comp), "ic-status", lambda: "%s: %s" % (msg(), st['ic_compare']))
            ctx.check(opened('fit', 'postfile'), "ic-source", msg)
        elif n == 'table':
            kind, _, which = a.partition('@')
            p = pick(s, which or 'auto')
            o = 'ns' if p == 'mcmc' else 'mcmc'
            for k in kind.split('+'):
                ctx.check(st['table'].get(k + '_tex') == rel('_%s.tex' % k), "table-status", lambda: "%s: %s" % (msg(), st['table']))
                text = open(w.path(rel('_%s.tex' % k))).read()
                shows(ctx, w, st, text, p, k, msg)
                if k == 'ic_compare':
                    ctx.check('AICc' in text and all('%.2f' % x['AICc'][0] in text for x in eval(st['ic_compare']['ic'], NS)), "table-ic", lambda: "%s: %s" % (msg(), text))
                if k == 'crit':
                    for key in ('minafactor', 'maxarchange', 'maxgr', 'mintz'):
                        v = '$%7.3f$' % float(st['mcmc'][key]) if p == 'mcmc' else 'None'
                        ctx.check(v in text, "table-crit", lambda: "%s: %s not in %s" % (msg(), v, text))
                if k == 'rv':
                    ctx.check(sum(l.strip().endswith('\\\\') and l.count('&') == 3 for l in text.split('\n')) == 14, "table-rv", lambda: "%s: %s" % (msg(), text))
                if k == 'priors':
                    ctx.check(text.count('< ') >= 3, "table-priors", lambda: "%s: %s" % (msg(), text))
            ctx.check(opened(p, 'chainfile') and opened(p, 'postfile') and (o not in st or not (opened(o, 'chainfile') or opened(o, 'postfile'))), "table-source", lambda: "%s: read %s" % (msg(), sorted(reads)))
        elif n == 'plot':
            kind, _, which = a.partition('@')
            name = dict(rv='_rv_multipanel.pdf', auto='_auto.pdf', trend='_trends.pdf', corner='_corner.pdf', derived='_corner_derived_pars.pdf')[kind]
            ctx.check(st['plot'].get(kind + '_plot') == rel(name), "plot-status", lambda: "%s: %s" % (msg(), st['plot']))
            ctx.check(open(w.path(rel(name)), 'rb').read(5) == b'%PDF-', "plot-file", msg)
            ctx.check(opened('fit', 'postfile'), "plot-source", msg)
            p = pick(s, which or 'auto')
            o = 'ns' if p == 'mcmc' else 'mcmc'
            if kind in ('corner', 'trend'):
                ctx.check(opened(p, 'chainfile') and (o not in st or not opened(o, 'chainfile')), "plot-chain", lambda: "%s: %s" % (msg(), sorted(reads)))
            if kind == 'auto':
                ctx.check(opened(p, 'autocorrfile'), "plot-chain", msg)
            if kind == 'derived':
                ctx.check(opened('derive', 'chainfile'), "plot-chain", msg)
        elif n == 'report':
            which = a.partition('@')[2]
            p = pick(s, which or 'auto')
            o = 'ns' if p == 'mcmc' else 'mcmc'
            ctx.check(opened(p, 'chainfile') and opened(p, 'postfile') and (o not in st or not (opened(o, 'chainfile') or opened(o, 'postfile'))), "report-source", lambda: "%s: read %s" % (msg(), sorted(reads)))
            text = open(w.path(rel('_results.tex'))).read()
            shows(ctx, w, st, text, p, 'params', msg)
            has = 'Derived Posteriors' in text
            ctx.check(has == (s.derive == p), "report-derived", lambda: "%s: derived table %s, derived chains of %s" % (msg(), has, s.derive))
            if has:
                shows(ctx, w, st, text, p, 'derived', msg)
            ctx.check(('AICc Qualitative' in text) == s.ic, "report-comparison", msg)
            ctx.check(('_rv_multipanel.pdf' in text) == ('rv_plot' in st.get('plot', {})), "report-figures", msg)

    # -------------------------------------------------------------- every state x every command
    R = reachable()

    def graph_cases():
        for s, p in R.items():
            yield [p, 0]
            if not s.ic and (THOROUGH or s.post != 'fit' or not s.mcmc):
                yield [p, 1]

    def graph_run(ctx, case):
        path, plots = case
        w = Work('g')
        try:
            for i, c in enumerate(path):
                if not run(ctx, w, c, path[:i]):
                    return
            ctx.state('graph', *path)
            ctx.trace()
            if plots:
                for c in PLOTS:
                    run(ctx, w, c, path)
                return
            for c in CONSUMERS:
                if '+' in c and step(w.state, c) is None:
                    continue            # several tables at once stop at the first that cannot be made
                if c.startswith('report') and 'plot' not in w.status and w.state.fit:
                    run(ctx, w, c, path + ['(no plots)']) if False else None
                    if not run(ctx, w, 'plot:rv', path):
                        continue
                if c.startswith('report') and 'plot' not in w.status:
                    continue
                run(ctx, w, c, path + ['consumers'])
            keep = os.path.join(scratch(), 'keep_%d' % os.getpid())
            shutil.rmtree(keep, ignore_errors=True)
            shutil.copytree(w.d, keep)
            base = (w.state, dict(w.status))
            for c in CORE:
                if not run(ctx, w, c, path + ['consumers']) and step(base[0], c) is None:
                    continue                    # refused: nothing has changed
                os.chdir(scratch())
                shutil.rmtree(w.d)
                shutil.copytree(keep, w.d)
                os.chdir(w.d)
                w.state, w.status = base[0], dict(base[1])
            shutil.rmtree(keep, ignore_errors=True)
        finally:
            w.close()

    # -------------------------------------------------------------- all short histories, without merging states
    def hist_cases():
        n = 4 if THOROUGH else 3
        for a, b in itertools.product(CORE, repeat=2):
            if step(START, a) is not None:
                yield [a, b, n]

    def hist_run(ctx, case):
        a, b, n = case
        tails = itertools.product(CORE, repeat=n - 2)
        for tail in tails:
            w = Work('h')
            try:
                hist = []
                for c in (a, b) + tail:
                    run(ctx, w, c, list(hist))
                    hist.append(c)
                ctx.state('history', *hist)
                ctx.trace()
            finally:
                w.close()

    # -------------------------------------------------------------- the status names the artefacts
    def move_cases():
        return [[x] for x in ('mcmc', 'ns')] + [[x, y] for x in ('mcmc',) for y in ('out dir', 'o%s', 'o#x;y', 'o=x', 'a/b')]

    def move_run(ctx, case):
        p = case[0]
        if len(case) > 1:
            w = Work('m', outdir=case[1], name='sys.v2')
            os.makedirs(w.out)
            try:
                for i, c in enumerate(['fit', p, 'derive', 'ic', 'table:params+derived', 'table:ic_compare', 'plot:rv', 'report:']):
                    run(ctx, w, c, case)
                ctx.state('names', *case)
            finally:
                w.close()
            return
        w = Work('m')
        try:
            for c in ('fit', p, 'derive', 'ic'):
                run(ctx, w, c, [])
            # the artefacts move, the status says where
            f = os.path.join(w.out, 'sys_radvel.stat')
            for sec in w.status:
                for k, v in list(w.status[sec].items()):
                    if k in ('postfile', 'chainfile', 'autocorrfile', 'summaryfile', 'quantfile'):
                        new = os.path.join('elsewhere', sec + '_' + os.path.basename(v))
                        os.makedirs('elsewhere', exist_ok=True)
                        if os.path.exists(w.path(v)):
                            shutil.copy(w.path(v), w.path(new))
                        driver.save_status(f, sec, {k: new})
            for n in os.listdir(w.out):
                if n != 'sys_radvel.stat' and not os.path.isdir(os.path.join(w.out, n)):
                    os.unlink(os.path.join(w.out, n))
            w.status = w.sections()
            for c in ['table:params', 'table:derived', 'table:rv', 'table:crit', 'table:ic_compare', 'plot:rv', 'plot:corner', 'plot:derived'] + (['plot:auto', 'plot:trend'] if p == 'mcmc' else []) + ['report:', 'derive', 'ic', 'mcmc']:
                if c == 'derive' or c == 'mcmc':
                    w.status = w.sections()
                run(ctx, w, c, ['moved artefacts'])
            ctx.state('moved', *case)
        finally:
            w.close()

    # -------------------------------------------------------------- interruptions
    OLD = {'fit': {'run': True, 'postfile': 'a/b.pkl'}, 'mcmc': {'run': True, 'nsteps': 640, 'maxGR': 1.05}, 'plot': {'rv_plot': 'x.pdf'}}

    def value(o):
        return {k: {q.lower(): str(v) for q, v in d.items()} for k, d in o.items()}

    def read(path):
        c = driver.load_status(path)
        return {s: dict(c.items(s)) for s in c.sections()}

    def crash_cases():
        for sec, new in (('fit', {'run': True, 'postfile': 'c.pkl'}), ('plot', {'corner_plot': 'y.pdf'}), ('ns', {'run': True, 'nlive': 30}), ('ic_compare', {'ic': [OrderedDict(a=(1.5, 'x%y'), b=(inf, 'z'))] * 30})):
            for start in (0, 1, 3):
                yield [sec, start, list(new)]

    NEW = {'fit': {'run': True, 'postfile': 'c.pkl'}, 'plot': {'corner_plot': 'y.pdf'}, 'ns': {'run': True, 'nlive': 30}, 'ic_compare': {'ic': [OrderedDict(a=(1.5, 'x%y'), b=(inf, 'z'))] * 30}}

    def crash_run(ctx, case):
        sec, start, _ = case
        d = os.path.join(scratch(), 'r16c_%d' % os.getpid())
        old = dict(list(OLD.items())[:start])
        want = dict(value(old))
        want[sec] = dict(want.get(sec, {}), **value({sec: NEW[sec]})[sec])

        def prepare():
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for k, v in old.items():
                driver.save_status(os.path.join(d, 's.stat'), k, v)

        def judge(how):
            p = os.path.join(d, 's.stat')
            msg = lambda: "%s %s: %s" % (case, how, open(p).read() if os.path.exists(p) else None)
            try:
                got = read(p)
            except Exception as ex:
                ctx.fail("unreadable", "%s: %r" % (msg(), ex))
                return
            ctx.check(got in (value(old), want), "torn-status", lambda: "%s\nbefore %s" % (msg(), value(old)))
            driver.save_status(p, 'later', {'x': 1})
            got2 = read(p)
            ctx.check(got2 == dict(got, later={'x': '1'}), "not-writable-again", lambda: "%s: %s" % (msg(), got2))
            ctx.state('crash', *case, how)
            ctx.trans()

        prepare()
        driver.save_status(os.path.join(d, 's.stat'), sec, NEW[sec])
        got = read(os.path.join(d, 's.stat'))
        ctx.check(got == want, "recorded", lambda: "%s: %s, expected %s" % (case, got, want))
        ctx.check(os.listdir(d) == ['s.stat'], "leftovers", lambda: "%s: %s" % (case, os.listdir(d)))
        size = os.path.getsize(os.path.join(d, 's.stat'))
        # (a) the process ends (or is interrupted) at any file-system event; (b) the disk fills up after any number of bytes
        for mode in ('kill', 'interrupt'):
            for k in range(0, 40):
                prepare()
                if not crash_child(d, k, mode, None, lambda: driver.save_status(os.path.join(d, 's.stat'), sec, NEW[sec])):
                    break
                judge((mode, k))
            else:
                ctx.check(False, "crash-points", "more than 40 file-system events")
        stepb = 1 if size < 600 or THOROUGH else 37
        for k in range(0, size, stepb):
            prepare()
            crash_child(d, None, None, k, lambda: driver.save_status(os.path.join(d, 's.stat'), sec, NEW[sec]))
            judge(('full-disk', k))
        shutil.rmtree(d, ignore_errors=True)
        ctx.trace()

    EVENTS = ('open', 'os.rename', 'os.remove', 'os.truncate', 'os.link', 'os.symlink', 'shutil.move', 'shutil.copyfile', 'os.mkdir', 'tempfile.mkstemp', 'os.chmod')

    def crash_child(d, k, mode, limit, fn):
        """runs fn in a child that ends at the k-th file-system event below d; True if it ended there"""
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
                if limit is not None:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                else:
                    n = [0]

                    def hook(event, args):
                        if event in EVENTS and args and isinstance(args[0], (str, bytes)) and os.path.abspath(os.fsdecode(args[0])).startswith(d):
                            n[0] += 1
                            if n[0] - 1 == k:
                                if mode == 'kill':
                                    os._exit(77)
                                raise KeyboardInterrupt
                    sys.addaudithook(hook)
                fn()
            except KeyboardInterrupt:
                rc = 77
            except BaseException:
                rc = 78
            os._exit(rc)
        _, st = os.waitpid(pid, 0)
        return os.waitstatus_to_exitcode(st) == 77

    # whole commands interrupted at any file-system event of the output directory
    def cut_cases():
        return [[c, m] for c in ('fit', 'mcmc', 'ns', 'derive', 'ic', 'table:params+rv', 'plot:rv') for m in ('kill', 'interrupt')]

    def cut_run(ctx, case):
        c, mode = case
        need = {'fit': [], 'mcmc': ['fit'], 'ns': [], 'derive': ['fit', 'mcmc'], 'ic': ['fit', 'ns']}.get(c, ['fit', 'mcmc'])
        w = Work('c')
        try:
            for x in need:
                run(ctx, w, x, [])
            before = w.sections() if need else {}
            keep = os.path.join(scratch(), 'keepc_%d' % os.getpid())
            shutil.rmtree(keep, ignore_errors=True)
            shutil.copytree(w.d, keep)
            k = -1
            while True:
                k += 1
                os.chdir(scratch())
                shutil.rmtree(w.d)
                shutil.copytree(keep, w.d)
                os.chdir(w.d)
                cut = crash_child(w.out, k, mode, None, lambda: w.cli(c))
                try:
                    got = w.sections()
                except Exception as ex:
                    ctx.fail("unreadable", "%s cut at event %d (%s): %r" % (c, k, mode, ex))
                    continue
                sec = own_section(c)
                ctx.check({q: v for q, v in got.items() if q != sec} == {q: v for q, v in before.items() if q != sec}, "cut-sections", lambda: "%s cut at event %d (%s): %s -> %s" % (c, k, mode, before, got))
                new = got.get(sec)
                if new is not None:
                    for q, v in new.items():
                        if q.endswith('file') or q.endswith('_tex') or q.endswith('_plot'):
                            ctx.check(os.path.exists(w.path(v)) and os.path.getsize(w.path(v)) > 0, "names-missing-artefact", lambda: "%s cut at event %d (%s): %s = %s" % (c, k, mode, q, v))
                    if 'chainfile' in new:
                        try:
                            pd.read_csv(w.path(new['chainfile']))
                        except Exception as ex:
                            ctx.fail("names-broken-artefact", "%s cut at event %d (%s): %r" % (c, k, mode, ex))
                ctx.state('cut', *case, k)
                ctx.trans()
                if not cut or k > 80:
                    break
            ctx.check(k <= 80, "crash-points", "more than 80 events")
            shutil.rmtree(keep, ignore_errors=True)
            ctx.trace()
        finally:
            w.close()

    return [Suite("workflow", graph_cases, graph_run), Suite("histories", hist_cases, hist_run), Suite("artefacts", move_cases, move_run), Suite("recording", crash_cases, crash_run), Suite("interrupted", cut_cases, cut_run)]


if __name__ == "__main__":
    main("R16", suites, "model_checking",
         "state = state of the abstract workflow (which steps are done, who wrote the shared posterior, whose chains were derived) reached by its shortest command history; every "
         "reachable state is rebuilt with the real command line and every command is run in it and compared (refusal or success, status sections, files read and written, contents); plus all "
         "histories up to a depth without merging, and every crash point (file-system event, full disk after each byte) of recording a status",
         bounds="7 core commands (all reachable states, histories of length 3/4), 25 consumer commands per state; a 1-planet 2-instrument target with 3 free parameters")
