"""Driving the real radvel.mcmc.mcmc: a recording sampler, scripted convergence statistics and the reference automaton of a run.
To be imported after boot()."""
import contextlib
import importlib
import io
import math
import numpy as np
import emcee
from vlib.core import close

mc = importlib.import_module("radvel.mcmc")
REAL = emcee.EnsembleSampler
FIELDS = ['ncomplete', 'nburn', 'nwalkers', 'mintz', 'maxgr', 'minafactor', 'maxarchange', 'autosamples', 'automin', 'automean', 'automax', 'factor']


class Recording(REAL):
    made = []

    def __init__(self, *a, **k):
        REAL.__init__(self, *a, **k)
        self.rec_pos, self.rec_lp, self.rec_start = [], [], []
        Recording.made.append(self)

    def sample(self, initial_state, *a, **k):
        self.rec_start.append((len(self.rec_pos), np.array(emcee.State(initial_state).coords)))
        for s in REAL.sample(self, initial_state, *a, **k):
            self.rec_pos.append(s.coords.copy())
            self.rec_lp.append(s.log_prob.copy())
            yield s


# ---------------------------------------------------------------------- reference automaton of a run
def automaton(cfg, answer, n0=0, nburn0=0, auto0=()):
    """answer(j, n_steps) -> (mixed, gr, af, archange, tz, oac) of the j-th statistics evaluation.  Returns the run."""
    E, W, ci, nrun = cfg['ensembles'], cfg['W'], cfg['checkinterval'], cfg['nrun']
    mix = j = steps = 0
    n, nburn, burned, auto = n0, nburn0, nburn0 != 0, list(auto0)
    asked, shown = [], []
    last = None
    kept = (0, 0)
    while steps < nrun:
        d = min(ci, nrun - steps)
        steps += d
        n += d
        ncomplete = nburn + n * W * E
        kept = (steps - n, steps)        # negative: samples of the run that is resumed
        saved_burn = nburn if burned else 0
        if 100.0 * ncomplete / (nrun * W * E) < cfg['minpercent'] and n <= cfg['minsteps']:
            last = (0, math.inf, -1.0, math.inf, -1.0)
        else:
            a = answer(j, kept)
            j += 1
            asked.append(kept)
            last = a[:5]
            if burned:
                auto.append((E * n, a[5]))
            mix = mix + 1 if a[0] else 0
        shown.append((ncomplete, kept) + tuple(last))
        if not burned and (last[1] <= cfg['burnGR'] or cfg['burnAfactor'] <= last[2]):
            burned, nburn, n = True, ncomplete, 0
        if mix >= 2:
            break
    return dict(kept=kept, asked=asked, last=last, ncomplete=ncomplete, nburn=nburn, auto=auto, saved_burn=saved_burn, steps=steps, shown=shown, mix=mix, discarded=burned and nburn0 == 0)

def run(post, cfg, thin=1, serial=True, seed=7, cls=Recording, stub=None, out=None, **kw):
    Recording.made = []
    args = dict(nwalkers=cfg['nwalkers'], nrun=cfg['nrun'], ensembles=cfg['ensembles'], checkinterval=cfg['checkinterval'], minsteps=cfg['minsteps'],
                minpercent=cfg['minpercent'], burnGR=cfg['burnGR'], burnAfactor=cfg['burnAfactor'], thin=thin, serial=serial, headless=True)
    for k in ('minAfactor', 'maxArchange', 'maxGR', 'minTz'):
        if k in cfg:
            args[k] = cfg[k]
    args.update(kw)
    real = mc.convergence_calculate
    np.random.seed(seed)
    emcee.EnsembleSampler = cls
    if stub is not None:
        mc.convergence_calculate = stub
    try:
        with contextlib.redirect_stdout(io.StringIO() if out is None else out), contextlib.redirect_stderr(io.StringIO()):
            return mc.mcmc(post, **args)
    finally:
        emcee.EnsembleSampler = REAL
        mc.convergence_calculate = real

def fields():
    return {f: (list(getattr(mc.statevars, f)) if isinstance(getattr(mc.statevars, f), (list, np.ndarray)) else getattr(mc.statevars, f)) for f in FIELDS}

def rows(made, kept, thin, lp=False):
    """expected table: walker by walker, ensemble by ensemble, step by step"""
    a, b = kept
    W = made[0].rec_pos[0].shape[0]
    out = []
    for w in range(W):
        for s in made:
            for i in range(a, b, thin):
                out.append(s.rec_lp[i][w] if lp else s.rec_pos[i][w])
    return np.array(out)

def compare(ctx, df, post, cfg, exp, msg, thin=1, content=True):
    E, W = cfg['ensembles'], cfg['W']
    n = -(-(exp['kept'][1] - exp['kept'][0]) // thin)
    if not ctx.check(df is not None and len(df) == E * W * n, "number-of-samples", lambda: "%s: %s rows, expected %d" % (msg(), None if df is None else len(df), E * W * n)):
        return
    if content:
        taken = [len(s.rec_pos) for s in Recording.made]
        total = exp['kept'][1]
        if not ctx.check(taken == [total] * E, "steps-taken", lambda: "%s: the samplers took %s steps, the rules give %d" % (msg(), taken, total)):
            return
        for s in Recording.made:
            for at, x in s.rec_start:
                if at:
                    ctx.check(np.array_equal(x, s.rec_pos[at - 1]), "chain-continues", lambda: "%s: after %d steps the sampler was not continued from its last position" % (msg(), at))
        names = post.name_vary_params()
        ctx.check(np.array_equal(df[names].values, rows(Recording.made, exp['kept'], thin)), "kept-samples", lambda: "%s: the samples returned are not those of steps %s" % (msg(), exp['kept']))
        ctx.check(np.array_equal(df['lnprobability'].values, rows(Recording.made, exp['kept'], thin, True)), "kept-logprob", msg)
    f = fields()
    ctx.check(f['ncomplete'] == exp['ncomplete'], "ncomplete", lambda: "%s: %r, expected %r" % (msg(), f['ncomplete'], exp['ncomplete']))
    ctx.check(f['nburn'] == exp['nburn'], "nburn", lambda: "%s: %r, expected %r" % (msg(), f['nburn'], exp['nburn']))
    ctx.check(f['nwalkers'] == W, "nwalkers", lambda: "%s: %r, expected %r" % (msg(), f['nwalkers'], W))
    got = (f['maxgr'], f['minafactor'], f['maxarchange'], f['mintz'])
    ctx.check(close(got, exp['last'][1:], rtol=1e-6, atol=1e-9), "reported-statistics", lambda: "%s: (GR, Afactor, Archange, Tz) %s, expected %s" % (msg(), got, exp['last'][1:]))
    ctx.check([int(x) for x in f['autosamples']] == [x[0] for x in exp['auto']], "history-samples", lambda: "%s: %s, expected %s" % (msg(), f['autosamples'], exp['auto']))
    for k, fn in (('automin', np.min), ('automean', np.mean), ('automax', np.max)):
        ctx.check(close(f[k], [fn(x[1]) for x in exp['auto']], rtol=1e-6) if len(f[k]) == len(exp['auto']) else False, "history-" + k, lambda: "%s: %s, expected %s" % (msg(), f[k], exp['auto']))
    ctx.check(list(f['factor']) == [cfg.get('minAfactor', 40)] * len(exp['auto']), "history-factor", msg)


MENU = ['U', 'M', 'm', 'B', 'b']

def stats_of(letter, j):
    mixed = letter in 'Mm'
    gr = {'U': 2.0, 'M': 1.005, 'm': 1.2, 'B': 1.03, 'b': 2.0}[letter] + (0.0 if letter in 'B' else 1e-4 * j)
    af = {'U': 3.0, 'M': 60.0, 'm': 5.0, 'B': 3.0, 'b': 25.0}[letter] + (0.0 if letter == 'b' else 1e-3 * j)
    return mixed, gr, af, 0.5 + 0.01 * j, 70.0 + j, np.array([3.0 + j, 1.0 + j])
