import contextlib
import io
import itertools
import math
import re
from vlib.core import *
from vlib import models as M
from vlib.chainstats import ref

I = M.inst


def suites():
    import importlib
    import numpy as np
    import emcee
    import radvel
    from radvel import prior as R
    from vlib.mcmctools import mc, REAL, Recording, automaton, run, fields, rows, compare, MENU, stats_of
    sv = mc.statevars

    def make(kind=0):
        spec = [dict(basis='per tc e w k', npl=1, insts=[I('j', 4)], trend=[]),
                dict(basis='per tc secosw sesinw logk', npl=1, insts=[I('j', 3), I('k', 3)], trend=['dvdt'])][kind]
        free = [{'k1', 'gamma_j'}, {'tc1', 'logk1', 'gamma_j', 'gamma_k'}][kind]
        v = M.start_values(spec)
        return M.build(spec, vary={q: q in free for q in v}, priors=[R.HardBounds('gamma_j', -1e3, 1e3)])

    # ---------------------------------------------------------------------- every answer of the statistics
    def configs():
        out = []
        for E in (1, 2, 3):
            for ci, nrun in ((1, 3), (2, 5), (3, 3), (3, 2), (2, 8), (3, 14), (1, 5)):
                for ms, mp in ((0, 0), (2, 1000), (3, 50), (100, 70), (1000, 1000), (1000, 0), (4, 1000), (1000, 50), (1000, 100)):
                    k = -(-nrun // ci)
                    if k > 4 and (ms, mp) not in ((0, 0), (4, 1000), (100, 70)):
                        continue
                    if k > 4 and E != 2 and not THOROUGH:
                        continue
                    out.append(dict(ensembles=E, nwalkers=4, W=4, checkinterval=ci, nrun=nrun, minsteps=ms, minpercent=mp, burnGR=1.03, burnAfactor=25.0))
        return out

    CFG = configs()

    def script_cases():
        for i, c in enumerate(CFG):
            for first in MENU:
                yield [i, first]

    seen_stub = [0]

    def script_run(ctx, case):
        cfg = CFG[case[0]]
        post = make(0)

        def execute(prefix):
            calls = []
            problems = []

            def stub(chains, oldautocorrelation=None, minAfactor=None, maxArchange=None, minTz=None, maxGR=None):
                j = len(calls)
                letter = prefix[j] if j < len(prefix) else 'U'
                calls.append(letter)
                a = stats_of(letter, j)
                prev = 0 if j == 0 else stats_of('U', j - 1)[5]
                if not np.array_equal(np.asarray(oldautocorrelation), np.asarray(prev)):
                    problems.append(("previous-autocorrelation", "check %d was given %r, the previous was %r" % (j, oldautocorrelation, prev)))
                if (minAfactor, maxArchange, minTz, maxGR) != (40, .03, 1000, 1.01):
                    problems.append(("limits", repr((minAfactor, maxArchange, minTz, maxGR))))
                snap.append([np.array(c) for c in chains])
                return a[0], np.array([a[2] + 1, a[2]]), np.array([a[3], a[3] - 0.1]), a[5], np.array([a[1] - 0.01, a[1]]), np.array([a[4], a[4] + 1])
            snap = []
            exp = automaton(cfg, lambda j, kept: stats_of(prefix[j] if j < len(prefix) else 'U', j))
            thin = 1 + len(prefix) % 3
            df = run(post, cfg, stub=stub, thin=thin)
            msg = lambda: "E=%(ensembles)d nrun=%(nrun)d checkinterval=%(checkinterval)d minsteps=%(minsteps)d minpercent=%(minpercent)d" % cfg + " thin=%d answers %s" % (thin, ''.join(calls))
            for sig, d in problems:
                ctx.fail(sig, "%s: %s" % (msg(), d))
            ctx.check(len(calls) == len(exp['asked']), "number-of-checks", lambda: "%s: %d checks, the rules give %d" % (msg(), len(calls), len(exp['asked'])))
            compare(ctx, df, post, cfg, exp, msg, thin)
            for got, kept in zip(snap, exp['asked']):
                ok = len(got) == cfg['ensembles'] and all(
                    g.shape == (2, 4, kept[1] - kept[0]) and np.array_equal(g, np.array(s.rec_pos[kept[0]:kept[1]]).T) for g, s in zip(got, Recording.made))
                ctx.check(ok, "checked-samples", lambda: "%s: a check was not applied to the samples of steps %s" % (msg(), kept))
            ctx.state(case[0], tuple(calls))
            ctx.trans(len(calls) + 1)
            ctx.trace()
            return calls

        def explore_(prefix):
            calls = execute(prefix)
            if ctx.enough():
                return
            for i in range(len(prefix), min(len(calls), 6)):
                for alt in MENU:
                    if alt != 'U':
                        explore_(calls[:i] + [alt])
        if case[1] == 'U':
            explore_(['U'])
        else:
            probe = automaton(cfg, lambda j, kept: stats_of('U', j))
            if probe['asked']:
                explore_([case[1]])

    # ---------------------------------------------------------------------- real statistics, real sampler
    def real_cases():
        for kind in (0, 1):
            for E in (1, 2, 3):
                for ci, nrun in ((10, 60), (7, 50)):
                    for lim in range(4):
                        for seed in (1, 2):
                            yield [kind, E, ci, nrun, lim, seed]

    def real_run(ctx, case):
        kind, E, ci, nrun, lim, seed = case
        L = [dict(minAfactor=2.0, maxArchange=3.0, maxGR=1.4, minTz=2, burnGR=1.35, burnAfactor=1e9),
             dict(minAfactor=1.0, maxArchange=10.0, maxGR=3.0, minTz=1, burnGR=0.0, burnAfactor=3.0),
             dict(minAfactor=1.0, maxArchange=10.0, maxGR=3.0, minTz=1, burnGR=0.0, burnAfactor=1e9),
             dict(minAfactor=40, maxArchange=.03, maxGR=1.01, minTz=1000, burnGR=1.5, burnAfactor=25)][lim]
        cfg = dict(ensembles=E, nwalkers=8, W=8, checkinterval=ci, nrun=nrun, minsteps=12, minpercent=30, **L)
        post = make(kind)
        df = run(post, cfg, seed=seed)
        made = Recording.made
        old = [None]

        def answer(j, kept):
            if max(len(s.rec_pos) for s in made) < kept[1]:
                return (0, math.inf, -1.0, math.inf, -1.0, np.array([1.0]))
            chains = [np.array(s.rec_pos[kept[0]:kept[1]]).T for s in made]
            gr, tz, taus, n = ref(chains)
            tau = np.array([t[0] for t in taus])
            af = n / tau
            ac = np.abs(tau - old[0]) / old[0] if old[0] is not None else np.full(len(tau), np.inf)
            old[0] = tau
            t = -1 if E == 1 else np.min(tz)
            mixed = (E == 1 or t > cfg['minTz']) and max(gr) < cfg['maxGR'] and np.min(af) > cfg['minAfactor'] and np.max(ac) < cfg['maxArchange']
            return mixed, max(gr), np.min(af), np.max(ac), t, tau
        exp = automaton(cfg, answer)
        compare(ctx, df, post, cfg, exp, lambda: "real statistics %s" % (case,))
        ctx.state("real", *case)
        ctx.trans(len(exp['asked']))
        ctx.trace()

    # ---------------------------------------------------------------------- serial and pooled execution
    def pool_cases():
        for E in (1, 2, 3):
            for script in ('UU', 'BU', 'MM', 'BUMM', 'UbMUMM'):
                yield [E, script]

    def pool_run(ctx, case):
        E, script = case
        cfg = dict(ensembles=E, nwalkers=4, W=4, checkinterval=2, nrun=13, minsteps=0, minpercent=0, burnGR=1.03, burnAfactor=25.0)
        res = []
        for serial in (True, False):
            n = [0]

            def stub(chains, *a, **k):
                s = stats_of(script[n[0]] if n[0] < len(script) else 'U', n[0])
                n[0] += 1
                return s[0], np.array([s[2]]), np.array([s[3]]), s[5], np.array([s[1]]), np.array([s[4]])
            post = make(0)
            df = run(post, cfg, serial=serial, stub=stub, cls=REAL)
            n_ = n[0]
            exp = automaton(cfg, lambda j, kept: stats_of(script[j] if j < len(script) else 'U', j))
            msg = lambda: "E=%d answers %s %s" % (E, script, "serial" if serial else "pooled")
            compare(ctx, df, post, cfg, exp, msg, content=False)
            ctx.check(n_ == len(exp['asked']), "number-of-checks", msg)
            res.append((df, fields()))
            ctx.trace()
        ctx.check(np.array_equal(res[0][0].values, res[1][0].values) and res[0][1] == res[1][1], "pooled-differs", lambda: "E=%d answers %s: serial and pooled runs with the same random state differ" % (E, script))
        ctx.state("pool", *case)

    # ---------------------------------------------------------------------- earlier runs in the process do not matter
    def hist_cases():
        return [[k] for k in range(8)]

    def hist_run(ctx, case):
        d = os.path.join(scratch(), "r13_%d_%d" % (os.getpid(), case[0]))
        os.makedirs(d, exist_ok=True)
        base = dict(ensembles=2, nwalkers=8, W=8, checkinterval=4, nrun=10, minsteps=0, minpercent=0, burnGR=3.0, burnAfactor=1e9, minAfactor=.1, maxArchange=1e3, maxGR=5.0, minTz=0)
        fn = os.path.join(d, "c.h5")

        def op(k, seed=5):
            post = make(0)
            if k == 0:
                return run(post, base, seed=seed, cls=REAL)
            if k == 1:
                return run(make(1), dict(base, ensembles=3, nrun=14), seed=seed, cls=REAL)
            if k == 2:
                return run(post, dict(base, burnGR=0.0, minTz=1e9), seed=seed, cls=REAL)
            if k == 3:
                return run(post, dict(base, ensembles=1, checkinterval=1, nrun=2, minsteps=100, minpercent=1000), seed=seed, cls=REAL)
            if k == 4:
                try:
                    run(post, dict(base, nrun=0), cls=REAL)
                except ValueError:
                    pass
                return None
            if k == 5:
                cnt = [0]
                lp = post.logprob_array

                def boom(x):
                    cnt[0] += 1
                    if cnt[0] > 60:
                        raise KeyboardInterrupt
                    return lp(x)
                post.logprob_array = boom
                try:
                    run(post, base, cls=REAL)
                except BaseException as ex:
                    if not isinstance(ex, KeyboardInterrupt) and type(ex).__name__ != 'error':
                        raise
                return None
            if k == 6:
                return run(post, base, seed=seed, cls=REAL, save=True, savename=fn)
            if k == 7:
                if not os.path.exists(fn):
                    op(6)
                return run(post, base, seed=seed, cls=REAL, proceed=True, proceedname=fn)
        fresh = {}
        k = case[0]
        for last in (0, 1, 3):
            mc.statevars.__dict__.clear()
            mc.statevars.__init__()
            df = op(last)
            fresh[last] = (df.values.copy(), fields())
        for mid in range(8):
            for last in (0, 1, 3):
                op(k, seed=11)
                op(mid, seed=12)
                df = op(last)
                ctx.check(np.array_equal(df.values, fresh[last][0]) and repr(fields()) == repr(fresh[last][1]), "history-of-runs",
                          lambda: "run %d after runs %d, %d differs from the same run alone: %s vs %s" % (last, k, mid, fields(), fresh[last][1]))
                ctx.state("hist", k, mid, last)
                ctx.trans(3)
                ctx.trace()

    def invalid_run(ctx, case):
        base = dict(ensembles=2, nwalkers=4, W=4, checkinterval=2, nrun=4, minsteps=0, minpercent=0, burnGR=0.0, burnAfactor=1e9)
        for ch in (dict(nrun=0), dict(nrun=-1), dict(ensembles=0), dict(checkinterval=0), dict(nrun=0.5)):
            post = make(0)
            n = [0]
            lp = post.logprob_array

            def count(x):
                n[0] += 1
                return lp(x)
            post.logprob_array = count
            try:
                df = run(post, dict(base, **ch), cls=REAL)
                ctx.fail("invalid-options-accepted", "%s returned %s" % (ch, None if df is None else df.shape))
            except Exception:
                pass
            ctx.check(n[0] == 0, "invalid-options-sampled", str(ch))
            ctx.state("invalid", str(ch))
        for W in (0, 1, 3, 4, 5, 6):
            post = make(0)
            df = run(post, dict(base, nwalkers=W))
            w = max(W, 4)
            ctx.check(len(df) == 2 * w * 4 and sv.nwalkers == w, "walkers-adjusted", lambda: "%d walkers requested: %d rows" % (W, len(df)))
            ctx.state("walkers", W)

    # ---------------------------------------------------------------------- live display, messages, interruption
    class FakeScreen:
        def __init__(self):
            self.texts, self.open = [], False

        def clear(self):
            self.text = ''

        def addstr(self, *a):
            self.text += a[-1]

        def refresh(self):
            self.texts.append(self.text)

    class FakeCurses:
        class error(Exception):
            pass

        def __init__(self):
            self.scr, self.up, self.used = FakeScreen(), False, False

        def initscr(self):
            self.up = self.used = True
            return self.scr

        def endwin(self):
            if not self.used:
                raise FakeCurses.error("must call initscr() first")
            self.up = False

    SHOW = re.compile(r'(\d+)/(\d+) \(([-\d.]+|inf|nan)%\) steps complete;\s+Running (\S+) steps/s; Mean acceptance rate = \s*(\S+)%;\s+Min Auto Factor = \s*(\S+);\s+Max Auto Relative-Change = \s*(\S+);\s+'
                      r'Min Tz = \s*(\S+);\s+Max G-R = \s*(\S+)')

    def shown_near(text, want, digits):
        v = float(text)
        return v == want if math.isinf(want) or math.isinf(v) else abs(v - want) <= 0.5001 * 10 ** -digits + 1e-9 * abs(want)

    def disp_cases():
        for E in (1, 2, 3):
            for n in range(0, 5 if THOROUGH else 4):
                for script in itertools.product('UMBb', repeat=n):
                    for how in ('screen', 'notebook', 'headless'):
                        for ci, nrun, minsteps in ((3, 13, 0), (4, 16, 6)):
                            yield [E, ''.join(script), how, ci, nrun, minsteps]

    def disp_run(ctx, case):
        E, script, how, ci, nrun, minsteps = case
        cfg = dict(ensembles=E, nwalkers=4, W=4, checkinterval=ci, nrun=nrun, minsteps=minsteps, minpercent=1000 if minsteps else 0, burnGR=1.03, burnAfactor=25.0)
        ans = lambda j: stats_of(script[j] if j < len(script) else 'U', j)
        n = [0]

        def stub(chains, *a, **k):
            s = ans(n[0])
            n[0] += 1
            return s[0], np.array([s[2], s[2] + 4]), np.array([s[3], s[3] / 2]), s[5], np.array([s[1], s[1] - 0.4]), np.array([s[4], s[4] + 9])
        fake, out = FakeCurses(), io.StringIO()
        real = mc.curses, mc.isnotebook
        mc.curses, mc.isnotebook = fake, lambda: how == 'notebook'
        try:
            run(make(0), cfg, stub=stub, out=out, headless=how == 'headless')
        finally:
            mc.curses, mc.isnotebook = real
        text = out.getvalue()
        exp = automaton(cfg, lambda j, kept: ans(j))
        msg = lambda: "%s" % case
        lines = fake.scr.texts if how == 'screen' else re.findall(r'\d+/\d+ \([^\r]*\r', text)
        if how == 'headless':
            ctx.check(not lines and not fake.used, "headless-displays", lambda: "%s: %s" % (msg(), lines[:2]))
        elif ctx.check(len(lines) == len(exp['shown']), "display-updates", lambda: "%s: %d updates, %d checks" % (msg(), len(lines), len(exp['shown']))):
            tot = nrun * 4 * E
            for line, (nc, (a, b), mixed, gr, af, ch, tz) in zip(lines, exp['shown']):
                m = SHOW.search(line)
                if not ctx.check(m is not None, "display-text", lambda: "%s: %r" % (msg(), line)):
                    continue
                acc = []
                for s in Recording.made:
                    pos = [s.rec_start[0][1]] + s.rec_pos
                    acc.append(np.mean([np.any(pos[i + 1] != pos[i], axis=1).mean() for i in range(a, b)]))
                g = m.groups()
                want = [nc, tot, 100.0 * nc / tot, None, 100 * np.mean(acc), af, ch, tz, gr]
                ok = int(g[0]) == nc and int(g[1]) == tot
                for x, w, d in zip(g, want, (0, 0, 1, 0, 1, 0, 2, 1, 3)):
                    if w is not None:
                        ok &= shown_near(x, w, d)
                ctx.check(ok, "display-numbers", lambda: "%s: %r, expected (steps, of, percent, -, acceptance, Afactor, Archange, Tz, G-R) %s" % (msg(), line, want))
        ctx.check(not fake.up, "screen-left-open", msg)
        done = exp['mix'] >= 2
        m = re.findall(r'well-mixed after (\d+) steps', text)
        ctx.check(m == ([str(exp['ncomplete'])] if done else []), "final-message", lambda: "%s: %r, %s steps, converged %s" % (msg(), m, exp['ncomplete'], done))
        warn = 'WARNING' in text
        half = 'did not pass 2 consecutive' in text
        ctx.check(warn == (not done) and half == (not done and bool(exp['last'][0])), "final-warning", lambda: "%s: %r" % (msg(), text[-300:]))
        ctx.check(text.count('Discarding burn-in') == int(exp['discarded']), "burn-in-message", lambda: "%s: %r" % (msg(), text))
        ctx.state('display', *map(str, case))
        ctx.trace()

    def int_cases():
        for E in (1, 2):
            for at in range(1, 130, 1 if THOROUGH else 3):
                for how in ('screen', 'notebook', 'headless'):
                    yield [E, at, how]

    def int_run(ctx, case):
        E, at, how = case
        cfg = dict(ensembles=E, nwalkers=4, W=4, checkinterval=2, nrun=8, minsteps=0, minpercent=0, burnGR=3.0, burnAfactor=1e9)
        post = make(0)
        lp = post.logprob_array
        cnt = [0]

        def boom(x):
            cnt[0] += 1
            if cnt[0] == at:
                raise KeyboardInterrupt
            return lp(x)
        post.logprob_array = boom
        fake = FakeCurses()
        real = mc.curses, mc.isnotebook
        mc.curses, mc.isnotebook = fake, lambda: how == 'notebook'
        got = None
        try:
            df = run(post, cfg, headless=how == 'headless', cls=REAL)
            got = 'returned'
        except KeyboardInterrupt:
            got, df = 'interrupted', None
        except Exception as ex:
            got, df = repr(ex), None
        finally:
            mc.curses, mc.isnotebook = real
        ctx.check(got == 'interrupted' or got == 'returned' and (df is None) == (cnt[0] >= at), "interrupted-run", lambda: "run with %d ensembles (%s) interrupted at evaluation %d of %d: %s" % (E, how, at, cnt[0], got))
        ctx.check(not fake.up, "screen-left-open", lambda: str(case))
        ctx.state('interrupt', *map(str, case))
        ctx.trace()

    return [Suite("display", disp_cases, disp_run, timeout=300), Suite("interrupt", int_cases, int_run, timeout=300), Suite("script", script_cases, script_run, timeout=600), Suite("real", real_cases, real_run), Suite("pool", pool_cases, pool_run, timeout=300),
            Suite("history", hist_cases, hist_run, timeout=300), Suite("invalid", [[0]], invalid_run)]


if __name__ == "__main__":
    main("R13", suites, "model_checking",
         "state = (run configuration, sequence of answers of the convergence statistics so far): a stateless search drives the real mcmc() loop and real emcee samplers "
         "(recorded) through every sequence of answers {not mixed, mixed, mixed above the burn-in limits, burn-in limit reached by G-R, by Afactor} and compares steps taken, samples kept, "
         "counts and reported statistics with a reference automaton; further runs use the real statistics",
         "1-3 ensembles x 7 (checkinterval, nrun) x 7 (minsteps, minpercent), all answer sequences up to 5 checks; 96 real runs; pooled = serial for 15 scripts; all histories of 2 earlier runs of 8 kinds")
