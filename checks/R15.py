import hashlib
import itertools
import math
import signal
from vlib.core import *
from vlib import models as M

I = M.inst


def suites():
    import shutil as _sh
    import numpy as np
    import h5py
    import emcee
    from radvel import prior as R
    from vlib.mcmctools import mc, REAL, Recording, automaton, run, fields, stats_of
    sv = mc.statevars

    def make(kind=0):
        spec = [dict(basis='per tc e w k', npl=1, insts=[I('j', 4)], trend=[]), dict(basis='per tc e w k', npl=1, insts=[I('j', 4)], trend=['dvdt'])][kind]
        free = {'k1', 'gamma_j', 'dvdt'}
        v = M.start_values(spec)
        return M.build(spec, vary={q: q in free for q in v}, priors=[R.HardBounds('gamma_j', -1e3, 1e3)])

    BASE = dict(nwalkers=4, W=4, minsteps=0, minpercent=0, burnGR=1.03, burnAfactor=25.0)

    def script(letters):
        n = [0]

        def stub(chains, *a, **k):
            s = stats_of(letters[n[0]] if n[0] < len(letters) else 'U', n[0])
            n[0] += 1
            return s[0], np.array([s[2]]), np.array([s[3]]), s[5], np.array([s[1]]), np.array([s[4]])
        return stub

    def answers(letters):
        return lambda j, kept: stats_of(letters[j] if j < len(letters) else 'U', j)

    def load(path):
        with h5py.File(path, 'r') as f:
            return {k: np.array(f[k]) for k in f.keys()}

    def digest(path):
        return hashlib.sha1(open(path, 'rb').read()).hexdigest() if os.path.exists(path) else None

    def state_of(content, E):
        """what a file says, in the terms of the property"""
        return dict(chains=[content['%d_chain' % i] for i in range(E)], lps=[content['%d_log_prob' % i] for i in range(E)],
                    accepted=[content['%d_accepted' % i] for i in range(E)], burned=int(content['burned'][0]), auto=[int(x) for x in content['autosample']],
                    amin=list(content['automin']), amean=list(content['automean']), amax=list(content['automax']), crit=list(content['crit']))

    def check_file(ctx, path, E, exp, prefix, taken_lp, msg):
        c = load(path)
        want = sorted(['%d_%s' % (i, k) for i in range(E) for k in ('chain', 'log_prob', 'accepted')] + ['crit', 'autosample', 'automin', 'automean', 'automax', 'burned'])
        if not ctx.check(sorted(c) == want, "saved-keys", lambda: "%s: saved %s" % (msg(), sorted(c))):
            return None
        s = state_of(c, E)
        for i in range(E):
            x, l = prefix[i]
            ctx.check(np.array_equal(s['chains'][i], x), "saved-chain", lambda: "%s: ensemble %d: saved %d steps, expected %d" % (msg(), i, len(s['chains'][i]), len(x)))
            ctx.check(np.array_equal(s['lps'][i], l), "saved-logprob", lambda: "%s: ensemble %d" % (msg(), i))
            ctx.check(s['accepted'][i].shape == (x.shape[1],) and np.all(s['accepted'][i] <= len(x)) and np.all(s['accepted'][i] >= 0), "saved-accepted", lambda: "%s: %s" % (msg(), s['accepted'][i]))
        ctx.check(s['burned'] == exp['saved_burn'], "saved-burn", lambda: "%s: burned=%r, expected %r" % (msg(), s['burned'], exp['saved_burn']))
        ctx.check(s['auto'] == [a[0] for a in exp['auto']], "saved-history", lambda: "%s: %s, expected %s" % (msg(), s['auto'], exp['auto']))
        for k, fn in (('amin', np.min), ('amean', np.mean), ('amax', np.max)):
            ctx.check(close(s[k], [fn(a[1]) if not np.isscalar(a[1]) else a[1] for a in exp['auto']]) if len(s[k]) == len(exp['auto']) else False, "saved-history", lambda: "%s: %s %s" % (msg(), k, s[k]))
        ctx.check(close([s['crit'][3], s['crit'][0], s['crit'][1], s['crit'][2]], exp['last'][1:]), "saved-statistics", lambda: "%s: %s, expected %s" % (msg(), s['crit'], exp['last']))
        return s

    # -------------------------------------------------------------------- histories of save and resume
    SCRIPTS = ['UU', 'BU', 'UB', 'MU']
    TARGETS = ['same', 'other', 'none']

    def hist_cases():
        for E in (1, 2):
            for s0 in SCRIPTS:
                for s1 in SCRIPTS:
                    for t1 in TARGETS:
                        yield [E, s0, s1, t1]
        for s0, s1, t1 in (('BU', 'UU', 'same'), ('UB', 'MU', 'other'), ('UU', 'UB', 'same')):
            yield [11, s0, s1, t1]      # ensembles whose numbers sort differently as text

    def hist_run(ctx, case):
        E, s0, s1, t1 = case
        d = os.path.join(scratch(), "r15_%d" % os.getpid())
        for s2 in SCRIPTS:
            for t2 in (TARGETS if THOROUGH or s2 in ('UU', 'BU') else ['same']):
                _sh.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                A, B = os.path.join(d, 'a.h5'), os.path.join(d, 'b.h5')
                cur = None           # path of the saved state to resume from
                state = None         # reference: per ensemble (chain, logprob), nburn, auto
                hist = []
                for step, (letters, target, nrun) in enumerate([(s0, 'same', 3), (s1, t1, 4), (s2, t2, 3)]):
                    hist.append((letters, target))
                    cfg = dict(BASE, ensembles=E, checkinterval=2, nrun=nrun)
                    msg = lambda: "E=%d runs %s" % (E, hist)
                    kw = {}
                    if step:
                        kw = dict(proceed=True, proceedname=cur)
                    save = None if target == 'none' else (A if step == 0 else (cur if target == 'same' else (B if cur == A else A)))
                    before = {p: digest(p) for p in (A, B)}
                    if save:
                        kw.update(save=True, savename=save)
                    post = make()
                    df = run(post, cfg, seed=10 + step, stub=script(letters), **kw)
                    n0 = len(state['prefix'][0][0]) if step else 0
                    exp = automaton(cfg, answers(letters), n0, state['nburn'] if step else 0, state['auto'] if step else ())
                    a, b = exp['kept']
                    made = Recording.made
                    taken = [len(s.rec_pos) for s in made]
                    if not ctx.check(taken == [exp['steps']] * E, "steps-taken", lambda: "%s: %s, expected %d" % (msg(), taken, exp['steps'])):
                        break
                    full = []
                    for e, s in enumerate(made):
                        x = np.array(s.rec_pos[max(a, 0):b])
                        l = np.array(s.rec_lp[max(a, 0):b])
                        if a < 0:
                            x = np.concatenate([state['prefix'][e][0], x])
                            l = np.concatenate([state['prefix'][e][1], l])
                        full.append((x, l))
                        if step:
                            at, start = s.rec_start[0]
                            ctx.check(np.array_equal(start, state['prefix'][e][0][-1]), "resumed-position", lambda: "%s: ensemble %d does not continue from its last saved position" % (msg(), e))
                        for at, start in s.rec_start[1:]:
                            ctx.check(np.array_equal(start, s.rec_pos[at - 1]), "chain-continues", msg)
                    names = post.name_vary_params()
                    n = b - a
                    if ctx.check(len(df) == E * 4 * n, "rows", lambda: "%s: %d rows, expected %d steps" % (msg(), len(df), n)):
                        got = df[names].values.reshape(4, E, n, 2)
                        gl = df['lnprobability'].values.reshape(4, E, n)
                        for e in range(E):
                            ctx.check(np.array_equal(got[:, e].transpose(1, 0, 2), full[e][0]), "continued-chain", lambda: "%s: ensemble %d: the chain is not the saved one followed by the new steps" % (msg(), e))
                            ctx.check(np.array_equal(gl[:, e].T, full[e][1]), "continued-logprob", msg)
                    f = fields()
                    ctx.check(f['ncomplete'] == exp['ncomplete'] and f['nburn'] == exp['nburn'], "counts", lambda: "%s: ncomplete %r nburn %r, expected %r %r" % (msg(), f['ncomplete'], f['nburn'], exp['ncomplete'], exp['nburn']))
                    ctx.check([int(x) for x in f['autosamples']] == [x[0] for x in exp['auto']], "history", lambda: "%s: %s, expected %s" % (msg(), f['autosamples'], exp['auto']))
                    ctx.trans()
                    ctx.state(E, tuple(hist))
                    for p in (A, B):
                        if p != save:
                            ctx.check(digest(p) == before[p], "file-altered", lambda: "%s: %s changed although it is not the file to save to" % (msg(), os.path.basename(p)))
                    ctx.check(sorted(os.listdir(d)) == sorted({os.path.basename(p) for p in (A, B) if before[p] is not None or p == save}), "stray-files", lambda: "%s: %s" % (msg(), os.listdir(d)))
                    if save:
                        s = check_file(ctx, save, E, exp, full, None, msg)
                        if s is None:
                            break
                        cur = save
                        state = dict(prefix=full, nburn=exp['saved_burn'], auto=exp['auto'])
                ctx.trace()
        _sh.rmtree(d, ignore_errors=True)

    # -------------------------------------------------------------------- resumes that must be refused
    def saved(path, E=2, letters='BU', **kw):
        post = make()
        run(post, dict(BASE, ensembles=E, checkinterval=2, nrun=4), stub=script(letters), save=True, savename=path, **kw)

    def attempt(ctx, path, msg, E=2, W=4, kind=0, keep=(), save=True, expect=True):
        """resume; returns the table or None if refused"""
        post = make(kind)
        n = [0]
        lp = post.logprob_array

        def count(x):
            n[0] += 1
            return lp(x)
        post.logprob_array = count
        before = digest(path)
        kw = dict(save=True, savename=path) if save else {}
        d = os.path.dirname(path)
        ls = sorted(os.listdir(d))
        try:
            df = run(post, dict(BASE, ensembles=E, nwalkers=W, W=W, checkinterval=2, nrun=2), stub=script('U'), proceed=True, proceedname=path, **kw)
        except Exception as ex:
            ctx.check(n[0] == 0, "refused-late", lambda: "%s: refused (%r) after %d evaluations" % (msg(), ex, n[0]))
            ctx.check(digest(path) == before, "refusal-altered-file", lambda: "%s: the saved file changed" % msg())
            ctx.check(sorted(os.listdir(d)) == ls, "refusal-left-files", lambda: "%s: %s" % (msg(), os.listdir(d)))
            return None
        if expect:
            ctx.fail("not-refused", "%s: resumed with %s" % (msg(), None if df is None else df.shape))
        return df

    def refuse_cases():
        return [[k] for k in ('shape', 'missing', 'keys', 'truncated', 'inconsistent')]

    def refuse_run(ctx, case):
        d = os.path.join(scratch(), "r15r_%d_%s" % (os.getpid(), case[0]))
        _sh.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        p = os.path.join(d, 'a.h5')
        for save in (True, False):
            if case[0] == 'shape':
                for E0 in (1, 2, 3):
                    for letters in ('UU', 'BU'):
                        saved(p, E0, letters)
                        for E in (1, 2, 3):
                            for W in (4, 5, 6):
                                for kind in (0, 1):
                                    if (E, W, kind) == (E0, 4, 0):
                                        continue
                                    attempt(ctx, p, lambda: "saved with %d ensembles x 4 walkers x 2 parameters, asked for %d x %d x %d" % (E0, E, W, 2 + kind), E, W, kind, save=save)
                                    ctx.state("shape", E0, letters, E, W, kind, save)
                                    ctx.trace()
            elif case[0] == 'missing':
                for make_file in (None, b'', b'not an hdf5 file', b'\x89HDF\r\n\x1a\n' + b'\0' * 600):
                    if os.path.exists(p):
                        os.unlink(p)
                    if make_file is not None:
                        open(p, 'wb').write(make_file)
                    attempt(ctx, p, lambda: "file content %r" % (make_file,), save=save)
                    ctx.state("missing", repr(make_file)[:20], save)
                if os.path.exists(p):
                    os.unlink(p)
                with h5py.File(p, 'w'):
                    pass
                attempt(ctx, p, lambda: "empty HDF5 file", save=save)
            elif case[0] == 'keys':
                saved(p)
                keys = sorted(load(p))
                blob = open(p, 'rb').read()
                for r in (1, 2):
                    for miss in itertools.combinations(keys, r):
                        if r == 2 and not save and not THOROUGH:
                            continue
                        open(p, 'wb').write(blob)
                        with h5py.File(p, 'a') as f:
                            for k in miss:
                                del f[k]
                        attempt(ctx, p, lambda: "saved file without %s" % (miss,), save=save)
                        ctx.state("keys", miss, save)
                        ctx.trace()
            elif case[0] == 'truncated':
                saved(p)
                blob = open(p, 'rb').read()
                for i in range(0, len(blob), max(1, len(blob) // 60)):
                    open(p, 'wb').write(blob[:i])
                    attempt(ctx, p, lambda: "file truncated to %d of %d bytes" % (i, len(blob)), save=save)
                    ctx.state("truncated", i, save)
            else:
                # ensembles of different lengths: half of an interrupted save
                for e, key in itertools.product((0, 1), ('chain', 'all')):
                    saved(p)
                    with h5py.File(p, 'a') as f:
                        for k in (('chain',) if key == 'chain' else ('chain', 'log_prob')):
                            name = '%d_%s' % (e, k)
                            x = np.array(f[name])
                            del f[name]
                            f[name] = np.concatenate([x, x[-1:]])
                    attempt(ctx, p, lambda: "ensemble %d is one step longer (%s)" % (e, key), save=save)
                    ctx.state("inconsistent", e, key, save)
        _sh.rmtree(d, ignore_errors=True)

    # -------------------------------------------------------------------- interruptions at every point of saving
    OPS = [(h5py.File, '__init__'), (h5py.File, 'close'), (h5py.File, 'flush'), (h5py.Group, 'create_dataset'), (h5py.Group, '__delitem__'), (h5py.Group, '__setitem__'),
           (h5py.Group, 'require_dataset'), (h5py.Dataset, '__setitem__'), (h5py.Dataset, 'resize'), (os, 'replace'), (os, 'rename'), (os, 'remove'), (os, 'unlink')]

    class Kill(BaseException):
        pass

    def with_ops(point, action, body):
        """run body(); at the point-th hooked operation (before / after it) do action()"""
        n = [0]
        saved_ = []

        def tick():
            n[0] += 1
            if n[0] == point:
                action()

        def wrap(f):
            def g(*a, **k):
                tick()
                r = f(*a, **k)
                tick()
                return r
            return g
        for o, a in OPS:
            f = getattr(o, a)
            saved_.append((o, a, f))
            setattr(o, a, wrap(f))
        try:
            body()
        finally:
            for o, a, f in saved_:
                setattr(o, a, f)
        return n[0]

    def crash_cases():
        return [[E, letters, mode, prev, part] for E in (1, 2) for letters in ('UUU', 'BUU', 'UBU') for mode in ('kill', 'exception', 'interrupt') for prev in (False, True) for part in range(4)]

    def crash_run(ctx, case):
        E, letters, mode, prev, part = case
        d = os.path.join(scratch(), "r15c_%d" % os.getpid())
        _sh.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        ref = []
        cfg = dict(BASE, ensembles=E, checkinterval=2)
        p0 = os.path.join(d, 'prev.h5')
        if prev:          # an earlier, different run has been saved under the same name
            run(make(), dict(cfg, ensembles=E, nrun=6), seed=99, stub=script('UUU'), save=True, savename=p0)
            ref.append(load(p0))
        for c in (1, 2, 3):
            q = os.path.join(d, 'ref.h5')
            run(make(), dict(cfg, nrun=2 * c), seed=4, stub=script(letters), save=True, savename=q)
            ref.append(load(q))
        work = os.path.join(d, 'w')
        p = os.path.join(work, 'a.h5')

        def fresh():
            _sh.rmtree(work, ignore_errors=True)
            os.makedirs(work)
            if prev:
                _sh.copy(p0, p)

        def body():
            run(make(), dict(cfg, nrun=6), seed=4, stub=script(letters), save=True, savename=p, cls=REAL)
        fresh()
        total = with_ops(-1, None, body)
        ctx.check(total > 0, "nothing-saved", "no file operation seen")
        able = prev          # something resumable has been saved before this point
        for point in range(1 + part, total + 1, 4):
            fresh()
            msg = lambda: "E=%d answers %s %s at file operation %d of %d%s" % (E, letters, mode, point, total, ", replacing an earlier save" if prev else "")
            if mode == 'kill':
                pid = os.fork()
                if pid == 0:
                    try:
                        with_ops(point, lambda: os._exit(9), body)
                    finally:
                        os._exit(8)
                os.waitpid(pid, 0)
            else:
                def boom():
                    raise (OSError(28, 'No space left on device') if mode == 'exception' else KeyboardInterrupt())
                try:
                    with_ops(point, boom, body)
                except BaseException as ex:
                    if not isinstance(ex, (OSError, KeyboardInterrupt)) and type(ex).__name__ != 'error':
                        raise
                import gc
                gc.collect()
            content = None
            try:
                content = load(p)
            except Exception:
                pass
            df = attempt(ctx, p, msg, E, save=False, expect=False)
            ctx.trans()
            ctx.state(E, letters, mode, prev, point)
            ctx.check(df is not None or not able, "saved-state-lost", lambda: "%s: what had been saved before can no longer be resumed" % msg())
            able = able or df is not None
            if df is None:
                ctx.notes['refused after interruption'] = ctx.notes.get('refused after interruption', 0) + 1
                continue
            ctx.notes['resumed after interruption'] = ctx.notes.get('resumed after interruption', 0) + 1
            hit = content is not None and any(sorted(content) == sorted(r) and all(np.array_equal(content[k], r[k], equal_nan=True) for k in r) for r in ref)
            ctx.check(hit, "mixed-state-resumed", lambda: "%s: the file was resumed although it is no state that was saved: chain lengths %s burned %s" % (
                msg(), [content['%d_chain' % e].shape for e in range(E)] if content else None, content.get('burned') if content else None))
            ctx.trace()
        _sh.rmtree(d, ignore_errors=True)

    # -------------------------------------------------------------------- histories of files within one process: nothing stays open or locked
    def open_run(ctx, case):
        d = os.path.join(scratch(), "r15o_%d" % os.getpid())
        for hist in itertools.product(range(4), repeat=4 if THOROUGH else 3):
            _sh.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            A, B = os.path.join(d, 'a.h5'), os.path.join(d, 'b.h5')
            saved(A)
            saved(B)
            for k in hist:
                post = make()
                cfg = dict(BASE, ensembles=2, checkinterval=2, nrun=2)
                kw = [dict(save=True, savename=A), dict(proceed=True, proceedname=A), dict(proceed=True, proceedname=A, save=True, savename=B), dict(proceed=True, proceedname=B, save=True, savename=A)][k]
                df = run(post, cfg, stub=script('U'), **kw)
                ctx.check(df is not None and len(df) > 0, "history-of-files", str(hist))
                for q in (A, B):
                    with h5py.File(q, 'a'):      # an open handle left behind makes this fail
                        pass
                ctx.trans()
            ctx.state("open", hist)
            ctx.trace()
        _sh.rmtree(d, ignore_errors=True)

    return [Suite("histories", hist_cases, hist_run, timeout=300), Suite("refuse", refuse_cases, refuse_run, timeout=300), Suite("crash", crash_cases, crash_run, timeout=300), Suite("open", [[0]], open_run, timeout=300)]


if __name__ == "__main__":
    main("R15", suites, "fault_enumeration",
         "evaluation = one comparison of a saved, resumed or refused state with the reference; distinct = history of runs (answers of the statistics, file saved to), or (run, kind of "
         "interruption, file operation interrupted); every hooked file operation of the real run is interrupted before and after it by process death, I/O error and keyboard interrupt, then resumed",
         "3 runs per history, 4 scripts x 3 targets each, 1-2 ensembles; all single/double key losses, ~60 truncations, all ensemble/walker/parameter mismatches; every file operation of 3 saves")
