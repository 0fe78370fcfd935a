import math
from vlib.core import *
from vlib import oracle as O
from vlib import models as M

I = M.inst
INSTS = {
    'one': [I('j', 7)], 'anon': [I('', 6)], 'two': [I('j', 6), I('k', 5)], 'three': [I('apf', 4), I('j', 5), I('hires_rj', 4)],
    'decorr': [I('j', 6, decorr=['air', 'temp']), I('k', 5, decorr=['air'])],
    'gpq': [I('j', 6, 'gp:QuasiPer')], 'gp2': [I('j', 5, 'gp:SqExp'), I('k', 5, 'gp:Per')], 'gpshared': [I('j', 5, 'gp:QuasiPer', shared=True), I('k', 5, 'gp:QuasiPer', shared=True)],
    'mixed': [I('k', 5), I('j', 6, 'gp:Celerite'), I('m', 4, decorr=['air'])],
}
TRENDS = [[], ['dvdt'], ['curv'], ['dvdt', 'curv'], ['curv', 'dvdt']]
ORDERS = ['first', 'late', 'reversed', 'rotated']


def step(name, v):
    if name.startswith(('per', 'gp_per', 'gp_Prot', 'gp_L', 'gp_length', 'gp_explength')):
        return v * 1.07
    if name.startswith('e') and not name.startswith(('ecosw', 'esinw')):
        return v + 0.04
    if name.startswith(('tc', 'tp')):
        return v + 0.3
    return v * 1.2 + 0.05


def suites():
    import numpy as np

    def cases():
        for b in O.BASES:
            for npl in (0, 1, 2, 3, 4, 11) if THOROUGH else (0, 1, 2, 3, 11):
                for ins in INSTS if npl < 11 else ('two', 'mixed'):
                    for it, tr in enumerate(TRENDS):
                        for io, order in enumerate(ORDERS):
                            if npl == 11 and (it not in (0, 3) or io > 1):
                                continue
                            if not THOROUGH and (it + io) % 2 and ins not in ('two', 'mixed'):
                                continue
                            yield [b, npl, ins, it, order]

    def run(ctx, case):
        b, npl, ins, it, order = case
        spec = dict(basis=b, npl=npl, insts=INSTS[ins], trend=TRENDS[it], order=order)
        vals = M.start_values(spec)
        names = list(vals)
        for mask in ('all', 'even', 'odd', 'late-fix') if order in ('first', 'rotated') else ('all', 'odd'):
            vary = {n: dict(all=True, even=i % 2 == 0, odd=i % 2 == 1).get(mask, i % 3 != 0) for i, n in enumerate(names)}
            msg = lambda: "%s, %d planets, %s, trend %s, parameters added %s, free: %s" % (b, npl, ins, TRENDS[it], order, [n for n in names if vary[n]])
            post = M.build(spec, vary=vary)
            free = post.name_vary_params()
            want = [n for n in names if vary[n]]
            if not ctx.check(len(set(free)) == len(free) and sorted(free) == sorted(want), "free-names", lambda: "%s: reported %s" % (msg(), free)):
                continue
            ctx.check(post.likelihood.name_vary_params() == free, "posterior-likelihood-names", msg)
            x0 = np.array(post.get_vary_params())
            ctx.check(len(x0) == len(free) and all(x0[i] == vals[n] for i, n in enumerate(free)), "start-array", lambda: "%s: %s" % (msg(), list(zip(free, x0))))
            L0 = post.logprob()
            R0 = M.ref_loglike(spec, vals)
            ctx.check(close(L0, R0, 1e-8, 1e-6) and close(post.logprob_array(x0), L0, 1e-12, 1e-9), "start-value", lambda: "%s: %r, array %r, independent %r" % (msg(), L0, post.logprob_array(x0), R0))
            for i, n in enumerate(free):
                x = x0.copy()
                x[i] = step(n, x0[i])
                nv = dict(vals)
                nv[n] = x[i]
                got = post.logprob_array(x)
                ref = M.ref_loglike(spec, nv)
                ctx.check(close(got, ref, 1e-7, 1e-6), "effect-%s" % n.rstrip('0123456789').split('_')[0], lambda: "%s: entry %d named %s = %r gives %r, independent model %r (before %r)" % (msg(), i, n, x[i], got, ref, L0))
                if mask == 'all' and order == 'first' and it in (0, 3):
                    fresh = M.build(spec, values={n: x[i]}, vary=vary).logprob()
                    ctx.check(close(got, fresh, 1e-9, 1e-8), "effect-fresh", lambda: "%s: entry %d named %s gives %r, freshly built model %r" % (msg(), i, n, got, fresh))
                ctx.trans()
            # by-name view of a set array
            x = np.array([step(n, v) for n, v in zip(free, x0)])
            post.set_vary_params(x)
            ok = all(post.params[n].value == x[free.index(n)] if n in free else post.params[n].value == vals[n] for n in names)
            ctx.check(ok, "set-by-name", lambda: "%s: set %s, dictionary %s" % (msg(), dict(zip(free, x)), {n: post.params[n].value for n in names}))
            ctx.state(*map(str, case), mask)
            ctx.trace()
        ctx.sample("%s npl=%d %s: order %s" % (b, npl, ins, free))

    return [Suite("configurations", cases, run)]


if __name__ == "__main__":
    main("R05", suites, "model_checking",
         "state = (basis, planets, instruments/GP/decorrelation, trend set and order, insertion order, vary mask); transition = "
         "one entry of the free-parameter array changed in the real posterior, compared with an independent by-name formula and a freshly built model",
         "9 bases x 0-3 planets (4 thorough) and 11 x 9 instrument sets x 5 trend sets x 4 insertion orders (half of trend x order combinations in quick) x 2-4 masks")
