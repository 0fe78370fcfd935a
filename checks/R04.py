import copy
import math
from vlib.core import *
from vlib import models as M

CONF = {
    'one': (dict(basis='per tc secosw sesinw logk', npl=1, trend=[], insts=[M.inst('j')], order='late'), ['k', 'logk1', 'gamma_j']),
    'two': (dict(basis='per tp e w k', npl=2, trend=['dvdt', 'curv'], insts=[M.inst('j', 5), M.inst('k', 4)], order='first'), ['k2', 'curv', 'jit_k']),
    'gp': (dict(basis='per tc ecosw esinw k', npl=1, trend=['curv'], insts=[M.inst('j', 5, 'gp:QuasiPer'), M.inst('k', 4)], order='reversed'), ['per1', 'gp_amp_j', 'gamma_k']),
    'cel': (dict(basis='per tc e w k', npl=1, trend=['dvdt'], insts=[M.inst('j', 5, 'gp:Celerite')], order='late'), ['e1', 'gp_B_j', 'dvdt']),
    'decorr': (dict(basis='logper tp e w logk', npl=1, trend=[], insts=[M.inst('j', 5, decorr=['air']), M.inst('k', 4)], order='first'), ['logk1', 'c1_air_j', 'jit_k']),
    'none': (dict(basis='per tp e w k', npl=0, trend=['dvdt'], insts=[M.inst('', 5)], order='first'), ['gamma', 'dvdt', 'jit']),
}
CONF['one'] = (CONF['one'][0], ['logk1', 'gamma_j', 'jit_j'])


def suites():
    import numpy as np
    import radvel

    def ops(names):
        o = []
        for n in names:
            o += [['value', n], ['vary', n]]
        o += [['object', names[0]], ['d2v'], ['v2d'], ['set', 'post'], ['set', 'like'], ['fast'], ['repr'], ['logprob'], ['bad', 1], ['bad', -1], ['copy'], ['get'], ['rowvary', names[1]]]
        return o

    class Ref:
        pass

    def run(ctx, case):
        conf, first = case
        spec, names = CONF[conf]
        depth = (4 if conf == 'one' else 3) if not THOROUGH else 5
        start = M.start_values(spec)
        vary0 = {n: not (i % 3 == 2) for i, n in enumerate(start)}
        for n in names:
            vary0[n] = True
        vary0[names[-1]] = False

        def build():
            post = M.build(spec, vary=vary0)
            post.vector.dict_to_vector()
            r = Ref()
            r.D = {n: (v, vary0[n]) for n, v in start.items()}
            r.V = dict(r.D)
            r.n = 0
            return post, r

        def newval(r, name):
            r.n += 1
            base = start[name]
            if r.n % 3 == 2 and name.startswith(('gamma', 'jit', 'dvdt', 'curv', 'c1_')):
                return 0.0
            return round(base + 0.01 * (r.n % 3 + 1), 6) if name.startswith('per') or name.startswith('e') or name.startswith('logper') else round(base * (1.0 + 0.05 * (r.n % 3)) + 0.125 * (r.n % 2), 6)

        def arr(post, r):
            """new values of the varying parameters, in the reported order"""
            nm = post.name_vary_params()
            return nm, [newval(r, x) for x in nm]

        def rows(post):
            return {n: (float(post.vector.vector[post.vector.indices[n]][0]), bool(post.vector.vector[post.vector.indices[n]][1])) for n in start}

        def dic(post):
            return {n: (post.params[n].value, bool(post.params[n].vary)) for n in start}

        def apply(post, r, op, msg):
            """one step on the real object and on the reference; returns the object to continue with"""
            k = op[0]
            if k == 'value':
                v = newval(r, op[1])
                post.params[op[1]].value = v
                r.D[op[1]] = (v, r.D[op[1]][1])
            elif k == 'vary':
                v = not r.D[op[1]][1]
                post.params[op[1]].vary = v
                r.D[op[1]] = (r.D[op[1]][0], v)
            elif k == 'object':
                v = newval(r, op[1])
                post.params[op[1]] = radvel.Parameter(value=v, vary=not r.D[op[1]][1], mcmcscale=0.25)
                r.D[op[1]] = (v, not r.D[op[1]][1])
            elif k == 'rowvary':
                # vary flag edited in the vector itself
                row = post.vector.vector[post.vector.indices[op[1]]]
                row[1] = not row[1]
                r.V[op[1]] = (r.V[op[1]][0], not r.V[op[1]][1])
            elif k == 'd2v':
                post.vector.dict_to_vector()
                r.V = dict(r.D)
            elif k in ('v2d', 'repr'):
                if k == 'repr':
                    repr(post)
                else:
                    post.vector.vector_to_dict()
                r.D = {n: (r.V[n][0], r.D[n][1]) for n in r.D}
            elif k in ('set', 'fast'):
                nm, a = arr(post, r)
                ctx.check(sorted(nm) == sorted(n for n in r.V if r.V[n][1]), "names-vs-vary", lambda: "%s: reported %s, varying %s" % (msg(), nm, [n for n in r.V if r.V[n][1]]))
                if k == 'fast':
                    post.logprob_array(np.array(a))
                elif op[1] == 'post':
                    post.set_vary_params(np.array(a))
                else:
                    post.likelihood.set_vary_params(np.array(a))
                for n, v in zip(nm, a):
                    r.V[n] = (v, r.V[n][1])
                if k == 'set':
                    r.D = {n: (r.V[n][0], r.D[n][1]) for n in r.D}
                    got = np.array(post.get_vary_params())
                    ctx.check(np.array_equal(got, a), "set-get", lambda: "%s: set %s, got %s" % (msg(), a, got))
            elif k == 'bad':
                n = len([x for x in r.V if r.V[x][1]]) + op[1]
                if n < 0:
                    return post
                for target in (post, post.likelihood):
                    try:
                        target.set_vary_params(np.arange(n, dtype=float) + 7)
                    except Exception:
                        pass
                    else:
                        ctx.fail("wrong-length-accepted", msg())
            elif k == 'logprob':
                post.logprob()
            elif k == 'get':
                post.get_vary_params()[...] if False else post.get_vary_params()
                post.name_vary_params()
                post.likelihood.get_vary_params()
            elif k == 'copy':
                new = copy.deepcopy(post)
                # the copy is independent: disturb the original
                post.params[names[0]].value = -12345.0
                post.vector.vector[:, 0] += 1.0
                post = new
            return post

        def invariant(post, r, msg):
            d, v = dic(post), rows(post)
            okd = all(abs(d[n][0] - r.D[n][0]) < 1e-12 * (1 + abs(r.D[n][0])) and d[n][1] == r.D[n][1] for n in start)
            okv = all(abs(v[n][0] - r.V[n][0]) < 1e-12 * (1 + abs(r.V[n][0])) and v[n][1] == r.V[n][1] for n in start)
            if not ctx.check(okd, "dictionary-%s" % conf, lambda: "%s\ndictionary %s\nexpected   %s" % (msg(), d, r.D)):
                return False
            if not ctx.check(okv, "vector-%s" % conf, lambda: "%s\nvector   %s\nexpected %s" % (msg(), v, r.V)):
                return False
            synced = r.D == r.V
            free = {n: r.V[n][0] for n in r.V if r.V[n][1]}
            for who, o in (("posterior", post), ("likelihood", post.likelihood)):
                nm = o.name_vary_params()
                val = np.array(o.get_vary_params())
                ctx.check(len(set(nm)) == len(nm) and set(nm) == set(free), "names-%s" % conf, lambda: "%s: %s reports %s, free are %s" % (msg(), who, nm, sorted(free)))
                ctx.check(len(val) == len(nm) and all(abs(val[i] - free.get(n, float('nan'))) < 1e-12 * (1 + abs(val[i])) for i, n in enumerate(nm)), "values-%s" % conf, lambda: "%s: %s reports %s, values %s expected %s" % (msg(), who, nm, val, free))
            if synced:
                want = M.ref_loglike(spec, {n: r.V[n][0] for n in r.V})
                got = post.logprob()
                ctx.check(close(got, want, 1e-7, 1e-6), "used-by-model-%s" % conf, lambda: "%s: log-probability %r, parameters give %r" % (msg(), got, want))
                arrv = np.array(post.get_vary_params())
                ctx.check(close(post.logprob_array(arrv), want, 1e-7, 1e-6), "array-evaluation-%s" % conf, msg)
                ctx.check(rows(post) == v and dic(post) == d, "evaluation-changes-state", msg)
            # scale and other attributes survive
            return True

        alphabet = ops(names)
        seen = set()
        frontier = [[first]] if first is not None else [[]]
        maxd = depth if first is not None else 0
        while frontier:
            nxt = []
            for h in frontier:
                post, r = build()
                msg = lambda: "%s, operations %s" % (conf, h)
                for op in h:
                    post = apply(post, r, op, msg)
                ctx.trans()
                ctx.trace()
                if not invariant(post, r, msg):
                    return
                # the cached lists of the implementation are part of the hidden state: keep the last kinds in the key
                key = (tuple(sorted(r.D.items())), tuple(sorted(r.V.items())), tuple(x[0] for x in h[-2:]))
                if key in seen:
                    continue
                seen.add(key)
                ctx.state(conf, key)
                if len(h) < maxd:
                    nxt += [h + [op] for op in alphabet]
            frontier = nxt
        ctx.sample("%s: first operation %s, %d states, depth %d" % (conf, first, len(seen), depth))

    def cases():
        for c in CONF:
            yield [c, None]
            for op in ops(CONF[c][1]):
                yield [c, op]

    def run_final(ctx, case):
        """posteriors and likelihood built at different moments share one state"""
        conf = case[0]
        spec, names = CONF[conf]
        post = M.build(spec)
        like = post.likelihood
        other = radvel.posterior.Posterior(like)
        n = names[0]
        for editor in (post, other, like):
            editor.params[n].vary = False
            editor.vector.dict_to_vector()
            for o in (post, other, like):
                ctx.check(n not in o.name_vary_params() and len(o.get_vary_params()) == len(o.name_vary_params()), "shared-state", "%s" % conf)
            editor.params[n].vary = True
            editor.params[n].value = editor.params[n].value
            editor.vector.dict_to_vector()
            for o in (post, other, like):
                ctx.check(n in o.name_vary_params() and len(o.get_vary_params()) == len(o.name_vary_params()), "shared-state", "%s" % conf)
        # step sizes and linear flags reach the vector, and come out unharmed
        for i, k in enumerate(post.params):
            post.params[k].mcmcscale = [None, 0.5, 2.0][i % 3]
            post.params[k].linear = i % 2 == 1
        post.vector.dict_to_vector()
        for i, k in enumerate(post.params):
            ctx.check(post.vector.vector[post.vector.indices[k]][2] == [0, 0.5, 2.0][i % 3], "scale", "%s %s" % (conf, k))
            ctx.check(bool(post.vector.vector[post.vector.indices[k]][3]) == (i % 2 == 1), "linear", "%s %s" % (conf, k))
            post.params[k].linear = False
        # what the getters return belongs to the caller: writing to it changes nothing
        for allvary in (False, True):
            for k in post.params:
                post.params[k].vary = allvary or k == n
            post.vector.dict_to_vector()
            for o in (post, other, like):
                before = post.vector.vector.copy()
                got = o.get_vary_params()
                was = np.array(got)
                names_ = o.name_vary_params()
                keep = list(names_)
                got += 1.0
                names_.reverse()
                names_.append('x')
                ctx.check(np.array_equal(before, post.vector.vector, equal_nan=True) and list(o.name_vary_params()) == keep and np.array_equal(o.get_vary_params(), was), "returned-arrays-shared", "%s all vary %s" % (conf, allvary))
                mine = o.get_vary_params() * 1.0
                o.set_vary_params(mine)
                mine += 3.0
                ctx.check(np.array_equal(before[:, 0], post.vector.vector[:, 0]), "given-array-shared", "%s all vary %s" % (conf, allvary))
        ctx.state("final", conf)

    def draw_cases():
        for c in CONF:
            for idx in ('plain', 'gaps', 'reversed', 'duplicate', 'labels'):
                for vary in ('all', 'alternate', 'first'):
                    yield [c, idx, vary]

    def run_draw(ctx, case):
        """setting the varying parameters of the model itself, and the models drawn from a table of samples"""
        import pandas as pd
        conf, idx, vary = case
        spec, _ = CONF[conf]
        post = M.build(spec)
        mod = post.model
        mod.list_vary_params()
        extra = 'late_parameter'
        mod.params[extra] = radvel.Parameter(value=7.0, vary=True)
        mod.vector.init_index_dict()
        allp = list(mod.params.keys())
        for j, n in enumerate(allp):
            mod.params[n].vary = {'all': True, 'alternate': j % 2 == 0, 'first': j == 0}[vary]
        mod.vector.dict_to_vector()
        mod.vector.vector_names()
        names = mod.list_vary_params()
        ctx.check(sorted(names) == sorted(n for n in allp if mod.params[n].vary), "model-names", lambda: "%s: %s" % (case, names))
        v0 = {n: mod.params[n].value for n in allp}
        new = {n: (v0[n] * 1.03 + 0.01) for n in names}
        t = np.array([M.T0 + 1.0, M.T0 + 9.7, M.T0 + 33.3])
        mod.array_to_params([new[n] for n in names])
        want = dict(v0, **new)
        ctx.check(all(mod.params[n].value == want[n] and mod.vector.vector[mod.vector.indices[n]][0] == want[n] for n in allp), "model-array", lambda: str(case))
        ctx.check(mod.list_vary_params() == names, "model-array-flags", lambda: str(case))
        ctx.check(close(mod(t), M.ref_model(spec, want, t), 1e-8, 1e-8), "model-array-signal", lambda: "%s: %s vs %s" % (case, mod(t), M.ref_model(spec, want, t)))
        mod.array_to_params([v0[n] for n in names])
        N = 4
        rows = [{n: v0[n] * (1 + 0.01 * (j + 1)) for n in names} for j in range(N)]
        ch = pd.DataFrame([dict(r, lnprobability=-1.0) for r in rows])[['lnprobability'] + names[::-1]]
        ch.index = {'plain': range(N), 'gaps': [3, 9, 12, 40], 'reversed': [3, 2, 1, 0], 'duplicate': [0, 0, 1, 1], 'labels': list('wxyz')}[idx]
        keep = ch.copy()
        vec = mod.vector.vector.copy()
        out = radvel.utils.draw_models_from_chain(mod, ch, t, nsamples=12)
        ref = np.array([M.ref_model(spec, dict(v0, **r), t) for r in rows])
        ctx.check(out.shape == (12, 3), "draw-shape", lambda: "%s: %s" % (case, out.shape))
        ctx.check(all(any(close(o, r, 1e-8, 1e-8) for r in ref) for o in out), "draw-models", lambda: "%s: %s not among %s" % (case, out, ref))
        ctx.check(len({tuple(np.round(o, 9)) for o in out}) > 1 or len({tuple(np.round(r, 9)) for r in ref}) == 1, "draw-varies", lambda: str(case))
        ctx.check(np.array_equal(mod.vector.vector, vec) and all(mod.params[n].value == v0[n] for n in allp) and mod.list_vary_params() == names and ch.equals(keep), "draw-side-effect", lambda: str(case))
        ctx.state("draw", *case)
        ctx.trace()

    return [Suite("histories", cases, run, timeout=600), Suite("draws", draw_cases, run_draw), Suite("shared", [[c] for c in CONF], run_final)]


if __name__ == "__main__":
    main("R04", suites, "model_checking",
         "a state is (dictionary values and flags, vector values and flags, last two operation kinds) reached by a history of "
         "operations on a freshly built real posterior; every history is replayed on the implementation and compared with a "
         "reference model of dictionary, vector and free-parameter list; log-probability is compared with an independent formula",
         "6 model configurations, 19 operations, all histories of length <= 3 (4 for the simplest configuration, 5 in the thorough tier) up to state equality")
