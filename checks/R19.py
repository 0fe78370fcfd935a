import itertools
import math
import os
from vlib.core import *
from vlib import models as M
from vlib import setups as S


def suites():
    import numpy as np
    import pandas as pd
    import radvel
    from radvel import utils as U
    # defining constants (IAU 2015 / CODATA values; the code may take them from anywhere)
    G, MS, MJ, ME, RE, RJ, AU, DAY = 6.6743e-11, 1.988409870698051e30, 1.8981245973360505e27, 5.972167867791379e24, 6378100.0, 71492000.0, 149597870700.0, 86400.0
    UNIT = {'jupiter': MJ, 'earth': ME}
    TOL = 6e-5           # the documented normalisation K_0 is given to six digits

    def K_of(m, P, Mtot, e):        # kg, d, Msun
        return (2 * math.pi * G / (P * DAY)) ** (1 / 3.) * m / (Mtot * MS) ** (2 / 3.) / np.sqrt(1 - e * e)

    PER = [0.31, 3.7, 365.25, 4.3e3, 1e5]
    MST = [0.08, 0.7, 1.0, 12.0]
    ECC = [0.0, 0.1, 0.5, 0.9, 0.99]
    RAT = [1e-7, 1e-4, 0.01, 0.0999, 0.101, 0.2, 0.7, 1.0, 6.0, 40.0]
    UN = ['jupiter', 'earth', 'Jupiter', 'EARTH']

    def near(a, b, tol):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.abs(b)))

    def phys_cases():
        for P, Ms in itertools.product(PER, MST):
            yield [P, Ms]

    def phys_run(ctx, case):
        P, Ms = case
        for e, q, un in itertools.product(ECC, RAT, UN):
            u = UNIT[un.lower()]
            m = q * Ms * MS / u
            msg = lambda: "P %s Mstar %s e %s ratio %s %s" % (P, Ms, e, q, un)
            big = q > 0.1
            # semi-amplitude from mass: the definition with the total mass
            for Mt in (Ms, Ms * (1 + q)):
                K = U.semi_amplitude(m, P, Mt, e, Msini_units=un)
                ctx.check(near(K, K_of(m * u, P, Mt, e), TOL), "semi-amplitude", lambda: "%s: %r" % (msg(), K))
            K = U.semi_amplitude(m, P, Ms * (1 + q), e, Msini_units=un)
            if q < 0.09 or q > 0.13:
                got = U.Msini(K, P, Ms, e, Msini_units=un)
                # the small-mass formula neglects the planet in the total mass
                ctx.check(near(got, m if big else m * (1 + q) ** (-2 / 3.), 3.1 * TOL), "inverse", lambda: "%s: %r instead of %r" % (msg(), got, m))
            if not big and q < 0.09:
                K = U.semi_amplitude(m, P, Ms, e, Msini_units=un)
                got = U.Msini(K, P, Ms, e, Msini_units=un)
                ctx.check(near(got, m, 1e-9), "inverse-small", lambda: "%s: %r instead of %r" % (msg(), got, m))
            ctx.state(P, Ms, e, q, un)
        a = U.semi_major_axis(P, Ms)
        ctx.check(near(a, (G * Ms * MS * (P * DAY) ** 2 / (4 * math.pi ** 2)) ** (1 / 3.) / AU, 1e-9), "third-law", lambda: "%s: %r" % (case, a))
        for un, r in (('jupiter', RJ), ('earth', RE), ('Jupiter', RJ), ('EARTH', RE)):
            for mm, rr in itertools.product([0.1, 1.0, 17.0, 400.0], [0.3, 1.0, 11.0]):
                want = mm * UNIT[un.lower()] / (4 / 3. * math.pi * (rr * r) ** 3) / 1000.
                got = U.density(mm, rr, MR_units=un)
                ctx.check(near(got, want, 1e-9), "density", lambda: "%s %s %s: %r, expected %r" % (mm, rr, un, got, want))
                if un == 'earth':
                    ctx.check(near(U.density(mm, rr), want, 1e-9), "density-default", '')
        m = 3.0
        ctx.check(U.semi_amplitude(m, P, Ms, 0.2) == U.semi_amplitude(m, P, Ms, 0.2, Msini_units='jupiter'), "default-unit-K", str(case))
        ctx.check(U.Msini(m, P, Ms, 0.2) == U.Msini(m, P, Ms, 0.2, Msini_units='earth'), "default-unit-M", str(case))
        for f in (lambda: U.semi_amplitude(m, P, Ms, 0.2, Msini_units='solar'), lambda: U.Msini(m, P, Ms, 0.2, Msini_units='solar'), lambda: U.density(m, 1.0, MR_units='solar')):
            try:
                r = f()
            except Exception:
                continue
            ctx.fail("unknown-unit", "accepted, gave %r" % (r,))

    # scalars, arrays and mixtures
    COL = dict(P=[3.7, 365.25, 12.0], Ms=[1.0, 0.7, 1.2], e=[0.0, 0.4, 0.8])
    KS = {'small': [1.0, 25.0, 300.0], 'large': [1e4, 6e4, 2e5], 'across': [1.0, 3e4, 9e4], 'int': [3, 50, 700], 'zero': [0.0, 4e4, 10.0]}
    FORMS = ['scalar', 'np.float64', '0d', 'one', 'array', 'series', 'odd-index']

    def form_cases():
        for ks in KS:
            for f in itertools.product(FORMS, repeat=2):
                for rest in itertools.product(['scalar', 'array', 'series'], repeat=2):
                    yield [ks, list(f) + list(rest)]

    def shape_of(x, f):
        if f == 'scalar':
            return x[0]
        if f == 'np.float64':
            return np.float64(x[0])
        if f == '0d':
            return np.array(x[0])
        if f == 'one':
            return np.array(x[:1])
        if f == 'array':
            return np.array(x)
        return pd.Series(x, index=[5, 3, 9] if f == 'odd-index' else None)

    def form_run(ctx, case):
        ks, f = case
        src = [KS[ks], COL['P'], COL['Ms'], COL['e']]
        args = [shape_of(x, g) for x, g in zip(src, f)]
        keep = [np.array(a, copy=True) for a in args]
        vals = np.broadcast_arrays(*[np.asarray(a, float) for a in args])
        shape = vals[0].shape
        flat = [v.ravel() for v in vals]
        got = U.Msini(*args, Msini_units='jupiter')
        # approximation for small masses unless any element is above a tenth of its star
        approx = np.array([K * np.sqrt(1 - e * e) / (2 * math.pi * G / (P * DAY)) ** (1 / 3.) * (Ms * MS) ** (2 / 3.) for K, P, Ms, e in zip(*flat)])
        ratio = approx / (flat[2] * MS)
        exact = np.array([solve(K, P, Ms, e) for K, P, Ms, e in zip(*flat)])
        want = (exact if (ratio > 0.1).any() else approx) / MJ
        ctx.check(np.shape(got) == shape, "shape", lambda: "%s: %s instead of %s" % (case, np.shape(got), shape))
        ctx.check(near(np.ravel(got), want, 3.1 * TOL), "elementwise", lambda: "%s: %s, expected %s" % (case, got, want))
        got = U.semi_amplitude(*args)
        want = K_of(flat[0] * MJ, flat[1], flat[2], flat[3])
        ctx.check(np.shape(got) == shape and near(np.ravel(got), want, TOL), "semi-amplitude-elementwise", lambda: "%s: %s, expected %s" % (case, got, want))
        got = U.semi_major_axis(args[1], args[2])
        want = (G * vals[2] * MS * (vals[1] * DAY) ** 2 / (4 * math.pi ** 2)) ** (1 / 3.) / AU
        ctx.check(near(np.broadcast_to(got, shape), want, 1e-9), "third-law-elementwise", lambda: "%s: %s" % (case, got))
        rho = U.density(args[0], args[1])
        ctx.check(near(np.broadcast_to(rho, shape), vals[0] * ME / (4 / 3. * math.pi * (vals[1] * RE) ** 3) / 1000., 1e-9), "density-elementwise", lambda: "%s: %s" % (case, rho))
        ctx.check(all(np.array_equal(a, b) for a, b in zip(args, keep)), "inputs-modified", lambda: str(case))
        ctx.state(ks, *f)

    def solve(K, P, Ms, e):
        a = K * np.sqrt(1 - e * e) / (2 * math.pi * G / (P * DAY)) ** (1 / 3.)
        lo, hi = 0.0, max(Ms * MS, 4 * a ** 3) * 2
        for _ in range(300):
            mid = (lo + hi) / 2
            if mid - a * (Ms * MS + mid) ** (2 / 3.) < 0:
                lo = mid
            else:
                hi = mid
        return lo

    # the `derive` step: every derived column belongs to the samples of its own row
    def derive_cases():
        for basis in ('per tc secosw sesinw k', 'per tp e w k', 'logper tc se w logk'.replace('logper tc se w logk', 'logper tp e w logk'), 'per tc se w k', 'per tc ecosw esinw k'):
            for npl in (1, 2, 3):
                for fixed in ('none', 'circular', 'period', 'planet1', 'last'):
                    for big in (False, True):
                        for planet in ('none', 'all', 'second'):
                            yield [basis, npl, fixed, big, planet]

    class Args(object):
        pass

    def derive_run(ctx, case):
        from radvel import driver
        basis, npl, fixed, big, planet = case
        spec = dict(basis=basis, npl=npl, insts=[M.inst('j', 7)], trend=['dvdt'])
        vals = M.start_values(spec)
        b = basis.split()
        if big:
            for n in range(1, npl + 1):
                kk = 'k%d' % n if 'k' in b else 'logk%d' % n
                vals[kk] = 3e4 * n if 'k' in b else math.log(3e4 * n)
        vary = {}
        for n in range(1, npl + 1):
            for p in b:
                off = {'none': False, 'circular': p in ('e', 'w', 'secosw', 'sesinw', 'se', 'ecosw', 'esinw'), 'period': p in ('per', 'logper', 'tc', 'tp'),
                       'planet1': n == 1, 'last': n == npl and npl > 1}[fixed]
                vary[p + str(n)] = not off
        d = os.path.join(scratch(), 'derive_%d' % os.getpid())
        os.makedirs(d, exist_ok=True)
        cwd = os.getcwd()
        os.chdir(d)
        pl = {}
        for n in range(1, npl + 1):
            if planet == 'all' or (planet == 'second' and n == 2):
                pl['rp%d' % n], pl['rp_err%d' % n] = 1.5 * n, (0.1 if n == 1 else 1e-3)
        S.write_setup(d, 'sys', spec, values=vals, vary=vary, stellar=dict(mstar=0.9, mstar_err=0.05), planet=pl if planet != 'none' else None)
        post = M.build(spec, values=vals, vary=vary)
        names = post.name_vary_params()
        N = 12
        ch = pd.DataFrame({n: vals[n] * (1 + 0.01 * np.sin(np.arange(N) * 1.3 + i)) for i, n in enumerate(names)})
        ch['lnprobability'] = -50.0 - np.arange(N)
        ch.to_csv('sys_chains.csv.bz2', compression='bz2')
        post.writeto('sys_post_obj.pkl')
        driver.save_status('sys_radvel.stat', 'mcmc', dict(run=True, chainfile='sys_chains.csv.bz2', postfile='sys_post_obj.pkl'))
        a = Args()
        a.setupfn, a.outputdir, a.decorr, a.sampler = os.path.join(d, 'sys.py'), '.', False, 'auto'
        try:
            driver.derive(a)
            out = pd.read_csv('sys_derived.csv.bz2', index_col=0)
            q = pd.read_csv('sys_derived_quantiles.csv', index_col=0)
            st = driver.load_status('sys_radvel.stat')
            pd_ = radvel.posterior.load('sys_post_obj.pkl').derived
            ctx.check(set(pd_.columns) == {c for c in q.columns} and all(near(pd_[c].values, q[c].values, 1e-9) for c in q.columns), "derived-posterior", lambda: "%s: %s, table %s" % (case, pd_, q))
            ctx.check(st.getboolean('derive', 'run') and st.get('derive', 'chainfile') == 'sys_derived.csv.bz2' and st.get('derive', 'quantfile') == 'sys_derived_quantiles.csv', "derive-status", str(case))
        finally:
            os.chdir(cwd)
        ctx.trace()
        want = set()
        stars = []
        for n in range(1, npl + 1):
            want |= {'mpsini%d' % n, 'a%d' % n, 'musini%d' % n} | ({'rhop%d' % n} if 'rp%d' % n in pl else set())
        ctx.check(set(out.columns) - {'rp%d' % n for n in range(1, npl + 1)} == want, "derived-columns", lambda: "%s: %s" % (case, list(out.columns)))
        ctx.check(len(out) == N, "derived-rows", lambda: "%s: %d" % (case, len(out)))
        from vlib import oracle as O
        for n in range(1, npl + 1):
            m, ax, mu = (out['%s%d' % (x, n)].values for x in ('mpsini', 'a', 'musini'))
            mst = m * ME / mu / MS                          # the stellar mass drawn for the row
            stars.append(mst)
            ctx.check(bool(np.all((mst > 0.5) & (mst < 1.3))), "stellar-mass", lambda: "%s: %s" % (case, mst))
            rows = [{p: (ch[p + str(n)][j] if p + str(n) in names else vals[p + str(n)]) for p in b} for j in range(N)]
            orb = np.array([O.to_synth(basis, r) for r in rows])
            per, ecc, k = orb[:, 0], orb[:, 2], orb[:, 4]
            app = k * np.sqrt(1 - ecc ** 2) / (2 * math.pi * G / (per * DAY)) ** (1 / 3.) * (mst * MS) ** (2 / 3.)
            ex = np.array([solve(*x) for x in zip(k, per, mst, ecc)])
            w = (ex if (app / (mst * MS) > 0.1).any() else app) / ME
            ctx.check(near(m, w, 3.1 * TOL), "derived-mass", lambda: "%s planet %d: %s, expected %s" % (case, n, m, w))
            w = (G * (mst * MS + m * ME) * (per * DAY) ** 2 / (4 * math.pi ** 2)) ** (1 / 3.) / AU
            ctx.check(near(ax, w, 1e-6), "derived-axis", lambda: "%s planet %d: %s, expected %s" % (case, n, ax, w))
            if 'rp%d' % n in pl:
                r = (m * ME / (out['rhop%d' % n].values * 1000.) / (4 / 3. * math.pi)) ** (1 / 3.) / RE
                ctx.check(bool(np.all(np.abs(r - 1.5 * n) < (0.7 if n == 1 else 0.01))) and len(set(r)) == N and (n > 1 or np.max(np.abs(r - 1.5)) > 0.01), "derived-density", lambda: "%s planet %d: radii %s" % (case, n, r))
        ctx.check(all(near(s, stars[0], 1e-9) for s in stars), "stellar-mass-shared", lambda: "%s: %s" % (case, stars))
        for cname in want:
            ctx.check(near(q[cname].values, out[cname].quantile([0.159, 0.5, 0.841]).values, 1e-9), "derived-quantiles", lambda: "%s %s" % (case, cname))
        ctx.state('derive', *case)

    return [Suite("physics", phys_cases, phys_run), Suite("forms", form_cases, form_run), Suite("derive", derive_cases, derive_run)]


if __name__ == "__main__":
    main("R19", suites, "exploration",
         "lattice of (period, stellar mass, eccentricity, mass ratio, unit) against the defining two-body formulas; all combinations of argument forms "
         "(Python/NumPy scalar, 0-d, one-element, array, Series) in the small-mass and in the exact regime; the derive step on the real driver for bases x fixed "
         "parameters x planets x radii, every output row recomputed from its own chain row",
         "5x4x5x10x4 lattice; 5 K regimes x 7x7x3x3 forms; 5 bases x 3 system sizes x 5 fixed sets x 2 regimes x 3 radius tables")
