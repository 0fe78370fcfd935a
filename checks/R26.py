import contextlib
import copy
import io
import itertools
import math
import re
import shutil
from vlib.core import *
from vlib import models as M
from vlib import oracle as O

I = M.inst
TABLE = {'j': ('HIRES', 'o', 'k'), 'k': ('HIRES pre 2004', 's', 'k'), 'a': ('APF', 'd', 'g'), 'pfs': ('PFS', 'p', 'magenta'), 'h': ('HARPS', 's', 'firebrick'), 'harps-n': ('HARPS-N', '^', 'firebrick'),
         'l': ('LICK', '*', 'g'), 'lick': ('LICK', '*', 'g'), 'hires_rj': ('HIRES', 'o', 'k'), 'hires': ('HIRES', 'o', 'k'), 'hires_rk': ('HIRES pre 2004', 's', 'k'), 'apf': ('APF', 'd', 'g'),
         'harps': ('HARPS', 's', 'firebrick'), 'LICK': ('LICK', '*', 'g'), 'HIRES_RJ': ('HIRES', 'o', 'k'), 'HIRES': ('HIRES', 'o', 'k'), 'HIRES_RK': ('HIRES pre 2004', 's', 'k'), 'APF': ('APF', 'd', 'g'),
         'HARPS': ('HARPS', 's', 'firebrick'), 'HARPS-N': ('HARPS-N', '^', 'firebrick'), 'PFS': ('PFS', 'p', 'magenta')}


def conf():
    C = {}
    B = ['per tc secosw sesinw k', 'per tc e w k', 'per tp e w k', 'logper tc secosw sesinw logk', 'per tc ecosw esinw k', 'per tc se w k']
    for i, b in enumerate(B):
        C['b%d' % i] = dict(basis=b, npl=1 + i % 3, insts=[I('j', 12), I('zz', 11)][:1 + i % 2], trend=[['dvdt', 'curv'], [], ['dvdt'], ['curv']][i % 4])
    C['slow'] = dict(basis=B[1], npl=2, insts=[I('j', 12), I('k', 11)], trend=['dvdt'], start={'per2': 170.0, 'e2': 0.3})
    C['none'] = dict(basis=B[1], npl=0, insts=[I('j', 9)], trend=['dvdt'])
    C['few'] = dict(basis=B[1], npl=1, insts=[I('a', 4)], trend=[])
    C['nosuffix'] = dict(basis=B[1], npl=1, insts=[I('', 8)], trend=[])
    C['unsorted'] = dict(basis=B[0], npl=2, insts=[I('zb', 8, sort=False), I('za', 17, sort=False)], trend=['dvdt'])
    C['unknown3'] = dict(basis=B[1], npl=1, insts=[I('zc', 6), I('za', 17), I('zb', 5)], trend=['dvdt', 'curv'])
    C['unknown12'] = dict(basis=B[1], npl=1, insts=[I('z%02d' % ((i * 5) % 12), 4 + i % 3) for i in range(12)], trend=[])
    C['known'] = dict(basis=B[1], npl=1, insts=[I(x, 4) for x in TABLE if x[0] != 'h' or x[-1] != 'k'], trend=[])
    C['decorr'] = dict(basis=B[1], npl=1, insts=[I('j', 9, decorr=['s', 'bis']), I('k', 7)], trend=[])
    C['linear'] = dict(basis=B[1], npl=1, insts=[I('j', 12, linear=True), I('k', 10, linear=True)], trend=['dvdt'])
    C['gpsq'] = dict(basis=B[1], npl=1, insts=[I('j', 9, 'gp:SqExp')], trend=[])
    C['gpun'] = dict(basis=B[0], npl=1, insts=[I('zb', 8, 'gp:QuasiPer'), I('za', 13, 'gp:SqExp')], trend=['dvdt'])
    C['gpshared'] = dict(basis=B[1], npl=2, insts=[I('j', 8, 'gp:QuasiPer', shared=True), I('zz', 7, 'gp:QuasiPer', shared=True)], trend=[])
    C['gpprefix'] = dict(basis=B[1], npl=1, insts=[I('j', 8, 'gp:SqExp'), I('j1', 7, 'gp:QuasiPer'), I('j12', 5)], trend=[])
    C['gpmix'] = dict(basis=B[2], npl=1, insts=[I('zz', 6), I('za', 8, 'gp:Per', sort=False), I('k', 7)], trend=['curv'])
    C['gpcel'] = dict(basis=B[1], npl=1, insts=[I('j', 9, 'gp:Celerite')], trend=[])
    C['gpnone'] = dict(basis=B[1], npl=0, insts=[I('j', 9, 'gp:SqExp'), I('k', 8, 'gp:SqExp')], trend=['dvdt'])
    return C


CONF = conf()
RVS = [c for c in CONF if not c.startswith('gp')]
GPS = [c for c in CONF if c.startswith('gp')]
# telfmts given by the user; '*' stands for every instrument
FMTS = [None, {'zz': dict(fmt='s')}, {'za': dict(fmt='^', label='Alpha'), 'zb': dict(fmt='p')}, {'j': dict(fmt='s', color='blue', label='mine')}, {'zc': dict(fmt='d', color='cyan')}, {'*': dict(fmt='v')},
        {'*': dict(fmt='*', color='teal', label='same')}]


def suites():
    import numpy as np
    import pandas as pd
    import matplotlib
    matplotlib.use('agg')
    from matplotlib import pyplot as pl
    from matplotlib.colors import to_rgba
    from matplotlib.collections import PolyCollection
    import radvel
    import radvel.plot
    from radvel.plot import orbit_plots as OP
    from radvel.plot import mcmc_plots as MP
    P = radvel.plot

    # saving is observed, not done
    saved = []
    real_save = matplotlib.figure.Figure.savefig
    matplotlib.figure.Figure.savefig = lambda self, fname, *a, **k: saved.append((fname, self))
    matplotlib.figure.Figure.tight_layout = lambda self, *a, **k: None

    # the prediction on 3000 points is expensive, and R07/R08 decide that it is a function of data and hyperparameters: remember it
    memo = {}

    def remember(real):
        def predict(self, xpred):
            if THOROUGH or len(xpred) < 1000:
                return real(self, xpred)
            try:
                key = (type(self).__name__, type(self.kernel).__name__, self.suffix, tuple(self.hnames), self.params.basis.name, tuple(self.vector.indices), self.x.tobytes(), self.y.tobytes(),
                       self.yerr.tobytes(), np.asarray(xpred).tobytes(), self.vector.vector.tobytes())
            except AttributeError:
                return real(self, xpred)
            if key not in memo:
                if len(memo) > 60:
                    memo.clear()
                memo[key] = real(self, xpred)
            return tuple(np.array(x) for x in memo[key])
        return predict
    for c in (radvel.likelihood.GPLikelihood, radvel.likelihood.CeleriteLikelihood):
        if 'predict' in vars(c):
            c.predict = remember(c.predict)

    def quiet():
        return contextlib.redirect_stdout(io.StringIO())

    # -------------------------------------------------------------------------- reference
    class Ref:
        """what has to be on the panels: per instrument times, residuals, error bars, orbit, GP mean"""
        def __init__(self, spec, shift=0.0):
            self.spec, self.vals = spec, M.start_values(spec)
            self.shift = shift
            self.rows = {}
            for i, ins in enumerate(spec['insts']):
                t, v, e = M.data(i, ins['n'], ins['sort'])
                r, err, _ = M.ref_inst(spec, i, self.vals)
                m = M.ref_model(spec, self.vals, t)
                mu = np.zeros(len(t))
                if ':' in ins['kind']:
                    mu = self.gp(i, t)[0]
                self.rows[ins['suffix']] = dict(t=t, r=r - mu, e=err, m=m, mu=mu, i=i)

        def gp(self, i, x, sd=False):
            ins = self.spec['insts'][i]
            t, v, e = M.data(i, ins['n'], ins['sort'])
            r, err, _ = M.ref_inst(self.spec, i, self.vals)
            kind, h = ins['kind'].split(':')[1], M.hyper(ins, self.vals)
            K = M.ref_kernel(kind, h, t, t) + np.diag(err ** 2)
            Ks = M.ref_kernel(kind, h, x, t)
            mu = Ks @ np.linalg.solve(K, r)
            if not sd:
                return mu, None
            k0 = M.ref_kernel(kind, h, x[:1], x[:1])[0, 0]
            return mu, k0 - np.einsum('ij,ji->i', Ks, np.linalg.solve(K, Ks.T))

        def planet(self, n):
            return O.to_synth(self.spec['basis'], {k: self.vals[k + str(n)] for k in self.spec['basis'].split()})

        def signal(self, n, t):
            return O.rv(t, *self.planet(n))

        def tc(self, n):
            # the reference time of the parametrisation: conjunction, or periastron if that is what is parametrised
            per, tp, e, w, k = self.planet(n)
            return per, (tp if 'tp' in self.spec['basis'].split() else O.tc_of_tp(tp, per, e, w))

    # -------------------------------------------------------------------------- reading a panel
    def containers(ax):
        out = []
        for c in ax.containers:
            line, caps, bars = c.lines
            x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
            seg = bars[0].get_segments()
            lo, hi = np.array([s[0][1] for s in seg]), np.array([s[-1][1] for s in seg])
            out.append(dict(x=x, y=y, lo=np.minimum(lo, hi), hi=np.maximum(lo, hi), ex=np.array([s[0][0] for s in seg]), label=c.get_label(), marker=line.get_marker(), color=to_rgba(line.get_color()),
                            mfc=line.get_markerfacecolor(), mec=to_rgba(line.get_markeredgecolor())))
        return out

    def binned(c):
        return c['mec'] == to_rgba('w') and c['color'] == to_rgba('r')

    def curves(ax):
        return [l for l in ax.lines if len(np.atleast_1d(l.get_xdata())) > 60]

    def where(ref, x, y, pts):
        """names of the instruments whose expected points `pts` (dict name -> (x, y, e)) contain (x, y)"""
        return [n for n, (px, py, pe) in pts.items() if np.any((np.abs(px - x) < 1e-7) & (np.abs(py - y) < 1e-6 * (1 + np.abs(y))))]

    def check_points(ctx, ax, pts, what, msg, only=None):
        """every expected point once, in the container of its own instrument; returns {instrument: container}"""
        cs = [c for c in containers(ax) if not binned(c)]
        if not ctx.check(len(cs) == len(pts), what + "-instruments", lambda: "%s: %d sets of points for %d instruments" % (msg(), len(cs), len(pts))):
            return {}
        found = {}
        for c in cs:
            hits = [n for n, (px, py, pe) in pts.items() if len(px) == len(c['x']) and close(np.sort(c['x']), np.sort(px), rtol=0, atol=1e-6)]
            if only is not None and not set(hits) & set(only):
                continue
            hits = [n for n in hits if only is None or n in only]
            if not ctx.check(len(hits) >= 1, what + "-times", lambda: "%s: points at %s belong to no instrument" % (msg(), c['x'][:5])):
                continue
            ok = []
            for n in hits:
                px, py, pe = pts[n]
                a, b = np.lexsort((py, px)), np.lexsort((c['y'], c['x']))
                if close(c['y'][b], py[a], rtol=1e-6, atol=1e-6):
                    ok.append((n, a, b))
            if not ctx.check(len(ok) >= 1, what + "-values", lambda: "%s: instrument %s shown at %s, expected %s" % (msg(), hits, c['y'][:4], [pts[n][1][:4] for n in hits])):
                continue
            n, a, b = ok[0]
            px, py, pe = pts[n]
            order = np.argsort(c['ex'], kind='stable')
            half = (c['hi'] - c['lo']) / 2
            ctx.check(close(np.sort(half), np.sort(pe), rtol=1e-7) and close(c['hi'] - half, c['y'], rtol=1e-7, atol=1e-7) and close(half[b], pe[a], rtol=1e-7), what + "-error-bars",
                      lambda: "%s: %s: %s, expected %s" % (msg(), n, half[b][:4], pe[a][:4]))
            ctx.check(n not in found, what + "-twice", lambda: "%s: %s" % (msg(), n))
            found[n] = c
        ctx.check(set(found) == set(pts if only is None else only), what + "-missing", lambda: "%s: found %s" % (msg(), list(found)))
        return found

    def style(ctx, found, fm, colours, msg, rms=None):
        for n, c in found.items():
            f = fm.get(n)
            label, marker, color = TABLE.get(n, (n, 'o', None))
            if f is not None:
                label, marker, color = f.get('label', label), f.get('fmt', 'o'), f.get('color')
            if rms:
                got = c['label'].split('\n')
                got[0] = label if not label and got[0].startswith('_') else got[0]
                ctx.check(len(got) == 2 and any(('%.2f' % r) in got[1] for r in rms[n]), "rms", lambda: "%s: %s, expected %s" % (msg(), c['label'], rms[n]))
                ctx.check(got[0] == label, "label", lambda: "%s: %s: %s" % (msg(), n, c['label']))
            else:
                ctx.check(c['label'] == label or not label and c['label'].startswith('_'), "label", lambda: "%s: %s: %s, expected %s" % (msg(), n, c['label'], label))
            ctx.check(c['marker'] == marker, "marker", lambda: "%s: %s: %s, expected %s" % (msg(), n, c['marker'], marker))
            if color is not None:
                ctx.check(c['color'] == to_rgba(color), "colour", lambda: "%s: %s: %s, expected %s" % (msg(), n, c['color'], color))
            prev = colours.setdefault(n, c['color'])
            ctx.check(prev == c['color'], "colour-changes", lambda: "%s: %s was %s, now %s" % (msg(), n, prev, c['color']))
        free = [n for n in found if (n not in TABLE and 'color' not in fm.get(n, {})) or (n in fm and 'color' not in fm[n])]
        if len(free) <= 9:
            cols = [found[n]['color'] for n in free]
            ctx.check(len(set(cols)) == len(cols), "colours-distinct", lambda: "%s: %s" % (msg(), {n: found[n]['color'] for n in free}))

    def check_curve(ctx, line, fn, tz, lo, hi, what, msg, atol=1e-6):
        x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
        want = fn(x + tz)
        bad = ~(np.abs(y - want) < 1e-6 * np.abs(want) + atol)
        ctx.check(not bad.any(), what + "-curve", lambda: "%s: at %s the curve is %s, the model %s" % (msg(), x[bad][:3], y[bad][:3], want[bad][:3]))
        ctx.check(x.min() <= lo + 1e-6 and x.max() >= hi - 1e-6, what + "-curve-range", lambda: "%s: drawn on %s..%s, data on %s..%s" % (msg(), x.min(), x.max(), lo, hi))

    def decimal_year(jd):
        return 2000.0 + (jd - 2451544.5) / 365.2425

    class View:
        """one plotting object with its reference"""
        def __init__(self, ctx, name, opts, gp, fm_i=0, shift=0.0, vals=None):
            self.ctx, self.name, self.opts, self.gp = ctx, name, opts, gp
            self.spec = CONF[name]
            self.ref = Ref(self.spec)
            self.post = M.build(self.spec)
            sfx = [x['suffix'] for x in self.spec['insts']]
            f = FMTS[fm_i]
            self.fm = {} if f is None else {s: dict(f.get(s, f.get('*'))) for s in sfx if s in f or '*' in f}
            if f is None:
                self.user = None
            else:
                self.user = copy.deepcopy(self.fm)
                self.kept = copy.deepcopy(self.user)
            self.colours = {}
            kw = dict(opts)
            if self.user is not None:
                kw['telfmts'] = self.user
            self.lk = kw.get('legend_kwargs')
            self.kw = kw
            self.post.logprob()
            self.before = self.snapshot()
            self.obj = (OP.GPMultipanelPlot if gp else OP.MultipanelPlot)(self.post, **kw)
            e = opts.get('epoch', 2450000)
            self.year0 = self.tz = (e if e != 0 else 2450000)
            self.msg = lambda: "%s %s telfmts=%s" % (name, {k: v for k, v in opts.items()}, f)

        def snapshot(self):
            p = self.post
            return ({k: (v.value, v.vary, v.linear) for k, v in p.params.items()}, p.vector.vector.tolist(), float(p.logprob()), copy.deepcopy(P.telfmts_default), list(P.default_colors),
                    copy.deepcopy(P.highlight_format), list(p.name_vary_params()), copy.deepcopy(self.kw.get('uparams')), copy.deepcopy(self.kw.get('legend_kwargs')), p.params.basis.name,
                    [(l.x.tolist(), l.y.tolist(), l.yerr.tolist()) for l in getattr(p.likelihood, 'like_list', [p.likelihood])])

        def unchanged(self):
            self.ctx.check(self.snapshot() == self.before, "posterior-changed", self.msg)
            if self.user is not None:
                self.ctx.check(self.user == self.kept, "style-table-changed", lambda: "%s: %s" % (self.msg(), self.user))

        # ---- panels
        def xlim(self, ax, what):
            tmin, tmax = min(r['t'].min() for r in self.ref.rows.values()) - self.tz, max(r['t'].max() for r in self.ref.rows.values()) - self.tz
            lo, hi = ax.get_xlim()
            w = self.opts.get('set_xlim')
            if w is not None:
                self.ctx.check(close((lo, hi), w), what + "-limits", lambda: "%s: %s" % (self.msg(), (lo, hi)))
                return w
            self.ctx.check(lo <= tmin and hi >= tmax, what + "-limits", lambda: "%s: %s does not cover %s" % (self.msg(), (lo, hi), (tmin, tmax)))
            return tmin, tmax

        def timeseries(self, ax, only=None, first=True):
            ctx, ref, o = self.ctx, self.ref, self.opts
            pts = {}
            for n, r in ref.rows.items():
                y = r['r'].copy()
                if not (self.gp and o.get('subtract_orbit_model')):
                    y = y + r['m']
                if self.gp and not o.get('subtract_gp_mean_model'):
                    y = y + r['mu']
                pts[n] = (r['t'] - self.tz, y, r['e'])
            rms = {n: (np.std(r['r']), math.sqrt(np.mean(r['r'] ** 2))) for n, r in ref.rows.items()} if o.get('show_rms') else None
            found = check_points(ctx, ax, pts, 'timeseries', self.msg, only)
            style(ctx, found, self.fm, self.colours, self.msg, rms)
            lo, hi = self.xlim(ax, 'timeseries')
            model = (lambda t: M.ref_model(self.spec, ref.vals, t))
            lines = curves(ax)
            if not self.gp:
                if ctx.check(len(lines) == 1, "timeseries-curves", lambda: "%s: %d" % (self.msg(), len(lines))):
                    check_curve(ctx, lines[0], model, self.tz, lo, hi, 'timeseries', self.msg)
            else:
                self.gp_curves(ax, lines, model, lo, hi, only)
            if o.get('highlight_last'):
                self.highlight(ax, {n: (p[0], p[1]) for n, p in pts.items()}, lambda i, n: pts[n][0][i])
            leg = ax.get_legend()
            if o.get('legend', True) and first:
                if ctx.check(leg is not None, "legend", self.msg):
                    txt = [t.get_text() for t in leg.get_texts()]
                    for n, c in found.items():
                        ctx.check(not n or txt.count(c['label']) >= 1, "legend-entries", lambda: "%s: %s" % (self.msg(), txt))
            else:
                ctx.check(leg is None, "legend", self.msg)
            if first:
                tw = [a for a in ax.figure.axes if a is not ax and close(a.get_position().bounds, ax.get_position().bounds) and a.get_xlabel() == 'Year']
                if ctx.check(len(tw) == 1, "years", lambda: "%s: %d year axes" % (self.msg(), len(tw))):
                    w = [decimal_year(x + self.year0) for x in ax.get_xlim()]
                    ctx.check(close(tw[0].get_xlim(), w, rtol=0, atol=0.01), "years", lambda: "%s: %s, expected %s" % (self.msg(), tw[0].get_xlim(), w))

        def gp_curves(self, ax, lines, model, lo, hi, only):
            ctx, ref, o = self.ctx, self.ref, self.opts
            bands = [c for c in ax.collections if isinstance(c, PolyCollection)]
            gps = [n for n, r in ref.rows.items() if ':' in self.spec['insts'][r['i']]['kind'] and (only is None or n in only)]
            if not ctx.check(len(bands) == len(gps), "bands", lambda: "%s: %d bands for %s" % (self.msg(), len(bands), gps)):
                return
            plain = [n for n in ref.rows if n not in gps and (only is None or n in only)]
            nper = 3 if o.get('separate_orbit_gp') else 1
            ctx.check(len(lines) == nper * len(gps) + len(plain), "gp-curves", lambda: "%s: %d curves" % (self.msg(), len(lines)))
            zero = lambda t: np.zeros(len(t))
            orbit = zero if o.get('subtract_orbit_model') else model

            def total(n, t, sd=False):
                mu, var = ref.gp(ref.rows[n]['i'], t, sd)
                if o.get('subtract_gp_mean_model'):
                    mu = np.zeros(len(t))
                return mu, orbit(t), var
            used = []
            for n in gps:
                r = ref.rows[n]
                a, b = (r['t'].min() - self.tz, r['t'].max() - self.tz) if o.get('set_xlim') is None else o['set_xlim']
                best = None
                for i, band in enumerate(bands):
                    v = band.get_paths()[0].vertices
                    x = np.unique(v[:, 0])
                    x = x[(x >= a - 1e-9) & (x <= b + 1e-9)][::7]
                    if i in used or len(x) < 50:
                        continue
                    mu, orb, var = total(n, x + self.tz, True)
                    # floor of the variance: subtraction of nearly equal numbers
                    var = np.maximum(var, 0.0)
                    up, dn = [], []
                    for xx in x:
                        ys = v[np.abs(v[:, 0] - xx) < 1e-9, 1]
                        up.append(ys.max())
                        dn.append(ys.min())
                    up, dn = np.array(up), np.array(dn)
                    inner = slice(1, -1)
                    if close(((up + dn) / 2)[inner], (mu + orb)[inner], rtol=1e-5, atol=1e-4) and np.all(np.abs(((up - dn) / 2) ** 2 - var)[inner] < 1e-4 * (1 + var[inner])):
                        best = i
                        break
                if ctx.check(best is not None, "gp-band", lambda: "%s: no band is the GP prediction of %s" % (self.msg(), n)):
                    used.append(best)
                    col = to_rgba(bands[best].get_facecolor()[0][:3])
                    ctx.check(n not in self.colours or col[:3] == self.colours[n][:3], "gp-band-colour", lambda: "%s: band of %s is %s, its data %s" % (self.msg(), n, col, self.colours.get(n)))
                want = [lambda t: np.add(*total(n, t)[:2])]
                if o.get('separate_orbit_gp'):
                    want += [lambda t: total(n, t)[0], lambda t: total(n, t)[1]]
                for fn in want:
                    hit = [l for l in lines if np.min(l.get_xdata()) <= a + 1e-6 and np.max(l.get_xdata()) >= b - 1e-6 and
                           close(np.asarray(l.get_ydata())[::11], fn(np.asarray(l.get_xdata())[::11] + self.tz), rtol=1e-5, atol=1e-4)]
                    ctx.check(len(hit) >= 1, "gp-curve", lambda: "%s: the predicted curve of %s is not drawn" % (self.msg(), n))
            for n in plain:
                hit = [l for l in lines if close(np.asarray(l.get_ydata())[::11], model(np.asarray(l.get_xdata())[::11] + self.tz), rtol=1e-6, atol=1e-6)]
                ctx.check(len(hit) >= 1, "orbit-curve", lambda: "%s: no model curve for %s" % (self.msg(), n))

        def highlight(self, ax, pts, xof):
            marks = [l for l in ax.lines if len(np.atleast_1d(l.get_xdata())) == 1 and l.get_marker() == 'o' and l.get_markersize() == 16]
            last = max((r['t'].max(), n) for n, r in self.ref.rows.items())
            i = int(np.argmax(self.ref.rows[last[1]]['t']))
            px, py = xof(i, last[1]), pts[last[1]][1][i]
            self.ctx.check(len(marks) == 1 and close([float(np.ravel(marks[0].get_xdata())[0]), float(np.ravel(marks[0].get_ydata())[0])], [px, py], rtol=1e-6, atol=1e-6), "highlight",
                           lambda: "%s: %s, expected %s" % (self.msg(), [(m.get_xdata(), m.get_ydata()) for m in marks], (px, py)))

        def residuals(self, ax):
            pts = {n: (r['t'] - self.tz, r['r'], r['e']) for n, r in self.ref.rows.items()}
            found = check_points(self.ctx, ax, pts, 'residuals', self.msg)
            style(self.ctx, found, self.fm, self.colours, self.msg)
            lo, hi = self.xlim(ax, 'residuals')
            for l in curves(ax):
                check_curve(self.ctx, l, lambda t: np.zeros(len(t)), self.tz, lo, hi, 'residuals', self.msg)
            self.ctx.check(ax.get_xlabel() == 'JD - %d' % round(self.opts.get('epoch', 2450000) or 2450000), "time-label", lambda: "%s: %s" % (self.msg(), ax.get_xlabel()))
            if self.opts.get('highlight_last'):
                self.highlight(ax, pts, lambda i, n: pts[n][0][i])

        def phase(self, ax, n):
            ctx, ref, o = self.ctx, self.ref, self.opts
            per, tc = ref.tc(n)
            lim = ax.get_xlim()
            want_lim = o.get('phase_limits') or (-0.5, 0.5)
            ctx.check(close(lim, want_lim), "phase-limits", lambda: "%s: %s" % (self.msg(), lim))
            pts = {}
            for s, r in ref.rows.items():
                ph = ((r['t'] - tc) / per) % 1.0
                y = r['r'] + ref.signal(n, r['t'])
                pts[s] = (ph, y, r['e'])
            cs = [c for c in containers(ax) if not binned(c)]
            found, data = {}, containers(ax)
            if not ctx.check(len(cs) == len(pts), "phase-instruments", lambda: "%s: planet %d: %d sets of points" % (self.msg(), n, len(cs))):
                return
            lo, hi = max(lim[0], -1.0), min(lim[1], 1.0)
            for c in cs:
                ok = None
                for s, (ph, y, e) in pts.items():
                    full = np.concatenate([ph - 1, ph, ph + 1])
                    fy, fe = np.tile(y, 3), np.tile(e, 3)
                    w = (full >= lo) & (full <= hi)
                    g = (c['x'] >= lo) & (c['x'] <= hi)
                    if w.sum() != g.sum():
                        continue
                    a, b = np.argsort(full[w], kind='stable'), np.argsort(c['x'][g], kind='stable')
                    if close(full[w][a], c['x'][g][b], rtol=0, atol=1e-7):
                        ok = (s, fy[w][a], fe[w][a], g, b)
                        if close(fy[w][a], c['y'][g][b], rtol=1e-6, atol=1e-6):
                            break
                if not ctx.check(ok is not None, "phases", lambda: "%s: planet %d: a set of points is not one instrument folded to the orbital phase: %s" % (self.msg(), n, c['x'][:4])):
                    continue
                s, fy, fe, g, b = ok
                ctx.check(close(fy, c['y'][g][b], rtol=1e-6, atol=1e-6), "phase-values", lambda: "%s: planet %d, %s: %s, expected %s" % (self.msg(), n, s, c['y'][g][b][:4], fy[:4]))
                half = ((c['hi'] - c['lo']) / 2)
                ctx.check(close(half[g][b], fe, rtol=1e-7), "phase-error-bars", lambda: "%s: planet %d, %s: %s, expected %s" % (self.msg(), n, s, half[g][b][:4], fe[:4]))
                found[s] = c
            ctx.check(set(found) == set(pts), "phase-missing", lambda: "%s: %s" % (self.msg(), list(found)))
            style(ctx, found, self.fm, self.colours, self.msg)
            lines = curves(ax)
            if ctx.check(len(lines) == 1, "phase-curves", lambda: "%s: %d" % (self.msg(), len(lines))):
                x, y = np.asarray(lines[0].get_xdata(), float), np.asarray(lines[0].get_ydata(), float)
                w = (x >= lo) & (x <= hi)
                want = ref.signal(n, tc + x[w] * per)
                tol = 2e-6 * ref.planet(n)[4] + 1e-6
                ctx.check(np.all(np.abs(want - y[w]) < tol), "phase-curve", lambda: "%s: planet %d: the curve differs from its signal by %s" % (self.msg(), n, np.abs(want - y[w]).max()))
                gap = np.diff(np.concatenate(([lo], np.sort(x[w]), [hi]))).max() if w.any() else 9
                ctx.check(gap < 0.05, "phase-curve-gap", lambda: "%s: planet %d: %s" % (self.msg(), n, gap))
            # averages
            nobs = sum(len(p[0]) for p in pts.values())
            bins = [c for c in data if binned(c)]
            ctx.check(len(bins) == (1 if nobs >= 20 and not o.get('nobin') else 0), "bins-shown", lambda: "%s: %d sets of averages for %d observations" % (self.msg(), len(bins), nobs))
            ph = np.concatenate([p[0] for p in pts.values()])
            y = np.concatenate([p[1] for p in pts.values()])
            full, fy = np.concatenate([ph - 1, ph]), np.concatenate([y, y])
            edges = np.linspace(full.min(), full.max(), 26)
            for c in bins:
                for x, m, h in zip(c['x'], c['y'], (c['hi'] - c['lo']) / 2):
                    k = int(np.argmin(np.abs((edges[1:] + edges[:-1]) / 2 - x)))
                    w = (full >= edges[k]) & ((full < edges[k + 1]) | (k == 24))
                    ctx.check(close(x, (edges[k] + edges[k + 1]) / 2, rtol=0, atol=1e-9) and w.sum() >= 3 and close(m, fy[w].mean(), rtol=1e-6, atol=1e-6) and
                              close(h, fy[w].std() / math.sqrt(w.sum()), rtol=1e-4, atol=1e-5), "bins", lambda: "%s: planet %d: average at %s is %s +- %s, of %d observations with mean %s" % (self.msg(), n, x, m, h, w.sum(), fy[w].mean()))
                have = {int(np.argmin(np.abs((edges[1:] + edges[:-1]) / 2 - x))) for x in c['x']}
                need = {k for k in range(25) if ((full >= edges[k]) & ((full < edges[k + 1]) | (k == 24))).sum() >= 3 and lo <= (edges[k] + edges[k + 1]) / 2 <= hi}
                ctx.check(need <= have, "bins-missing", lambda: "%s: planet %d: %s, expected %s" % (self.msg(), n, sorted(have), sorted(need)))
            if o.get('highlight_last'):
                fold = {s: (p[0], p[1]) for s, p in pts.items()}
                self.highlight(ax, fold, lambda i, s: pts[s][0][i] - (1 if pts[s][0][i] > 0.5 else 0))
            self.annotation(ax, n)

        def annotation(self, ax, n):
            ctx = self.ctx
            txt = [a.txt.get_text() for a in ax.artists if hasattr(a, 'txt')]
            body = [t for t in txt if '=' in t]
            if not ctx.check(len(body) == 1, "annotation", lambda: "%s: %s" % (self.msg(), txt)):
                return
            per, tp, e, w, k = self.ref.planet(n)
            up, med = self.opts.get('uparams'), getattr(self.post, 'medparams', None)
            letter = (self.spec.get('letters') or {}).get(str(n), 'abcdefghij'[n])
            rows = body[0].split('\n')
            for i, (key, v, sym) in enumerate((('per', per, 'P'), ('k', k, 'K'), ('e', e, 'e'))):
                if not ctx.check(i < len(rows), "annotation-rows", lambda: "%s: %s" % (self.msg(), rows)):
                    return
                l, r = rows[i].split('=', 1)
                ctx.check(sym in l and letter in l, "annotation-symbol", lambda: "%s: planet %d: %s" % (self.msg(), n, rows[i]))
                num = re.findall(r'-?\d+\.?\d*(?:e-?\d+)?', r.replace(r'\mathregular', ''))
                num = [float(x) for x in num]
                err = up['%s%d' % (key, n)] if up else 0
                if up and med is not None:
                    v = med['%s%d' % (key, n)]
                if err > 1e-15:
                    ctx.check(len(num) >= 2 and abs(num[1] - err) <= 0.1 * err and abs(num[0] - v) <= 0.51 * max(err, 10 ** math.floor(math.log10(err))), "annotation-value",
                              lambda: "%s: planet %d: %s, expected %s +- %s" % (self.msg(), n, rows[i], v, err))
                else:
                    ctx.check(len(num) >= 1 and abs(num[0] - v) <= 0.0051, "annotation-value", lambda: "%s: planet %d: %s, expected %s" % (self.msg(), n, rows[i], v))

        def multi(self, nophase=False, letters=True, again=False):
            ctx, o = self.ctx, self.opts
            del saved[:]
            pl.close('all')
            kw = dict(nophase=nophase)
            if not self.gp:
                kw['letter_labels'] = letters
            with quiet():
                out = self.obj.plot_multipanel(**kw)
            if not ctx.check(isinstance(out, tuple) and len(out) == 2, "figure-returned", lambda: "%s: %r" % (self.msg(), out)):
                return
            fig, axes = out
            sep = self.gp and o.get('plot_likelihoods_separately')
            nts = len(self.spec['insts']) if sep else 1
            npl = 0 if nophase else self.spec['npl']
            if not ctx.check(len(axes) == nts + 1 + npl and all(a.figure is fig for a in axes), "panels", lambda: "%s nophase=%s: %d panels" % (self.msg(), nophase, len(axes))):
                return
            for i in range(nts):
                self.timeseries(axes[i], only=[self.spec['insts'][i]['suffix']] if sep else None, first=i == 0)
            self.residuals(axes[nts])
            for n in range(1, npl + 1):
                self.phase(axes[nts + n], n)
            pos = [a.get_position().bounds for a in axes]
            for a, b in itertools.combinations(pos, 2):
                over = min(a[0] + a[2], b[0] + b[2]) - max(a[0], b[0]) > 1e-3 and min(a[1] + a[3], b[1] + b[3]) - max(a[1], b[1]) > 1e-3
                ctx.check(not over, "panels-overlap", lambda: "%s: %s %s" % (self.msg(), a, b))
            lab = [[x.txt.get_text() for b in fig.axes if close(b.get_position().bounds, a.get_position().bounds) for x in b.artists
                    if hasattr(x, 'txt') and re.match(r'^[a-z]\)$', x.txt.get_text())] for a in axes]
            if letters:
                ctx.check(lab == [[chr(ord('a') + i) + ')'] for i in range(len(axes))], "panel-letters", lambda: "%s: %s" % (self.msg(), lab))
            f = [x for x in saved if x[1] is fig]
            ctx.check([x[0] for x in f] == ([o['saveplot']] if o.get('saveplot') else []), "saved", lambda: "%s: %s" % (self.msg(), [x[0] for x in saved]))
            pl.close('all')

        def call(self, op):
            """one of the panel methods on fresh axes"""
            if op.startswith('multi'):
                return self.multi(nophase=op.endswith('0'))
            fig = pl.figure()
            ax = pl.subplot(111)
            with quiet():
                if op == 'ts':
                    self.obj.plot_timeseries()
                    self.timeseries(ax)
                elif op == 'res':
                    self.obj.plot_residuals()
                    self.residuals(ax)
                else:
                    self.obj.plot_phasefold(ord('c'), int(op[2:]))
                    self.phase(ax, int(op[2:]))
            pl.close(fig)

    # -------------------------------------------------------------------------- suite: configurations x options
    OPTS = [dict(), dict(epoch=0), dict(epoch=M.T0 - 1234.5), dict(epoch=M.T0 + 500), dict(set_xlim=[-5.0, 60.0]), dict(epoch=0, set_xlim=[3.0, 33.0]), dict(nobin=True), dict(yscale_auto=True), dict(yscale_sigma=9.0),
            dict(phase_ncols=2), dict(phase_ncols=2, phase_nrows=2), dict(phase_limits=[-0.2, 0.3]), dict(legend=False), dict(saveplot='x.pdf'), dict(legend_kwargs=dict(loc=2)), dict(text_size=7, figwidth=5.0, fit_linewidth=1.0)]
    RVO = [dict(highlight_last=True), dict(show_rms=True), dict(highlight_last=True, show_rms=True, epoch=M.T0 - 3000)]
    GPO = [dict(zip(('subtract_gp_mean_model', 'plot_likelihoods_separately', 'subtract_orbit_model', 'separate_orbit_gp'), b)) for b in itertools.product((False, True), repeat=4)]

    def cases():
        for name in CONF:
            for gp in ((False,) if name in RVS else (True,)):
                for o in OPTS + (GPO if gp else RVO):
                    if o.get('phase_ncols') == 2 and o.get('phase_nrows') == 2 and CONF[name]['npl'] > 4:
                        continue
                    for np_ in (0, 1) if THOROUGH or not o or o.get('saveplot') or o.get('plot_likelihoods_separately') else (0,):
                        yield [name, o, gp, 0, np_, 1]
                for f in range(1, len(FMTS)):
                    for o in (dict(), dict(plot_likelihoods_separately=True)) if gp else (dict(),):
                        yield [name, o, gp, f, 0, 1]
                if not gp:
                    yield [name, dict(), gp, 0, 0, 0]
                if gp:
                    for o in GPO:
                        for x in (dict(set_xlim=[-5.0, 60.0]), dict(epoch=0), dict(yscale_auto=True, legend=False))[:3 if THOROUGH else 1]:
                            yield [name, dict(o, **x), gp, 0, 0, 1]

    def run(ctx, case):
        name, o, gp, f, nophase, letters = case
        v = View(ctx, name, o, gp, f)
        for k in (1, 2):
            v.multi(bool(nophase), bool(letters))
            v.unchanged()
            ctx.trans()
        if THOROUGH or f or not o:
            v2 = View(ctx, name, o, gp, f)
            v2.colours = v.colours
            v2.multi(bool(nophase), bool(letters))
        ctx.state(*case[:2], gp, f, nophase, letters)
        ctx.trace()

    # -------------------------------------------------------------------------- suite: histories of panels on one object
    HIST = [('b1', {}, False), ('unknown3', dict(highlight_last=True), False), ('unsorted', dict(show_rms=True), False), ('gpun', {}, True), ('gpmix', {}, True), ('gpcel', dict(subtract_orbit_model=True), True),
            ('gpshared', dict(separate_orbit_gp=True), True), ('gpun', dict(plot_likelihoods_separately=True), True), ('gpmix', dict(plot_likelihoods_separately=True, subtract_gp_mean_model=True), True)]

    def hist_cases():
        for name, o, gp in HIST:
            ops = ['ts', 'res', 'multi'] + ['ph%d' % (i + 1) for i in range(CONF[name]['npl'])] + ([] if gp else ['multi0'])
            for d in (1, 2, 3) if THOROUGH or not gp or name == 'gpun' else (1, 2):
                for h in itertools.product(ops, repeat=d):
                    for f in (0, 5) if d < 3 else (0, 2) if THOROUGH else (2,):
                        yield [name, o, gp, f, list(h)]

    def hist_run(ctx, case):
        name, o, gp, f, h = case
        v = View(ctx, name, o, gp, f)
        for op in h:
            v.call(op)
            ctx.trans()
        v.unchanged()
        ctx.state(name, f, *h)
        ctx.trace()

    # -------------------------------------------------------------------------- suite: data whose epoch is already subtracted
    def rel_cases():
        for npl, trend, o in itertools.product((0, 1, 2), ([], ['dvdt', 'curv']), (dict(), dict(epoch=2450000), dict(set_xlim=[1.0, 50.0]))):
            for kind in ('rv', 'gp:SqExp'):
                yield [npl, trend, o, kind]

    def rel_run(ctx, case):
        npl, trend, o, kind = case
        name = 'rel'
        # the same system with every time 2450000 days earlier
        t0, orb = M.T0, M.ORB
        try:
            M.T0 = 0.0
            M.ORB = [(p, tp - t0, e, w, k) for p, tp, e, w, k in orb]
            CONF[name] = dict(basis='per tc e w k', npl=npl, insts=[I('j', 12, kind), I('zz', 11, kind)], trend=trend)
            for k in (1, 2):
                v = View(ctx, name, o, kind != 'rv')
                v.tz = 0.0
                v.multi()
                ctx.trans()
        finally:
            M.T0, M.ORB = t0, orb
        ctx.state('relative', npl, *trend, str(o), kind)
        ctx.trace()

    # -------------------------------------------------------------------------- suite: annotations
    def ann_cases():
        for npl in (1, 2, 3):
            for letters in (None, {'1': 'd', '2': 'b', '3': 'f'}):
                for basis in ('per tc e w k', 'logper tc secosw sesinw logk'):
                    for scale in (0.0, 1e-7, 1e-4, 0.02, 0.3):
                        for med in (0, 1):
                            yield [npl, letters, basis, scale, med]

    def ann_run(ctx, case):
        npl, letters, basis, scale, med = case
        spec = dict(basis=basis, npl=npl, insts=[I('j', 9)], trend=[])
        if letters:
            spec['letters'] = {k: v for k, v in letters.items() if int(k) <= npl}
        CONF['ann'] = spec
        ref = Ref(spec)
        u, m = {}, {}
        for n in range(1, npl + 1):
            per, tp, e, w, k = ref.planet(n)
            for key, x in (('per', per), ('k', k), ('e', e)):
                u['%s%d' % (key, n)] = radvel.utils.round_sig(x * scale * (1 + 0.1 * n)) if scale else 0.0
                m['%s%d' % (key, n)] = x * (1 + 0.01 * n)
        v = View(ctx, 'ann', dict(uparams=u), False)
        if med:
            v.post.medparams = m
            v.obj = OP.MultipanelPlot(v.post, uparams=u)
        for n in range(1, npl + 1):
            v.call('ph%d' % n)
        v.multi()
        v.unchanged()
        ctx.state('annotation', *map(str, case))
        ctx.trace()

    # -------------------------------------------------------------------------- suite: mass annotation from derived chains
    def mass_cases():
        for npl in (1, 2):
            for letters in (None, {'1': 'd', '2': 'b'}):
                for masses in itertools.product((3.0, 60.0, 400.0), repeat=npl):
                    for status in (0, 1):
                        yield [npl, letters, list(masses), status]

    def mass_run(ctx, case):
        npl, letters, masses, status = case
        spec = dict(basis='per tc e w k', npl=npl, insts=[I('j', 9)], trend=[])
        if letters:
            spec['letters'] = {k: v for k, v in letters.items() if int(k) <= npl}
        CONF['mass'] = spec
        post = M.build(spec)
        z = np.sin(np.arange(101) * 1.3)
        z = np.where(z > 0, 2.2 * z, 0.7 * z)               # errors differ between the two sides
        df = pd.DataFrame({'mpsini%d' % (i + 1): x * (1 + 0.05 * np.roll(z, i)) for i, x in enumerate(masses)})
        post.derived = df.quantile([0.159, 0.5, 0.841])
        u = {'%s%d' % (k, n): 0.01 for k in ('per', 'k', 'e') for n in range(1, npl + 1)}
        for i in range(npl):
            u['mpsini%d' % (i + 1)] = radvel.utils.round_sig((post.derived['mpsini%d' % (i + 1)][0.841] - post.derived['mpsini%d' % (i + 1)][0.159]) / 2)
        st = None
        f = os.path.join(scratch(), 'r26_%d.csv' % os.getpid())
        if status:
            import configparser
            df.to_csv(f)
            st = configparser.ConfigParser()
            st['derive'] = dict(chainfile=f)
        with quiet():
            obj = OP.MultipanelPlot(post, uparams=u, status=st)
            for n in range(1, npl + 1):
                pl.figure()
                ax = pl.subplot(111)
                obj.plot_phasefold(ord('a'), n)
                txt = [a.txt.get_text() for a in ax.artists if hasattr(a, 'txt') and '=' in a.txt.get_text()]
                rows = txt[0].split('\n') if txt else []
                msg = lambda: "%s planet %d: %s" % (case, n, rows)
                if ctx.check(len(rows) == 4, "mass-row", msg):
                    fac = 0.00315 if status and masses[n - 1] > 100 else 1.0
                    q = post.derived['mpsini%d' % n]
                    l, r = rows[3].split('=', 1)
                    num = [float(x) for x in re.findall(r'-?\d+\.?\d*(?:e-?\d+)?', r.replace(r'\mathregular', ''))]
                    err = (q[0.841] - q[0.159]) / 2 * fac
                    ctx.check(len(num) >= 2 and abs(num[1] - err) <= 0.1 * err and abs(num[0] - q[0.5] * fac) <= 0.51 * err, "mass-value", msg)
                    if status:
                        letter = (spec.get('letters') or {}).get(str(n), 'abcdefghij'[n])
                        ctx.check('M_%s' % letter in l, "mass-symbol", msg)
                        ctx.check(('Jup' in r) == (fac != 1) and ('oplus' in r) == (fac == 1), "mass-unit", msg)
                pl.close('all')
        if status:
            os.remove(f)
        ctx.state('mass', *map(str, case))
        ctx.trace()

    # -------------------------------------------------------------------------- suite: chain plots
    from vlib import mcmctools as T

    def chain_cases():
        for E, W, steps, thin, npl in itertools.product((1, 2, 3), (12, 14), (6, 9), (1, 2, 4), (1,)):
            for v in (0, 1):
                yield [E, W, steps, thin, v]

    def captured(fn):
        """run fn; returns the figures it saved as (target, figure)"""
        from matplotlib.backends.backend_pdf import PdfPages
        del saved[:]
        pages = []
        real = PdfPages.savefig, PdfPages.close, pl.close
        PdfPages.savefig = lambda self, figure=None, **k: pages.append(figure or pl.gcf())
        pl.close = lambda *a, **k: None
        try:
            with quiet():
                fn()
        finally:
            PdfPages.savefig, PdfPages.close, pl.close = real
        return pages

    def chain_run(ctx, case):
        E, W, steps, thin, v = case
        spec = dict(basis='per tc e w k', npl=1, insts=[I('j', 12)], trend=['dvdt'])
        post = M.build(spec, vary={} if not v else dict(e1=False, w1=False, dvdt=False))
        nv = len(post.name_vary_params())
        cfg = dict(nwalkers=W if W >= 2 * nv else 2 * nv, W=max(W, 2 * nv), nrun=steps, ensembles=E, checkinterval=3, minsteps=100000, minpercent=200, burnGR=1.0, burnAfactor=1e9, maxArchange=-1)
        df = T.run(post, cfg, thin=thin)
        made = list(T.Recording.made)
        Wr = made[0].rec_pos[0].shape[0]
        keep = df.copy()
        before = {k: (p.value, p.vary) for k, p in post.params.items()}
        out = os.path.join(scratch(), 'r26_%d.pdf' % os.getpid())
        tp = MP.TrendPlot(post, df, Wr, E, outfile=out)
        names = post.name_vary_params()
        tex = post.params.tex_labels()
        msg = lambda: "trend %s" % case
        for rep in (1, 2):
            pages = captured(tp.plot)
            by = {}
            for fig in pages:
                by.setdefault(fig.axes[0].get_ylabel(), []).append(fig)
            if ctx.check(len(pages) == nv and set(by) == {tex.get(n, n) for n in names}, "trend-pages", lambda: "%s: %s" % (msg(), list(by))):
                for j, n in enumerate(names):
                    ax = by[tex.get(n, n)][0].axes[0]
                    got = [(tuple(np.round(l.get_ydata(), 10)), to_rgba(l.get_color())) for l in ax.lines]
                    want = {}
                    for s in made:
                        for w in range(Wr):
                            want[tuple(np.round([s.rec_pos[i][w][j] for i in range(0, len(s.rec_pos), thin)], 10))] = w
                    ok = ctx.check(sorted(g[0] for g in got) == sorted(want), "trend-walkers", lambda: "%s: the lines of %s are not the histories of single walkers" % (msg(), n))
                    if ok:
                        col = {}
                        for y, c in got:
                            col.setdefault(c, set()).add(want[y])
                        ctx.check(all(len(x) == 1 for x in col.values()), "trend-colours", lambda: "%s: %s" % (msg(), col))
                    xl = ax.get_xlim()
                    ctx.check(xl[0] <= 0 and xl[1] >= len(got[0][0]) - 1, "trend-range", lambda: "%s: %s" % (msg(), xl))
            pl.close('all')
            ctx.check(df.equals(keep) and before == {k: (p.value, p.vary) for k, p in post.params.items()}, "chains-changed", msg)
        if os.path.exists(out):
            os.remove(out)
        # corner
        import corner
        calls = []
        real = corner.corner

        def fake(xs, *a, **k):
            calls.append((xs, k.get('labels'), k.get('quantiles')))
            return pl.figure()
        undo = []
        for nm, mod in list(sys.modules.items()):
            if nm.split('.')[0] in ('radvel', 'corner') and mod is not None:
                for key, val in list(vars(mod).items()):
                    if val is real:
                        undo.append((mod, key))
                        setattr(mod, key, fake)
        try:
            for rep in (1, 2):
                fs = matplotlib.rcParams['font.size']
                captured(MP.CornerPlot(post, df, saveplot='c.pdf').plot)
                ctx.check(matplotlib.rcParams['font.size'] == fs, "font-size", "corner plot")
                xs, labels, q = calls[-1]
                arr = np.asarray(xs)
                if ctx.check(arr.shape == (len(df), nv) and len(labels) == nv and set(labels) == {tex.get(n, n) for n in names}, "corner-columns", lambda: "%s: %s" % (case, labels)):
                    for n in names:
                        ctx.check(np.array_equal(arr[:, list(labels).index(tex.get(n, n))], df[n].values), "corner-data", lambda: "%s: column of %s" % (case, n))
                ctx.check([x[0] for x in saved] == ['c.pdf'], "corner-file", lambda: "%s: %s" % (case, saved))
                pl.close('all')
            # derived
            for npl, cols in ((1, ['mpsini1', 'a1', 'rhop1']), (2, ['mpsini1', 'mpsini2', 'a2']), (2, ['rhop2', 'a1', 'musini1', 'mpsini2']), (11, ['mpsini1', 'mpsini10', 'rhop11', 'a11'])):
                for mass in (5.0, 99.0, 101.0, 3000.0) if npl < 11 else (5.0,):
                    for letters in (None, {1: 'd', 2: 'b'}) if npl < 11 else (None,):
                        d = pd.DataFrame({c: (mass if 'mpsini' in c else 0.3) * (1 + 0.01 * i + 0.02 * np.sin(np.arange(40) * (i + 1))) for i, c in enumerate(cols)})
                        k0 = d.copy()

                        class Pm:
                            nplanets = npl
                            planet_letters = letters
                        for rep in (1, 2):
                            captured(MP.DerivedPlot(d, Pm, saveplot='d.pdf').plot)
                            xs, labels, q = calls[-1]
                            arr = np.asarray(xs)
                            shown = [c for c in cols if c.rstrip('0123456789') in ('mpsini', 'a', 'rhop')]
                            m2 = lambda: "derived %s mass %s letters %s: %s" % (cols, mass, letters, labels)
                            if ctx.check(arr.shape == (40, len(shown)) and len(labels) == len(shown), "derived-columns", m2):
                                for c in shown:
                                    stem = c.rstrip('0123456789')
                                    L = (letters or dict(enumerate('abcdefghijkl')))[int(c[len(stem):])]
                                    sym = dict(mpsini='M_%s' % L, a='a_%s' % L, rhop='rho_%s' % L)[stem]
                                    at = [i for i, l in enumerate(labels) if sym in l]
                                    if ctx.check(len(at) == 1, "derived-label", m2):
                                        jup = c.startswith('mpsini') and np.median(k0[c]) > 100
                                        ctx.check(close(arr[:, at[0]], k0[c].values * (0.00315 if jup else 1.0), rtol=2e-3), "derived-data", m2)
                                        if c.startswith('mpsini'):
                                            ctx.check(('Jup' in labels[at[0]]) == jup and ('oplus' in labels[at[0]]) == (not jup), "derived-unit", m2)
                            ctx.check(d.equals(k0), "derived-chains-changed", m2)
                            pl.close('all')
        finally:
            for mod, key in undo:
                setattr(mod, key, real)
        # autocorrelation
        nA = 2 + E
        auto = pd.DataFrame(dict(autosamples=100.0 * (1 + np.arange(nA)), automin=3.0 + np.arange(nA) * v, automean=5.0 + np.arange(nA), automax=9.0 + 2 * np.arange(nA), factor=[25.0 + 15.0 * (E % 2)] * nA))
        k0 = auto.copy()
        for rep in (1, 2):
            captured(MP.AutoPlot(auto, saveplot='a.pdf').plot)
            if ctx.check(len(saved) == 1 and saved[0][0] == 'a.pdf', "auto-file", lambda: "%s: %s" % (case, saved)):
                ax = saved[0][1].axes[0]
                got = {c.get_label().split()[0]: np.asarray(c.get_offsets()) for c in ax.collections}
                for lab, col in (('Minimum', 'automin'), ('Mean', 'automean'), ('Maximum', 'automax')):
                    ctx.check(lab in got and close(got[lab], auto[['autosamples', col]].values), "auto-points", lambda: "%s: %s" % (case, lab))
                ln = [l for l in ax.lines if len(l.get_xdata()) == nA]
                ctx.check(len(ln) == 1 and close(ln[0].get_ydata(), k0['autosamples'] / k0['factor'][0]) and ('%g' % k0['factor'][0]) in str(ln[0].get_label()), "auto-criterion", str(case))
                (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
                ctx.check(x0 <= 100 and x1 >= 100.0 * nA and y0 <= k0['automin'].min() and y1 >= max(k0['automax'].max(), 0), "auto-range", lambda: "%s: %s %s" % (case, ax.get_xlim(), ax.get_ylim()))
            ctx.check(auto.equals(k0), "auto-changed", str(case))
            pl.close('all')
        ctx.state('chains', *case)
        ctx.trace()

    return [Suite("panels", cases, run), Suite("histories", hist_cases, hist_run), Suite("relative", rel_cases, rel_run), Suite("annotations", ann_cases, ann_run), Suite("masses", mass_cases, mass_run),
            Suite("chains", chain_cases, chain_run)]


if __name__ == "__main__":
    main("R26", suites, "model_checking",
         "every configuration is plotted with every option, and every sequence of up to three panel methods is run on one plotting object; the artists on every panel are compared with an "
         "independent computation of residuals, model, GP prediction, phases, averages, styles and annotations, and the posterior, chains and style tables with their state before plotting",
         bounds="24 configurations x (16 options + 3 highlighting/rms or 16 GP option combinations), 7 style tables, histories of length up to 3 on 9 plotting objects, chains of up to 3 ensembles x 14 walkers x 9 steps")
