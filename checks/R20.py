import itertools
import math
from vlib.core import *


def suites():
    import numpy as np
    import pandas as pd
    from radvel import utils as U

    V = [3.0, -1.5, 7.25, 0.5, -9.0, 2.0]
    ERRS = {'mixed': [1.0, 0.5, 2.0, 0.25, 3.0, 1.5], 'equal': [1.0] * 6, 'wild': [1e-3, 100.0, 1.0, 0.02, 7.0, 1e3]}

    def ref(rows, w):
        """rows (time, velocity, error, tel) -> {tel: [(time, velocity, error)]}, bins starting at the earliest observation not yet binned"""
        out = {}
        for r in rows:
            out.setdefault(r[3], []).append(r)
        res = {}
        for tel, rs in out.items():
            rs = sorted(rs)
            bins = []
            while rs:
                t0 = rs[0][0]
                mem = [r for r in rs if r[0] < t0 + w]
                rs = rs[len(mem):]
                W = sum(1 / r[2] ** 2 for r in mem)
                bins.append((sum(r[0] / r[2] ** 2 for r in mem) / W, sum(r[1] / r[2] ** 2 for r in mem) / W, W ** -0.5))
            res[tel] = bins
        return res

    def compare(ctx, out, rows, w, msg, single=False):
        t, v, e, tel = [list(x) for x in out]
        want = ref(rows, w)
        ok = len(t) == len(v) == len(e) == len(tel) == sum(map(len, want.values()))
        if not ctx.check(ok, "bin-count", lambda: "%s: %s bins, expected %s" % (msg(), (len(t), len(v), len(e), len(tel)), {k: len(b) for k, b in want.items()})):
            return
        ctx.check(set(map(str, tel)) == set(want), "labels", lambda: "%s: %s" % (msg(), tel))
        for k, bins in want.items():
            got = [(t[i], v[i], e[i]) for i in range(len(t)) if tel[i] == k]
            ctx.check(len(got) == len(bins) and close(np.array(got, float), np.array(bins), 1e-9, 1e-9), "bins", lambda: "%s: instrument %s has %s, expected %s" % (msg(), k, got, bins))

    def run(ctx, case):
        n, ntel, grid, en, w, off, first = case
        E = ERRS[en]
        ng = len(grid)
        for rest in itertools.product(range(ng * ntel), repeat=n - 1):
            code = (first,) + rest
            rows = [(off + grid[c % ng], V[j], E[j], 'abc'[c // ng] + ('2' if c // ng else '')) for j, c in enumerate(code)]
            cols = [np.array([r[q] for r in rows]) for q in range(4)]
            keep = [c.copy() for c in cols]
            msg = lambda: "rows %s width %s" % (rows, w)
            out = U.bintels(*cols, binsize=w)
            compare(ctx, out, rows, w, msg)
            ctx.check(all(np.array_equal(a, b) for a, b in zip(cols, keep)), "inputs-modified", msg)
            if n <= 3:
                out = U.timebin(cols[0], cols[1], cols[2], binsize=w)
                compare(ctx, list(out) + [['x'] * len(out[0])], [(r[0], r[1], r[2], 'x') for r in rows], w, lambda: "timebin " + msg())
                ctx.check(all(np.array_equal(a, b) for a, b in zip(cols, keep)), "inputs-modified", msg)
            ctx.state(n, code, en, w, off, len(grid))
            ctx.trans()
        ctx.trace()

    G7 = [0.0, 0.25, 0.5, 0.75, 1.0, 2.5, -0.25]
    G4 = [0.0, 0.25, 0.5, 3.0]
    G3 = [0.0, 0.4375, 0.5]

    def cases():
        for n, ntel, grid, ens, ws in ((1, 3, G7, ERRS, (0.25, 0.5, 1.0, 100.0)), (2, 3, G7, ERRS, (0.25, 0.5, 0.75, 1.0, 100.0)), (3, 2, G7, ERRS, (0.25, 0.5, 1.0, 100.0)),
                                       (3, 3, G4, ['mixed'], (0.25, 0.5, 0.375, 3.0)), (4, 2, G4, ['mixed', 'wild'], (0.25, 0.5, 0.375)), (4, 3, G3, ['mixed'], (0.5, 0.25)),
                                       (5, 2, G3, ['mixed'], (0.5, 0.0625)), (5, 1, G4, ['mixed'], (0.5, 0.25))) + (
                                           ((5, 2, G4, ['mixed', 'wild'], (0.25, 0.5)), (4, 3, G4, ['mixed'], (0.25, 0.5)), (6, 2, G3, ['mixed'], (0.5,)), (4, 2, G7, ['mixed'], (0.5, 1.0))) if THOROUGH else ()):
            for en in ens:
                for w in ws:
                    for off in (0.0, 2450000.0):
                        for first in range(len(grid) * ntel):
                            yield [n, ntel, grid, en, w, off, first]

    # long lists, many instruments
    def long_cases():
        for n in sorted({m + d for m in (8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024) for d in (-1, 0, 1)}):
            for ntel in (1, 2, 3, 11):
                yield [n, ntel]

    def long_run(ctx, case):
        n, ntel = case
        j = np.arange(n)
        for layout in ('mixed', 'sorted', 'repeated', 'tight'):
            t = (7.13 * j + 2.1 * np.sin(1.7 * j)) % (0.37 * n + 1)
            t = dict(mixed=t, sorted=np.sort(t), repeated=np.floor(t), tight=0.001 * t)[layout] + 2450000.0
            tel = ['tel%d' % (i * i % ntel) for i in range(n)]
            rows = [(float(t[i]), float(V[i % 6]) + 0.1 * i, 1.0 + 0.3 * (i % 5), tel[i]) for i in range(n)]
            cols = [np.array([r[q] for r in rows]) for q in range(4)]
            keep = [c.copy() for c in cols]
            for w in (0.5, 0.8, 30.0, 1e6):
                msg = lambda: "%d observations of %d instruments (%s), width %s" % (n, ntel, layout, w)
                out = U.bintels(*cols, binsize=w)
                compare(ctx, out, rows, w, msg)
                ctx.check(all(np.array_equal(a, b) for a, b in zip(cols, keep)), "inputs-modified", msg)
                if ntel == 1:
                    out = U.timebin(cols[0], cols[1], cols[2], binsize=w)
                    compare(ctx, list(out) + [['x'] * len(out[0])], [(r[0], r[1], r[2], 'x') for r in rows], w, lambda: "timebin " + msg())
                ctx.state('long', n, ntel, layout, w)
        ctx.trace()

    # default width, number of instruments, label types
    def misc_cases():
        for labels in (['hires'], ['hires', 'apf'], ['j', 'k', 'a', 'b'], ['a', 'aa', 'aaa'], ['HARPS-N', 'harps-n']):
            for kind in ('list-of-str', 'object', 'unicode', 'series'):
                for perm in itertools.permutations(range(4)):
                    yield [labels, kind, list(perm)]

    def misc_run(ctx, case):
        labels, kind, perm = case
        rows = [(10.0 + 0.2 * i, float(V[i % 6]), 1.0 + i, labels[(i * 7) % len(labels)]) for i in range(4)]
        rows = [rows[i] for i in perm]
        t, v, e = [np.array([r[q] for r in rows]) for q in range(3)]
        tel = [r[3] for r in rows]
        tel = np.array(tel, dtype=object) if kind == 'object' else np.array(tel) if kind != 'series' else pd.Series(tel)
        if kind == 'list-of-str':
            tel = np.array(tel, dtype='U20')
        out = U.bintels(t, v, e, tel)
        compare(ctx, out, rows, 0.5, lambda: "%s" % (case,))
        ctx.state('misc', *case)
        ctx.trace()

    # equally spaced binning: every returned bin is the plain mean of the points of one histogram cell with its standard error
    def fast_cases():
        for nb in (1, 2, 3, 5, 25, 30):
            for n in (3, 4, 7, 12, 60):
                for mode in ('uniform', 'clustered', 'reversed', 'repeated'):
                    yield [nb, n, mode]

    def fast_run(ctx, case):
        nb, n, mode = case
        j = np.arange(n)
        x = {'uniform': 0.5 + j / 3., 'clustered': 1 + np.round(3 * np.sin(j) ** 2, 1), 'reversed': 0.5 + j[::-1] / 7., 'repeated': 1.0 + (j // 3)}[mode]
        y = 5 * np.cos(j * 1.3) + 2
        x0, y0 = x.copy(), y.copy()
        if x.max() == x.min():
            return
        bt, bd, be = U.fastbin(x, y, nbins=nb)
        ctx.check(np.array_equal(x, x0) and np.array_equal(y, y0), "fast-inputs", str(case))
        edges = np.linspace(x.min(), x.max(), nb + 1)
        want = []
        for q in range(nb):
            ins = (x >= edges[q]) & ((x < edges[q + 1]) if q < nb - 1 else (x <= edges[q + 1]))
            m = int(ins.sum())
            if m >= 3:
                want.append(((edges[q] + edges[q + 1]) / 2, y[ins].mean(), y[ins].std() / math.sqrt(m)))
        got = np.array([bt, bd, be]).T
        near_edge = np.min(np.abs(x[:, None] - edges[None, 1:-1])) < 1e-9 if nb > 1 else False
        if not near_edge or mode == 'repeated':
            ctx.check(len(got) == len(want) and (not want or close(got, np.array(want), 1e-7, 1e-7)), "fastbin", lambda: "%s: %s, expected %s" % (case, got, want))
        ctx.state('fast', *case)
        ctx.trace()

    return [Suite("layouts", cases, run), Suite("long", long_cases, long_run), Suite("labels", misc_cases, misc_run), Suite("fastbin", fast_cases, fast_run)]


if __name__ == "__main__":
    main("R20", suites, "model_checking",
         "state = ordered list of observations (time slot, instrument) with position-dependent velocities and errors; all lists are enumerated (so all input orders, "
         "interleavings of instruments, coinciding times and bin-edge positions) and the real binning is compared with a reference partition",
         "up to 4 (5-6 thorough) observations over 3-7 time slots and up to 3 instruments, 2-5 bin widths, 3 error patterns, 2 time origins; label types; equally spaced binning")
