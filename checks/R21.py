import itertools
import math
from decimal import Decimal, ROUND_HALF_EVEN
from fractions import Fraction
from vlib.core import *


def suites():
    import numpy as np
    import pandas as pd
    from datetime import datetime, timedelta
    from radvel import utils as U

    # ---------------------------------------------------------------- rounding to significant figures
    def exponent(x):
        """decimal exponent of the leading digit of |x|, exactly"""
        return Decimal(abs(x)).adjusted()

    def sig_cases():
        for p in range(-14, 13):
            for sig in (1, 2, 3, 5):
                yield [p, sig]

    MANT = ['1', '1.0000000001', '1.04', '1.05', '1.049999', '1.25', '1.5', '2.449', '3.14159265', '4.95', '5', '5.05', '7.7777', '9.4', '9.49', '9.5', '9.949', '9.95', '9.96', '9.995', '9.9999', '9.99999999999']

    def sig_run(ctx, case):
        p, sig = case
        for m, sg in itertools.product(MANT, (1, -1)):
            x = sg * float('%se%d' % (m, p))
            for y in (x, np.float64(x)):
                got = U.round_sig(y, sig) if sig != 2 else U.round_sig(y)
                unit = Fraction(10) ** (exponent(x) - sig + 1)
                err = abs(Fraction(float(got)) - Fraction(x))
                ctx.check(err <= unit / 2 * (1 + Fraction(1, 10 ** 9)), "round-sig-value", lambda: "round_sig(%r, %d) = %r" % (y, sig, got))
                d = Decimal(repr(float(got))).normalize()
                ctx.check(got == 0 or len(d.as_tuple().digits) <= sig, "round-sig-digits", lambda: "round_sig(%r, %d) = %r" % (y, sig, got))
                ctx.check(U.round_sig(float(got), sig) == got, "round-sig-idempotent", lambda: "round_sig(%r, %d)" % (y, sig))
            ctx.state('sig', x, sig)
        ctx.check(U.round_sig(0.0, sig) == 0 and U.round_sig(0, sig) == 0, "round-sig-zero", str(sig))
        ctx.trace()

    # ---------------------------------------------------------------- value with uncertainties
    M2 = [10, 11, 12, 15, 20, 25, 30, 47, 50, 70, 90, 99]

    def decimals(x):
        d = Decimal(repr(float(x))).normalize().as_tuple()
        return max(0, -d.exponent)

    def fig_cases():
        for lo in M2 + [0]:
            for pl in range(-9, 5):
                if lo == 0 and pl != 0:
                    continue
                yield [lo, pl]

    MEDS = [0.0, 1.0, -1.0, 2450123.456789, -37.06543210987, 0.4999999, 12.345678901, 1234.5, 0.0049, -0.0051, 3e-7, 99.9999, 1e-13, 5.25, 0.5, -2.5, 123456.75]

    def fig_run(ctx, case):
        lo, pl = case
        el = float('%de%d' % (lo, pl))
        highs = [None] + [float('%de%d' % (h, ph)) for h in M2 for ph in range(max(-9, pl - 2), min(5, pl + 3))]
        for eh in highs:
            hi = el if eh is None else eh
            if hi == 0 and el == 0:
                continue
            for med in MEDS:
                for conv in (float, np.float64):
                    a = (conv(med), conv(el)) if eh is None else (conv(med), conv(el), conv(eh))
                    om, ol, oh = U.sigfig(*a)
                    msg = lambda: "sigfig%s = %s" % (tuple(map(float, a)), (om, ol, oh))
                    d = max(decimals(el), decimals(hi))
                    ctx.check(float(ol) == el and float(oh) == hi, "errors-distorted", msg)
                    ctx.check(float(str(ol)) == el and float(str(oh)) == hi and float(str(om)) == float(om), "reread", msg)
                    err = abs(Fraction(float(om)) - Fraction(med))
                    ctx.check(err <= Fraction(1, 2 * 10 ** d) * (1 + Fraction(1, 10 ** 6)), "value-distorted", msg)
                    small = abs(med) <= 0.5 * 10.0 ** -d
                    ctx.check(small or decimals(om) <= d, "too-many-digits", msg)
                    if d == 0:
                        ctx.check('.' not in str(om) and '.' not in str(ol) and '.' not in str(oh), "integers", msg)
                ctx.ev()
            ctx.state('fig', el, hi)
        ctx.trace()

    # ---------------------------------------------------------------- interval summaries of samples
    SHAPES = {'normal': lambda u: np.sign(u) * np.abs(u) ** 1.6, 'skewed': lambda u: (u + 1) ** 2 / 2 - 1 + 0.5 * (u > 5), 'narrow': lambda u: 0.02 * u ** 3, 'steps': lambda u: np.round(4 * u * np.abs(u)) / 4}

    def err_cases():
        for shape in SHAPES:
            for n in (11, 40, 101, 500):
                for order in ('sorted', 'reversed', 'shuffled'):
                    yield [shape, n, order]

    def quant_ok(s, val, q):
        n = len(s)
        a, b = s[max(0, math.floor(q * (n - 1)) - 0)], s[min(n - 1, math.ceil(q * n))]
        return a - 1e-9 <= val <= b + 1e-9

    def err_run(ctx, case):
        shape, n, order = case
        u = np.linspace(-1, 1, n)
        base = SHAPES[shape](u)
        if order == 'reversed':
            base = base[::-1]
        if order == 'shuffled':
            base = base[(np.arange(n) * 7) % n] if math.gcd(7, n) == 1 else base[(np.arange(n) * 13) % n]
        for scale, off in ((1.0, 0.0), (50.0, 2450000.0), (1e-4, -3.0), (3.0, 0.7)):
            for kind in ('array', 'series', 'list', 'readonly'):
                x = scale * base + off
                v = {'array': x.copy(), 'series': pd.Series(x, index=np.arange(n) + 4), 'list': list(x), 'readonly': x.copy()}[kind]
                if kind == 'readonly':
                    v.setflags(write=False)
                if kind == 'list':
                    continue
                med, lo, hi = U.geterr(v)
                s = np.sort(x)
                msg = lambda: "%s scale %s offset %s %s: %s" % (case, scale, off, kind, (med, lo, hi))
                ctx.check(abs(med - np.median(x)) < 1e-12 * max(1, abs(off)), "median", msg)
                ctx.check(quant_ok(s, med - lo, 0.159) and quant_ok(s, med + hi, 0.841), "quantiles", msg)
                ctx.check(np.array_equal(np.asarray(v), x), "samples-modified", msg)
        # angles: one direction with a half-width below a quarter turn, wrapped into (-pi, pi]
        for cdeg in range(-180, 180, 10):
            for w in (0.05, 0.4, 0.8) + ((1.1, 1.4) if n >= 101 and shape in ('normal', 'narrow') else ()):
                c = math.radians(cdeg + 0.3)
                off = w * np.sort(base)
                x = (c + w * base + math.pi) % (2 * math.pi) - math.pi
                for kind in ('array', 'series', 'readonly'):
                    v = x.copy() if kind != 'series' else pd.Series(x)
                    if kind == 'readonly':
                        v.setflags(write=False)
                    med, lo, hi = U.geterr(v, angular=True)
                    # histogram peak decides the direction: only claimed where the mode lies with the bulk of the samples
                    msg = lambda: "%s direction %d deg spread %s %s: %s" % (case, cdeg, w, kind, (med, lo, hi))
                    if shape in ('normal', 'narrow'):
                        dm = (med - (c + np.median(off)) + math.pi) % (2 * math.pi) - math.pi
                        ctx.check(abs(dm) < 1e-9, "angle-median", msg)
                        ctx.check(quant_ok(off, np.median(off) - lo, 0.159) and quant_ok(off, np.median(off) + hi, 0.841), "angle-quantiles", msg)
                    ctx.check(np.array_equal(np.asarray(v), x), "samples-modified", msg)
                    again = U.geterr(v, angular=True)
                    ctx.check(again == (med, lo, hi), "summary-repeatable", msg)
            ctx.state('err', shape, n, order, cdeg)
        ctx.trace()

    # ---------------------------------------------------------------- dates
    J2000 = datetime(2000, 1, 1, 12)

    def date_cases():
        for y in (1858, 1900, 1957, 1970, 1995, 1999, 2000, 2001, 2016, 2024, 2100, 2400):
            for mo in range(1, 13):
                yield [y, mo]

    def date_run(ctx, case):
        y, mo = case
        last = (datetime(y + (mo == 12), mo % 12 + 1, 1) - timedelta(days=1)).day
        for day, (h, mi, s, us) in itertools.product((1, 2, 15, last), ((0, 0, 0, 0), (11, 59, 59, 999999), (12, 0, 0, 0), (12, 0, 0, 1), (23, 59, 59, 999999), (6, 30, 15, 500000), (0, 0, 0, 700000), (18, 1, 2, 345678))):
            dt = datetime(y, mo, day, h, mi, s, us)
            d = dt - J2000
            exact = Fraction(2451545) + Fraction(d.days) + Fraction(d.seconds, 86400) + Fraction(d.microseconds, 86400 * 10 ** 6)
            jd = U.date2jd(dt)
            ctx.check(abs(Fraction(jd) - exact) <= Fraction(6, 10 ** 10), "date2jd", lambda: "%s: %r, error %.3g s" % (dt, jd, float(Fraction(jd) - exact) * 86400))
            back = U.jd2date(jd)
            ctx.check(abs((back - dt).total_seconds()) <= 60e-6, "date-roundtrip", lambda: "%s came back as %s" % (dt, back))
            jd2 = float(exact)
            dd = U.jd2date(jd2)
            ctx.check(abs((dd - dt).total_seconds()) <= 60e-6, "jd2date", lambda: "%r: %s instead of %s" % (jd2, dd, dt))
            ctx.check(abs(U.date2jd(dd) - jd2) <= 6e-10, "jd-roundtrip", lambda: "%r" % jd2)
            ctx.state('date', *case, day, h, us)
        ctx.trace()

    # ---------------------------------------------------------------- durations
    def dur_cases():
        return [[x] for x in (0.0, 1e-3, 1.0, 59.9, 60.0, 60.1, 61, 3599.0, 3600.0, 3601.0, 3661.0, 86399.0, 86400.0, 86401.0, 90000.0, 1e6, 1e8)]

    def dur_run(ctx, case):
        t = case[0]
        v, unit = U.time_print(t)
        size = dict(seconds=1, minutes=60, hours=3600, days=86400)
        ctx.check(unit in size and close(v * size.get(unit, 0), t, 1e-12, 1e-12), "duration", lambda: "%r: %r %s" % (t, v, unit))
        ctx.check({'seconds': v <= 60, 'minutes': 1 <= v <= 60, 'hours': 1 <= v <= 24, 'days': v >= 1}[unit], "duration-unit", lambda: "%r: %r %s" % (t, v, unit))
        ctx.state('dur', t)

    return [Suite("significant", sig_cases, sig_run), Suite("uncertainty", fig_cases, fig_run), Suite("intervals", err_cases, err_run),
            Suite("dates", date_cases, date_run), Suite("durations", dur_cases, dur_run)]


if __name__ == "__main__":
    main("R21", suites, "exploration",
         "decimal lattice (mantissas at, below and above every rounding boundary x powers of ten) against exact rational arithmetic; all pairs of two-digit "
         "uncertainties; sample sets in every order and container, rotated to 36 directions; calendar lattice with exact Julian dates",
         "27 decades x 22 mantissas; 12x14 lower x 60 upper errors x 17 values; 4 shapes x 4 sizes x 3 orders x 36 directions x 3 to 5 spreads (half-widths up to 80 degrees); 12 years x 12 months x 4 days x 8 times")
