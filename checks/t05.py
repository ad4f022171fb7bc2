"""T05 cross-correlation: all pairs of records over a small alphabet and all lags of pulses, against direct summation."""
import itertools

import numpy as np

from swprocess import ActiveTimeSeries

from mc.objs import ats, obs_ts, same_obs
from mc.util import ok, same, close, raises

RULE = ("every ordered pair of records over the amplitude alphabet with a unique correlation maximum, every lag of three pulse shapes for "
        "every record length, every pair of stack counts; result compared with direct summation and list shifting")
BOUNDS = dict(quick="all pairs over {-1,0,2}^n, n=2..4; every lag of delta, asymmetric and two-sided pulses for n=2..14 and 16 lags for n=300, 3000; pairs of lags whose correlations differ by 1e-3 to 1e-9; nstacks in {1,2,5}^2; correlations of 2 to 12 samples (equal and unequal lengths) in every mode and by every method",
              thorough="alphabet pairs to n=5, all lags to n=40")
ASSUMPTIONS = ["pairs whose correlation maximum is not unique are skipped (alignment undefined)"]


def direct(a, b):
    n = len(a)
    best = {}
    for lag in range(-(n - 1), n):
        lo, hi = max(0, lag), min(n, n + lag)
        best[lag] = float(np.dot(a[lo:hi], b[lo - lag:hi - lag]))
    return best


def shifted(b, lag):
    n = len(b)
    out = np.zeros(n)
    for i in range(n):
        if 0 <= i + lag < n:
            out[i + lag] = b[i]
    return out


def check(a, b, na, nb, dt=0.5, delay=0., lag=None, tie=1e-6):
    a, b = np.array(a, float), np.array(b, float)
    if lag is None:
        c = direct(a, b)
        m = max(c.values())
        top = [k for k, v in c.items() if v > m - tie * (1 + abs(m))]
        if len(top) != 1:
            return None
        lag = top[0]
    A = ats(a, dt, nstacks=na, delay=delay)
    B = ats(b, dt, nstacks=nb, delay=delay)
    oa, ob = obs_ts(A), obs_ts(B)
    want = shifted(b, lag)
    if na == nb:
        s, y = ActiveTimeSeries.crosscorr_shift(A, B)
        ok(int(s) == lag, f"shift {s}, maximum correlation at {lag}")
        same(y, want, f"shifted record (lag {lag})")
        y[...] = 77
        same_obs(obs_ts(B), ob, "writing to the shifted record changed b")
    s, y = ActiveTimeSeries.crosscorr_shift(A, B, exclude=("nsamples", "nstacks"))
    ok(int(s) == lag, f"shift {s}, maximum correlation at {lag}")
    same(y, want, "shifted record")
    C = ActiveTimeSeries.from_cross_stack(A, B)
    close(C.amplitude, (a * na + want * nb) / (na + nb), "cross stack", rtol=1e-12)
    ok(C.nstacks == na + nb, f"nstacks {C.nstacks}")
    ok(C.dt == dt and C.delay == A.delay and C.nsamples == len(a), "cross stack dt/delay/length")
    same_obs(obs_ts(A), oa, "a changed")
    same_obs(obs_ts(B), ob, "b changed")
    C.amplitude[...] = 5
    same_obs(obs_ts(A), oa, "a aliased by cross stack")
    return f"{len(a)}:{lag}"


def table(a, b, kw, given):
    """The correlation itself, over the extent and by the method requested (scipy.signal.correlate's)."""
    A, B = ats(a, 0.5, nstacks=2, delay=-1.), ats(b, 0.5, nstacks=2, delay=-1.)
    oa, ob, k0 = obs_ts(A), obs_ts(B), dict(kw)
    na, nb = len(a), len(b)
    r = ActiveTimeSeries.crosscorr(A, B, **(dict(correlate_kwargs=kw) if given else {}))
    ok(kw == k0, "correlate_kwargs altered")
    full = np.array([sum(a[j + lag] * b[j] for j in range(nb) if 0 <= j + lag < na) for lag in range(-(nb - 1), na)])
    mode = kw.get("mode", "full") if given else "full"
    if mode == "same":
        s = (len(full) - na) // 2
        full = full[s:s + na]
    elif mode == "valid":
        m = min(na, nb)
        full = full[m - 1:len(full) - (m - 1)]
    close(r, full, f"correlation {kw}", rtol=1e-10)
    same_obs(obs_ts(A), oa, "a changed")
    same_obs(obs_ts(B), ob, "b changed")
    return f"{mode} {na} {nb}"


PULSES = dict(delta=[1.], asym=[1., 3., -2.], two=[-2., 4., 1., 1.], neg=[-3.])


def units(tier):
    th = tier == "thorough"
    u = []
    for n in range(2, 5):
        u.append(dict(mode="alpha", n=n, part=0, parts=1) if n < 4 else dict(mode="alpha", n=n, part=0, parts=1))
    if th:
        u += [dict(mode="alpha", n=5, part=i, parts=16) for i in range(16)]
    for n in list(range(2, 41 if th else 15)):
        u.append(dict(mode="lags", n=n))
    u += [dict(mode="big", n=300), dict(mode="big", n=3000), dict(mode="near"), dict(mode="refuse"), dict(mode="table")]
    return u


def run(u, ctx):
    if u["mode"] == "alpha":
        recs = list(itertools.product((-1., 0., 2.), repeat=u["n"]))
        pairs = itertools.product(recs, recs)
        for k, (a, b) in enumerate(pairs):
            if k % u["parts"] != u["part"]:
                continue
            na, nb = ((1, 1), (2, 5), (3, 1), (2, 2))[k % 4]
            ctx.case([a, b, na, nb], check, a, b, na, nb)
    elif u["mode"] == "lags":
        n = u["n"]
        for name, p in PULSES.items():
            if len(p) > n:
                continue
            for i in range(n - len(p) + 1):
                for j in range(n - len(p) + 1):
                    a, b = np.zeros(n), np.zeros(n)
                    a[i:i + len(p)] = p
                    b[j:j + len(p)] = p
                    for na, nb in itertools.product((1, 2, 5), repeat=2) if n <= 6 else ((1, 1), (1, 2), (5, 2)):
                        ctx.case([name, n, i, j, na, nb], check, a, b, na, nb, 0.5, -1. if n % 2 else 0.)
    elif u["mode"] == "big":
        n = u["n"]
        p = [1., 3., -2., 0.5]
        for lag in (-(n - 5), -n // 2, -7, -2, -1, 0, 1, 2, 7, n // 2, n - 5):
            for i in (0, n // 3, n - 4):
                j = i - lag
                if not 0 <= j <= n - 4:
                    continue
                a, b = np.zeros(n), np.zeros(n)
                a[i:i + 4] = p
                b[j:j + 4] = p
                ctx.case([n, i, j], check, a, b, 2, 3)
    elif u["mode"] == "near":                  # two lags that correlate almost equally well
        for n, e in itertools.product((12, 300), (1e-3, 1e-6, 1e-9)):
            for i, j in itertools.permutations((1, n // 2, n - 2), 2):
                for flip, sc in itertools.product((0, 1), (1., 1e-7, 1e7)):
                    a, b = np.zeros(n), np.zeros(n)
                    a[i], a[j] = sc, sc * (1 + e)
                    b[n // 2] = sc
                    if flip:
                        a, b = b, a
                    if sc == 1:
                        ctx.case(["near", n, e, i, j, flip], check, a, b, 1, 2, 0.5, 0., None, e / 100)
                    else:
                        lag = (j - n // 2) * (-1 if flip else 1)
                        ctx.case(["near", n, e, i, j, flip, sc], check, a, b, 1, 2, 0.5, 0., lag)
    elif u["mode"] == "table":
        for na, nb in [(n, n) for n in range(2, 13)] + [(n, m) for n in (2, 3, 8) for m in (2, 5, 11) if n != m]:
            for f in range(4):
                a = [float((i * (5 + f) + f) % 7 - 3) for i in range(na)]
                b = [float((i * i * (2 + f) + 3 * f + 1) % 9 - 4) for i in range(nb)]
                ctx.case(["table", na, nb, f], table, a, b, {}, False)
                for mode, method in itertools.product((None, "full", "same", "valid"), (None, "auto", "direct", "fft")):
                    kw = {k: v for k, v in (("mode", mode), ("method", method)) if v}
                    ctx.case(["table", na, nb, f, kw], table, a, b, kw, True)
    else:
        for which in ("dt", "delay"):
            for v in (0.25, 0.5000001) if which == "dt" else (-0.5, -2.):
                for na, nb in ((1, 1), (2, 3)):
                    for swap in (0, 1):
                        def f():
                            A = ats([0, 1, 0, 0.], 0.5, nstacks=na)
                            B = ats([0, 0, 1, 0.], **{**dict(dt=0.5, nstacks=nb), which: v})
                            if swap:
                                A, B = B, A
                            oa, ob = obs_ts(A), obs_ts(B)
                            raises(ValueError, lambda: ActiveTimeSeries.crosscorr(A, B), "crosscorr")
                            raises(ValueError, lambda: ActiveTimeSeries.crosscorr_shift(A, B), "crosscorr_shift")
                            raises(ValueError, lambda: ActiveTimeSeries.from_cross_stack(A, B), "from_cross_stack")
                            same_obs(obs_ts(A), oa)
                            same_obs(obs_ts(B), ob)
                        ctx.case([which, v, na, nb, swap], f)
