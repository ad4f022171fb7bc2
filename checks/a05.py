"""A05 amplitude matrix, threshold picks and plots: all options against direct formulas, and every sequence of read-only operations."""
import copy
import itertools

import numpy as np

from mc.objs import array, obs, same_obs
from mc.util import ok, same, close, raises
from mc.explore import explore

RULE = ("every detrend x normalization x layout x record family against direct least squares and scaling; every onset position x threshold x "
        "delay for picks; every sequence of read-only operations (matrix, writes into the matrix, picks, waterfall, schematic, geometry) "
        "with the complete array observed after each")
BOUNDS = dict(quick="7 record families, 4 layouts (1..24 sensors), 3 delays, 6 option combinations; the extreme value at each of 12 samples of each trace, either sign; onsets 0..24 of 30 samples, all of 8..19 samples, 3..387 of 700; sequences to depth 3 over 11 operations; 24 waterfall option combinations",
              thorough="sequences to depth 4")
ASSUMPTIONS = ["a trace whose peak is zero has no defined normalization and is not tried; picks exist for every trace tried"]

LAY = [[0., 2., 5., 9.], [-3.], [10., 12.], [1.5 * i - 4 for i in range(24)]]


def recs(fam, k, n=12):
    i = np.arange(n)
    base = ((i * i * (k % 5 + 1) + 3 * i + k) % 11 - 4.) + 0.25 * k
    if fam == "ramp":
        return base + (k + 1) * 0.5 * i - 4
    if fam == "negpeak":
        r = base.copy()
        r[(3 + k) % n] = -40. - k
        return r
    if fam == "offset":
        return base + 100.
    if fam == "single":
        r = np.zeros(n)
        r[(2 * k) % n] = 3. * (-1) ** k
        return r
    if fam == "sizes":
        return base * 10. ** (k - 2)
    if fam == "tiny":
        return base * 1e-9
    return base


def ref_detrend(r):
    n = len(r)
    i = np.arange(n)
    im, rm = i.mean(), r.mean()
    sl = ((i - im) * (r - rm)).sum() / ((i - im) ** 2).sum()
    return r - (rm + sl * (i - im))


def matrix(rows, detrend, norm):
    rows = [ref_detrend(r) if detrend else np.array(r, float) for r in rows]
    if norm == "each":
        rows = [r / max(abs(r.min()), abs(r.max())) for r in rows]
    m = np.array(rows)
    if norm == "all":
        m = m / max(abs(m.min()), abs(m.max()))
    return m


def one(xs, fam, delay, detrend, norm, n=12, dt=0.25):
    rows = [recs(fam, k, n) for k in range(len(xs))]
    a = array(xs, n=n, recs=rows, delay=delay, dt=dt)
    before = obs(a)
    m = a.timeseriesmatrix(detrend=detrend, normalize=norm)
    close(m, matrix(rows, detrend, norm), f"matrix {fam} detrend={detrend} {norm}", rtol=1e-9)
    if norm == "none" and not detrend:
        same(m, np.array(rows), "raw matrix")
        same(a.timeseriesmatrix(), m, "default matrix")
    m[...] = 55.
    same_obs(obs(a), before, "writing into the matrix changed the array")


def extreme(p, k, sign, xs, n=12):
    """The extreme value of the array, or of one trace, at any sample of any trace, of either sign."""
    i = np.arange(n)
    rows = [((i * (3 + j) + j) % 7 - 3.) * (1 + j % 2) for j in range(len(xs))]
    rows[k][p] = sign * 50.
    a = array(xs, n=n, recs=rows)
    for detrend, norm in itertools.product((False, True), ("none", "each", "all")):
        close(a.timeseriesmatrix(detrend=detrend, normalize=norm), matrix(rows, detrend, norm), f"extreme {sign} at sample {p} of trace {k}, detrend={detrend} {norm}", rtol=1e-9)


def picks(onset, thr, delay, sign, rest, nsens, n=30, dt=0.25):
    rows = []
    for k in range(nsens):
        i = np.arange(n)
        o = (onset + 2 * k) % (n - 3)
        r = np.where(i >= o, sign * 10. * np.sin((i - o + 1) * 0.9) * np.exp(-(i - o) / 9.), 0.) + rest * ((i * (3 + k)) % 5 - 2.) + 0.3 * k * i
        rows.append(r)
    m = matrix(rows, True, "each")
    want = []
    for r in m:
        d = np.abs(r - r[:10].mean())
        if np.any(np.abs(d - thr) < 1e-9) or not np.any(d > thr):
            return None
        want.append(delay + dt * int(np.argmax(d > thr)))
    xs = [3. * k - 2 for k in range(nsens)]
    a = array(xs, n=n, dt=dt, delay=delay, recs=rows)
    before = obs(a)
    p, t = a.auto_pick_first_arrivals(algorithm="threshold", threshold=thr)
    same(p, xs, "pick positions")
    close(t, want, f"picks (onset {onset}, threshold {thr})", rtol=1e-12)
    if thr == 0.05:
        p2, t2 = a.auto_pick_first_arrivals()
        close(t2, want, "default picks")
    same_obs(obs(a), before, "picking changed the array")
    return str([round(x, 3) for x in want])


def waterfall(xs, time_ax, detrend, norm, scale, pn, given_ax):
    import matplotlib.pyplot as plt
    rows = [recs("ramp", k) for k in range(len(xs))]
    a = array(xs, n=12, recs=rows, delay=-0.5)
    before = obs(a)
    ax = None
    if given_ax:
        _, ax = plt.subplots()
    kw = dict(color="k", label="trace")
    r = a.waterfall(ax=ax, time_ax=time_ax, amplitude_detrend=detrend, amplitude_normalization=norm, amplitude_scale=scale,
                    position_normalization=pn, plot_kwargs=kw)
    ok(kw == dict(color="k", label="trace"), "plot_kwargs altered")
    if not given_ax:
        _, ax = r
    m = matrix(rows, detrend, norm)
    pos = [x - (xs[0] if pn else 0.) for x in xs]
    sc = scale if scale is not None else np.mean(np.diff(xs)) / 2
    time = before["sensors"][0]["time"]
    lines = ax.get_lines()
    ok(len(lines) == len(xs), f"{len(lines)} lines for {len(xs)} sensors")
    for ln, row, p in zip(lines, m, pos):
        x, y = np.array(ln.get_xdata()), np.array(ln.get_ydata())
        if time_ax == "x":
            x, y = y, x
        close(x, row * sc + p, "drawn trace", rtol=1e-9)
        close(y, time, "drawn time", rtol=1e-9)
    ok([ln.get_label() for ln in lines].count("trace") == 1, "label repeated or lost")
    same_obs(obs(a), before, "waterfall changed the array")
    plt.close("all")


OPS = ["tsm", "tsm-each", "tsm-all", "tsm-write", "pick", "wf-y", "wf-x", "plot", "geometry", "wf-rel", "flip"]


def step(w, op):
    import matplotlib.pyplot as plt
    a = w["o"]
    if op == "tsm":
        same(a.timeseriesmatrix(), w["raw"], "matrix")
    elif op == "tsm-each":
        close(a.timeseriesmatrix(detrend=True, normalize="each"), w["each"], "matrix each")
    elif op == "tsm-all":
        close(a.timeseriesmatrix(normalize="all"), w["all"], "matrix all")
    elif op == "tsm-write":
        m = a.timeseriesmatrix()
        m *= -3
        m = a.timeseriesmatrix(detrend=True)
        m[:] = 9
    elif op == "pick":
        a.auto_pick_first_arrivals(threshold=0.3)
    elif op in ("wf-y", "wf-x"):
        a.waterfall(time_ax=op[-1])
        plt.close("all")
    elif op == "wf-rel":
        fig, ax = plt.subplots()
        a.waterfall(ax=ax, position_normalization=True, amplitude_detrend=False, amplitude_normalization="none", amplitude_scale=7.)
        plt.close("all")
    elif op == "plot":
        a.plot()
        plt.close("all")
    elif op == "geometry":
        a.offsets, a.kres, a.array_center_distance, a.position(normalize=True)
    elif op == "flip":
        a.is_similar(a), a == a, repr(a[0]), str(a[0])
    same_obs(obs(a), w["obs"], f"{op} changed the array")


def units(tier):
    u = [dict(mode="matrix", xs=xs) for xs in LAY]
    u += [dict(mode="picks", delay=d, sign=s) for d in (0., -0.5, -2.) for s in (1, -1)]
    u += [dict(mode="wf", time_ax=t, pn=pn) for t in "xy" for pn in (False, True)]
    u += [dict(mode="seq", first=op, depth=4 if tier == "thorough" else 3, sx=sx) for op in OPS for sx in (-5., 40.)]
    u += [dict(mode="bad"), dict(mode="extreme")]
    return u


def run(u, ctx):
    if u["mode"] == "matrix":
        for fam in ("plain", "ramp", "negpeak", "offset", "single", "sizes", "tiny"):
            for delay in (0., -0.5, -1.):
                for detrend, norm in itertools.product((False, True), ("none", "each", "all")):
                    ctx.case([len(u["xs"]), fam, delay, detrend, norm], one, u["xs"], fam, delay, detrend, norm)
                    if delay:
                        ctx.case([len(u["xs"]), fam, delay, detrend, norm, "long"], one, u["xs"], fam, delay, detrend, norm, 1537, 0.004)
    elif u["mode"] == "extreme":
        for p, (xs, k), sign in itertools.product(range(12), [(xs, k) for xs in LAY[:3] for k in range(len(xs))], (1, -1)):
            ctx.case([p, k, sign, len(xs)], extreme, p, k, sign, xs)
    elif u["mode"] == "picks":
        for n in (8, 11, 14, 19):
            for onset, thr, rest in itertools.product(range(n - 3), (0.05, 0.2, 0.5), (0., 0.05, 0.5)):
                ctx.case([onset, thr, rest, "short", n], picks, onset, thr, u["delay"], u["sign"], rest, 3, n)
        for onset, thr, rest, ns in itertools.product(range(0, 25), (0.05, 0.2, 0.5, 0.9), (0., 0.05, 0.5), (1, 4)):
            ctx.case([onset, thr, rest, ns], picks, onset, thr, u["delay"], u["sign"], rest, ns)
            if ns == 4:
                ctx.case([onset, thr, rest, "long"], picks, 16 * onset + 3, thr, u["delay"], u["sign"], rest, 26, 700, 0.004)
    elif u["mode"] == "wf":
        for xs in ([0., 2., 5., 9.], [3., 4.]):
            for detrend, norm, scale, g in itertools.product((False, True), ("none", "each", "all"), (None, 2.5), (False, True)):
                if g and norm != "each":
                    continue
                ctx.case([xs, detrend, norm, scale, g], waterfall, xs, u["time_ax"], detrend, norm, scale, u["pn"], g)
    elif u["mode"] == "seq":
        a = array([0., 2., 5., 9.], n=14, sx=u["sx"], delay=-0.5, nstacks=3, recs=[recs("ramp", k, 14) for k in range(4)])
        rows = [s.amplitude.copy() for s in a.sensors]
        w = dict(o=a, obs=obs(a), raw=np.array(rows), each=matrix(rows, True, "each"), all=matrix(rows, False, "all"))
        hist = dict(w, hist=())

        def st(w, op):
            w["hist"] += (op,)          # histories are kept apart: a hidden cache would make equal observations differ later
            step(w, op)
        st(hist, u["first"])
        explore(ctx, [([u["first"]], hist)], OPS, u["depth"] - 1, st)
    else:
        def f():
            a = array([0., 2.], n=12)
            raises(NotImplementedError, lambda: a.auto_pick_first_arrivals(algorithm="unknown"), "unknown algorithm")
            raises(ValueError, lambda: a.waterfall(time_ax="z"), "unknown time axis")
        ctx.case(["bad"], f)
