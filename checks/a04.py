"""A04 muting: all combinations of start/end lines, delays, trims, layouts and tapers; windows recovered sample by sample."""
import itertools

import numpy as np
from scipy.signal.windows import tukey

from mc.objs import array, obs, same_obs
from mc import util
from mc.util import ok, same, close

RULE = ("every start line, every end line and every pair of a sub-alphabet of lines, for every layout, time axis (delay or trim start) and "
        "taper; the window of each sensor is recovered as muted/original and compared with tapers whose edges are the line times at that "
        "sensor (edges may be rounded to a neighbouring sample); plus every ordered pair of successive mutes of a small alphabet")
BOUNDS = dict(quick="x endpoints {-1,0,4,10}, t endpoints 7 values reaching outside the record, 420 single lines each, 14x14 line pairs, 3 layouts, 5 time axes, 5 tapers; 18 lines and 6x6 pairs for 30 sensors of 1200 samples; amplitudes of 1e-18 and 1e12",
              thorough="48x48 line pairs, 5 layouts")
ASSUMPTIONS = ["line edges are rounded to a sample: a window edge within one sample of the line is accepted, tapers are compared for the accepted edge",
               "window arguments are those of scipy.signal.windows.tukey"]
LAY = [[0., 2., 5., 9.], [-4., -1.], [10., 10.5, 20.], [3.], [0., 1., 2., 3., 4., 5.]]
BIG = [-12.5 + 1.25 * i for i in range(30)]
AXES = [dict(delay=0.), dict(delay=-0.5), dict(delay=-1.25), dict(delay=0., trim=(0.75, 4.5)), dict(delay=-1., trim=(-0.5, 3.75))]
TAPERS = [None, dict(alpha=0.), dict(alpha=0.5), dict(alpha=1.), dict(alpha=0.3, sym=False)]
XS = [-1., 0., 4., 10.]
TS = [-3., -0.3, 0., 0.9, 2.1, 3.4, 8.]
LINES = [((x1, t1), (x2, t2)) for x1, x2 in itertools.permutations(XS, 2) for t1, t2 in itertools.product(TS, TS)]
DT = 0.25
GAINS = (2. ** -60, 2. ** 40)       # recordings in m/s and in counts
N = 23


def sub(n):
    return [LINES[(i * 37 + 11) % len(LINES)] for i in range(n)]


def line_time(line, x):
    (x1, t1), (x2, t2) = line
    return t1 + (t2 - t1) * (x - x1) / (x2 - x1)


def edges(line, x, t0, dt, n, default):
    """Acceptable indices of a window edge."""
    if line is None:
        return default
    f = (line_time(line, x) - t0) / dt
    base = int(np.floor(f + 1e-9))
    return sorted({min(max(k, 0), n) for k in (base - 1, base, base + 1)})


def judge(orig, got, x, t0, dt, s, e, taper, what):
    n = len(orig)
    w = got / orig
    ok(np.all(w >= -1e-12) and np.all(w <= 1 + 1e-12), f"{what}: taper outside [0,1]: {w}")
    i = np.arange(n)
    if s is not None:
        fs = (line_time(s, x) - t0) / dt
        ok(np.all(got[i <= fs - 1 - 1e-6] == 0), f"{what}: samples before the start time ({line_time(s, x):.3f}) are not zero: {w}")
    if e is not None:
        fe = (line_time(e, x) - t0) / dt
        ok(np.all(got[i >= fe + 1 - 1e-6] == 0), f"{what}: samples after the end time ({line_time(e, x):.3f}) are not zero: {w}")
    kw = dict(alpha=0.2) if taper is None else taper
    best = None
    for a in edges(s, x, t0, dt, n, [0]):
        for b in edges(e, x, t0, dt, n, [n - 1, n]):
            win = np.zeros(n)
            if b > a:
                win[a:b] = tukey(b - a, **kw)
            d = np.max(np.abs(win - w))
            best = d if best is None else min(best, d)
            if d < 1e-9:
                return
    ok(False, f"{what}: window {np.round(w, 3)} is not a taper {kw} between the lines {s} and {e} at x={x} (best {best})")


def build(u):
    xs, ax = u["xs"], u["ax"]
    n, dt = u.get("n_samples", N), u.get("dt", DT)
    recs = [(np.arange(n) % 5 + 1.) * (-1.) ** np.arange(n) * (k % 7 + 1) * util.GAIN for k in range(len(xs))]
    a = array(xs, n=n, dt=dt, delay=ax["delay"], recs=recs, nstacks=2)
    if "trim" in ax:
        a.trim(*ax["trim"])
    return a


def one(u, taper, s, e):
    a = build(u)
    before = obs(a)
    kw = None if taper is None else dict(taper)
    r = a.mute(signal_start=s, signal_end=e, window_kwargs=kw)
    ok(kw == taper, "window_kwargs altered")
    now = obs(a)
    same_obs(now, before, "mute", ignore=("amplitude",))
    for k, (p, q) in enumerate(zip(before["sensors"], now["sensors"])):
        judge(p["amplitude"], q["amplitude"], p["x"], p["time"][0], p["dt"], s, e, taper, f"sensor {k}")
    return str([(np.flatnonzero(q["amplitude"])[[0, -1]].tolist() if np.any(q["amplitude"]) else []) for q in now["sensors"]])


def units(tier):
    th = tier == "thorough"
    lays = LAY if th else LAY[:3]
    return [dict(xs=xs, ax=ax, n=48 if th else 14, j=j) for xs in lays for ax in AXES for j in range(len(TAPERS))] + \
        [dict(xs=BIG, ax=ax, n=6, j=j, n_samples=1200, dt=0.004) for ax in AXES[:1] + AXES[2:4] for j in (0, 1, 2, 3)] + \
        [dict(xs=xs, ax=AXES[1 + (j > 1)], n=6, j=j, few=True, gain=g) for xs in lays[:2] for j in range(len(TAPERS)) for g in GAINS]


def run(u, ctx):
    t = TAPERS[u["j"]]
    singles = LINES if u["j"] in (0, 1) else LINES[::5]
    if "few" in u:
        singles = LINES[u["j"]::11]
    if "dt" in u:
        singles = LINES[u["j"]::23]
    for ln in singles:
        ctx.case(["start", ln, t], one, u, t, ln, None)
        ctx.case(["end", ln, t], one, u, t, None, ln)
    ls = sub(u["n"])
    for s, e in itertools.product(ls, ls):
        ctx.case(["both", s, e, t], one, u, t, s, e)
    ctx.case(["none", t], one, u, t, None, None)
    # two successive mutes act independently: the second scales what the first left
    few = sub(6)
    for l1, l2 in itertools.product(few, few):
        def f():
            a, b, c = build(u), build(u), build(u)
            a.mute(signal_start=l1, window_kwargs=t)
            b.mute(signal_end=l2, window_kwargs=t)
            orig = [np.array(s.amplitude) for s in c.sensors]
            c.mute(signal_start=l1, window_kwargs=t)
            c.mute(signal_end=l2, window_kwargs=t)
            for o, p, q, r in zip(orig, a.sensors, b.sensors, c.sensors):
                close(r.amplitude, p.amplitude / o * q.amplitude, "successive mutes", rtol=1e-12)
        ctx.case(["twice", l1, l2, t], f)
