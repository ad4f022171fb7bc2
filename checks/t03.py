"""T03 trimming: BFS over trims on a fine grid of limits; the kept samples carry their own identity and time."""
import itertools

import numpy as np

from mc.explore import explore
from mc.objs import ats, sensor, array, obs, same_obs
from mc import util
from mc.util import ok, same, close, wave, raises

RULE = ("initial states = records/sensors/arrays with distinct sample values, each length and delay; transitions = trim(start,end) "
        "for every pair of limits of the grid (on grid, quarter step off grid, at and outside both ends); every step checks values, "
        "times and delay against the previous public observation, and that refused trims change nothing")
BOUNDS = dict(quick="lengths 5, 6, 9; delays 0,-0.25,-0.5,-1; limits on a quarter-sample grid reaching one sample outside; all pairs; depth 2 "
                    "(depth 3 for on-grid limits); decimal time steps 0.001, 0.002 with 1001-sample records",
              thorough="adds lengths 12, 17 and depth 3 with off-grid limits")
ASSUMPTIONS = ["limits exactly half-way between samples are not tried (nearest sample undefined)"]
DT = 0.25


def targets(o):
    return list(o.sensors) if hasattr(o, "sensors") else [o]


def step(w, a):
    o = w["o"]
    ts = targets(o)
    t0 = np.atleast_1d(ts[0].time)
    dt = ts[0].dt
    if "abs" in a:
        s, e = a["abs"]
    else:  # limits in quarter samples relative to first sample / last sample
        i, j = a["rel"]
        s, e = t0[0] + i * dt / 4, t0[0] + j * dt / 4
    pre = [(np.array(t.amplitude, copy=True), np.array(t.time, copy=True)) for t in ts]
    before = obs(o)
    logical = s >= t0[0] and s < e and e <= t0[-1]
    if not logical:
        raises(IndexError, lambda: o.trim(s, e), f"trim({s},{e}) of [{t0[0]},{t0[-1]}]")
        same_obs(obs(o), before, "refused trim")
        return
    o.trim(s, e)
    for t, (amp, tim) in zip(targets(o), pre):
        i0 = int(np.argmin(np.abs(tim - s)))
        i1 = int(np.argmin(np.abs(tim - e)))
        same(np.atleast_1d(t.amplitude), amp[i0:i1 + 1], f"samples kept by trim({s},{e})")
        now = np.atleast_1d(t.time)
        ok(len(now) == i1 - i0 + 1, "time vector length")
        tol = 1e-9 if abs(tim[i0] - s) < 1e-9 else dt / 2 + 1e-9
        ok(np.max(np.abs(now - tim[i0:i1 + 1])) <= tol, f"trim({s},{e}): kept samples moved in time: {now[:4]} was {tim[i0:i0+4]}")
        ok(abs(t.delay - now[0]) < 1e-9, f"delay {t.delay} != first time {now[0]}")
        close(np.diff(now), np.full(len(now) - 1, dt), "time step", atol=1e-9)
    for b, n in zip([obs(t) for t in targets(o)], (before["sensors"] if "sensors" in before else [before])):
        for k in ("dt", "nstacks", "kind", "x", "y", "z"):
            ok(b.get(k) == n.get(k), f"trim changed {k}")


def world(kind, n, delay, dt=DT):
    amp = (np.arange(n) * 1.5 - 3) * util.GAIN  # distinct values identify samples
    if kind == "ats":
        return dict(o=ats(amp, dt, nstacks=2, delay=delay))
    if kind == "sensor":
        return dict(o=sensor(amp, dt, x=3., nstacks=2, delay=delay))
    return dict(o=array([0., 1., 4.], n=n, dt=dt, delay=delay, recs=[amp, -amp + 0.5 * util.GAIN, amp[::-1] + 9 * util.GAIN]))


def units(tier):
    th = tier == "thorough"
    u = []
    for kind in ("ats", "sensor", "array"):
        for n in (5, 6, 9) + ((12, 17) if th else ()):
            for delay in (0., -0.25, -0.5, -1.):
                u.append(dict(kind=kind, n=n, delay=delay, mode="off", depth=1 if kind == "array" or n > 6 else 2))
                u.append(dict(kind=kind, n=n, delay=delay, mode="grid", depth=2 if kind == "array" and not th else 3))
    for kind in ("ats", "array"):
        for dt in (0.001, 0.002, 1 / 3):
            for delay in (0., -0.5):
                u.append(dict(kind=kind, dt=dt, delay=delay, mode="real"))
    u += [dict(kind=k, n=6, delay=-0.5, mode="grid", depth=2, gain=g) for k in ("ats", "sensor", "array") for g in (2. ** -60, 2. ** 40)]
    return u


def run(u, ctx):
    if u["mode"] == "real":
        w = world(u["kind"], 1001, u["delay"], u["dt"])
        t = targets(w["o"])[0].time
        idx = [0, 1, 2, 300, 301, 499, 500, 501, 700, 998, 999, 1000]

        def acts(w):
            tt = np.atleast_1d(targets(w["o"])[0].time)
            if len(tt) < 2:
                return []
            ii = [i for i in idx if i < len(tt) - 1] + [len(tt) - 1]
            return [dict(abs=[float(tt[i]), float(tt[j])]) for i, j in itertools.product(ii[::2], ii[1::2])] + \
                   [dict(abs=[float(tt[0]) - 0.4, float(tt[-1])]), dict(abs=[float(tt[0]), float(tt[-1]) + 0.4])]
        explore(ctx, [(str(u), w)], acts, 2, step)
        return
    w = world(u["kind"], u["n"], u["delay"])
    stepq = 4 if u["mode"] == "grid" else 1

    def acts(w):
        n = targets(w["o"])[0].nsamples
        if n < 2:
            return []   # a one-sample record has no interval left to trim
        pts = [q for q in range(-4, 4 * n + 1, stepq) if q % 4 != 2]
        if u["mode"] == "off" and len(pts) > 24 and w["o"] is not None:
            pts = [q for q in pts if q < 8 or q > 4 * n - 10 or q % 4 == 1]
        return [dict(rel=[i, j]) for i in pts for j in pts]
    explore(ctx, [(str(u), w)], acts, u["depth"], step)
