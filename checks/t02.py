"""T02 zero padding: BFS over zero_pad / trim / refused zero_pad on real records against a list model."""
import numpy as np

from mc.explore import explore
from mc.objs import ats, sensor, array, obs, same_obs
from mc.util import ok, close, same, wave, raises

RULE = ("initial states = every record length; transitions = zero_pad to df = 1/(m*dt) for every m in the alphabet, "
        "refused zero_pad, on-grid trim; each step compared with the list model")
BOUNDS = dict(quick="lengths 2..26 and 100, 101, 256, 999; lengths 1000 to 20000 with 15 steps; m in 1..30 as single step, 9-value alphabet + trims + refused df to depth 3; "
                    "dt in {0.25, 0.001, 0.004, 1/3}; records, sensors and arrays; delays 0, -0.5",
              thorough="lengths 2..64, m in 1..80; histories to depth 4")
ASSUMPTIONS = ["frequency steps with integer 1/(df*dt) up to floating-point rounding, as the documentation requires for exact results"]


def targets(w):
    o = w["o"]
    return list(o.sensors) if hasattr(o, "sensors") else [o]


def step(w, a):
    op = a[0]
    o = w["o"]
    ts = targets(w)
    pre = [np.array(t.amplitude, copy=True) for t in ts]
    if op == "pad":
        m = a[1]
        dt = ts[0].dt
        df = 1 / (m * dt)
        o.zero_pad(df)
        for t, p in zip(targets(w), pre):
            n = len(p)
            mult = -(-n // m)
            ok(t.nsamples == mult * m, f"nsamples {t.nsamples} after padding {n} to blocks of {m}")
            ok(t.multiple == mult, f"multiple {t.multiple} != {mult} (n={n}, m={m})")
            close(t.df, df, "df", rtol=1e-9)
            amp = np.asarray(t.amplitude)
            same(amp[:n], p, "prefix")
            same(amp[n:], np.zeros(mult * m - n), "appended samples")
            close(t.df * m * dt, 1., "df*m*dt", rtol=1e-9)
    elif op == "badpad":
        before = obs(o)
        raises(ValueError, lambda: o.zero_pad(a[1]), "non-positive df")
        same_obs(obs(o), before, "refused zero_pad")
    elif op == "trim":
        t = np.array(ts[0].time)
        if len(t) < 6:
            return
        o.trim(t[a[1]], t[-1 - a[2]])
        for x, p in zip(targets(w), pre):
            same(x.amplitude, p[a[1]:len(p) - a[2]], "trim")
    for t, x in zip(targets(w), w["fixed"]):
        ok((t.dt, t.nstacks) == x, "dt/nstacks changed")


def world(kind, n, dt, delay):
    if kind == "ats":
        o = ats(wave(1, n), dt, nstacks=3, delay=delay)
    elif kind == "sensor":
        o = sensor(wave(1, n), dt, x=1, nstacks=3, delay=delay)
    else:
        o = array([0., 2., 5.], n=n, dt=dt, delay=delay, nstacks=3)
    w = dict(o=o)
    w["fixed"] = [(t.dt, t.nstacks) for t in targets(w)]
    return w


def units(tier):
    th = tier == "thorough"
    u = []
    ns = list(range(2, 65 if th else 27)) + [100, 101, 256, 999]
    for dt in (0.25, 0.001, 0.004, 1 / 3):
        for i in range(0, len(ns), 8):
            u.append(dict(mode="one", ns=ns[i:i + 8], dt=dt, M=80 if th else 30))
    u += [dict(mode="large", ns=[n]) for n in (1000, 1001, 2048, 2500, 5000, 20000)]
    for kind in ("ats", "sensor", "array"):
        for n in (7, 12, 16, 25):
            for delay in (0., -0.5):
                u.append(dict(mode="hist", kind=kind, n=n, dt=0.25 if delay else 0.004, delay=delay, depth=4 if th and kind != "array" else 3))
    u += [dict(mode="one", ns=[5, 8, 25], dt=0.004, M=30, gain=g) for g in (2. ** -60, 2. ** 40)]
    u += [dict(mode="hist", kind=k, n=12, dt=0.004, delay=0., depth=2, gain=g) for k in ("ats", "sensor", "array") for g in (2. ** -60, 2. ** 40)]
    return u


def run(u, ctx):
    if u["mode"] == "one":
        for n in u["ns"]:
            ms = sorted(set(list(range(1, u["M"] + 1)) + [n, 2 * n, n // 2 or 1, n - 1, n + 1, 1000]))
            explore(ctx, [(f"n={n},dt={u['dt']}", world("ats", n, u["dt"], 0.))], [["pad", m] for m in ms], 1, step)
    elif u["mode"] == "large":
        for n in u["ns"]:
            for dt in (0.001, 0.00025):
                explore(ctx, [(f"n={n},dt={dt}", world("ats", n, dt, -0.1))], [["pad", m] for m in (1, 3, 7, 100, 500, 999, 1000, 1001, 1250, 2000, 2500, 4096, 5000, 10000, 40000)], 1, step)
    else:
        acts = [["pad", m] for m in (1, 2, 3, 4, 5, 6, 8, 12, 30)] + [["badpad", 0], ["badpad", -1.5], ["trim", 0, 1], ["trim", 1, 0], ["trim", 2, 1]]
        explore(ctx, [(f"{u['kind']} n={u['n']}", world(u["kind"], u["n"], u["dt"], u["delay"]))], acts, u["depth"], step)
