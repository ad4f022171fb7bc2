"""T04 copying: BFS over in-place histories; in every state the copy is compared, then every operation is tried on either side."""
import copy
import itertools

import numpy as np

from swprocess import ActiveTimeSeries, Sensor1C, Source, Array1D

from mc.explore import explore
from mc.objs import ats, sensor, array, obs, obs_ts, same_obs
from mc.util import ok, same, wave

RULE = ("initial states = record, sensor, array, source; transitions = trim, zero_pad (divisible and not), detrend, stack, mute, offset "
        "trimming, in-place write to the amplitude; in every reached state each copying constructor is called, compared with the "
        "original, and every operation is then applied to one side while the other is watched (and vice versa)")
BOUNDS = dict(quick="histories to depth 3 (arrays: 2), 2 delays, then one operation on either side; all 1023 subsets of 10 positions from a micrometre to a kilometre apart x 2 delays x 3 amplitude scales",
              thorough="histories to depth 4 (arrays: 3)")
ASSUMPTIONS = ["deep copies made by the harness (copy.deepcopy) are faithful continuations of an object"]

OPS_TS = [["trim", 0, 2], ["trim", 2, 1], ["pad", 5], ["pad", 3], ["pad", 40], ["detrend"], ["stack", 3], ["write"]]
OPS_ARR = [["trim", 1, 1], ["trim", 2, 2], ["pad", 5], ["pad", 3], ["detrend"], ["stack", 2], ["write"], ["offs", 5.5, 30.], ["offs", 0., 14.],
           ["mute"], ["wsrc"]]


def targets(o):
    return list(o.sensors) if isinstance(o, Array1D) else [o]


def apply(o, a):
    ts = targets(o)
    op = a[0]
    if op == "trim":
        t = np.atleast_1d(ts[0].time)
        if len(t) < max(5, a[1] + a[2] + 2):
            return
        o.trim(float(t[a[1]]), float(t[-1 - a[2]]))
    elif op == "pad":
        o.zero_pad(1 / (a[1] * ts[0].dt))
    elif op == "detrend":
        for t in ts:
            t.detrend()
    elif op == "stack":
        for k, t in enumerate(ts):
            other = copy.deepcopy(t)
            other.amplitude[:] = wave(5 + k, other.nsamples)
            other._nstacks = a[1]
            t.stack_append(other)
    elif op == "write":
        for t in ts:
            t.amplitude[...] = t.amplitude * 2 + 1
    elif op == "offs":
        try:
            o.trim_offsets(a[1], a[2])
        except ValueError:
            pass
    elif op == "mute":
        t = np.atleast_1d(ts[0].time)
        o.mute(signal_start=((0, t[1]), (10, t[min(2, len(t) - 1)])), signal_end=((0, t[-1]), (10, t[-2] if len(t) > 1 else t[-1])))
    elif op == "wsrc":
        o.source._x = o.source._x - 1.


def copiers(o):
    if isinstance(o, Array1D):
        return [("from_array1d", Array1D.from_array1d, False)]
    if isinstance(o, Sensor1C):
        return [("from_sensor1c", Sensor1C.from_sensor1c, False),
                ("Sensor1C.from_activetimeseries", lambda s: Sensor1C.from_activetimeseries(s, s.x, s.y, s.z), False)]
    return [("from_activetimeseries", ActiveTimeSeries.from_activetimeseries, False),
            ("Sensor1C.from_activetimeseries", lambda s: Sensor1C.from_activetimeseries(s, 1., 2., 3.), True)]


def check_state(ctx, o, ops):
    for name, cp, up in copiers(o):
        want = obs(o)
        c = cp(o)
        same_obs(obs(o), want, f"{name} altered the original")
        got = obs(c)
        if up:
            for k in want:
                if k != "kind":
                    same_obs(got[k], want[k], f"{name}.{k}")
            ok((c.x, c.y, c.z) == (1., 2., 3.), f"{name} position")
        else:
            same_obs(got, want, name)
            ok(c == o and o == c, f"{name}: copy not equal to original")
        for a in ops:
            ctx.transitions += 4
            p = copy.deepcopy(o)
            q = cp(p)
            before = obs(p)
            apply(q, a) if not (up and a[0] in ("stack",)) else None
            same_obs(obs(p), before, f"{name} then {a} on the copy changed the original")
            p = copy.deepcopy(o)
            q = cp(p)
            before = obs(q)
            apply(p, a)
            same_obs(obs(q), before, f"{name} then {a} on the original changed the copy")
            # same operation on both sides keeps them equal
            apply(q, a) if not up else None
            if not up:
                same_obs(obs(q), obs(p), f"{name} then {a} on both sides")
            ctx.validated += 2


POS = [-1000., -0.004, 0., 1e-6, 0.01, 0.02, 0.5, 0.52, 1., 1234.567]


def layout(xs, delay, scale):
    n = len(xs)
    a = Array1D([Sensor1C(scale * wave(k + 1, 6), 0.25, x, 0.3 * k, -0.7 * k, nstacks=2, delay=delay) for k, x in enumerate(xs)], Source(-2000.5, 0.25, -3.))
    want = obs(a)
    c = Array1D.from_array1d(a)
    same_obs(obs(c), want, "copy")
    same_obs(obs(a), want, "copying altered the original")
    ok(c == a and a == c, "copy not equal to original")
    for s in c.sensors:
        s.amplitude[...] = 7.
    c.sensors.pop()
    same_obs(obs(a), want, "writing to the copy changed the original")


def step(w, a):
    apply(w["o"], a)


def units(tier):
    th = tier == "thorough"
    u = []
    for delay in (0., -0.5):
        for first in range(len(OPS_TS)):
            for kind in ("ats", "sensor"):
                u.append(dict(kind=kind, delay=delay, first=first, depth=4 if th else 3))
        for first in range(len(OPS_ARR)):
            u.append(dict(kind="array", delay=delay, first=first, depth=3 if th else 2))
    u.append(dict(kind="source"))
    u += [dict(kind="layouts", delay=d, scale=sc) for d in (0., -0.5) for sc in (1., 1e-9, 1e9)]
    return u


def run(u, ctx):
    if u["kind"] == "source":
        for x in (-5., 0., 1.25):
            for y in (-2., 0.):
                for z in (0., 3.):
                    def f():
                        s = Source(x, y, z)
                        c = Source.from_source(s)
                        ok((c.x, c.y, c.z) == (x, y, z) and c == s and c is not s, "source copy")
                        s._x = 99.
                        ok(c.x == x, "source copy aliased")
                    ctx.case([x, y, z], f)
        return
    if u["kind"] == "layouts":
        # every subset of positions from a micrometre to a kilometre apart
        for k in range(1, len(POS) + 1):
            for xs in itertools.combinations(POS, k):
                ctx.case([u["delay"], u["scale"], list(xs)], layout, xs, u["delay"], u["scale"])
        return
    if u["kind"] == "ats":
        o = ats(wave(1, 12), 0.25, nstacks=2, delay=u["delay"])
    elif u["kind"] == "sensor":
        o = sensor(wave(1, 12), 0.25, x=3, y=-1, z=2, nstacks=2, delay=u["delay"])
    else:
        o = array([0., 2., 5., 9.], n=12, delay=u["delay"], nstacks=2, ys=[0., 1., 0., -1.])
    ops = OPS_ARR if u["kind"] == "array" else OPS_TS
    name = str(u)
    if u["first"] == 0:
        check_state(ctx, o, ops)
    apply(o, ops[u["first"]])
    explore(ctx, [([name, ops[u["first"]]], dict(o=o))], ops, u["depth"] - 1, step, lambda w: check_state(ctx, w["o"], ops))
