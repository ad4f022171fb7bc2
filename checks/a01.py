"""A01 sensor ordering and refusal of malformed arrays: every permutation and every placement of a defective sensor."""
import itertools

import numpy as np

from swprocess import Sensor1C, Source, Array1D

from mc.objs import obs, same_obs
from mc.util import ok, same, raises

RULE = ("every permutation of every position set; for each set every defect kind at every place in every rotation; container list or tuple; "
        "each sensor carries a record that identifies it")
BOUNDS = dict(quick="position sets of 1..5 sensors (negative, fractional, >9, nearly equal, reversed y), all permutations; 12-, 48- and 150-sensor arrays in 7 orders; 9 defect kinds at all places (also with several defects)",
              thorough="position sets up to 6 sensors, all permutations")
ASSUMPTIONS = ["sensors are supplied as a list or tuple of Sensor1C"]

SETS = [[0.], [0., 2.], [-1., 0., 1.], [9., 10., 100.], [0., 1., 2.5, 4.], [-7.5, -7., 3., 3.25], [0., 1e-3, 2., 11., 20.], [-5., -3., -2., -1., -0.5],
        [1., 2., 3., 10., 20.], [0., 1e-6, 0.0004, 0.001], [999.5, 1000., 1001., 100000.25], [-1000.5, -999., 998., 20000.], [100000.001, 100000.002, 100000.003, 100000.0035, 5.]]
SETS6 = [[-2., -1., 0., 1., 10., 9.]]


def rec(x, n=6):
    return np.arange(n) * 0.5 + 10 * x + 3


def mk(x, y=0., z=0., dt=0.25, n=6, ns=2, de=-0.5):
    return Sensor1C(rec(x, n), dt, x, y, z, nstacks=ns, delay=de)


def good(order, cont=list):
    ss = [mk(x, y=-x, z=2 * x) for x in order]
    given = cont(ss)
    befores = [obs(s) for s in ss]
    a = Array1D(given, Source(-20., 0., 0.))
    want = sorted(order)
    same(a.position(), want, "positions")
    ok(a.nchannels == len(want) and len(a.sensors) == len(want), "number of channels")
    m = a.timeseriesmatrix()
    ok(m.shape == (len(want), 6), "matrix shape")
    for i, x in enumerate(want):
        for s in (a[i], a.sensors[i], a[i - len(want)]):
            ok((s.x, s.y, s.z) == (x, -x, 2 * x), f"sensor {i} has position {s.x},{s.y},{s.z}, wanted x={x}")
            same(s.amplitude, rec(x), f"record of sensor {i}")
            ok((s.dt, s.nstacks, s.delay) == (0.25, 2, -0.5), "sensor attributes")
        same(m[i], rec(x), f"matrix row {i}")
    ok(len(given) == len(order) and all(g is s for g, s in zip(given, ss)), "the supplied list was altered")
    for s, b in zip(ss, befores):
        same_obs(obs(s), b, "supplied sensor altered")
    return str(want)


DEFECTS = {
    "dt": lambda x: mk(x, dt=0.5), "nsamples+": lambda x: mk(x, n=7), "nsamples-": lambda x: mk(x, n=5), "nstacks": lambda x: mk(x, ns=3),
    "delay": lambda x: mk(x, de=-0.25), "nodelay": lambda x: mk(x, de=0.),
    "dup": None, "dup-y": None, "dup-z": None,
}


def bad(order, kinds):
    """kinds: {index: defect}"""
    ss = [mk(x) for x in order]
    for i, k in kinds.items():
        if k.startswith("dup"):
            other = order[(i + 1) % len(order)] if i + 1 < len(order) else order[0]
            ss[i] = mk(other, y=5. if k == "dup-y" else 0., z=5. if k == "dup-z" else 0.)
        else:
            ss[i] = DEFECTS[k](order[i])
    given = list(ss)
    raises(ValueError, lambda: Array1D(given, Source(-20., 0., 0.)), f"{kinds} in {order}")
    ok(len(given) == len(order) and all(g is s for g, s in zip(given, ss)), "the supplied list was altered")


def units(tier):
    sets = SETS + (SETS6 if tier == "thorough" else [])
    u = [dict(mode="good", s=s) for s in sets] + [dict(mode="bad", s=s) for s in sets if len(s) > 1 and len(s) < 6]
    u += [dict(mode="large", n=n) for n in (12, 48, 150)]
    return u


def run(u, ctx):
    if u["mode"] == "good":
        for p in itertools.permutations(u["s"]):
            ctx.case(["good", p], good, p)
            ctx.case(["good-tuple", p], good, p, tuple)
    elif u["mode"] == "bad":
        s = u["s"]
        perms = list(itertools.permutations(s)) if len(s) < 5 else [tuple(s[i:] + s[:i]) for i in range(5)] + [tuple(s[::-1])]
        for p in perms:
            for i in range(len(s)):
                for k in DEFECTS:
                    ctx.case(["bad", p, i, k], bad, p, {i: k})
        # the duplicate may be any earlier sensor, not only a neighbour
        for i, j in itertools.combinations(range(len(s)), 2):
            for y in (0., 3.):
                def f():
                    ss = [mk(x) for x in s]
                    ss[j] = mk(s[i], y=y)
                    raises(ValueError, lambda: Array1D(ss, Source(-20., 0., 0.)), f"duplicate {i},{j}")
                    ss2 = ss[::-1]
                    raises(ValueError, lambda: Array1D(ss2, Source(-20., 0., 0.)), f"duplicate {i},{j} reversed")
                ctx.case(["dup", s, i, j, y], f)
    else:
        n = u["n"]
        xs = [2. * i - 7 for i in range(n)]
        orders = [xs, xs[::-1], xs[n // 2:] + xs[:n // 2], xs[::2] + xs[1::2], xs[1::2] + xs[::2], sorted(xs, key=lambda x: (x * 7) % 31), sorted(xs, key=str)]
        for o in orders:
            ctx.case(["large", o[:6]], good, tuple(o))
        for k in DEFECTS:
            for i in (0, 1, n // 2, n - 2, n - 1):
                ctx.case(["large-bad", k, i], bad, tuple(xs), {i: k})
