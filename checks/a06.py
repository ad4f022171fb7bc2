"""A06 SU round trip: every combination of header-carried attributes, and arrays produced by in-place histories."""
import itertools
import os
import pathlib

import numpy as np
import obspy

from swprocess import Array1D, Sensor1C, Source

from mc.objs import obs, same_obs
from mc.util import ok, close, raises, SigError, wave

RULE = ("every combination of stack count, delay, time step, layout and source written with to_file and read with from_files, compared to the "
        "stated resolution; plus every history of trim/pad/stack/detrend/offset-trim/re-read to depth 2 followed by the round trip")
BOUNDS = dict(quick="7 stack counts x 6 delays x 5 time steps x 6 layouts x 6 sources (6 amplitude families in rotation); histories to depth 2 over 8 operations; 48 sensors; 2 generations of write/read; every position of the millimetre grid up to 40 m and every source position and delay up to 2 m and 2 s",
              thorough="histories to depth 3; grids up to 400 m, 20 m and 20 s")
ASSUMPTIONS = ["values within the range of the SU header fields (delay of at most 32 s, time step of whole microseconds below 32 ms, coordinates below 2000 km)",
               "the sensor elevation z, which the library does not write, is not part of the property"]

NST = [1, 2, 3, 5, 10, 100, 30000]
DEL = [0., -0.001, -0.01, -0.0375, -0.5, -32.]
DTS = [0.001, 0.002, 0.0005, 0.00025, 0.032]
LAYS = [([0., 2., 4.], None), ([-5., -3.5, 0.125], [1., -2., 0.5]), ([1234.567, 98765.432, 98765.433], [-0.001, -7654.321, 0.]), ([0.1, 0.2, 0.3], None),
        ([7.], [2.5]), ([2. * i for i in range(48)], None)]
SRCS = [(-5., 0.), (-0.1, -3.25), (100000.5, 1.), (0.3, 0.), (-1234.567, 0.001), (3., 2.)]


def amp(fam, k, n):
    i = np.arange(n)
    if fam == 0:
        return wave(k, n)
    if fam == 1:
        return np.sin(0.37 * i + k) * 1e-6
    if fam == 2:
        return (np.sin(0.37 * i + k) * 12345.678)
    if fam == 3:
        return np.zeros(n) + (k if k % 2 else 0.)
    if fam == 4:
        return (i - n / 2.) ** 3 / 7.
    return np.where(i % (k + 2) == 0, -1. / 3, 2. / 7)


def compare(a, b):
    A, B = (obs(a), obs(b)) if not isinstance(a, dict) else (a, obs(b))
    ok(A["n"] == B["n"], f"{B['n']} sensors read, {A['n']} written")
    for k in "xy":
        ok(abs(A["source"][k] - B["source"][k]) <= 5.01e-4, f"source {k}: {A['source'][k]} read as {B['source'][k]}")
    for i, (s, t) in enumerate(zip(A["sensors"], B["sensors"])):
        for k in "xy":
            ok(abs(s[k] - t[k]) <= 5.01e-4, f"sensor {i} {k}: {s[k]} read as {t[k]}")
        ok(s["nsamples"] == t["nsamples"], f"nsamples {s['nsamples']} read as {t['nsamples']}")
        close(t["amplitude"], s["amplitude"], f"amplitudes of sensor {i}", rtol=1e-7)
        ok(abs(s["dt"] - t["dt"]) <= 1e-12, f"dt {s['dt']} read as {t['dt']}")
        ok(abs(s["delay"] - t["delay"]) <= 5.01e-4, f"delay {s['delay']} read as {t['delay']}")
        ok(s["nstacks"] == t["nstacks"], f"nstacks {s['nstacks']} read as {t['nstacks']}")


def roundtrip(a, tmp, generations=1, kind=str):
    before = obs(a)
    fn = os.path.join(tmp, "out.su")
    a.to_file(fn)
    same_obs(obs(a), before, "writing altered the array")
    try:
        b = Array1D.from_files(kind(fn))
    except ValueError as e:
        if before["sensors"][0]["delay"] > 0:
            raise SigError(f"an array starting {before['sensors'][0]['delay']} s after the trigger was written but cannot be read: {e}", "positive-delay")
        raise
    compare(before, b)
    if generations > 1:
        for tr in obspy.read(fn, format="SU"):
            ok(int(tr.stats.su.trace_header.coordinate_units) == 1, "the file does not declare its coordinates to be lengths")
    if generations > 1:
        c = roundtrip(b, tmp, generations - 1, kind)
        compare(before, c)
    os.remove(fn) if os.path.exists(fn) else None
    return b


def build(lay, src, nst, de, dt, fam, n=16):
    xs, ys = lay
    ss = [Sensor1C(amp(fam, k, n), dt, x, 0. if ys is None else ys[k], 0., nstacks=nst, delay=de) for k, x in enumerate(xs)]
    return Array1D(ss, Source(src[0], src[1], 0.))


OPS = [["trim", 0, 2], ["trim", 2, 1], ["pad", 20], ["pad", 7], ["stack", 4], ["detrend"], ["offs"], ["reread"]]


def apply(a, op, tmp):
    s = a.sensors
    if op[0] == "trim":
        t = s[0].time
        if len(t) > 5:
            a.trim(float(t[op[1]]), float(t[-1 - op[2]]))
    elif op[0] == "pad":
        a.zero_pad(1 / (op[1] * s[0].dt))
    elif op[0] == "stack":
        for k, x in enumerate(s):
            o = Sensor1C(wave(k + 3, x.nsamples), x.dt, x.x, x.y, x.z, nstacks=op[1])
            o._delay = x.delay
            x.stack_append(o)
    elif op[0] == "detrend":
        for x in s:
            x.detrend()
    elif op[0] == "offs":
        try:
            a.trim_offsets(5.5, 100.)
        except ValueError:
            pass
    elif op[0] == "reread":
        if s[0].delay <= 0:
            return roundtrip(a, tmp)
    return a


def units(tier):
    u = [dict(mode="grid", lay=i, src=j) for i in range(len(LAYS)) for j in range(len(SRCS))]
    u += [dict(mode="hist", first=f, delay=d, depth=3 if tier == "thorough" else 2) for f in range(len(OPS)) for d in (0., -0.004)]
    span = 40 if tier == "quick" else 400
    u += [dict(mode="mm", lo=c * 1000, sub=sub) for c in range(span) for sub in (0., 0.0004)]
    u += [dict(mode="ms", lo=c * 100, n=100) for c in range(span // 2)]
    u += [dict(mode="bad")]
    return u


def run(u, ctx):
    if u["mode"] == "grid":
        k = 0
        grid = list(itertools.product(NST, DEL, DTS))
        if u["lay"] == 5:
            grid = grid[::11]
        for nst, de, dt in grid:
            k += 1
            ctx.case([u["lay"], u["src"], nst, de, dt, k % 6],
                     lambda: roundtrip(build(LAYS[u["lay"]], SRCS[u["src"]], nst, de, dt, k % 6), ctx.tmp, 2 if k % 10 == 0 else 1,
                                       pathlib.Path if k % 7 == 0 else str) and f"{nst} {de} {dt}")
    elif u["mode"] == "hist":
        import copy

        def rec(a, hist, depth):
            ctx.case(hist, lambda: roundtrip(a, ctx.tmp) and None)
            if depth == 0:
                return
            for op in OPS:
                b = copy.deepcopy(a)
                try:
                    b = apply(b, op, ctx.tmp)
                except AssertionError:
                    ctx.case(hist + [op], lambda: apply(copy.deepcopy(a), op, ctx.tmp) and None)
                    continue
                rec(b, hist + [op], depth - 1)
        a = build(([0., 2., 5., 9.], None), (-4., 0.), 2, u["delay"], 0.001, 0)
        a = apply(a, OPS[u["first"]], ctx.tmp)
        rec(a, [u["delay"], OPS[u["first"]]], u["depth"] - 1)
    elif u["mode"] == "mm":
        # every position of the millimetre grid (and a little off it), on both sides of the origin
        for c in range(u["lo"], u["lo"] + 1000, 250):
            xs = [(-1) ** (i // 125) * ((c + i) / 1000 + u["sub"]) for i in range(250)]
            ctx.case(["mm", c, u["sub"]], lambda: roundtrip(build((xs, [-x for x in xs[::-1]]), (xs[7] - 1, xs[11]), 1, 0., 0.001, 1, n=4), ctx.tmp) and None)
    elif u["mode"] == "ms":
        # every source position of the millimetre grid and every delay of the millisecond grid
        for c in range(u["lo"], u["lo"] + u["n"]):
            ctx.case(["ms", c], lambda: roundtrip(build(([0., 2.], None), (-c / 1000, c / 1000), 1, -c / 1000, 0.001, 1, n=4), ctx.tmp) and None)
    else:
        for ft in ("segy", "SU", "seg2", "", "mseed", None, "sux"):
            def f():
                a = build(LAYS[0], SRCS[0], 1, 0., 0.001, 0)
                fn = os.path.join(ctx.tmp, "refused.su")
                raises(ValueError, lambda: a.to_file(fn, ftype=ft), f"ftype {ft}")
                ok(not os.path.exists(fn), "file created for an unsupported type")
            ctx.case(["ftype", ft], f)
