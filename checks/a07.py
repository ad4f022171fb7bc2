"""A07 header interpretation: every combination of the header fields the library reads, for each file format, against direct arithmetic."""
import itertools
import os
import pathlib

import numpy as np
import obspy

from swprocess import ActiveTimeSeries, Array1D, Sensor1C

from mc.files import write_segy_like, write_seg2
from mc.util import ok, same, close, raises, wave

RULE = ("files written by an independent writer for every combination of format, coordinate scalar, coordinates, stack count, delay, coordinate unit "
        "and mapping; sensors, source, amplitudes, time step, stack count and delay compared with direct arithmetic on the header integers")
BOUNDS = dict(quick="2 formats x 11 scalars x 6 coordinate sets x 5 mappings x 5 stack counts x 4 delays (units, number types and time steps in rotation); SEG2: 4 location sets x 5 mappings x 6 stack counts x 5 delays; every coordinate unit 0..3 on source and sensor headers; 18 sets of reader keyword arguments (start, end, format) per format; every subset of absent header fields; every assignment of 7 scalars to two or three traces; records of 601 and 4096 samples",
              thorough="time steps, units and name types as a full product as well")
ASSUMPTIONS = ["coordinate scalars are those of the SEG-Y standard (0, +-1, +-10, ... +-10000) and delays are not positive",
               "SEG2 locations are single numbers (distance along the line)"]

SCALES = [-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 10000]
COORDS = [  # list of (gx, gy) of the traces, source (sx, sy)
    ([(0, 0), (2, 0), (4, 0)], (-5, 0)),
    ([(4, 7), (-3, -20), (15, 0)], (30, -9)),
    ([(12345, -6789), (12346, 54321), (-99999, 1)], (100001, 77)),
    ([(1, 5)], (7, 3)),
    ([(1000 * i, 33 * i - 100) for i in range(24)][::-1], (-1500, 400)),
    ([(150, 11), (50, 22), (100, 33), (0, 44)], (75, 55)),
]
MAPS = [("id", lambda v: v, lambda v: v), ("shift", lambda v: v + 100.5, lambda v: v - 7), ("neg", lambda v: -v, lambda v: v),
        ("scale", lambda v: 2 * v, lambda v: -3 * v + 1), ("ymap", lambda v: v, lambda v: v + 12.25)]
NST = [0, 1, 3, 25, 32000]
DELAYS = [0, -500, -32, -1]
DTS = [0.001, 0.0005, 0.002]


def scaled(v, scale):
    if scale < 0:
        return v / -scale
    return v * (scale if scale > 0 else 1)


def check(fmt, scale, coords, mapping, nst, dms, units, dt, kind, tmp):
    name, mx, my = mapping
    g, (sx, sy) = coords
    n = 12
    traces = [dict(amp=wave(k, n), gx=x, gy=y, sx=sx, sy=sy, scale=scale, nst=nst, delay_ms=dms, units=units) for k, (x, y) in enumerate(g)]
    fn = os.path.join(tmp, "f." + fmt.lower())
    write_segy_like(fn, fmt, traces, dt)
    arg = fn if kind == "str" else [fn] if kind == "list" else pathlib.Path(fn)

    def read():
        if name == "id" and kind != "list":
            return Array1D.from_files(arg)
        return Array1D.from_files(arg, map_x=mx, map_y=my)
    if units not in (0, 1):
        raises(ValueError, read, f"coordinate unit {units}")
        return "refused"
    a = read()
    compare(a, g, (sx, sy), scale, mx, my, max(nst, 1), dms / 1000, dt, [wave(k, n) for k in range(len(g))])
    return f"{scale} {name} {nst} {dms}"


def compare(a, g, src, scale, mx, my, nst, delay, dt, recs, sy_known=True):
    want = sorted([(float(mx(scaled(x, scale))), float(my(scaled(y, scale))), k) for k, (x, y) in enumerate(g)])
    ok(a.nchannels == len(want), f"{a.nchannels} sensors of {len(want)}")
    for s, (x, y, k) in zip(a.sensors, want):
        ok(abs(s.x - x) <= 1e-9 * max(1, abs(x)), f"sensor x {s.x}, header says {x}")
        ok(abs(s.y - y) <= 1e-9 * max(1, abs(y)), f"sensor y {s.y}, header says {y}")
        ok(s.z == 0, "sensor z")
        same(s.amplitude, recs[k].astype(np.float32), f"amplitudes of trace {k}")
        ok(abs(s.dt - dt) < 1e-12, f"dt {s.dt}")
        ok(s.nstacks == nst, f"nstacks {s.nstacks}, header says {nst}")
        ok(abs(s.delay - delay) < 1e-12, f"delay {s.delay}, header says {delay}")
    X, Y = float(mx(scaled(src[0], scale))), float(my(scaled(src[1], scale)))
    ok(abs(a.source.x - X) <= 1e-9 * max(1, abs(X)), f"source x {a.source.x}, header says {X}")
    ok(abs(a.source.y - Y) <= 1e-9 * max(1, abs(Y)), f"source y {a.source.y}, header says {Y}")


SEG2_LOC = [([0., 2., 4.], -5.), ([4.5, -3.25, 15.], 30.), ([7.], 1.), ([1.5 * i - 10 for i in range(24)][::-1], 3.3)]


def seg2(locs, src, mapping, stack, delay, tmp, dt=0.001, n=10):
    name, mx, my = mapping
    traces = []
    for k, x in enumerate(locs):
        h = {"RECEIVER_LOCATION": repr(x), "SOURCE_LOCATION": repr(src)}
        if stack is not None:
            h["STACK"] = str(stack)
        if delay is not None:
            h["DELAY"] = str(delay)
        traces.append(dict(amp=wave(k, n), headers=h))
    fn = os.path.join(tmp, "f.dat")
    write_seg2(fn, traces, dt)
    a = Array1D.from_files(fn, map_x=mx, map_y=my)
    compare(a, [(x, 0) for x in locs], (src, 0), 1, mx, my, max(stack or 1, 1), float(delay or 0), dt, [wave(k, n) for k in range(len(locs))])
    for k, tr in enumerate(obspy.read(fn)):
        if stack and delay is not None:
            t = ActiveTimeSeries.from_trace_seg2(tr)
            ok((t.nstacks, t.delay) == (stack, float(delay)), f"record: stack count {t.nstacks}, delay {t.delay}")
        else:
            t = ActiveTimeSeries.from_trace(tr)
            ok((t.nstacks, t.delay) == (1, 0), f"record: stack count {t.nstacks}, delay {t.delay}")
        same(t.amplitude, wave(k, n), "record: amplitudes")
        ok(abs(t.dt - dt) < 1e-12, "record: time step")
    return f"{name} {stack} {delay}"


def read_kwargs(fmt, i0, i1, fk, tmp):
    """Keyword arguments for the reader: a part of each trace, the format given."""
    n = 12
    fn = os.path.join(tmp, "kw.dat")
    g = [(0, 0), (2000, 0), (4000, 0)]
    if fmt == "SEG2":
        write_seg2(fn, [dict(amp=wave(k, n), headers={"RECEIVER_LOCATION": repr(x / 1000), "SOURCE_LOCATION": "-5.0", "STACK": "3", "DELAY": "-0.25"}) for k, (x, y) in enumerate(g)], 0.001)
    else:
        write_segy_like(fn, fmt, [dict(amp=wave(k, n), gx=x, gy=y, sx=-5000, sy=0, scale=-1000, nst=3, delay_ms=-250) for k, (x, y) in enumerate(g)], 0.001)
    kw = {}
    t0 = obspy.read(fn)[0].stats.starttime
    if i0:
        kw["starttime"] = t0 + i0 * 0.001
    if i1 < n - 1:
        kw["endtime"] = t0 + i1 * 0.001
    if fk:
        kw["format"] = fmt
    keep = dict(kw)
    for arg in (fn, [fn]):
        a = Array1D.from_files(arg, obspy_read_kwargs=kw)
        ok(kw == keep, "keyword arguments altered")
        compare(a, g, (-5000, 0), -1000, lambda v: v, lambda v: v, 3, -0.25, 0.001, [wave(k, n)[i0:i1 + 1] for k in range(3)])
    return f"{sorted(kw)}"


def direct(fmt, scale, tmp):
    """Sensor1C.from_trace on single traces, with the header read and with explicit values."""
    fn = os.path.join(tmp, "d")
    traces = [dict(amp=wave(2, 9), gx=1234, gy=-77, sx=5, sy=6, scale=scale, nst=4, delay_ms=-20)]
    write_segy_like(fn, fmt, traces, 0.001)
    tr = obspy.read(fn)[0]
    for f in (None, fmt, fmt.lower()):
        s = Sensor1C.from_trace(tr, format=f, map_x=lambda v: v + 1, map_y=lambda v: -v)
        ok(abs(s.x - (scaled(1234, scale) + 1)) < 1e-6 and abs(s.y - 1 * (-scaled(-77, scale))) < 1e-6, f"position {s.x}, {s.y}")
        ok(s.nstacks == 4 and abs(s.delay + 0.02) < 1e-12, "header values")
    s = Sensor1C.from_trace(tr, read_header=False, nstacks=7, delay=-0.25, x=3, y=4, z=5)
    ok((s.x, s.y, s.z, s.nstacks, s.delay) == (3, 4, 5, 7, -0.25), "explicit values")
    same(s.amplitude, wave(2, 9), "amplitude")
    t = ActiveTimeSeries.from_trace(tr, nstacks=3, delay=-0.5)
    ok((t.nstacks, t.delay) == (3, -0.5) and abs(t.dt - 0.001) < 1e-12, "explicit values of a record")
    same(t.amplitude, wave(2, 9), "amplitude of a record")
    s = Sensor1C.from_trace(tr, read_header=False)
    ok((s.x, s.y, s.z, s.nstacks, s.delay) == (0, 0, 0, 1, 0), "values when the header is not read")
    t = ActiveTimeSeries.from_trace(tr)
    ok((t.nstacks, t.delay) == (1, 0), "values of a record when the header is not read")
    raises(NotImplementedError, lambda: Sensor1C.from_trace(tr, format="GSE2"), "unknown format")
    bare = obspy.Trace(np.arange(4.))
    raises(ValueError, lambda: Sensor1C.from_trace(bare), "trace of no format")


KEYS = dict(nst="number_of_horizontally_stacked_traces_yielding_this_trace", scale="scalar_to_be_applied_to_all_coordinates", gx="group_coordinate_x", gy="group_coordinate_y", delay="delay_recording_time")


def lacking(fmt, scale, gone, tmp):
    """Headers in which some fields are absent: those read as one stack, no scaling, position and delay zero."""
    fn = os.path.join(tmp, "lack")
    write_segy_like(fn, fmt, [dict(amp=wave(2, 9), gx=1234, gy=-77, sx=5, sy=6, scale=scale, nst=4, delay_ms=-20)], 0.001)
    tr = obspy.read(fn)[0]
    st = tr.stats.su if fmt == "SU" else tr.stats.segy
    v = {k: int(st.trace_header[n]) for k, n in KEYS.items()}
    st.trace_header = obspy.core.AttribDict({n: v[k] for k, n in KEYS.items() if k not in gone})
    for k in gone:
        v[k] = dict(nst=1, scale=1, gx=0, gy=0, delay=0)[k]
    s = Sensor1C.from_trace(tr, map_x=lambda x: x + 1)
    x, y = scaled(v["gx"], v["scale"]) + 1, scaled(v["gy"], v["scale"])
    ok(abs(s.x - x) < 1e-6 and abs(s.y - y) < 1e-6, f"position {s.x}, {s.y}, expected {x}, {y}")
    ok((s.nstacks, round(s.delay, 9), s.z) == (v["nst"], v["delay"] / 1000, 0), f"stack count {s.nstacks}, delay {s.delay}")
    return f"{gone}"


def mixed(fmt, scales, tmp):
    """Every trace has a coordinate scalar of its own."""
    def raw(v, sc):
        return round(v * -sc) if sc < 0 else round(v / max(sc, 1))
    n = 7
    pos = [(300., -100.), (0., 100.), (100., 200.), (-200., 0.)][:len(scales)]
    fn = os.path.join(tmp, "mix." + fmt.lower())
    write_segy_like(fn, fmt, [dict(amp=wave(k, n), gx=raw(x, sc), gy=raw(y, sc), sx=raw(-500., sc), sy=raw(100., sc), scale=sc, nst=2, delay_ms=-40) for k, ((x, y), sc) in enumerate(zip(pos, scales))], 0.001)
    a = Array1D.from_files(fn)
    compare(a, pos, (-500., 100.), 1, lambda v: v, lambda v: v, 2, -0.04, 0.001, [wave(k, n) for k in range(len(pos))])
    return f"{scales}"


def long(fmt, n, dt, dms, nst, tmp):
    """Long records and other time steps."""
    g, src = [(1500 * i, 10 * i) for i in range(5)], (-2250, 70)
    fn = os.path.join(tmp, "long." + fmt.lower())
    if fmt == "SEG2":
        return seg2([x / 1000 for x, _ in g], -2.25, MAPS[1], nst, dms / 1000, tmp, dt, n)
    write_segy_like(fn, fmt, [dict(amp=wave(k, n), gx=x, gy=y, sx=src[0], sy=src[1], scale=-1000, nst=nst, delay_ms=dms) for k, (x, y) in enumerate(g)], dt)
    a = Array1D.from_files([fn])
    compare(a, g, src, -1000, lambda v: v, lambda v: v, nst, dms / 1000, dt, [wave(k, n) for k in range(5)])


def units(tier):
    u = [dict(mode="mixed", fmt=f) for f in ("SU", "SEGY")] + [dict(mode="long", fmt=f) for f in ("SU", "SEGY", "SEG2")]
    u += [dict(mode="su", fmt=f, scale=s, full=tier == "thorough") for f in ("SU", "SEGY") for s in SCALES]
    u += [dict(mode="seg2", k=k) for k in range(len(SEG2_LOC))]
    u += [dict(mode="kwargs", fmt=f) for f in ("SU", "SEGY", "SEG2")]
    u += [dict(mode="units", fmt=f) for f in ("SU", "SEGY")]
    return u


def run(u, ctx):
    if u["mode"] == "su":
        k = SCALES.index(u["scale"])
        for ic, m, nst, dms in itertools.product(range(len(COORDS)), MAPS, NST, DELAYS):
            if abs(u["scale"]) >= 1000 and u["scale"] > 0 and ic == 2:
                continue        # 1e9 metres: beyond any survey
            opts = itertools.product((0, 1), DTS, ("str", "list", "path")) if u["full"] else [(k % 2, DTS[k % 3], ("str", "list", "path")[k % 5 % 3])]
            for un, dt, kind in opts:
                k += 1
                ctx.case([u["fmt"], u["scale"], ic, m[0], nst, dms, un, dt, kind], check, u["fmt"], u["scale"], COORDS[ic], m, nst, dms, un, dt, kind, ctx.tmp)
        ctx.case(["from_trace", u["scale"]], direct, u["fmt"], u["scale"], ctx.tmp)
        for r in range(6):
            for gone in itertools.combinations(KEYS, r):
                ctx.case(["lacking", u["fmt"], u["scale"], gone], lacking, u["fmt"], u["scale"], gone, ctx.tmp)
    elif u["mode"] == "mixed":
        for k in (2, 3):
            for sc in itertools.product((-1000, -100, -1, 0, 1, 10, 100), repeat=k):
                ctx.case([u["fmt"], sc], mixed, u["fmt"], sc, ctx.tmp)
        ctx.case([u["fmt"], "four"], mixed, u["fmt"], (0, 0, 0, -10), ctx.tmp)
    elif u["mode"] == "long":
        for n, dt, dms, nst in itertools.product((601, 4096), (0.000125, 0.00025, 0.004, 0.032), (0, -250, -9999), (1, 120)):
            ctx.case([u["fmt"], n, dt, dms, nst], long, u["fmt"], n, dt, dms, nst, ctx.tmp)
    elif u["mode"] == "kwargs":
        for i0, i1, fk in itertools.product((0, 1, 5), (6, 10, 11), (False, True)):
            ctx.case([u["fmt"], i0, i1, fk], read_kwargs, u["fmt"], i0, i1, fk, ctx.tmp)
    elif u["mode"] == "seg2":
        locs, src = SEG2_LOC[u["k"]]
        for m, st, d in itertools.product(MAPS, (None, 0, 1, 3, 25, 1000), (None, 0, -0.5, -0.032, "-1.25")):
            ctx.case([m[0], st, d], seg2, locs, src, m, st, d, ctx.tmp)
    else:
        for un, sc, dms, c in itertools.product((0, 1, 2, 3), (-1000, 0, 10), (0, -500), COORDS):
            ctx.case([u["fmt"], un, sc, dms], check, u["fmt"], sc, c, MAPS[0], 1, dms, un, 0.001, "str", ctx.tmp)
