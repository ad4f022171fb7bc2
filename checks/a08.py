"""A08 stacking of files: every trace order in every file, against the count-weighted mean per position."""
import itertools
import os
import pathlib

import numpy as np
import obspy

from swprocess import Array1D, Source

from mc.files import write_segy_like, write_seg2
from mc import util
from mc.util import ok, same, close, raises

RULE = ("every order of the traces in each file, every mapping and stack-count combination, several formats and kinds of name, compared per "
        "position with the stack-count-weighted mean; every kind of mismatch placed in every file after the first")
BOUNDS = dict(quick="3 sensors: all 216 orders over 3 files x 4 mappings; 4 sensors: all 576 orders over 2 files; 27 stack-count triples; up to 6 files; 3 formats; 6 kinds of name; 11 mismatches x every later place in 2..4 files; all sequences of up to 4 names drawn from 4 files (names repeating, same base name in several folders); sensors 1, 2 and 10 mm apart in all 24 orders; 12..48 sensors x up to 12 files; parts of each trace (reader keyword arguments) over 1..3 files",
              thorough="all 216 orders x 4 mappings x 27 stack-count triples in SU, all orders in SEG-Y and SEG2")
ASSUMPTIONS = ["all files of one shot have the same format; lists and tuples are the iterables tried"]

MAPS = [("id", lambda v: v), ("shift", lambda v: v + 10.25), ("flip", lambda v: -v), ("scaleflip", lambda v: 40 - 2 * v)]
XS = [0., 1.5, 4., 7.25]
NST = [1, 2, 5]


def rec(f, k, n=8):
    i = np.arange(n)
    return ((i * i * (k + 1) + (3 + f) * i + 5 * k + 7 * f) % 13 - 6.) * (1 + 0.5 * f) * util.GAIN


def write(fmt, fn, f, order, nst, xs=XS, src=(-3., 2.), dt=0.001, n=8, delay=-0.01, ys=None, recs=None):
    ys = ys or [0.5 * k for k in range(len(xs))]
    if fmt in ("SU", "SEGY"):
        write_segy_like(fn, fmt, [dict(amp=rec(f, k, n) if recs is None else recs[k], gx=round(xs[k] * 1000), gy=round(ys[k] * 1000), sx=round(src[0] * 1000), sy=round(src[1] * 1000),
                                       scale=-1000, nst=nst, delay_ms=round(delay * 1000)) for k in order], dt)
    else:
        write_seg2(fn, [dict(amp=rec(f, k, n), headers={"RECEIVER_LOCATION": repr(xs[k]), "SOURCE_LOCATION": repr(src[0]), "STACK": str(nst), "DELAY": repr(delay)})
                        for k in order], dt)


def stack(fmt, orders, nsts, mapping, ns, tmp, kind="list"):
    name, mx = mapping
    fns = []
    for f, (o, nst) in enumerate(zip(orders, nsts)):
        fn = os.path.join(tmp, f"s{f}.dat")
        write(fmt, fn, f, o, nst, xs=XS[:ns])
        fns.append(fn)
    arg = dict(list=list, tuple=tuple, paths=lambda l: [pathlib.Path(p) for p in l], mixed=lambda l: [pathlib.Path(l[0])] + l[1:],
               str=lambda l: l[0], path=lambda l: pathlib.Path(l[0]))[kind](fns)
    keep = list(arg) if kind not in ("str", "path") else arg
    kw = {} if name == "id" else dict(map_x=mx)
    a = Array1D.from_files(arg, **kw)
    ok((list(arg) if kind not in ("str", "path") else arg) == keep, "the list of names was altered")
    want = sorted((float(mx(x)), k) for k, x in enumerate(XS[:ns]))
    ok(a.nchannels == ns, f"{a.nchannels} sensors")
    ok(abs(a.source.x - mx(-3.)) < 1e-9, f"source {a.source.x}")
    for s, (x, k) in zip(a.sensors, want):
        ok(abs(s.x - x) < 1e-9, f"sensor at {s.x}, expected {x}")
        ok(abs(s.y - (0.5 * k if fmt != "SEG2" else 0)) < 1e-9, f"sensor y {s.y}")
        ok(s.nstacks == sum(nsts), f"nstacks {s.nstacks}, contributions {nsts}")
        mean = sum(rec(f, k) * w for f, w in enumerate(nsts)) / sum(nsts)
        close(s.amplitude, mean, f"sensor at {x}", rtol=1e-6)
        ok(abs(s.delay + 0.01) < 1e-12, "delay")
        ok(abs(s.dt - 0.001) < 1e-12, "dt")
    return f"{name} {nsts}"


def repeat(seq, sub, kind, tmp):
    """Names may repeat: a file counts as often as it is given, wherever it stands in the list."""
    nst = [1, 2, 5, 3]
    orders = [[0, 1, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]]
    fns = []
    for f in range(4):
        d = os.path.join(tmp, sub if sub == "" else f"{sub}{f}")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "r.su" if sub else f"r{f}.su")
        write("SU", fn, f, orders[f], nst[f], xs=XS[:3])
        fns.append(fn)
    arg = [fns[i] for i in seq]
    if kind == "paths":
        arg = [pathlib.Path(q) for q in arg]
    a = Array1D.from_files(arg if kind != "tuple" else tuple(arg))
    tot = sum(nst[i] for i in seq)
    for k, s in enumerate(a.sensors):
        ok(s.nstacks == tot, f"nstacks {s.nstacks} for files {seq}, contributions {[nst[i] for i in seq]}")
        close(s.amplitude, sum(rec(i, k) * nst[i] for i in seq) / tot, f"files {seq}, sensor {k}", rtol=1e-6)
        ok(s.x == XS[k], "position")
    return f"{sorted(seq)}"


def close_pos(eps, order, nf, tmp):
    """Sensors that are only eps apart (millimetres) are still told apart, and a file displaced by eps is refused."""
    xs = [0., eps, 4., 4. + eps]
    fns = []
    for f in range(nf):
        fn = os.path.join(tmp, f"c{f}.su")
        write("SU", fn, f, order[f:] + order[:f], f + 1, xs=xs)
        fns.append(fn)
    a = Array1D.from_files(fns)
    ok([s.x for s in a.sensors] == sorted(xs), "positions")
    tot = sum(range(1, nf + 1))
    for k, s in enumerate(a.sensors):
        close(s.amplitude, sum(rec(f, k) * (f + 1) for f in range(nf)) / tot, f"sensor {k}", rtol=1e-6)
        ok(s.nstacks == tot, "nstacks")
    for k in range(4):
        for sign in (1, -1):
            ys = list(xs)
            ys[k] += sign * 0.001
            if len({round(v, 3) for v in ys}) < 4:
                continue
            fn = os.path.join(tmp, "cx.su")
            write("SU", fn, 1, order, 1, xs=[round(v, 3) for v in ys])
            raises(ValueError, lambda: Array1D.from_files(fns + [fn]), f"file whose sensor {k} is displaced by {sign} mm")


def many(ns, nf, tmp, n=8):
    """Realistic sizes: up to 48 sensors with traces rotated and reversed from file to file."""
    xs = [1.5 * k - 7 for k in range(ns)]
    fns = []
    for f in range(nf):
        fn = os.path.join(tmp, f"n{f}.su")
        o = list(range(ns))
        o = o[(7 * f) % ns:] + o[:(7 * f) % ns]
        write("SU", fn, f, o[::-1] if f % 2 else o, 1 + f % 3, xs=xs, n=n)
        fns.append(fn)
    a = Array1D.from_files(fns)
    w = [1 + f % 3 for f in range(nf)]
    ok(a.nchannels == ns, "channels")
    for k, s in enumerate(a.sensors):
        ok(abs(s.x - xs[k]) < 1e-9 and s.nstacks == sum(w), "position or stack count")
        close(s.amplitude, sum(rec(f, k, n) * w[f] for f in range(nf)) / sum(w), f"sensor {k} of {ns}, {nf} files", rtol=1e-6)


BAD = ["sx", "sy", "position", "ypos", "fewer", "more", "dt", "n", "delay", "swap", "duplicate"]


def mismatch(fmt, kind, place, nfiles, mapping, tmp):
    name, mx = mapping
    fns = []
    for f in range(nfiles):
        fn = os.path.join(tmp, f"m{f}.dat")
        kw = {}
        xs, order = XS[:3], [0, 1, 2]
        if f == place:
            if kind == "sx":
                kw = dict(src=(-3.5, 2.))
            elif kind == "sy":
                kw = dict(src=(-3., 2.001))
            elif kind == "position":
                xs = [0., 1.5, 4.25]
            elif kind == "ypos":
                kw = dict(ys=[0., 0.5, 1.25])
            elif kind == "fewer":
                order = [0, 1]
            elif kind == "more":
                xs, order = XS, [0, 1, 2, 3]
            elif kind == "dt":
                kw = dict(dt=0.002)
            elif kind == "n":
                kw = dict(n=9)
            elif kind == "delay":
                kw = dict(delay=-0.02)
            elif kind == "swap":
                xs = [1.5, 4., 7.25]
            elif kind == "duplicate":
                order = [0, 1, 1]
        write(fmt, fn, f, order, 1, xs=xs, **kw)
        fns.append(fn)
    kw = {} if name == "id" else dict(map_x=mx)
    raises(ValueError, lambda: Array1D.from_files(fns, **kw), f"{kind} in file {place}")


def kwargs(tmp):
    fns = []
    for f in range(3):
        fn = os.path.join(tmp, f"k{f}.dat")
        write("SU", fn, f, [2, 0, 1], 2, xs=XS[:3])
        fns.append(fn)
    kw = dict(format="SU", unpack_trace_headers=True)
    a = Array1D.from_files(fns, obspy_read_kwargs=kw)
    b = Array1D.from_files(fns)
    ok(a == b, "reading with explicit keyword arguments differs")
    ok(kw == dict(format="SU", unpack_trace_headers=True), "keyword arguments altered")


def part(fmt, nf, i0, i1, tmp):
    """Keyword arguments for the reader apply to every file of the list."""
    n = 8
    fns = []
    for f in range(nf):
        fn = os.path.join(tmp, f"p{f}.dat")
        write(fmt, fn, f, [(k + f) % 3 for k in range(3)], f + 1, xs=XS[:3])
        fns.append(fn)
    t0 = obspy.read(fns[0])[0].stats.starttime
    kw = dict(endtime=t0 + i1 * 0.001)
    if i0:
        kw["starttime"] = t0 + i0 * 0.001
    a = Array1D.from_files(fns, obspy_read_kwargs=kw)
    w = list(range(1, nf + 1))
    for k, s in enumerate(a.sensors):
        ok(s.nsamples == i1 + 1 - i0, f"{s.nsamples} samples read of {i1 + 1 - i0} asked for")
        close(s.amplitude, (sum(rec(f, k) * w[f] for f in range(nf)) / sum(w))[i0:i1 + 1], f"part {i0}..{i1} of sensor {k}", rtol=1e-6)
        ok(s.nstacks == sum(w), "stack count")


def units(tier):
    P3 = list(itertools.permutations(range(3)))
    u = [dict(mode="perm3", first=p, m=m, full=tier == "thorough", fmt="SU") for p in P3 for m in range(len(MAPS))]
    u += [dict(mode="perm4", first=list(p)) for p in itertools.permutations(range(4))]
    u += [dict(mode="nst", fmt=f) for f in ("SU", "SEGY", "SEG2")]
    if tier == "thorough":
        u += [dict(mode="perm3", first=p, m=m, full=False, fmt=f) for p in P3 for m in range(len(MAPS)) for f in ("SEGY", "SEG2")]
    u += [dict(mode="bad", fmt=f, n=n) for f in ("SU", "SEGY", "SEG2") for n in (2, 3, 4)]
    u += [dict(mode="kinds")]
    u += [dict(mode="repeat", n=n, first=i) for n in range(1, 5 if tier == "quick" else 6) for i in range(4)]
    u += [dict(mode="close", eps=e) for e in (0.001, 0.002, 0.01)] + [dict(mode="many", ns=ns) for ns in (12, 24, 25, 48)]
    u += [dict(mode="many", ns=12, gain=g) for g in (2. ** -60, 2. ** 40)] + [dict(mode="nst", fmt=f, gain=g) for f in ("SU", "SEGY", "SEG2") for g in (2. ** -60, 2. ** 40)]
    return u


def run(u, ctx):
    T = list(itertools.product(NST, repeat=3))
    if u["mode"] == "perm3":
        i = u["m"]
        for o2, o3 in itertools.product(itertools.permutations(range(3)), repeat=2):
            for t in (T if u["full"] else [T[(5 * i) % 27]]):
                i += 1
                ctx.case([u["fmt"], u["first"], o2, o3, u["m"], t], stack, u["fmt"], [u["first"], o2, o3], t, MAPS[u["m"]], 3, ctx.tmp)
    elif u["mode"] == "perm4":
        for i, o in enumerate(itertools.permutations(range(4))):
            ctx.case([u["first"], o], stack, "SU", [u["first"], list(o)], [2, 3], MAPS[i % 4], 4, ctx.tmp)
    elif u["mode"] == "nst":
        for t in T:
            ctx.case([u["fmt"], t], stack, u["fmt"], [[0, 1, 2], [2, 1, 0], [1, 0, 2]], t, MAPS[1], 3, ctx.tmp)
        for nf in (1, 2, 4, 6):
            for m in MAPS:
                ctx.case([u["fmt"], "files", nf, m[0]], stack, u["fmt"], [[k, (k + 1) % 3, (k + 2) % 3] for k in [j % 3 for j in range(nf)]], list(range(1, nf + 1)), m, 3, ctx.tmp)
    elif u["mode"] == "bad":
        for kind, m in itertools.product(BAD, MAPS[:3:2]):
            if u["fmt"] == "SEG2" and kind in ("sy", "ypos"):
                continue
            for place in range(1, u["n"]):
                ctx.case([u["fmt"], kind, place, u["n"], m[0]], mismatch, u["fmt"], kind, place, u["n"], m, ctx.tmp)
    elif u["mode"] == "repeat":
        for rest in itertools.product(range(4 if u["n"] < 5 else 3), repeat=u["n"] - 1):
            seq = (u["first"],) + rest
            ctx.case(["repeat", seq], repeat, seq, ("", "d")[sum(seq) % 2], ("list", "tuple", "paths")[sum(seq) % 3], ctx.newtmp())
    elif u["mode"] == "close":
        for o in itertools.permutations(range(4)):
            for nf in (1, 2, 3):
                ctx.case(["close", u["eps"], o, nf], close_pos, u["eps"], list(o), nf, ctx.tmp)
    elif u["mode"] == "many":
        for nf in (1, 2, 3, 10, 12) + ((40,) if u["ns"] == 12 else ()):
            ctx.case(["many", u["ns"], nf], many, u["ns"], nf, ctx.newtmp())
            ctx.case(["many", u["ns"], nf, "long"], many, u["ns"], nf, ctx.newtmp(), 1500)
    else:
        for kind in ("list", "tuple", "paths", "mixed", "str", "path"):
            for m in MAPS:
                nf = 1 if kind in ("str", "path") else 3
                ctx.case([kind, m[0]], stack, "SU", [[2, 0, 1]] * nf, [3] * nf, m, 3, ctx.tmp, kind)
        ctx.case(["kwargs"], kwargs, ctx.tmp)
        for fmt, nf, i0, i1 in itertools.product(("SU", "SEGY", "SEG2"), (1, 2, 3), (0, 2), (4, 6)):
            ctx.case(["part", fmt, nf, i0, i1], part, fmt, nf, i0, i1, ctx.tmp)
