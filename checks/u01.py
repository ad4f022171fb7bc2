"""U01 extraction: every block over a span of hourly files, every kind of boundary, every sequence of rows."""
import calendar
import datetime as D
import itertools
import os
import shutil
import warnings

import numpy as np
import obspy

from swprocess.utils import extract_mseed

from mc.util import ok, raises

RULE = ("hourly files whose samples number the seconds of each station are written around a boundary; every block between the marks of the span is extracted and compared sample by sample; "
        "every sequence of rows of an alphabet with an unusable row at every place; every kind of unreadable table")
BOUNDS = dict(quick="6 boundaries (hour, day, month, leap February, common February, year) x all 55 ordered pairs of 10 marks; all sequences of up to 3 of 4 rows, a bad row in every place of them; 2 extensions; blocks of up to 200 hours; 3 splits of the recording into overlapping or adjacent files; 5 gaps x 2 sample types x blocks around them; all pairs, in both orders, of 10 stations numbered 1 to 999, and all of them in one table",
              thorough="all 136 ordered pairs of 16 marks; all sequences of up to 4 of 5 rows")
ASSUMPTIONS = ["samples lie on whole seconds, the files of all hours touched exist, and the first and last second of a block were recorded", "rows write to different files and the output directory exists"]
HEAD = ["folder name", "array name", "station number"] + [f"{w} {p}" for w in ("start", "end") for p in ("year", "month", "date", "hour", "minute", "second")] + ["notes"]
# first hour of a three-hour span
BASES = dict(hour=D.datetime(2019, 5, 14, 9), day=D.datetime(2019, 5, 14, 22), month=D.datetime(2019, 4, 30, 23), leap=D.datetime(2020, 2, 28, 23), feb=D.datetime(2019, 2, 28, 23), year=D.datetime(2019, 12, 31, 22))
MARKS = [0, 1, 59, 1800, 3599, 3600, 3661, 7199, 7200, 9000]
MORE = sorted(MARKS + [60, 3540, 3659, 5400, 7201, 10799])


def value(base, sec, stn):
    """Number of the second: depends on station and on the second since the base."""
    return stn * 1000000 + sec + 17


def write_hours(d, base, stns, hours, net="NW", ext="mseed", over=0, dt=1):
    for s in stns:
        for h in hours:
            a, b = h * 3600, (h + 1) * 3600 + over
            n = (b - a) // dt
            tr = obspy.Trace(np.array([value(base, a + i * dt, s) for i in range(n)], dtype=np.int32))
            tr.stats.network, tr.stats.station = net, f"STN{s:02d}"[:5]      # the format holds five characters
            tr.stats.delta = dt
            t = base + D.timedelta(hours=h)
            tr.stats.starttime = obspy.UTCDateTime(t)
            obspy.Stream([tr]).write(os.path.join(d, f"{net}.STN{s:02d}_{t:%Y%m%d}_{t:%H}0000.{ext}"), format="MSEED")


def row(folder, array, stn, a, b, notes=""):
    f = lambda t: [t.year, t.month, t.day, t.hour, t.minute, t.second]
    return [folder, array, stn] + f(a) + f(b) + [notes]


def table(fn, rows, head=HEAD):
    with open(fn, "w") as f:
        for r in [head] + rows:
            f.write(",".join(str(v) for v in r) + "\n")


def written(out):
    return sorted(os.path.relpath(os.path.join(d, f), out) for d, _, fs in os.walk(out) for f in fs)


def look(out, base, folder, array, stn, a, b, net="NW", ext="mseed", dt=1):
    fn = os.path.join(out, folder, f"{net}.STN{stn:02d}.{array}.{ext}")
    ok(os.path.isfile(fn), f"no file {folder}/{os.path.basename(fn)}, only {written(out)}")
    st = obspy.read(fn)
    ok(len(st) == 1, f"{len(st)} traces")
    tr = st[0]
    want = np.array([value(base, s, stn) for s in range(a, b + 1, dt)])
    ok(tr.stats.starttime == obspy.UTCDateTime(base) + a, f"starts at {tr.stats.starttime}, expected second {a} of {base}")
    ok(abs(tr.stats.delta - dt) < 1e-9, f"time step {tr.stats.delta}")
    ok(len(tr.data) == len(want), f"{len(tr.data)} samples, expected {len(want)}")
    ok(np.array_equal(tr.data, want), f"samples {tr.data[:3]}..{tr.data[-3:]}, expected {want[:3]}..{want[-3:]}")


def fresh(tmp):
    out = os.path.join(tmp, "out")
    shutil.rmtree(out, ignore_errors=True)
    os.mkdir(out)
    return out


def snapshot(d):
    return {f: (os.path.getsize(os.path.join(d, f)), os.stat(os.path.join(d, f)).st_mtime_ns) for f in os.listdir(d)}


def go(rows, dd, out, tmp, net="NW", ext=None, pathlike=False):
    fn = os.path.join(tmp, "t.csv")
    table(fn, rows)
    kw = {} if ext is None else dict(extension=ext)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        extract_mseed(fn, net, data_dir=dd, output_dir=out, **kw)


def block(base, dd, a, b, tmp, ext=None, net="NW", dt=1):
    out = fresh(tmp)
    before = snapshot(dd)
    at = lambda s: base + D.timedelta(seconds=s)
    go([row("F", "A1", 3, at(a), at(b))], dd, out, tmp, ext=ext, net=net)
    ok(written(out) == [f"F/{net}.STN03.A1.{ext or 'mseed'}"], f"files {written(out)}")
    look(out, base, "F", "A1", 3, a, b, ext=ext or "mseed", net=net, dt=dt)
    ok(snapshot(dd) == before, "the recordings were altered")
    return f"{b // 3600 - a // 3600} {a % 3600 == 0} {b % 3600 == 0}"


ALPH = [("F", "A1", 3, 1800, 5400), ("G", "A1", 3, 3600, 3700), ("F", "A1", 12, 7200, 7200), ("F", "B", 3, 59, 9000), ("G", "C", 12, 0, 3599)]


def many(base, dd, seq, bad, tmp):
    out = fresh(tmp)
    at = lambda s: base + D.timedelta(seconds=s)
    rows = [row(f, n, s, at(a), at(b), notes="some text" if a else "") for f, n, s, a, b in (ALPH[i] for i in seq)]
    if bad is None:
        go(rows, dd, out, tmp)
        done = seq
    else:
        place, (a, b) = bad
        rows.insert(place, row("BAD", "X", 3, at(a), at(b)))
        raises(ValueError, lambda: go(rows, dd, out, tmp), "a block that ends before its start")
        ok(not any("BAD" in f for f in written(out)), f"a file was written for a block that ends before its start: {written(out)}")
        done = None
    want = sorted(f"{ALPH[i][0]}/NW.STN{ALPH[i][2]:02d}.{ALPH[i][1]}.mseed" for i in seq)
    if done is not None:
        res = "all"
        ok(written(out) == want, f"files {written(out)}, expected {want}")
        for i in seq:
            f, n, s, a, b = ALPH[i]
            look(out, base, f, n, s, a, b)
    else:
        for w in written(out):
            i = next((i for i in seq if w == f"{ALPH[i][0]}/NW.STN{ALPH[i][2]:02d}.{ALPH[i][1]}.mseed"), None)
            ok(i is not None, f"unexpected file {w}")
            f, n, s, a, b = ALPH[i]
            look(out, base, f, n, s, a, b)


GAPS = [(100, 200), (3590, 3610), (3600, 7200), (5000, 5001), (50, 7300)]


def gap(base, dd, out_gap, a, b, typ, tmp):
    """A recording with a gap: every recorded second still holds its own sample."""
    out = fresh(tmp)
    at = lambda s: base + D.timedelta(seconds=s)
    g0, g1 = out_gap
    go([row("F", "A1", 3, at(a), at(b))], dd, out, tmp)
    fn = os.path.join(out, "F", "NW.STN03.A1.mseed")
    ok(written(out) == ["F/NW.STN03.A1.mseed"], f"files {written(out)}")
    seen = {}
    for tr in obspy.read(fn):
        s0 = tr.stats.starttime - obspy.UTCDateTime(base)
        for k, v in enumerate(np.asarray(tr.data)):
            seen[int(round(s0)) + k] = float(v)
    ok(min(seen) == a and max(seen) == b, f"seconds {min(seen)} to {max(seen)}, expected {a} to {b}")
    for s in range(a, b + 1):
        if not g0 <= s < g1:
            ok(seen.get(s) == value(base, s, 3), f"second {s}: {seen.get(s)}, recorded {value(base, s, 3)} (gap {g0} to {g1})")


def write_gap(d, base, hours, g, typ):
    for h in hours:
        t = base + D.timedelta(hours=h)
        st = obspy.Stream()
        for a, b in ((h * 3600, min((h + 1) * 3600, g[0])), (max(h * 3600, g[1]), (h + 1) * 3600)):
            if b > a:
                tr = obspy.Trace(np.array([value(base, s, 3) for s in range(a, b)], dtype=typ))
                tr.stats.network, tr.stats.station, tr.stats.delta = "NW", "STN03", 1
                tr.stats.starttime = obspy.UTCDateTime(base) + a
                st.append(tr)
        if not len(st):
            tr = obspy.Trace(np.array([value(base, (h + 1) * 3600 - 1, 3)], dtype=typ))
            tr.stats.network, tr.stats.station, tr.stats.delta = "NW", "STN03", 1
            tr.stats.starttime = obspy.UTCDateTime(base) + (h + 1) * 3600 - 1
            st.append(tr)
        st.write(os.path.join(d, f"NW.STN03_{t:%Y%m%d}_{t:%H}0000.mseed"), format="MSEED")


def again(base, dd, tmp):
    """A second extraction replaces the block of the first and leaves other files."""
    out = fresh(tmp)
    at = lambda s: base + D.timedelta(seconds=s)
    for a, b in ((0, 3700), (10, 20)):
        go([row("F", "A1", 3, at(a), at(b))], dd, out, tmp)
        look(out, base, "F", "A1", 3, a, b)
    go([row("F", "B", 3, at(5), at(6))], dd, out, tmp)
    look(out, base, "F", "A1", 3, 10, 20)
    look(out, base, "F", "B", 3, 5, 6)


def unreadable(kind, dd, tmp):
    out = fresh(tmp)
    fn = os.path.join(tmp, "bad.csv")
    base = BASES["hour"]
    good = row("F", "A1", 3, base, base + D.timedelta(seconds=10))
    if kind == "missing":
        fn = os.path.join(tmp, "nothere.csv")
    elif kind == "binary":
        with open(fn, "wb") as f:
            f.write(bytes(range(128, 256)) * 8)
    elif kind == "empty":
        open(fn, "w").close()
    elif kind == "text in a number":
        r = list(good)
        r[2] = "three"
        table(fn, [good, r])
    elif kind == "no station":
        r = list(good)
        r[2] = ""
        table(fn, [good, r])
    elif kind == "directory":
        fn = tmp
    raises(NotImplementedError, lambda: extract_mseed(fn, "NW", data_dir=dd, output_dir=out), kind)
    ok(written(out) == [], f"files {written(out)}")


UNREAD = ["missing", "binary", "empty", "text in a number", "no station", "directory"]


def units(tier):
    marks = MARKS if tier == "quick" else MORE
    u = [dict(mode="blocks", base=b, a=a, marks=marks) for b in BASES for a in marks]
    u += [dict(mode="long", base=b, first=f) for b in ("month", "leap", "year") for f in (0, 1)]
    u += [dict(mode="over", over=o, dt=dt, ext=e, net=n, marks=marks[::2] + [marks[-1]]) for o, dt, e, n in ((1, 1, "mseed", "NW"), (60, 1, "miniseed", "NW"), (0, 10, "miniseed", "UT"))]
    n, m = (4, 3) if tier == "quick" else (5, 4)
    for L in range(1, m + 1):
        for s in itertools.permutations(range(n), L):
            u.append(dict(mode="rows", seq=list(s)))
    u += [dict(mode="gap", gap=list(g), typ=t) for g in GAPS for t in ("int32", "float64")]
    u += [dict(mode="stations", first=f) for f in (0, 1, 2)]
    return u + [dict(mode="again"), dict(mode="unreadable")]


STATIONS = [1, 3, 9, 10, 33, 99, 100, 103, 203, 999]


def stations(base, dd, stns, tmp):
    """A table of many stations of one array: every station has its own file."""
    out = fresh(tmp)
    at = lambda s: base + D.timedelta(seconds=s)
    blocks = {s: (10 + s % 50, 3590 + s % 40) for s in stns}
    go([row("F", "A1", s, at(a), at(b)) for s, (a, b) in blocks.items()], dd, out, tmp)
    ok(written(out) == sorted(f"F/NW.STN{s:02d}.A1.mseed" for s in stns), f"files {written(out)}")
    for s, (a, b) in blocks.items():
        look(out, base, "F", "A1", s, a, b)


def run(u, ctx):
    tmp = ctx.tmp
    dd = os.path.join(tmp, "in")
    shutil.rmtree(dd, ignore_errors=True)
    os.mkdir(dd)
    m = u["mode"]
    if m == "blocks":
        base = BASES[u["base"]]
        write_hours(dd, base, [3], range(3))
        for b in u["marks"]:
            if b >= u["a"]:
                ctx.case([u["base"], u["a"], b], block, base, dd, u["a"], b, tmp)
    elif m == "over":
        base = BASES["day"]
        dt = u["dt"]
        write_hours(dd, base, [3], range(3), over=u["over"], dt=dt, ext=u["ext"], net=u["net"])
        ms = sorted({v - v % dt for v in u["marks"]})
        for a, b in itertools.combinations_with_replacement(ms, 2):
            ctx.case([m, u["over"], dt, u["ext"], u["net"], a, b], block, base, dd, a, b, tmp, u["ext"], u["net"], dt)
    elif m == "long":       # blocks of more than a day and more than a week
        base = BASES[u["base"]]
        write_hours(dd, base, [3], range(200), dt=60)
        for b in (23, 24, 25, 47, 49, 100, 199):
            for sec in (0, 1800, 3540):
                a = u["first"] * 1860
                ctx.case([m, u["base"], a, b, sec], block, base, dd, a, b * 3600 + sec, tmp, None, "NW", 60)
    elif m == "rows":
        base = BASES["day"]
        write_hours(dd, base, [3, 12], range(3))
        ctx.case([m, u["seq"]], many, base, dd, u["seq"], None, tmp)
        if len(u["seq"]) <= 2:
            for p in range(len(u["seq"]) + 1):
                for bad in ((3600, 3599), (7300, 100), (1801, 1800), (30, 29)):
                    ctx.case([m, u["seq"], p, list(bad)], many, base, dd, u["seq"], (p, bad), tmp)
    elif m == "gap":
        base = BASES["month"]
        g = u["gap"]
        write_gap(dd, base, range(3), g, u["typ"])
        marks = [v for v in MORE if v < g[0] or v >= g[1]]
        for a, b in itertools.combinations_with_replacement(marks, 2):
            if g[0] > a and g[1] <= b or (a + b) % 3 == 0:
                ctx.case([m, g, u["typ"], a, b], gap, base, dd, g, a, b, u["typ"], tmp)
    elif m == "stations":
        base = BASES["day"]
        write_hours(dd, base, STATIONS, range(2))
        ss = STATIONS[::-1] if u["first"] == 1 else STATIONS
        for L in (2, len(ss)) if u["first"] < 2 else (1,):
            for s in itertools.combinations(ss, L):
                ctx.case([m, list(s)], stations, base, dd, list(s), tmp)
    elif m == "again":
        base = BASES["month"]
        write_hours(dd, base, [3], range(2))
        ctx.case([m], again, base, dd, tmp)
    else:
        write_hours(dd, BASES["hour"], [3], range(1))
        for k in UNREAD:
            ctx.case([m, k], unreadable, k, dd, tmp)
