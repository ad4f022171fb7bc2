"""P05 .max files: every file of the alphabet is written as text, read back and compared with the rows it was written from."""
import itertools
import os
import pathlib
import warnings

import numpy as np

from swprocess import Peaks, PeaksSuite

from mc.util import ok, same, close, raises

RULE = ("files are generated from a list of rows (window, frequency, wave type, values as text, validity); the reader's peaks are compared with those rows directly: number and order of "
        "windows, identifiers, every attribute of every valid row at the place given by frequency and order of appearance")
BOUNDS = dict(quick="2 windows x 2 frequencies x 0..2 maxima per cell with every validity pattern (9^4 is thinned to 3 of the cells); 10 pairs of window times and 12 pairs of frequencies that are prefixes, suffixes or patterns of one another; 12 number formats per column; "
                    "7 kinds of polarization mix with every wave type present or absent; 12 headers; every ordered pair of 6 files; 1..130 windows x 3..500 frequencies x 1..25 maxima, grouped by window or by frequency; 9 versions",
              thorough="all validity patterns of 2 windows x 2 frequencies x up to 2 maxima, with each pair of times and frequencies")
ASSUMPTIONS = ["a window or frequency is identified by its text", "the first row of each file tells whether it holds vertical-component results",
               "a file has at least one valid row of the requested wave type in the windows that count, and no more maxima per frequency than it announces"]

HEAD = """# MAX FORMAT RELEASE 1.1
#
# BEGIN COMMAND LINE ARGUMENTS
#
geopsy-fk -db ../db.gpy -param {param} -group-path 3c -o out
#
# BEGIN SOFTWARE VERSION
  Qt                  5.12.3
  QGpCoreTools        2.2.0 from geopsypack-{version}
      (built on 20191001095018 commit 9a9aca6fa9a4afe876dea557f2abdfcf2a347b70)
#
UT_STN11 9.31 47.18 0.00
UT_STN15 0.00 0.00 0.00
#
FROM_TIME_TEXT=20170609223200.000000
MINIMUM_DISTANCE=0
MAXIMUM_DISTANCE={maxdist}
PROCESS_TYPE={process}
N_MAXIMA={nmax}
#
# abs_time frequency polarization slowness azimuth ellipticity noise power valid
"""

T0, T1 = "20170609223200.000000", "20170609223630.090000"
F0, F1 = "26.784520720832514229", "2.5"


def text(rows, nmax=2, process="RTBF", version="3.2.0", maxdist="100", param="c50.param"):
    out = HEAD.format(version=version, maxdist=maxdist, process=process, nmax=nmax, param=param)
    for r in rows:
        out += " ".join(r) + "\n"
    return out


def row(t, f, w="Rayleigh", k=0, valid=True, slo=None, azi=None, ell=None, noi=None, pwr=None):
    """Values differ from row to row and often start with or contain the digit 1."""
    return (t, f, w, slo or repr(0.001 * (k + 1) + 1e-5), azi or repr(10.25 + 11 * k), ell or repr(-1.5 + 0.25 * k), noi or repr(0.5 * k), pwr or repr(1000.5 + 113 * k), "1" if valid else "0")


def expect(rows, wave, single=False):
    """Reference: windows in order of first valid row, frequencies in order of first valid row, maxima in order of appearance."""
    rows = [r for r in rows if r[2] == wave and r[-1] == "1"]
    times = list(dict.fromkeys(r[0] for r in rows))
    if single:
        times = times[:1]
        rows = [r for r in rows if r[0] == times[0]]
    freqs = list(dict.fromkeys(r[1] for r in rows))
    return [(t, freqs, [[r for r in rows if r[0] == t and r[1] == f] for f in freqs]) for t in times]


def judge(p, exp, process, nmax, msg):
    t, freqs, cells = exp
    ok(p.identifier == f"{t}-{process}", f"{msg}: identifier {p.identifier!r}, window {t}")
    n = max([1, nmax])
    for name, col, fn in (("frequency", 1, float), ("velocity", 3, lambda s: 1 / float(s)), ("azimuth", 4, float), ("ellipticity", 5, float), ("noise", 6, float), ("power", 7, float)):
        tab = np.full((n, len(freqs)), np.nan)
        mask = np.zeros((n, len(freqs)), bool)
        for c, cell in enumerate(cells):
            for k, r in enumerate(cell):
                tab[k, c] = fn(r[col])
                mask[k, c] = True
        close(np.asarray(getattr(p, name)), tab[mask], f"{msg}: {name} of window {t}", rtol=1e-14)
    # the place in the table decides what is simplified together: one value per frequency
    if len(freqs):
        want = [max(cell, key=lambda r: float(r[7])) for cell in cells if cell]
        if all(len({float(r[7]) for r in cell}) == len(cell) for cell in cells):
            same(np.asarray(p.simplify_mpeaks("frequency")), np.array([float(r[1]) for r in want]), f"{msg}: strongest peak per frequency")
            same(np.asarray(p.simplify_mpeaks("azimuth")), np.array([float(r[4]) for r in want]), f"{msg}: strongest peak per frequency")


def check(rows, tmp, wavetype="rayleigh", nmax=2, process="RTBF", single=True, **head):
    fn = os.path.join(tmp, "f.max")
    with open(fn, "w") as f:
        f.write(text(rows, nmax, process, **head))
    vertical = rows[0][2] == "Vertical"
    wave = "Vertical" if wavetype == "rayleigh" and vertical else wavetype.capitalize()
    proc = "capon" if process == "RTBF" and vertical else process.lower()
    exp = expect(rows, wave)
    if not exp:
        for what, get in (("suite", lambda: len(PeaksSuite.from_max(fn, wavetype=wavetype))), ("single", lambda: np.size(Peaks.from_max(fn, wavetype=wavetype).frequency))):
            try:
                n = get()
            except Exception as e:
                n = 0
            ok(not n, f"{what} reader: {n} peaks from a file without a valid {wavetype} row")
        return "no valid row"
    s = PeaksSuite.from_max(fn, wavetype=wavetype)
    ok(len(s) == len(exp), f"{len(s)} windows read, {len(exp)} written")
    for p, e in zip(s, exp):
        judge(p, e, proc, nmax, "suite reader")
    ok(list(s.ids) == [f"{e[0]}-{proc}" for e in exp], "identifiers of the suite")
    if single:
        p = Peaks.from_max(fn, wavetype=wavetype)
        judge(p, expect(rows, wave, single=True)[0], proc, nmax, "single reader")
    return f"{[[len(c) for c in e[2]] for e in exp]} {wave} {proc}"


CELLS = [(), (1,), (0,), (1, 1), (1, 0), (0, 1), (0, 0)]


def structure(cells, times=(T0, T1), freqs=(F0, F1)):
    """cells: [window][frequency] -> validity of each row."""
    rows, k = [], 0
    for w, t in enumerate(times):
        for c, f in enumerate(freqs):
            for v in cells[w * len(freqs) + c]:
                rows.append(row(t, f, k=k, valid=bool(v)))
                k = (k * 3 + 1) % 11
    return rows


def large(nw, nf, nm, order, tmp, by="window"):
    """Many windows, frequencies and maxima; the frequencies in any order."""
    freqs = [repr(round(2.5 * 1.07 ** k, 6)) for k in range(nf)]
    freqs = {"up": freqs, "down": freqs[::-1], "mixed": freqs[::2] + freqs[1::2]}[order]
    rows, k = [], 0
    for w in range(nw):
        for c, f in enumerate(freqs):
            for j in range(1 + (nm - 1) * ((w + c) % 3) // 2):
                k += 1
                rows.append(row(repr(100. * w + 0.5), f, "Love" if k % 9 == 0 and k > 1 else "Rayleigh", k=(k * 7) % 1009, valid=k % 4 != 2 or k < 3, pwr=repr(1000.5 + (k * 613) % 4099)))
    if by == "frequency":           # all windows of one frequency before the next frequency
        rows = sorted(rows, key=lambda r: freqs.index(r[1]))
    return check(rows, tmp, nmax=nm)


TIMES = [(T0, T1), ("5.0", "15.0"), ("15.0", "5.0"), ("100.5", "100.50000"), ("1005", "10055"), ("5", "55"), ("20170609223200.000000", "120170609223200.000000"), ("200.5", "20015"), ("20015", "200.5"), (T0, T0[:-1] + "1")]
FREQS = [(F0, F1), ("2.5", "12.5"), ("12.5", "2.5"), ("2.5", "245"), ("245", "2.5"), ("2", "2.5"), ("2.5", "2.50"), ("1e+02", "1e+01"), ("10", "1"), ("1e-05", "1e-052"), ("0.5", "10.5"), ("12.345678901234567", "12.345678901234568")]
FMT = dict(slo=["0.0018554754628104259268", "1e-3", "2E-05", "1", "5e+00", "1.0e-01", "0.1"], azi=["0", "359.999", "1", "-1.25", "1e1", "6e-15", "177.50000000000005684"],
           ell=["0", "-0", "-1.2835212219205216488", "1", "1e+10", "-1e-10"], noi=["inf", "nan", "-inf", "0", "1", "152.96674997467835055", "-3.5e-2", "1e-300"], pwr=["0", "1", "1.5", "12011.679960801997368", "2e-05", "175008237.92554977536", "1e+08", "100 ".strip()])


def formats(col, val, other, tmp):
    rows = [row(T0, F0, k=1), row(T0, F0, k=4, **{col: val}), row(T0, F1, k=5, valid=False, **{col: other}), row(T0, F1, k=7, **{col: other}), row(T1, F1, k=2, valid=False, **{col: val}), row(T1, F0, k=3)]
    return check(rows, tmp)


def mixes():
    out = {}
    base = [(T0, F0), (T0, F1), (T1, F0), (T1, F1)]
    out["rayleigh+love"] = ([row(t, f, w, k=i * 3 + j) for i, (t, f) in enumerate(base) for j, w in enumerate(("Rayleigh", "Love", "Love"))], ("rayleigh", "love"))
    out["love first"] = ([row(t, f, w, k=i * 3 + j) for i, (t, f) in enumerate(base) for j, w in enumerate(("Love", "Rayleigh"))], ("rayleigh", "love"))
    out["love only in second window"] = ([row(T0, F0, k=1), row(T0, F1, "Love", k=2, valid=False), row(T1, F1, "Love", k=3), row(T1, F0, k=4), row(T1, F0, "Love", k=5)], ("rayleigh", "love"))
    out["vertical"] = ([row(t, f, "Vertical", k=i, ell="0", noi="0") for i, (t, f) in enumerate(base)], ("rayleigh", "vertical"))
    out["vertical invalid first"] = ([row(t, f, "Vertical", k=i, valid=i > 0, ell="0", noi="0") for i, (t, f) in enumerate(base)], ("rayleigh", "vertical"))
    out["vertical inf first"] = ([row(t, f, "Vertical", k=i, noi="inf" if i == 0 else "0") for i, (t, f) in enumerate(base)], ("rayleigh", "vertical"))
    out["three"] = ([row(t, f, w, k=i * 3 + j) for i, (t, f) in enumerate(base) for j, w in enumerate(("Radial", "Transverse"))], ("radial", "transverse"))
    return out


HEADS = [dict(), dict(maxdist="inf"), dict(maxdist="nan"), dict(param="info.param"), dict(param="nan 1"), dict(param="20170609 5 x 1 2 3.5 1"), dict(process="Conventional"), dict(process="RTBF", nmax=1), dict(nmax=0), dict(nmax=5), dict(nmax=20), dict(nmax=250)]


def badversion(v, tmp):
    fn = os.path.join(tmp, "v.max")
    with open(fn, "w") as f:
        f.write(text([row(T0, F0, k=1)], version=v))
    if v == "3.2.0":
        ok(len(PeaksSuite.from_max(fn)) == 1, "supported version")
        Peaks.from_max(fn)
        return
    raises(ValueError, lambda: PeaksSuite.from_max(fn), f"version {v}")
    raises(ValueError, lambda: Peaks.from_max(fn), f"version {v}")
    good = os.path.join(tmp, "g.max")
    with open(good, "w") as f:
        f.write(text([row(T1, F0, k=1)]))
    raises(ValueError, lambda: PeaksSuite.from_max([good, fn]), f"version {v} in the second file")


def files(tmp):
    d = {}
    d["a"] = (structure([(1, 1), (1,), (0, 1), (1,)]), dict(process="RTBF", nmax=2))
    d["b"] = (structure([(1,), (), (1,), (1, 1)], times=("5.0", "15.0"), freqs=("2.5", "12.5")), dict(process="RTBF", nmax=3))
    d["vert"] = ([row(t, f, "Vertical", k=i + j, ell="0", noi="0") for i, t in enumerate((T0, T1)) for j, f in enumerate((F1, F0, "4"))], dict(process="RTBF", nmax=1))
    d["vconv"] = ([row(t, f, "Vertical", k=i * 2 + j, ell="0", noi="0") for i, t in enumerate((T1, T0)) for j, f in enumerate(("4", F0))], dict(process="Conventional", nmax=1))
    d["ray1"] = ([row("7.5", "4", k=3)], dict(process="RTBF", nmax=1))
    d["mix"] = ([row("9.5", f, w, k=i * 2 + j) for i, f in enumerate(("4", "3")) for j, w in enumerate(("Love", "Rayleigh"))], dict(process="RTBF", nmax=5, maxdist="inf"))
    for k, (rows, kw) in d.items():
        with open(os.path.join(tmp, k + ".max"), "w") as f:
            f.write(text(rows, **kw))
    return d


def several(names, kind, tmp):
    d = files(tmp)
    fns = [os.path.join(tmp, n + ".max") for n in names]
    arg = dict(list=list, tuple=tuple, path=lambda l: [pathlib.Path(x) for x in l], str=lambda l: l[0], one=lambda l: pathlib.Path(l[0]))[kind](fns)
    s = PeaksSuite.from_max(arg)
    exp = []
    for n in names:
        rows, kw = d[n]
        v = rows[0][2] == "Vertical"
        proc = "capon" if v and kw["process"] == "RTBF" else kw["process"].lower()
        exp += [(e, proc, kw["nmax"]) for e in expect(rows, "Vertical" if v else "Rayleigh")]
    ok(len(s) == len(exp), f"{len(s)} windows read from {names}, {len(exp)} written")
    for p, (e, proc, n) in zip(s, exp):
        judge(p, e, proc, n, f"{names}")
    return f"{names}"


def bad(tmp):
    fn = os.path.join(tmp, "f.max")
    with open(fn, "w") as f:
        f.write(text([row(T0, F0, k=1)]))
    for w in ("incorrect", "Rayleigh", "", "(.*)"):
        raises(ValueError, lambda: Peaks.from_max(fn, wavetype=w), f"wave type {w}")
        raises(ValueError, lambda: PeaksSuite.from_max(fn, wavetype=w), f"wave type {w}")
    raises(KeyError, lambda: PeaksSuite.from_max([fn, fn]), "the same windows twice")
    raises(FileNotFoundError, lambda: PeaksSuite.from_max([fn, fn + "x"]), "missing file")


def units(tier):
    u = [dict(mode="cells", first=i, tier=tier) for i in range(len(CELLS))]
    u += [dict(mode="names", t=i, tier=tier) for i in range(len(TIMES))]
    u += [dict(mode="large", n=n) for n in (1, 12, 45)] 
    u += [dict(mode="formats"), dict(mode="mixes"), dict(mode="versions"), dict(mode="several", n=2), dict(mode="several", n=3)]
    if tier == "thorough":
        u += [dict(mode="cellnames", t=i) for i in range(len(TIMES))]
    return u


def run(u, ctx):
    m, tmp = u["mode"], ctx.tmp
    if m == "cells":
        for i, rest in enumerate(itertools.product(CELLS, repeat=3)):
            if u["tier"] == "quick" and i % 3 != u["first"] % 3 and any(len(c) == 2 and c != (1, 0) for c in rest[1:]):
                continue
            c = [CELLS[u["first"]], *rest]
            rows = structure(c)
            if rows:
                ctx.case(c, check, rows, tmp)
    elif m == "names":
        t = TIMES[u["t"]]
        for f in FREQS:
            for c in ([(1,), (1,), (1,), (1,)], [(1, 1), (1,), (1,), (1, 1)], [(1, 0), (0, 1), (0, 1), (1, 0)], [(), (1,), (1,), ()], [(1,), (), (), (1, 1)], [(0,), (1,), (1,), (0,)]):
                ctx.case([t, f, c], check, structure(c, t, f), tmp)
                inter = structure(c, t, f)[::2] + structure(c, t, f)[1::2]      # rows of the two windows interleaved
                ctx.case([t, f, c, "interleaved"], check, inter, tmp, nmax=4)
    elif m == "cellnames":
        for f in FREQS:
            for c in itertools.product(CELLS[:6], repeat=4):
                if sum(map(len, c)) and hash(c) is not None:
                    ctx.case([TIMES[u["t"]], f, c], check, structure(c, TIMES[u["t"]], f), tmp, single=False)
    elif m == "large":
        for nf, nm, order in itertools.product((3, 40, 260), (1, 12, 25), ("up", "down", "mixed")):
            if u["n"] * nf * nm < 2500:
                ctx.case([u["n"], nf, nm, order], large, u["n"], nf, nm, order, tmp)
            if u["n"] * nf * nm < 1300:
                ctx.case([u["n"], nf, nm, order, "frequency"], large, u["n"], nf, nm, order, tmp, "frequency")
        if u["n"] == 45:
            for (nw, nf), by in itertools.product(((130, 3), (110, 9), (3, 260), (2, 500)), ("window", "frequency")):
                ctx.case([nw, nf, by], large, nw, nf, 2, "mixed", tmp, by)
        if u["n"] == 1:
            for nm, first in itertools.product((9, 10, 11, 20, 21, 33, 50, 51, 64, 99, 100), (0, 1)):
                rows = [row(T0, F1, k=3)] * (1 - first)
                rows += [row(T0, F0, k=k, pwr=repr(1000.5 + (k * 613) % 4099)) for k in range(nm)] + [row(T0, F1, k=3)] * first + [row(T1, F0, k=5)]
                ctx.case(["tall", nm, first], check, rows, tmp, nmax=nm)
    elif m == "formats":
        for col, vals in FMT.items():
            for v, o in itertools.product(vals, repeat=2):
                ctx.case([col, v, o], formats, col, v, o, tmp)
    elif m == "mixes":
        for name, (rows, waves) in mixes().items():
            for w in ("rayleigh", "love", "vertical", "radial", "transverse"):
                if w not in waves:
                    ctx.case([name, w, "absent"], check, rows, tmp, w)
            for w, h in itertools.product(waves, HEADS):
                h = dict(h)
                if h.get("nmax", 2) < 2:
                    seen = set()
                    r2 = []
                    for r in rows:
                        if r[:3] not in seen:
                            r2.append(r)
                        seen.add(r[:3])
                    ctx.case([name, w, h], check, r2, tmp, w, **h)
                else:
                    ctx.case([name, w, h], check, rows, tmp, w, **h)
    elif m == "versions":
        for v in ("3.2.0", "3.1.0", "3.2.1", "2.2.0", "3.20.0", "3.2.01", "13.2.0", "3.2.00", "4.0.0", "0.0.0"):
            ctx.case([v], badversion, v, tmp)
        ctx.case(["bad"], bad, tmp)
    else:
        names = ["a", "b", "vert", "vconv", "ray1", "mix"]
        for c in itertools.permutations(names, u["n"]):
            for kind in ("list", "path") if u["n"] == 2 else ("tuple",):
                ctx.case([c, kind], several, list(c), kind, tmp)
        for n in names:
            for kind in ("list", "tuple", "path", "str", "one"):
                ctx.case([n, kind], several, [n], kind, tmp)
