"""U04 dropping sparse observations and locations: every pattern of missing values of every small table."""
import itertools

import numpy as np

from swprocess import PeaksSuite
from swprocess.stats import Statistics

from mc.util import ok, same

RULE = "every pattern of missing values of every small table, every combination of required counts and fractions, for both tables of observations the library keeps (suites and statistics)"
BOUNDS = dict(quick="all patterns of 1x3, 3x1, 2x2, 2x3, 3x2, 3x3, 2x5, 4x3, 3x4 tables and 12 patterns of 8x20 and 4 of 6x220 ones x 3 location fractions x 3 observation fractions x 4 counts (two thirds of them for the larger tables)",
              thorough="all combinations for all tables, and all patterns of 4x4 ones")
ASSUMPTIONS = ["when both orders of dropping are equally good, either result is accepted"]

SHAPES = [(1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 5), (4, 3), (3, 4)]
FS, FO, CN = (0., 0.4, 0.6), (0., 0.34, 0.8), (0, 1, 2, 3)


def rows_kept(m, frac, count):
    return [r for r in range(len(m)) if not (sum(v == v for v in m[r]) < count or (len(m[r]) and sum(v == v for v in m[r]) / len(m[r]) < frac))]


def options(xx, m, fs, fo, cn):
    out = []
    T = lambda a, w: [[a[r][c] for r in range(len(a))] for c in range(w)]
    for first in ("cols", "rows"):
        a, cols = m, list(range(len(xx)))
        rows = list(range(len(m)))
        for what in (("cols", "rows") if first == "cols" else ("rows", "cols")):
            sub = [[m[r][c] for c in cols] for r in rows]
            if not rows or not cols:
                return None                  # everything was dropped: the next step has nothing to act on
            if what == "cols":
                cols = [cols[i] for i in rows_kept(T(sub, len(cols)), fs, cn)]
            else:
                rows = [rows[i] for i in rows_kept(sub, fo, 0)]
        gone = [m[r][c] for r in range(len(m)) for c in range(len(xx)) if r not in rows or c not in cols]
        nan = sum(v != v for v in gone)
        out.append((nan / (len(gone) - nan + 1), [xx[c] for c in cols], [[m[r][c] for c in cols] for r in rows], len(cols)))
    return out


def check(cls, nr, nc, bits, fs, fo, cn):
    m = [[float(10 * r + c + 1) if bits >> (r * nc + c) & 1 else float("nan") for c in range(nc)] for r in range(nr)]
    xx = [3. * c + 1 for c in range(nc)] if bits % 3 else [50. - 7 * c + (c % 2) * 11 for c in range(nc)]
    want = options(xx, m, fs, fo, cn)
    if want is None:
        return None
    x, d = np.array(xx), np.array(m)
    gx, gd = cls._drop(x, d) if (fs, fo, cn) == (0.4, 0.8, 3) else cls._drop(x, d, drop_observation_if_fewer_percent=fo, drop_sample_if_fewer_percent=fs, drop_sample_if_fewer_count=cn)
    same(x, np.array(xx), "locations given")
    same(d, np.array(m), "table given")
    best = max(o[0] for o in want)
    errs = []
    for u, wx, wd, w in want:
        if u < best * (1 - 1e-9):
            continue
        try:
            same(np.asarray(gx), np.array(wx), "locations")
            same(np.asarray(gd), np.array(wd, dtype=float).reshape(len(wd), w), "table")
            return f"{len(wd)}x{w}"
        except AssertionError as e:
            errs.append(str(e))
    ok(False, f"{m} with fractions {fs} (locations), {fo} (observations) and count {cn}: " + "; ".join(errs))


def units(tier):
    th = tier == "thorough"
    u = [dict(cls=c, shape=i, part=p, full=th) for c in ("PeaksSuite", "Statistics") for i in range(len(SHAPES)) for p in range(3 if SHAPES[i][0] * SHAPES[i][1] > 9 else 1)]
    u += [dict(cls=c, shape="large") for c in ("PeaksSuite", "Statistics")]
    if th:
        u += [dict(cls=c, shape="4x4", part=p) for c in ("PeaksSuite", "Statistics") for p in range(16)]
    return u


def run(u, ctx):
    cls = dict(PeaksSuite=PeaksSuite, Statistics=Statistics)[u["cls"]]
    combos = list(itertools.product(FS, FO, CN))
    if u["shape"] == "large":
        for k in range(12):
            bits = sum(1 << i for i in range(160) if (i * i * (k + 1) + 3 * i + k) % 11 > k % 8)
            for fs, fo, cn in combos + [(0.01, 0.01, 3), (0.9, 0.5, 5)]:
                ctx.case([u["cls"], 8, 20, k, fs, fo, cn], check, cls, 8, 20, bits, fs, fo, cn)
        for k in range(4):                       # many locations, most of them dropped in some
            bits = sum(1 << i for i in range(6 * 220) if (i * i * (k + 1) + 3 * i + i // 220 + k) % 11 > 3 + k)
            for fs, fo, cn in combos[::3] + [(0.6, 0., 5), (0.9, 0.1, 3)]:
                ctx.case([u["cls"], 6, 220, k, fs, fo, cn], check, cls, 6, 220, bits, fs, fo, cn)
        return
    nr, nc = (4, 4) if u["shape"] == "4x4" else SHAPES[u["shape"]]
    for bits in range(1 << (nr * nc)):
        if nr * nc > 9 and bits % (16 if nr * nc > 12 else 3) != u["part"]:
            continue
        for i, (fs, fo, cn) in enumerate(combos):
            if nr * nc > 9 and not u.get("full") and (i + bits) % 6 > (3 if nr * nc <= 10 else 1):
                continue
            ctx.case([u["cls"], nr, nc, bits, fs, fo, cn], check, cls, nr, nc, bits, fs, fo, cn)
