"""U03 statistical tables: every pattern of missing entries, sorted, divided into dense regions and filled."""
import itertools

import numpy as np
from numpy.random import default_rng, PCG64

from swprocess.stats import Statistics

from mc.util import ok, same, close

RULE = ("every pattern of missing entries of small tables is sorted (rows compared as multisets), searched for dense regions at several thresholds (density, cover and order of the regions computed directly) "
        "and filled with given or computed moments by generators that are reproducible or recorded")
BOUNDS = dict(quick="all patterns of tables up to 3x4, 4x3 and 5x2; diagonals of 2 to 95 dense blocks; thresholds 0, 0.5, 0.75, 0.9, 1; filling: given and computed moments, recording and seeded generators",
              thorough="all patterns of tables up to 4x4, 5x3 and 3x5")
ASSUMPTIONS = ["filling from computed moments needs two recorded values in a column that has gaps (the deviation of one value is undefined)", "regions are searched for in sorted tables with at least one value per column"]
N = float("nan")


def table(pat):
    p = np.array(pat, dtype=float)
    i, j = np.indices(p.shape)
    return np.where(p > 0, 10. * (i + 1) + j + 0.25 * ((i * 3 + j * 5) % 7), N)


def rows(t):
    return sorted(tuple(None if np.isnan(v) else float(v) for v in r).__repr__() for r in t)


def first(r):
    v = np.flatnonzero(~np.isnan(r))
    return v[0] if len(v) else len(r)


def sort(pat):
    t = table(pat)
    keep = rows(t)
    out = np.array(Statistics._sort(t))
    ok(out.shape == t.shape, "shape")
    ok(rows(out) == keep, f"rows changed: {table(pat).tolist()} -> {out.tolist()}")
    f = [first(r) for r in out]
    ok(f == sorted(f), f"rows start at {f}")
    again = np.array(Statistics._sort(out.copy()))
    ok([first(r) for r in again] == f, "sorting again")
    t = t / 7 + np.where(t > 20, 1e-9, 1e5)
    keep = rows(t)
    ok(rows(np.array(Statistics._sort(t))) == keep, f"rows of decimal values changed by sorting {pat}")
    return out, f"{f}"


def regions(t, th):
    nr, nc = t.shape
    k = t.copy()
    reg = Statistics._identify_regions(t, density_threshold=th)
    same(t, k, "table altered")
    col = 0
    for (r0, c0), (r1, c1) in reg:
        ok(c0 == col and c1 > c0 and 0 <= r0 < r1 <= nr and c1 <= nc, f"regions {reg} at threshold {th} are not consecutive ranges of columns of {t.tolist()}")
        b = t[r0:r1, c0:c1]
        d = np.mean(~np.isnan(b))
        ok(d >= th - 1e-12, f"region {((r0, c0), (r1, c1))} has density {d} < {th}")
        ok(not np.isnan(t[r0, c0]), "the region starts at a missing value")
        ok(np.isnan(t[:r0, c0]).all(), "recorded values above the start of the region are left out")
        e = float(Statistics._calc_density(t, (r0, c0), (r1 - 1, c1 - 1)))
        ok(abs(e - d) < 1e-12, f"density {e}, expected {d}")
        # the region cannot be extended by a row or by a column
        if r1 < nr:
            ok(np.mean(~np.isnan(t[r0:r1 + 1, c0:c1])) < th, f"region {((r0, c0), (r1, c1))} could be extended by a row at {th}: {t.tolist()}")
        if c1 < nc:
            ok(np.mean(~np.isnan(t[r0:r1, c0:c1 + 1])) < th, f"region {((r0, c0), (r1, c1))} could be extended by a column at {th}: {t.tolist()}")
        col = c1
    ok(col == nc, f"regions {reg} do not cover the {nc} columns")
    if th == 0:
        ok(len(reg) == 1 and reg[0] == ((0, 0), (nr, nc)), f"threshold 0: {reg}")


class Recorder:
    """A generator whose values identify the mean and deviation they were asked for."""

    def __init__(self):
        self.calls = []

    def normal(self, loc=0., scale=1., size=None):
        self.calls.append((float(loc), float(scale)))
        return loc * 1000 + scale if size is None else np.full(size, loc * 1000 + scale)


def fill(pat, given):
    t = table(pat)
    gaps = np.isnan(t)
    nc = t.shape[1]
    if given:
        mean, std = np.arange(1., nc + 1), 0.5 / np.arange(1., nc + 1)
        kw = dict(means=mean, stddevs=std)
    else:
        n = (~gaps).sum(axis=0)
        if any(g and c < 2 for g, c in zip(gaps.any(axis=0), n)):
            return "undefined"
        mean = np.array([np.mean(c[~np.isnan(c)]) for c in t.T])
        std = np.array([np.std(c[~np.isnan(c)], ddof=1) if (~np.isnan(c)).sum() > 1 else 0. for c in t.T])
        kw = {}
    want = np.where(gaps, (mean * 1000 + std)[None, :], t)
    rec = Recorder()
    got = np.array(Statistics._fill_data(t.copy(), rng=rec, **kw))
    close(got[gaps], want[gaps], "filled values", rtol=1e-9)
    same(got[~gaps], t[~gaps], "recorded values altered")
    a = np.array(Statistics._fill_data(t.copy(), rng=default_rng(PCG64(seed=5)), **kw))
    b = np.array(Statistics._fill_data(t.copy(), rng=default_rng(PCG64(seed=5)), **kw))
    same(a, b, "the same generator gives different values")
    ok(not np.isnan(a).any(), "gaps left")
    same(a[~gaps], t[~gaps], "recorded values altered")
    z = np.array(Statistics._fill_data(t.copy(), means=mean, stddevs=std * 0))
    close(z[gaps], np.broadcast_to(mean, t.shape)[gaps], "without deviation the mean is filled in", rtol=1e-12)
    d = np.array(Statistics._fill_data(t.copy(), **kw))
    ok(not np.isnan(d).any(), "gaps left with the default generator")
    return f"{gaps.sum(axis=0).tolist()} {given}"


def case(pat):
    out, o = sort(pat)
    if (~np.isnan(out)).any(axis=0).all() and not np.isnan(out[0, 0]):
        for th in (0, 0.5, 0.75, 0.9, 1):
            regions(out.copy(), th)
    for g in (False, True):
        fill(pat, g)
    return o


def holds(n):
    xx, mean, std = np.arange(1., n + 1), np.arange(n) * 2., np.ones(n)
    corr = np.eye(n)
    s = Statistics(list(xx), list(mean), tuple(std), corr.tolist())
    for k, v in dict(xx=xx, mean=mean, stddev=std, corr=corr).items():
        same(getattr(s, k), v, k)
    ok(s.corr.dtype == float, "type")


def stairs(n, h, w, gap):
    """n dense blocks of h rows and w columns down the diagonal."""
    t = np.full((n * h, n * w), N)
    for k in range(n):
        t[k * h:(k + 1) * h, k * w:(k + 1) * w] = 1. + k + np.arange(w)[None, :] + 0.5 * np.arange(h)[:, None]
        if gap and h > 1 and w > 1:
            t[(k + 1) * h - 1, (k + 1) * w - 1] = N
    keep = rows(t)
    out = np.array(Statistics._sort(t.copy()))
    ok(rows(out) == keep, "rows changed by sorting")
    f = [first(r) for r in out]
    ok(f == sorted(f), f"rows start at {f}")
    up = np.array(Statistics._sort(np.array(t[::-1])))
    ok(rows(up) == keep and [first(r) for r in up] == f, "sorting the reversed table")
    for th in (0, 0.5, 0.75, 0.9, 1):
        regions(out.copy(), th)
    return f"{n} {h} {w}"


def shapes(tier):
    s = [(a, b) for a in range(1, 4) for b in range(1, 5)] + [(4, 1), (4, 2), (4, 3), (5, 1), (5, 2)]
    return s if tier == "quick" else s + [(4, 4), (5, 3), (3, 5)]


def units(tier):
    u = [dict(shape=s, part=k, parts=(1 if s[0] * s[1] < 9 else 8)) for s in shapes(tier) for k in range(1 if s[0] * s[1] < 9 else 8)]
    return u + [dict(mode="holds")] + [dict(mode="stairs", n=n) for n in (2, 5, 13, 30, 60, 95)]


def run(u, ctx):
    if u.get("mode") == "holds":
        for n in range(1, 6):
            ctx.case(["holds", n], holds, n)
        return
    if u.get("mode") == "stairs":
        for h, w, g in itertools.product((1, 2, 3), (1, 2), (False, True)):
            if u["n"] * h * w < 300 and not (g and u["n"] > 30):
                ctx.case(["stairs", u["n"], h, w, g], stairs, u["n"], h, w, g)
        return
    nr, nc = u["shape"]
    for i, p in enumerate(itertools.product((0, 1), repeat=nr * nc)):
        if i % u["parts"] == u["part"]:
            pat = [p[r * nc:(r + 1) * nc] for r in range(nr)]
            ctx.case(pat, case, pat)
