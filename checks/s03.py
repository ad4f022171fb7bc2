"""S03 suite statistics: every suite over an alphabet of coverage patterns, every drop count, against direct interpolation and moments."""
import itertools

import numpy as np

from swprocess import PeaksSuite

from mc.refpeaks import Ref, NAN
from mc.util import ok, same, close, raises

RULE = ("every ordered triple (and a family of quadruples) of members with different coverage, sorting, dimension and rejections is tabulated at locations on, between and outside the peaks and "
        "compared with interpolation, mean, standard deviation and correlation computed directly; every drop count, both domains of each axis, with and without correlation and mean substitution")
BOUNDS = dict(quick="11 member patterns: all 1331 ordered triples at one drop count each, all 286 unordered triples x drop counts 0..4 x 4 domain pairs; 210 quadruples; suites of 5, 6 and 12 members; suites of 5 to 100 members with one odd member; 6 forms of locations; members of 30 to 200 peaks in any order (288 triples); suites of equal and nearly equal members; 1 and 2 members refused",
              thorough="all ordered triples x drop counts 0..4 x 4 domain pairs x correlation options; 715 quadruples")
ASSUMPTIONS = ["members have different locations for different retained peaks (interpolation between coinciding locations is undefined)", "at most 100 locations (members present at fewer than 1% of them are left out by the code)",
               "a member without any value at the reported locations may or may not count as an observation in the correlation"]


def patterns():
    return dict(
        full=Ref([2, 4, 8, 16, 32], [400, 300, 220, 180, 150], "full"),
        unsorted=Ref([16, 2, 32, 4, 8], [185, 410, 148, 296, 215], "unsorted", azimuth=[1, 2, 3, 4, 5]),
        left=Ref([2, 4, 8], [420, 310, 190], "left"),
        right=Ref([8, 16, 32], [230, 170, 140], "right"),
        hole=Ref([2, 4, 8, 16, 32], [390, NAN, NAN, 200, 160], "hole", power=[1, 1, 1, 1, 1]),
        two=Ref([[2, 4, 8, 16], [2, 4, 8, NAN]], [[380, 280, 240, 190], [500, 320, 210, NAN]], "two", power=[[1, 3, 1, 1], [2, 1, 2, NAN]]),
        rejected=Ref([2, 4, 8, 16, 32], [405, 305, 500, 175, 155], "rejected", valid=[False, True, False, True, True]),
        narrow=Ref([5, 7], [290, 235], "narrow"),
        single=Ref([8], [225], "single"),
        long=Ref(np.arange(2, 34, 1.75), 150 + 60. * (np.arange(19) % 4) + 30. * (np.arange(19) % 3), "long"),
        none=Ref([2, 4], [NAN, 300], "none", valid=[False, False]),
    )


XX = dict(frequency=[1.5, 2, 3, 4, 5.5, 8, 10, 16, 24, 32, 40], wavelength=[300, 200, 100, 80, 60, 30, 12, 11, 5, 4, 2])
DOMS = [("frequency", "velocity"), ("wavelength", "velocity"), ("frequency", "slowness"), ("wavelength", "slowness")]


def points(r, d):
    """The member's single-valued curve in domain d: strongest valid peak per frequency."""
    v = r.full(d)
    if v.ndim == 1:
        return v[r.valid]
    out = []
    for c in range(v.shape[1]):
        rows = np.flatnonzero(r.valid[:, c])
        if len(rows):
            if "power" in r.tab:
                rows = rows[[int(np.argmax(r.tab["power"][rows, c]))]]
            out.append(v[rows[0], c])
    return np.array(out)


def interpolate(r, xd, yd, xx):
    x, y = points(r, xd), points(r, yd)
    o = np.argsort(x)
    x, y = x[o], y[o]
    out = np.full(len(xx), np.nan)
    for i, v in enumerate(xx):
        if len(x) == 0 or v < x[0] or v > x[-1]:
            continue
        j = np.searchsorted(x, v)
        out[i] = y[j] if x[j] == v else y[j - 1] + (y[j] - y[j - 1]) * (v - x[j - 1]) / (x[j] - x[j - 1])
    return out


def build(names):
    p = patterns()
    refs = []
    for i, n in enumerate(names):
        r = p[n]
        refs.append(Ref(r.tab["frequency"], r.tab["velocity"] * (1 + 0.07 * i), f"{i}-{n}", valid=r.valid, **{k: v for k, v in r.tab.items() if k not in ("frequency", "velocity")}))
    return refs, PeaksSuite.from_peaks([r.impl() for r in refs])


def clear_of_edges(refs, xd, xx):
    """Locations that hit a derived (rounded) end of a range are decided by rounding: leave them out of the space."""
    if xd == "frequency":
        return list(xx)
    out = []
    for v in xx:
        if all(abs(v - e) > 1e-9 * e for r in refs for e in points(r, xd)):
            out.append(v)
    return out


def case(names, xd, yd, count, corr, sub, form="list"):
    refs, s = build(names)
    xx = clear_of_edges(refs, xd, XX[xd])
    arg = dict(list=list, tuple=tuple, array=np.array, desc=lambda l: np.array(l)[::-1], twice=lambda l: list(l) + list(l[:3]), few=lambda l: list(l[3:5]))[form](xx)
    keep = np.array(arg, dtype=float)
    full = np.array([interpolate(r, xd, yd, keep) for r in refs])
    gx, arr = s.to_array(xd, yd, arg)
    same(np.array(gx, float), keep, "locations of the array")
    ok(np.shape(arr) == full.shape, f"array of shape {np.shape(arr)}, expected {full.shape}")
    close(arr, full, "array", rtol=1e-12)
    kw = dict(ignore_corr=not corr, drop_sample_if_fewer_count=count, mean_substitution=sub)
    # options that have their documented default value are left out
    if count == 3:
        kw.pop("drop_sample_if_fewer_count")
    if not corr:
        kw.pop("ignore_corr")
    if not sub:
        kw.pop("mean_substitution")
    if len(names) < 3:
        raises(ValueError, lambda: s.statistics(xd, yd, arg, **kw), f"{len(names)} members")
        return "refused"
    out = s.statistics(xd, yd, arg, **kw)
    ok(len(out) == 4, f"{len(out)} results")
    n = np.sum(~np.isnan(full), axis=0)
    cols = np.flatnonzero((n >= count) & (n > 0))
    same(np.array(out[0], float), keep[cols], "reported locations")
    m = full[:, cols]
    close(out[1], np.array([np.mean(c[~np.isnan(c)]) for c in m.T]) if len(cols) else np.zeros(0), "mean", rtol=1e-12)
    std = np.array([np.sqrt(np.sum((c[~np.isnan(c)] - np.mean(c[~np.isnan(c)])) ** 2) / (np.sum(~np.isnan(c)) - 1)) if np.sum(~np.isnan(c)) > 1 else np.nan for c in m.T])
    close(out[2], std if len(cols) else np.zeros(0), "standard deviation", rtol=1e-9)
    if not corr:
        ok(out[3] is None, "correlation although not asked for")
    elif len(cols) and np.all(np.nan_to_num(std) > 0):
        got = np.atleast_2d(out[3])
        ok(got.shape == (len(cols), len(cols)), f"correlation of shape {got.shape}")
        poss = []
        for mm in (m, m[~np.isnan(m).all(axis=1)]):
            mm = mm.copy()
            if sub:
                for c in range(mm.shape[1]):
                    v = mm[:, c]
                    v[np.isnan(v)] = np.mean(v[~np.isnan(v)])
            d = mm - mm.mean(axis=0)
            g = d.T @ d
            with np.errstate(all="ignore"):
                poss.append(g / np.sqrt(np.outer(np.diag(g), np.diag(g))))
        err = None
        for p in poss:
            try:
                close(got, p, "correlation", rtol=1e-8)
                break
            except AssertionError as e:
                err = e
        else:
            raise err
    for p, r in zip(s, refs):
        r.agree(p, "the suite after its statistics")
    same(np.array(arg, float), keep, "the locations given")
    return f"{len(cols)} {n.tolist()}"


def alike(name, n, eps, xd, yd):
    """Members that are the same, or differ by next to nothing: the deviation is as small."""
    r = patterns()[name]
    refs = [Ref(r.tab["frequency"], r.tab["velocity"] * (1 + eps * (i % 3)), f"{i}", valid=r.valid) for i in range(n)]
    s = PeaksSuite.from_peaks([q.impl() for q in refs])
    xx = np.array(clear_of_edges(refs, xd, XX[xd]))
    out = s.statistics(xd, yd, xx, drop_sample_if_fewer_count=1)
    full = np.array([interpolate(q, xd, yd, xx) for q in refs])
    cols = np.flatnonzero(~np.isnan(full).any(axis=0))
    same(np.array(out[0], float), xx[cols], "reported locations")
    mean = full[:, cols].mean(axis=0)
    std = np.sqrt(np.sum((full[:, cols] - mean) ** 2, axis=0) / (n - 1))
    ok(np.shape(out[2]) == std.shape and np.all(np.abs(np.array(out[1]) - mean) <= 1e-12 * mean) and np.all(np.abs(np.array(out[2]) - std) <= 1e-12 * mean), f"deviations {np.array(out[2]).tolist()}, expected {std.tolist()}")
    return f"{len(cols)}"


NAMES = list(patterns())


def dense():
    """Members of realistic size, sorted by neither frequency nor wavelength, with gaps, rejections and several peaks per frequency."""
    out = {}
    for n in (30, 41, 64, 101, 200):
        f = 2 * 1.02 ** np.arange(n)
        v = 120 + 400 / (1 + f / 6) + 9. * (np.arange(n) % 4)
        o = np.array(sorted(range(n), key=lambda i: (i * 37) % n + 0.001 * i))
        out[f"up{n}"] = Ref(f, v, "up")
        out[f"down{n}"] = Ref(f[::-1], v[::-1], "down")
        out[f"mixed{n}"] = Ref(f[o], v[o], "mixed")
        out[f"rej{n}"] = Ref(f[o], v[o] + 5, "rej", valid=[bool(i % 5) for i in range(n)])
        out[f"tall{n}"] = Ref(np.array([f[o], f[o]]), np.array([v[o], v[o] + 31]), "tall", power=np.array([(o * 7) % 5 + 0.5, (o * 3) % 5 + 0.25]))
    return out


_base = patterns


def patterns():
    return {**_base(), **dense()}


def units(tier):
    u = []
    if tier == "quick":
        u += [dict(mode="ordered", first=n) for n in NAMES]
        u += [dict(mode="counts", dom=i) for i in range(4)]
        u += [dict(mode="quad", n=7), dict(mode="forms"), dict(mode="lonely"), dict(mode="alike"), dict(mode="small"), dict(mode="dense"), dict(mode="many", n=5), dict(mode="many", n=6), dict(mode="many", n=12)]
    else:
        u += [dict(mode="all", first=n, dom=i) for n in NAMES for i in range(4)]
        u += [dict(mode="quad", n=10), dict(mode="forms"), dict(mode="lonely"), dict(mode="alike"), dict(mode="small"), dict(mode="dense"), dict(mode="many", n=5), dict(mode="many", n=6), dict(mode="many", n=9), dict(mode="many", n=12)]
    return u


OPTS = [(False, False), (True, False), (True, True), (False, True)]


def run(u, ctx):
    m = u["mode"]
    if m == "ordered":
        for i, c in enumerate(itertools.product(NAMES, repeat=2)):
            xd, yd = DOMS[i % 4]
            o = OPTS[(i // 4) % 4]
            a = ((u["first"],) + c, xd, yd, (3, 2, 1)[i % 3]) + o
            ctx.case(a, case, *a)
    elif m == "counts":
        xd, yd = DOMS[u["dom"]]
        for i, c in enumerate(itertools.combinations_with_replacement(NAMES, 3)):
            for k in range(5):
                a = (c, xd, yd, k) + OPTS[(i + k) % 4]
                ctx.case(a, case, *a)
    elif m == "all":
        xd, yd = DOMS[u["dom"]]
        for c in itertools.product(NAMES, repeat=2):
            for k in range(5):
                for o in OPTS:
                    a = ((u["first"],) + c, xd, yd, k) + o
                    ctx.case(a, case, *a)
    elif m == "quad":
        for i, c in enumerate(itertools.combinations_with_replacement(NAMES[-u["n"]:], 4)):
            xd, yd = DOMS[i % 4]
            a = (c[i % 4:] + c[:i % 4], xd, yd, 1 + i % 4) + OPTS[(i // 3) % 4]
            ctx.case(a, case, *a)
    elif m == "many":          # larger suites: several members missing at one location
        for i, c in enumerate(itertools.combinations(NAMES, 4 if u["n"] > 4 else 3)):
            c = (c * 3)[:u["n"]]
            for o in OPTS:
                xd, yd = DOMS[i % 4]
                a = (c, xd, yd, 1 + i % u["n"]) + o
                ctx.case(a, case, *a)
    elif m == "lonely":        # one member alone at some locations of a large suite
        for base, odd in itertools.permutations(("left", "right", "narrow", "full", "single"), 2):
            for n in (5, 12, 25, 60, 100):
                for i, o in enumerate(OPTS):
                    k = (n * 3 + i * 7) % n
                    c = (base,) * k + (odd,) + (base,) * (n - 1 - k)
                    a = (c, *DOMS[i], 1 + (n + i) % 2) + o
                    ctx.case(a, case, *a)
    elif m == "dense":
        names = list(dense())
        for i, c in enumerate(itertools.combinations(names, 3)):
            if i % 8 == 0:
                a = (c, *DOMS[(i // 8) % 4], 1 + i % 3) + OPTS[(i // 32) % 4]
                ctx.case(a, case, *a)
    elif m == "alike":
        for n in NAMES:
            for k in (3, 5):
                for eps in (0, 2. ** -36, 2. ** -28):
                    for xd, yd in DOMS:
                        ctx.case([n, k, eps, xd, yd], alike, n, k, eps, xd, yd)
    elif m == "forms":
        for c in itertools.combinations(NAMES, 3):
            for f in ("tuple", "array", "desc", "twice", "few"):
                for xd, yd in DOMS[:2]:
                    a = (c, xd, yd, 2, True, True, f)
                    ctx.case(a, case, *a)
    else:
        for n in (1, 2):
            for c in itertools.product(NAMES, repeat=n):
                for xd, yd in DOMS:
                    a = (c, xd, yd, 3, False, False)
                    ctx.case(a, case, *a)
