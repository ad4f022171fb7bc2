"""S05 plots: the lines on the axes against the retained (or selected) peaks of each member, for every combination of domains, masks, keywords and axes."""
import copy
import itertools
import warnings

import numpy as np
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure

from swprocess import Peaks, PeaksSuite

from mc.refpeaks import Ref, NAN
from mc.util import ok, same, close, raises

RULE = ("every combination of members, domains, number of axes, masks, keyword forms and supplied or new axes is drawn (after a rejection) and the lines, colours, labels and axis "
        "settings found on the figure are compared with the tables; the peaks and the arguments are compared with copies taken before")
BOUNDS = dict(quick="8 suites of 1 to 15 members; 42 ordered pairs of 7 domains on one axes, 24 pairs of pairs on two; 4 masks; 7 keyword forms; supplied axes as object, list, tuple, array; new figures for a subset; 9 kinds of mismatch",
              thorough="every pair of domains x mask x keyword form for every suite, three axes")
ASSUMPTIONS = ["line style and colours are read back through matplotlib", "keyword values are strings, None, lists or tuples as documented"]

DOM = ["frequency", "velocity", "wavelength", "slowness", "wavenumber", "azimuth", "power"]


def refs_for(name):
    a = Ref([4, 8, 16, 32], [512, 256, NAN, 128], "a", azimuth=[10, 350, NAN, 90], power=[1, 2, 3, 4])
    b = Ref([3, 9], [450, 220], "b", azimuth=[30, 60], power=[5, 6])
    c = Ref([[5, 10, 20], [5, 10, NAN]], [[480, 240, 180], [300, 150, NAN]], "c", azimuth=[[0, 90, 180], [270, 45, NAN]], power=[[1, 2, 3], [4, 1, NAN]])
    d = Ref([7, 14], [400, 200], "d", azimuth=[1, 2], power=[1, 2], valid=[False, False])
    e = Ref([6, 12, 24], [333, 222, 111], "e", azimuth=[5, 6, 7], power=[9, 8, 7])
    f = Ref([9.5], [210.5], "f", azimuth=[55], power=[3])
    more = {k: Ref([4. + i, 8. + i], [300. + 5 * i, 200. - 3 * i], k, azimuth=[i, 2 * i], power=[i, i + 1]) for i, k in enumerate("ghijklmnop")}
    return [dict(a=a, b=b, c=c, d=d, e=e, f=f, **more)[k] for k in name]


SUITES = ["a", "ab", "cab", "cd", "dba", "abce", "fecbad", "aghijklmbnopcef"]


def masks(kind, refs):
    if kind == "none":
        return None
    if kind == "all":
        return [np.ones(r.valid.shape, bool) for r in refs]
    if kind == "empty":
        return [np.zeros(r.valid.shape, bool) for r in refs]
    out = []
    for j, r in enumerate(refs):
        m = np.zeros(r.valid.size, bool)
        m[j % m.size::2] = True
        out.append(m.reshape(r.valid.shape))
    return out


COL = 3 * ["#ff0000", "#00ff00", "#0000ff", "#00ffff", "#ff00ff", "#888800"]
MRK = 3 * "sv^xD+"


def keywords(kind, n):
    """(argument, expected list of per-member dictionaries)."""
    if kind == "none":
        return None, [{}] * n
    if kind == "one":
        return dict(color="#123456", marker="s"), [dict(color="#123456", marker="s")] * n
    if kind == "each":
        return dict(color=COL[:n], marker=tuple(MRK[:n])), [dict(color=COL[k], marker=MRK[k]) for k in range(n)]
    if kind == "labels":
        return dict(label=[f"L{k}" for k in range(n)]), [dict(label=f"L{k}") for k in range(n)]
    if kind == "samelabel":
        return dict(label="same", color=COL[:n]), [dict(label="same" if k == 0 else None, color=COL[k]) for k in range(n)]
    if kind == "twolabels":
        l = (3 * ["x", "y", "x", "x", "z", "y", "u", "v"])[:n]
        return dict(label=l), [dict(label=l[k] if l[k] not in l[:k] else None) for k in range(n)]
    if kind == "nolabel":
        return dict(label=None), [dict(label=None)] * n
    if kind == "longer":
        return dict(color=COL + ["#777777", "#654321"]), [dict(color=COL[k]) for k in range(n)]


KW = ["none", "one", "each", "labels", "samelabel", "twolabels", "nolabel", "longer"]

_FIG = {}


def axes(n):
    if n not in _FIG:
        fig, ax = plt.subplots(ncols=n)
        _FIG[n] = [ax] if n == 1 else list(ax)
    for a in _FIG[n]:
        a.cla()
    return _FIG[n]


def lines_of(ax, refs, xd, yd, mask, want, msg):
    ls = ax.get_lines()
    ok(len(ls) == len(refs), f"{msg}: {len(ls)} lines for {len(refs)} members")
    for k, (l, r) in enumerate(zip(ls, refs)):
        m = r.valid if mask is None else mask[k]
        for got, d in ((l.get_xdata(), xd), (l.get_ydata(), yd)):
            v = r.full(d)[m]
            got = np.asarray(got, float)
            ok(got.shape == v.shape, f"{msg}: member {k} shows {got.shape} points, expected {v.shape}")
            close(got, v, f"{msg}: {d} of member {k}", rtol=1e-12)
        w = want[k]
        ok(to_rgba(l.get_color()) == to_rgba(w.get("color", "b")), f"{msg}: colour {l.get_color()} of member {k}")
        ok(l.get_marker() == w.get("marker", "o"), f"{msg}: marker {l.get_marker()} of member {k}")
        ok(l.get_linestyle() in ("None", "", " "), f"{msg}: line style {l.get_linestyle()!r}")
    labels = ax.get_legend_handles_labels()[1]
    exp = [w.get("label", r.id) for w, r in zip(want, refs)]
    exp = [e for e in exp if e is not None]
    ok(labels == exp, f"{msg}: labels {labels}, expected {exp}")
    for d, lab, sc in ((xd, ax.get_xlabel(), ax.get_xscale()), (yd, ax.get_ylabel(), ax.get_yscale())):
        df = Peaks.axes_defaults.get(d, {})
        ok(lab == df.get("label", ""), f"{msg}: axis label {lab!r} for {d}")
        ok(sc == df.get("scale", "linear"), f"{msg}: scale {sc!r} for {d}")


def suite_case(name, xt, yt, mk, kk, how):
    refs = refs_for(name)
    s = PeaksSuite.from_peaks([r.impl() for r in refs])
    s.reject_limits_outside("frequency", (3.5, None))
    for r in refs:
        r.valid &= ~r.limits("frequency", 3.5, None)
    mask = masks(mk, refs)
    kmask = copy.deepcopy(mask)
    kw, want = keywords(kk, len(refs))
    kkw = copy.deepcopy(kw)
    X = [xt] if isinstance(xt, str) else list(xt)
    Y = [yt] if isinstance(yt, str) else list(yt)
    opt = {}
    if mk != "none":
        opt["mask"] = mask
    if kw is not None:
        opt["plot_kwargs"] = kw
    if how == "new":
        out = s.plot(xtype=xt, ytype=yt, **opt)
        ok(isinstance(out, tuple) and isinstance(out[0], Figure), "figure and axes")
        ax = list(np.atleast_1d(np.array(out[1], dtype=object)))
        ok(list(out[0].axes) == ax, "axes returned are those of the figure")
    else:
        ax = axes(len(X))
        arg = dict(list=list, tuple=tuple, array=lambda l: np.array(l, dtype=object), object=lambda l: l[0])[how](ax)
        out = s.plot(xtype=xt, ytype=yt, ax=arg, **opt)
        ok(out is None, "something returned although axes were given")
    ok(len(ax) == len(X), "number of axes")
    for k, a in enumerate(ax):
        lines_of(a, refs, X[k], Y[k], mask, want, f"axes {k}")
    if how == "new":
        plt.close(out[0])
    for p, r in zip(s, refs):
        r.agree(p, "the peaks after plotting")
    ok(kw == kkw, f"keyword arguments altered: {kkw} -> {kw}")
    if mask is not None:
        for a, b in zip(mask, kmask):
            same(a, b, "masks altered")
    return f"{name} {len(X)} {mk} {kk} {how}"


def single(name, xt, yt, mk, kk):
    r = refs_for(name)[0]
    p = r.impl()
    p.reject_limits_outside("velocity", (None, 490))
    r.valid &= ~r.limits("velocity", None, 490)
    mask = masks(mk, [r])
    kw = [None, dict(color="#ff00ff", marker="x"), dict(label="mine")][kk]
    keep = copy.deepcopy(kw)
    opt = {} if mask is None else dict(mask=mask[0])
    fig, ax = p.plot(xtype=xt, ytype=yt, plot_kwargs=kw, **opt)
    X = [xt] if isinstance(xt, str) else list(xt)
    Y = [yt] if isinstance(yt, str) else list(yt)
    ax = list(np.atleast_1d(np.array(ax, dtype=object)))
    for k, a in enumerate(ax):
        lines_of(a, [r], X[k], Y[k], mask, [kw or {}], f"axes {k}")
    ok(len(ax) == len(X) == len(fig.axes), "number of axes")
    plt.close(fig)
    r.agree(p, "after plotting")
    ok(kw == keep, "keyword arguments altered")


def mismatch(kind):
    refs = refs_for("cab")
    s = PeaksSuite.from_peaks([r.impl() for r in refs])
    m = masks("all", refs)
    A = axes(2)
    f = {
        "unknown x": (AttributeError, lambda: s.plot("nonsense", "velocity", ax=[A[0]])),
        "unknown y": (AttributeError, lambda: s.plot("frequency", "nonsense", ax=[A[0]])),
        "unknown second": (AttributeError, lambda: s.plot(["frequency", "nonsense"], ["velocity", "velocity"], ax=A)),
        "not recorded": (AttributeError, lambda: s.plot("frequency", "noise", ax=[A[0]])),
        "unknown new": (AttributeError, lambda: s[0].plot("nonsense", "velocity")),
        "not recorded new": (AttributeError, lambda: s[0].plot("frequency", "ellipticity")),
        "fewer axes": (IndexError, lambda: s.plot(["frequency", "wavelength"], ["velocity", "velocity"], ax=[A[0]])),
        "one object": (IndexError, lambda: s.plot(["frequency", "wavelength"], ["velocity", "velocity"], ax=A[0])),
        "more axes": (IndexError, lambda: s.plot("frequency", "velocity", ax=A)),
        "fewer y": (IndexError, lambda: s.plot(["frequency", "wavelength"], ["velocity"], ax=A)),
        "more y": (IndexError, lambda: s.plot(["frequency"], ["velocity", "slowness"], ax=A)),
        "fewer x new": (IndexError, lambda: s[0].plot(["frequency"], ["velocity", "slowness"])),
        "fewer masks": (IndexError, lambda: s.plot("frequency", "velocity", ax=[A[0]], mask=m[:2])),
        "more masks": (IndexError, lambda: s.plot("frequency", "velocity", ax=[A[0]], mask=m + m[:1])),
        "no masks": (IndexError, lambda: s.plot("frequency", "velocity", ax=[A[0]], mask=[])),
    }[kind]
    try:
        raises(f[0], f[1], kind)
    finally:
        for n in plt.get_fignums():
            if not any(plt.figure(n) is a[0].figure for a in _FIG.values()):
                plt.close(n)
    for p, r in zip(s, refs):
        r.agree(p, "after the refused plot")


def errorbars(xx, mean, std, kw):
    fig, ax = plt.subplots()
    args = [np.array(xx), np.array(mean), np.array(std)]
    keep = copy.deepcopy(kw)
    PeaksSuite.plot_statistics(ax, *args, **({} if kw is None else dict(errorbar_kwargs=kw)))
    for a, b in zip(args, (xx, mean, std)):
        same(a, np.array(b), "statistics altered")
    ok(kw == keep, "keyword arguments altered")
    ok(len(ax.containers) == 1, "one set of error bars")
    line, caps, bars = ax.containers[0]
    same(np.asarray(line.get_xdata(), float), np.array(xx, float), "locations")
    same(np.asarray(line.get_ydata(), float), np.array(mean, float), "means")
    ok(line.get_linestyle() in ("None", "none", "") or "linestyle" in (kw or {}), "means are not joined")
    segs = [np.asarray(q) for b in bars for q in b.get_segments()]
    fin = [i for i in range(len(xx)) if np.isfinite(mean[i]) and np.isfinite(std[i])]
    segs = [q for q in segs if len(q) and np.all(np.isfinite(q))]
    ok(len(segs) == len(fin), f"{len(segs)} error bars of {len(fin)}")
    for q, i in zip(segs, fin):
        close(np.sort(q[:, 1]), np.array([mean[i] - std[i], mean[i] + std[i]]), "error bar", rtol=1e-12)
        close(q[:, 0], np.array([xx[i]] * 2, float), "error bar location", rtol=1e-12)
    if kw and "color" in kw:
        ok(line.get_color() == kw["color"], "colour")
    if kw and "label" in kw:
        ok(ax.containers[0].get_label() == kw["label"], "label")
    plt.close(fig)
    return f"{len(fin)}"


BAD = ["unknown x", "unknown y", "unknown second", "not recorded", "unknown new", "not recorded new", "fewer axes", "one object", "more axes", "fewer y", "more y", "fewer x new", "fewer masks", "more masks", "no masks"]


def units(tier):
    u = [dict(mode="one", suite=s, t=tier == "thorough") for s in SUITES]
    u += [dict(mode="two", suite=s, t=tier == "thorough") for s in SUITES]
    u += [dict(mode="new", part=k) for k in range(4)] + [dict(mode="single"), dict(mode="bad"), dict(mode="bars")]
    return u


MASKS = ["none", "all", "empty", "some"]


def run(u, ctx):
    Figure.tight_layout = lambda self, *a, **k: None       # the layout is not part of the property
    pairs = list(itertools.permutations(DOM, 2)) + [("velocity", "velocity")]
    m = u["mode"]
    if m == "one":
        i = 0
        for x, y in pairs:
            for mk, kk in itertools.product(MASKS, KW):
                i += 1
                if not u["t"] and i % 9 and not (x == "frequency" and y == "velocity"):
                    continue
                a = (u["suite"], x if i % 2 else [x], y if i % 2 else (y,), mk, kk, ["list", "object", "tuple", "array"][i % 4])
                ctx.case(a, suite_case, *a)
    elif m == "two":
        pp = pairs[::5] if not u["t"] else pairs[::3]
        i = 0
        for (x, y), (x2, y2) in itertools.product(pp, repeat=2):
            for kk in (KW if u["t"] else [KW[i % 8]]):
                i += 3
                a = (u["suite"], [x, x2], [y, y2], MASKS[(i // 3) % 4], kk, ["list", "tuple", "array"][(i // 5) % 3])
                ctx.case(a, suite_case, *a)
            if u["t"]:
                a = (u["suite"], [x, x2, y], [y, y2, x2], MASKS[i % 4], KW[i % 8], "list")
                ctx.case(a, suite_case, *a)
    elif m == "new":
        for i, (s, n, mk, kk) in enumerate(itertools.product(SUITES, (1, 2), MASKS[::3], KW[:6])):
            if i % 4 == u["part"]:
                xt, yt = (["frequency", "velocity"] if n == 1 else [["wavelength", "frequency"], ["velocity", "slowness"]])
                a = (s, xt, yt, mk, kk, "new")
                ctx.case(a, suite_case, *a)
    elif m == "single":
        for s, (x, y), mk, kk in itertools.product("acd", [("frequency", "velocity"), (["wavelength", "slowness"], ["velocity", "frequency"]), (("azimuth",), ("power",))], MASKS, range(3)):
            a = (s, x, y, mk, kk)
            ctx.case(a, single, *a)
    elif m == "bars":
        KWS = [None, {}, dict(color="red"), dict(label="mean", capsize=5), dict(linestyle="-", marker="s")]
        for xx, k in itertools.product(([1., 2., 4.], [10.], [0.5, 3., 3.1, 40., 100.], [5., 2., 9.], [0.2 * (i + 1) for i in range(130)]), range(6)):
            mean = [(-40. if k == 4 else 0.1 if k == 5 else 100.) + 37. * i * (k + 1) for i in range(len(xx))]
            std = [(0., 12.5, 0.25, 60., 3000.)[(i + k) % (4 if k < 4 else 5)] for i in range(len(xx))]
            if k == 3:
                mean[-1] = float("nan")
            for kw in KWS:
                ctx.case(["bars", xx, k, kw], errorbars, xx, mean, std, kw)
    else:
        for k in BAD:
            ctx.case(k, mismatch, k)
