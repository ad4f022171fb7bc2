"""A11 drawings of an array: the marks, curves, limits and texts found on the axes against the sensors, the source and the records."""
import copy
import itertools
import re

import numpy as np
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure

from mc.objs import array, obs, same_obs
from mc.util import ok, same, close, wave

RULE = ("every combination of layout, source position, preceding step, keyword form and supplied or new axes is drawn, on clean axes and on axes that already "
        "hold drawings; marks, curves, styles, labels, limits and texts are read back and compared with the array")
BOUNDS = dict(quick="6 layouts (1 to 24 sensors, equal and unequal spacing, sensors off the line), 5 sources, 6 forms of each keyword argument, new and supplied axes; "
                    "waterfalls: 5 layouts, 3 starts, both orientations, 2 position conventions, 6 keyword forms, after trimming and offset trimming",
              thorough="every pair of keyword forms for every layout and source")
ASSUMPTIONS = ["styles are read back through matplotlib", "waterfalls are drawn for arrays of at least two sensors"]

LAY = {"two": [0., 3.], "equal": [0., 2., 4., 6.], "unequal": [-3., 0., 1., 7.], "dec": [0.1, 0.35, 0.6], "long": [1.5 * i - 4 for i in range(24)], "one": [2.5]}
SRC = [(-5., 0.), (9.25, 1.5), (0.5, -6.), (-3.126, 7.), (60.004, 0.)]
KW = [None, {}, dict(color="#12ab34"), dict(marker="s"), dict(label="mine", color="r"), dict(markersize=3., linestyle="--")]


def world(lay, src=(-5., 0.), delay=0.):
    xs = LAY[lay]
    recs = [wave(k, 20) + 0.2 * k for k in range(len(xs))]
    return array(xs, n=20, dt=0.25, sx=src[0], sy=src[1], delay=delay, recs=recs, ys=[(k * 7 % 5) - 1.5 * (k % 3) for k in range(len(xs))])


def style(line, want, msg):
    ok(to_rgba(line.get_color()) == to_rgba(want["color"]), f"{msg}: colour {line.get_color()}")
    if "marker" in want:
        ok(line.get_marker() == want["marker"], f"{msg}: marker {line.get_marker()}")
    if "linestyle" in want:
        ok(line.get_linestyle() == want["linestyle"] or (want["linestyle"] == "" and line.get_linestyle() in ("None", "", " ")), f"{msg}: line style {line.get_linestyle()!r}")
    if "markersize" in want:
        ok(line.get_markersize() == want["markersize"], f"{msg}: marker size")
    if "linewidth" in want:
        ok(line.get_linewidth() == want["linewidth"], f"{msg}: line width {line.get_linewidth()}")


def numbers(text):
    return sorted(round(float(x), 6) for x in re.findall(r"-?\d+\.?\d*(?:e-?\d+)?", text))


def schematic(lay, src, k1, k2, given):
    a = world(lay, src)
    before = obs(a)
    kw1, kw2 = copy.deepcopy(k1), copy.deepcopy(k2)
    n0, open0 = 0, set(plt.get_fignums())
    if given == "new":
        out = a.plot(**({} if k1 is None and k2 is None else dict(sensor_kwargs=kw1, source_kwargs=kw2)))
        ok(isinstance(out, tuple) and len(out) == 2 and isinstance(out[0], Figure) and out[1] in out[0].axes, "a new figure and its axes are returned")
        ax = out[1]
    else:
        ax = Figure().subplots()
        if given == "used":
            ax.plot([1, 2], [3, 4], color="g")
            world("two").plot(ax=ax)
            n0 = len(ax.get_lines())
            for t in list(ax.texts):
                t.remove()
        out = a.plot(ax, kw1, kw2)
        ok(out is None, "nothing is returned for supplied axes")
        ok(set(plt.get_fignums()) == open0, "a figure appeared although axes were supplied")
    ok(kw1 == k1 and kw2 == k2, "the keyword arguments were changed")
    same_obs(obs(a), before, "array after drawing")
    ls = ax.get_lines()[n0:]
    ok(len(ls) == 2, f"{len(ls)} sets of marks")
    S = before["sensors"]
    want1 = {**dict(marker="^", color="k", linestyle="", label="Sensor"), **(k1 or {})}
    want2 = {**dict(marker="D", color="b", linestyle="", label="Source"), **(k2 or {})}
    same(np.array(ls[0].get_xdata(), float), np.array([r["x"] for r in S]), "sensor positions")
    same(np.array(ls[0].get_ydata(), float), np.array([r["y"] for r in S]), "sensor y")
    same(np.ravel(np.array(ls[1].get_xdata(), float)), np.array([src[0]]), "source position")
    same(np.ravel(np.array(ls[1].get_ydata(), float)), np.array([src[1]]), "source y")
    style(ls[0], want1, "sensors")
    style(ls[1], want2, "source")
    ok([l.get_label() for l in ls] == [want1["label"], want2["label"]], f"labels {[l.get_label() for l in ls]}")
    leg = ax.get_legend()
    ok(leg is not None and [t.get_text() for t in leg.get_texts()][-2:] == [want1["label"], want2["label"]], "legend")
    ok(ax.get_xlabel() == "Distance (m)", f"axis label {ax.get_xlabel()!r}")
    lo, hi = sorted(ax.get_ylim())
    ys = [r["y"] for r in S] + [src[1]]
    xlo, xhi = sorted(ax.get_xlim())
    ok(given == "used" or lo <= min(ys) and max(ys) <= hi and xlo <= min(LAY[lay][0], src[0]) and max(LAY[lay][-1], src[0]) <= xhi, "marks outside the axes")
    ok(len(ax.texts) == 1, f"{len(ax.texts)} texts")
    d = np.diff(LAY[lay])
    exp = [float(len(S)), round(src[0], 2)] + ([round(float(d[0]), 2)] if len(d) and d.max() - d.min() < 0.01 else [])
    got = numbers(ax.texts[0].get_text())
    ok(np.allclose(got, sorted(exp), atol=1e-6) if len(got) == len(exp) else False, f"text gives {got}, expected {sorted(exp)}")
    if given == "new":
        plt.close(out[0])
    return f"{lay} {len(ls)} {got}"


WK = [None, {}, dict(color="#aa3311"), dict(linewidth=2.5, linestyle=":"), dict(label="rec"), dict(label="rec", color="g", marker="o")]


def waterfall(lay, delay, time_ax, pn, wk, given, prep):
    a = world(lay, delay=delay)
    if prep == "trim":
        a.trim(delay + 0.5, delay + 4.)
    if prep == "far" and sum(x > 0.5 for x in LAY[lay]) > 1:
        a.trim_offsets(5.5, 1e3)
    before = obs(a)
    kw = copy.deepcopy(wk)
    open0, n0 = set(plt.get_fignums()), 0
    if given == "new":
        out = a.waterfall(time_ax=time_ax, position_normalization=pn, plot_kwargs=kw)
        ok(isinstance(out, tuple) and len(out) == 2 and isinstance(out[0], Figure) and out[1] in out[0].axes, "a new figure and its axes are returned")
        ax = out[1]
    else:
        ax = Figure().subplots()
        if given == "used":
            a.waterfall(ax, time_ax=time_ax)
            n0 = len(ax.get_lines())
        out = a.waterfall(ax, time_ax=time_ax, position_normalization=pn, plot_kwargs=kw)
        ok(out is None, "nothing is returned for supplied axes")
        ok(set(plt.get_fignums()) == open0, "a figure appeared although axes were supplied")
    ok(kw == wk, "the keyword arguments were changed")
    same_obs(obs(a), before, "array after drawing")
    S = before["sensors"]
    ls = ax.get_lines()[n0:]
    ok(len(ls) == len(S), f"{len(ls)} curves for {len(S)} sensors")
    x0 = S[0]["x"] if pn else 0.
    xs = [r["x"] - x0 for r in S]
    m = a.timeseriesmatrix(detrend=True, normalize="each") * (np.mean(np.diff(xs)) / 2)
    want = {**dict(color="b", linewidth=0.5), **(wk or {})}
    for k, (l, r) in enumerate(zip(ls, S)):
        t, d = (l.get_ydata(), l.get_xdata()) if time_ax == "y" else (l.get_xdata(), l.get_ydata())
        close(np.asarray(t, float), r["time"], f"times of curve {k}", rtol=1e-12)
        close(np.asarray(d, float) - xs[k], m[k], f"curve {k}", rtol=1e-9)
        style(l, want, f"curve {k}")
        lab = l.get_label()
        ok(lab == want["label"] if "label" in want and k == 0 else str(lab).startswith("_"), f"label {lab!r} of curve {k}")
    tl, dl = (ax.get_ylim(), ax.get_xlim()) if time_ax == "y" else (ax.get_xlim(), ax.get_ylim())
    tn, tx = S[0]["time"][0], S[0]["time"][-1]
    close(np.array(tl), np.array([tx, tn] if time_ax == "y" else [tn, tx]), "time axis (downwards when vertical)", atol=1e-9)
    ok(dl[0] < xs[0] and dl[1] > xs[-1], f"distance axis {dl} does not hold {xs[0]} to {xs[-1]}")
    labs = (ax.get_xlabel(), ax.get_ylabel())
    ok(labs == (("Distance (m)", "Time (s)") if time_ax == "y" else ("Time (s)", "Distance (m)")), f"axis labels {labs}")
    if given == "new":
        plt.close(out[0])
    return f"{lay} {time_ax} {len(ls)}"


def units(tier):
    th = tier == "thorough"
    u = [dict(mode="plot", lay=k, src=j, all=th) for k in LAY for j in range(len(SRC))]
    u += [dict(mode="fall", lay=k, delay=d, t=t) for k in LAY if k != "one" for d in (0., -0.5, -1.25) for t in "xy"]
    return u


def run(u, ctx):
    if u["mode"] == "plot":
        for i, j in itertools.product(range(len(KW)), range(len(KW))):
            if not u["all"] and not (i == j or i == 0 or j == 0 or (i + j) % 4 == 1):
                continue
            for g in (("given", "used", "new") if i == j or u["all"] else ("given",)):
                ctx.case([u, i, j, g], schematic, u["lay"], SRC[u["src"]], KW[i], KW[j], g)
    else:
        for pn, k, g, p in itertools.product((False, True), range(len(WK)), ("given", "used", "new"), ("none", "trim", "far")):
            if g != "given" and (k + (p == "trim")) % 3:
                continue
            ctx.case([u, pn, k, g, p], waterfall, u["lay"], u["delay"], u["t"], pn, WK[k], g, p)
