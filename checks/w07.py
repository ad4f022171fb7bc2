"""W07 dispersion-image and signal-to-noise plots against the data they show."""
import copy
import itertools
import warnings

import numpy as np
import matplotlib.pyplot as plt

from swprocess.register import WavefieldTransformRegistry as Reg

from mc.objs import array
from mc.util import ok, close, same, raises, wave

RULE = ("every combination of image, normalization, picks, near-field criterion, axes given or not, colour bar axes given or not, keyword arguments and rasterization: drawn contours against contours of the "
        "expected image, marked points, near-field line, labels, returned objects, unchanged arguments and data; signal-to-noise plots for every data set, axes and keyword arguments")
BOUNDS = dict(quick="10 images x 3 normalizations x 2 picks x 6 near-field values x 3 axes arrangements, with keyword arguments, colour maps and rasterization in rotation; 7 signal-to-noise curves x 4 keyword sets x 2 axes, before and after an image plot",
              thorough="keyword arguments and rasterization as a full product")
ASSUMPTIONS = ["matplotlib's contouring is trusted: the drawn contour paths are compared with those matplotlib makes from the expected image with the same levels"]

CPLX = np.array([[1 + 1j, -2j, 0.5, 3], [0, 4 - 3j, -7, 0.1], [2, 1, 1j, -6 + 0.5j], [0.3, -0.2, 5, 1]])
IMAGES = ["phaseshift", "fk", "fdbf", "slantstack", "stack", "real", "complex", "small", "large", "log"]
BY = ["none", "absolute-maximum", "frequency-maximum"]
ARR = [([0., 2., 5.], -4.), ([1., 2., 3.5, 7.], 12.), ([0., 2., 5., 6.5], 3.)]
KW = [{}, dict(peak_kwargs=dict(marker="s", markersize=3)), dict(colorbar_kwargs=dict(label="power")), dict(cmap="viridis"), dict(rasterize=True), dict(rasterize=True, peak_kwargs=dict(label="p"), cmap="gray")]


def build(kind, k):
    xs, sx = ARR[k % 3]
    a = array(xs, n=40, dt=0.01, sx=sx, recs=[wave(i, 40) + 3 * np.sin(0.8 * np.arange(40) + i) for i in range(len(xs))])
    f, v = np.array([5., 10., 15., 20.]), np.array([100., 150., 225., 260.])
    C = Reg.create_class("fdbf")
    mk = dict(real=np.abs(CPLX), complex=CPLX, small=CPLX * 1e-9, large=CPLX * 1e9)
    s = dict(fmin=6., fmax=30., vmin=100., vmax=300., nvel=5, vspace="log" if kind == "log" else "linear")
    s["fdbf-specific"] = dict(weighting="sqrt", steering="cylindrical")
    if kind in mk:
        t = C(f, v, mk[kind].copy())
    elif kind == "stack":
        t = Reg.create_class("empty").from_array(a, s)
        t.stack(Reg.create_class("fk").from_array(a, s))
        t.stack(Reg.create_class("phaseshift").from_array(a, s))
    else:
        t = Reg.create_class("phaseshift" if kind == "log" else kind).from_array(a, s)
    t.array = a
    return t, np.abs([x - sx for x in xs]).mean()


def expected(mag, by):
    return mag if by == "none" else mag / (mag.max() if by == "absolute-maximum" else mag.max(axis=0))


def contours(ax):
    sets = [c for c in ax.collections if hasattr(c, "levels")]
    ok(len(sets) == 1, f"{len(sets)} contour sets drawn")
    return sets[0]


def lines(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l) for l in ax.get_lines()]


def image(kind, k, by, picks, near, axes, kw):
    t, centre = build(kind, k)
    f, v, p = np.array(t.frequencies), np.array(t.velocities), np.array(t.power)
    mag = expected(np.abs(p), by)
    want = v[np.argmax(np.abs(p), axis=0)]
    kw = copy.deepcopy(kw)
    given = copy.deepcopy(kw)
    args = dict(normalization=by, peaks=picks, nearfield=near, **kw)
    fig = ax = cax = None
    if axes != "none":
        if axes == "cax":
            fig, (ax, cax) = plt.subplots(1, 2)
            args["cax"] = cax
        else:
            fig, ax = plt.subplots()
        raises(ValueError, lambda: t.plot(ax=ax, **args), "axes without their figure")
        same(np.array(t.frequencies), f, "frequencies")
        ax.clear()
        args.update(fig=fig, ax=ax)
    before = set(plt.get_fignums())
    r = t.plot(**args)
    ok(kw == given, f"keyword arguments were altered: {kw}")
    if axes == "none":
        ok(isinstance(r, tuple) and len(r) == 2, f"returned {r!r}")
        fig, ax = r
        ok(len(set(plt.get_fignums()) - before) == 1, "one new figure")
    else:
        ok(r is None, f"returned {r!r} although axes were given")
        ok(set(plt.get_fignums()) == before, "a figure was opened although axes were given")
    ok(len(fig.axes) == 2, f"{len(fig.axes)} axes on the figure (image and colour bar)")
    if cax is not None:
        ok(cax in fig.axes and len(cax.collections) > 0, "the colour bar is not on the axes given for it")
    if "label" in kw.get("colorbar_kwargs", {}):
        c = [q for q in fig.axes if q is not ax][0]
        ok("power" in (c.get_ylabel(), c.get_xlabel()), "colour bar label")
    # data
    same(t.frequencies, f, "frequencies")
    same(t.velocities, v, "velocities")
    close(np.asarray(t.power), mag, "image", rtol=1e-12, atol=0)
    ok(ax.get_xlabel() == "Frequency (Hz)" and ax.get_ylabel() == "Phase Velocity (m/s)", f"labels {ax.get_xlabel()!r}, {ax.get_ylabel()!r}")
    # contours
    c = contours(ax)
    lv = np.asarray(c.levels, float)
    ok(abs(lv[0]) <= 1e-12 * mag.max() and np.isclose(lv[-1], mag.max(), rtol=1e-12, atol=0), f"levels {lv[0]}..{lv[-1]} for an image from 0 to {mag.max()}")
    ok(np.all(np.diff(lv) > 0), "levels increase")
    f2, a2 = plt.subplots()
    ref = a2.contourf(f, v, mag, lv)
    got, exp = c.get_paths(), ref.get_paths()
    ok(len(got) == len(exp), "number of contour paths")
    for i, (x, y) in enumerate(zip(got, exp)):
        ok(x.vertices.shape == y.vertices.shape and np.allclose(x.vertices, y.vertices, rtol=1e-7, atol=1e-9), f"contour path {i} does not show the image")
    plt.close(f2)
    ok(c.get_cmap().name == kw.get("cmap", "jet"), f"colour map {c.get_cmap().name}")
    ok(bool(c.get_rasterized()) == kw.get("rasterize", False), "rasterization")
    # picks and near-field line
    ls = lines(ax)
    nline = (picks != "none") + (near is not None)
    ok(len(ls) == nline, f"{len(ls)} lines drawn, {nline} expected")
    if picks != "none":
        x, y, l = ls[0]
        same(x, f, "marked frequencies")
        same(y, want, "marked velocities")
        pk = kw.get("peak_kwargs", {})
        ok(l.get_marker() == pk.get("marker", "o") and l.get_markersize() == pk.get("markersize", 1) and l.get_linestyle() in ("None", "none"), "marker style")
        if "label" in pk:
            ok(l.get_label() == pk["label"], "marker label")
    if near is not None:
        x, y, l = ls[-1]
        close(y, x * centre / near, "near-field line", rtol=1e-12)
        ok(len(x) > 1 and np.isclose(x.min(), f[0]) and np.isclose(x.max(), f[-1]), f"near-field line from {x.min()} to {x.max()} Hz")
        close(np.array(ax.get_ylim()), v[[0, -1]], "velocity axis after the near-field line", rtol=1e-9)
    fig.canvas.draw() if kw.get("rasterize") else None
    plt.close("all")
    return f"{kind} {by} {picks} {near} {axes}"


SNR = [None, [1., 2., 3., 4.], [0.], [5., 0.1, np.inf], [1e-9, 3e5, 2., 1.], "same length", [1. + (7 * i * i) % 31 for i in range(900)]]
SKW = [None, {}, dict(color="red", linestyle="--"), dict(label="snr", marker="o")]


def snr(k, kw, own, first):
    t, _ = build(IMAGES[k % len(IMAGES)], k)
    s = SNR[k]
    if s == "same length":
        s = [3. + (i * i) % 7 for i in range(len(t.frequencies))]
    if s is not None:
        t.snr, t.snr_frequencies = np.array(s), 3. + 2.5 * np.arange(len(s))
    kw = copy.deepcopy(kw)
    given = copy.deepcopy(kw)
    if first:
        t.plot()
    p = np.array(t.power)
    plt.close("all")
    fig = ax = None
    if own:
        fig, ax = plt.subplots()
    args = {} if kw is None else dict(plot_kwargs=kw)
    if own:
        args["ax"] = ax
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = t.plot_snr(**args)
    ok(kw == given, "keyword arguments were altered")
    same(np.array(t.power), p, "image")
    if s is None:
        ok(any("snr" in str(x.message).lower() for x in w), "no warning although there is no signal-to-noise ratio")
        ok(r is None and (not own or not ax.get_lines()), "something was drawn without a signal-to-noise ratio")
        ok(len(plt.get_fignums()) == own, "a figure was opened without a signal-to-noise ratio")
        plt.close("all")
        return "warned"
    if own:
        ok(r is None, "returned although axes were given")
    else:
        fig, ax = r
    ls = lines(ax)
    ok(len(ls) == 1, f"{len(ls)} lines")
    same(ls[0][0], 3. + 2.5 * np.arange(len(s)), "frequencies")
    same(ls[0][1], np.array(s), "signal-to-noise")
    for a, b in (kw or {}).items():
        ok(getattr(ls[0][2], "get_" + a)() == b, f"{a} not applied")
    ok(ax.get_xlabel() == "Frequency (Hz)" and "oise" in ax.get_ylabel(), "labels")
    same(t.snr, np.array(s), "signal-to-noise")
    plt.close("all")
    return f"drawn {len(s)}"


def units(tier):
    return [dict(mode="image", kind=k, by=b, full=tier == "thorough") for k in IMAGES for b in BY] + [dict(mode="snr", k=k) for k in range(len(SNR))]


def run(u, ctx):
    if u["mode"] == "snr":
        for kw, own, first in itertools.product(SKW, (False, True), (False, True)):
            ctx.case([u["k"], kw, own, first], snr, u["k"], kw, own, first)
        return
    i = IMAGES.index(u["kind"]) + BY.index(u["by"])
    for picks, near, axes in itertools.product(("frequency-maximum", "none"), (None, 1, 2, 0.75, 1.5, 2.625), ("none", "own", "cax")):
        for kw in (KW if u["full"] else [KW[i % 6], KW[(i + 2) % 6]]):
            ctx.case([u["kind"], i % 3, u["by"], picks, near, axes, kw], image, u["kind"], i % 3, u["by"], picks, near, axes, kw)
        i += 1
