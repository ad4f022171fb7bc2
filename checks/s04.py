"""S04 resolution limits: every combination of axes, attribute, limits and sampling vectors, against the defining relations."""
import copy
import itertools
import warnings

import numpy as np
import matplotlib.pyplot as plt

from swprocess import PeaksSuite

from mc.util import ok, same, close, raises

RULE = ("every combination of horizontal axis, vertical axis, limit attribute, pair of limits and sampling vectors: each point of each curve is converted to wavelength (and wavenumber) "
        "by the defining relations and compared with the limit it was asked for; the same combinations drawn on real axes of every scale and range")
BOUNDS = dict(quick="7 x 7 x 6 combinations of domains x 7 pairs of limits x 6 pairs of sampling vectors; drawing: 12 supported and 24 unsupported combinations x 9 axes (also starting at or below zero, or reversed) x 3 keyword forms",
              thorough="the same with 15 pairs of limits and 12 pairs of vectors")
ASSUMPTIONS = ["limits and locations are positive (vertical linear axes may start at or below zero)"]

DOM = ["frequency", "wavelength", "velocity", "slowness", "wavenumber", "azimuth", "nonsense"]
SUPPORTED = {("frequency", "velocity"), ("frequency", "slowness"), ("frequency", "wavenumber"), ("wavelength", "velocity"), ("wavelength", "slowness")}
ATTR = ["wavelength", "wavenumber", "frequency", "velocity", "slowness", "azimuth"]
LIM = [(10., 100.), (100., 10.), (25., 25.), (1, 2), (0.5, 1e3), (1e-3, 7.), (3, 300)]
LIM2 = LIM + [(a, b) for a in (0.01, 1., 40.) for b in (0.2, 5.)] + [(2 * np.pi, np.pi), (1e5, 1e-5)]


def vectors():
    v = dict(lin=np.linspace(1, 50, 7), log=np.geomspace(0.1, 80, 7), one=np.array([3.]), ints=np.array([1, 2, 5, 10, 20, 40, 41]), desc=np.linspace(60, 2, 7), long=np.linspace(2, 9, 13))
    return v


PAIRS = [("lin", "lin"), ("log", "desc"), ("ints", "ints"), ("one", "one"), ("lin", "long"), ("long", "log")]
PAIRS2 = PAIRS + [("one", "lin"), ("ints", "long"), ("desc", "lin"), ("long", "ints"), ("log", "log"), ("desc", "one")]


def wavelength(xd, x, yd, y):
    """Wavelength of the point (x, y) by definition: wavelength = velocity/frequency, slowness = 1/velocity, wavenumber = 2 pi/wavelength."""
    if xd == "wavelength":
        return x
    if yd == "wavenumber":
        return 2 * np.pi / y
    return (y if yd == "velocity" else 1 / y) / x


def calc(xd, attr, yd, lim, px, py):
    xs, ys = vectors()[px], vectors()[py]
    kx, ky = xs.copy(), ys.copy()
    f = lambda: PeaksSuite.calc_resolution_limits(xd, attr, yd, lim, xs, ys)      # noqa: E731
    if (xd, yd) not in SUPPORTED or attr not in ("wavelength", "wavenumber"):
        raises(NotImplementedError, f, f"{xd} {attr} {yd}")
        return "unsupported"
    out = f()
    same(xs, kx, "xs altered")
    same(ys, ky, "ys altered")
    ok(len(out) == 2, "two curves")
    for (x, y), l in zip(out, lim):
        L = l if attr == "wavelength" else 2 * np.pi / l
        x, y = np.asarray(x, float), np.asarray(y, float)
        ok(x.shape == y.shape, f"{x.shape} abscissae and {y.shape} ordinates")
        ok(x.size > 0, "empty curve")
        if xd == "frequency":
            same(x, kx.astype(float), "abscissae are the frequencies given")
        else:
            same(y, ky.astype(float), "ordinates are those given")
        close(wavelength(xd, x, yd, y), np.full(x.shape, L), f"wavelength along the limit {attr}={l}", rtol=1e-12)
    other = "wavenumber" if attr == "wavelength" else "wavelength"
    dual = PeaksSuite.calc_resolution_limits(xd, other, yd, tuple(2 * np.pi / l for l in lim), xs, ys)
    for (x, y), (x2, y2) in zip(out, dual):
        close(np.asarray(x, float), np.asarray(x2, float), "the same limit given as wavenumber", rtol=1e-12)
        close(np.asarray(y, float), np.asarray(y2, float), "the same limit given as wavenumber", rtol=1e-12)
    return f"{xd} {attr} {yd}"


AX = [("linear", "linear", (1, 50), (10, 500)), ("log", "linear", (0.5, 80), (50, 900)), ("log", "log", (2, 200), (1e-3, 1e-1)), ("linear", "log", (3, 30), (1, 300)),
      ("log", "linear", (1, 100), (0, 500)), ("log", "linear", (0.3, 60), (-40, 700)), ("linear", "log", (7, 8), (0.02, 5)), ("log", "linear", (90, 0.5), (400, 30)), ("linear", "linear", (2, 60), (700, 20))]
_AX = []


def draw(xd, attr, yd, lim, axk, kwk):
    if not _AX:
        _AX.append(plt.subplots()[1])
    ax = _AX[0]
    ax.cla()
    xsc, ysc, xl, yl = AX[axk]
    ax.set_xscale(xsc)
    ax.set_yscale(ysc)
    ax.set_xlim(xl)
    ax.set_ylim(yl)
    kw = [None, dict(color="#ff0000", label="mine"), dict(linestyle=":", linewidth=2.)][kwk]
    keep = copy.deepcopy(kw)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        PeaksSuite.plot_resolution_limits(ax, xtype=xd, ytype=yd, attribute=attr, limits=lim, plot_kwargs=kw)
    ok(kw == keep, "keyword arguments altered")
    lines = ax.get_lines()
    if (xd, yd) not in SUPPORTED or attr not in ("wavelength", "wavenumber"):
        ok(len(lines) == 0 and len(ax.patches) == 0 and len(ax.collections) == 0, "something drawn for an unsupported combination")
        ok(ws, "no warning for an unsupported combination")
        return "nothing"
    ok(len(lines) == 2, f"{len(lines)} lines")
    for line, l in zip(lines, lim):
        x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
        ok(len(x) == len(y) and len(x) > 1, "points of the line")
        close(wavelength(xd, x, yd, y), np.full(x.shape, l if attr == "wavelength" else 2 * np.pi / l), f"wavelength along the line for {l}", rtol=1e-12)
        s, (a, b) = (x, xl) if xd == "frequency" else (y, yl)
        close([s.min(), s.max()], [min(a, b), max(a, b)], "the line spans the axis", rtol=1e-9)
        if kwk == 1:
            ok(line.get_color() == "#ff0000", "colour")
        if kwk == 2:
            ok(line.get_linestyle() == ":" and line.get_linewidth() == 2., "line style")
    labels = [t for t in ax.get_legend_handles_labels()[1]]
    ok(len(labels) == 1, f"labels {labels}")
    if kwk == 1:
        ok(labels == ["mine"], f"label {labels}")
    return f"{xd} {attr} {yd} {axk}"


def units(tier):
    t = tier == "thorough"
    return [dict(mode="calc", x=x, t=t) for x in DOM] + [dict(mode="draw", ax=k, t=t) for k in range(len(AX))]


def run(u, ctx):
    if u["mode"] == "calc":
        for yd, at in itertools.product(DOM, ATTR):
            for lim, (px, py) in itertools.product(LIM2 if u["t"] else LIM, PAIRS2 if u["t"] else PAIRS):
                a = (u["x"], at, yd, lim, px, py)
                ctx.case(a, calc, *a)
    else:
        for xd, yd in itertools.product(DOM[:5], repeat=2):
            for at, lim, kw in itertools.product(ATTR[:3], LIM2 if u["t"] else LIM[:2], range(3)):
                a = (xd, at, yd, lim, u["ax"], kw)
                ctx.case(a, draw, *a)
