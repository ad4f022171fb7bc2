"""S07 what an interactive trimming session shows: retained and selected peaks, view and limits at every question."""
import warnings

import numpy as np
import matplotlib.colors as mc
import matplotlib.pyplot as plt

from swprocess import PeaksSuite

from checks import s02
from mc.forks import ForkChooser
from mc.refpeaks import Ref, NAN
from mc.ui import Horizon
from mc.util import ok

RULE = ("every session of boxes, misplaced clicks and answers up to the horizon; at every question for a box the markers found on each axes are compared with the retained and the selected peaks of the "
        "model, the view, scales and labels with those of the first question, and the resolution limits with those drawn by a separate call in the same view")
BOUNDS = dict(quick="8 configurations of suites (1 to 9 members), one to three axes, styles per member, resolution limits, margins; 3 or 4 kinds of click pair, 3 or 4 answers, every session of up to 4 events",
              thorough="every session of up to 6 events")
ASSUMPTIONS = ["markers are read back through matplotlib; the last one drawn at a place is the one seen", "canvas drawing and layout are stubbed",
               "what is shown during a pause (the axes are blanked) is not part of the property"]
UNIT_TIMEOUT = dict(quick=400, thorough=880)


def pool(name):
    if name == "nine":
        return [Ref([3 + 0.1 * k, 9 + k, 30 - k], [500 - 7 * k, NAN if k == 4 else 300 + k, 150 + 3 * k], f"m{k}", valid=[k != 2, k != 4, k % 3 != 1], azimuth=[k, 40 + k, 90 + k]) for k in range(9)]
    return [s02.suites()[k] for k in name]


CONF = [
    dict(m="a", x="wavelength", y="velocity", kw={}, ks=["left", "mid", "empty"]),
    dict(m="ab", x=["frequency"], y=["velocity"], kw=dict(plot_kwargs=dict(color=["r", "g"])), ks=["right", "low", "empty"]),
    dict(m="abc", x=["frequency", "wavelength"], y=["velocity", "velocity"], kw=dict(margins=0.05), ks=["left", "low1", "empty", "split"]),
    dict(m="c", x=["wavelength", "frequency"], y=["slowness", "velocity"], kw=dict(resolution_limits=("wavelength", (20, 200))), ks=["mid", "right1", "empty1"]),
    dict(m="bc", x=["frequency", "frequency"], y=["azimuth", "slowness"], kw=dict(plot_kwargs=dict(marker="s", color="m")), ks=["mid", "left1", "empty"]),
    dict(m="cab", x=["frequency"], y=["wavenumber"], kw=dict(resolution_limits=("wavenumber", (0.02, 0.3)), margins=0.3), ks=["low", "all", "empty"]),
    dict(m="nine", x=["wavelength", "frequency", "velocity"], y=["velocity", "azimuth", "slowness"], kw=dict(plot_kwargs=dict(color=["r", "g", "b"] * 3)), ks=["mid", "low2", "empty1"]),
    dict(m="ba", x="frequency", y="velocity", kw=dict(resolution_limits=("wavenumber", (0.1, 0.3)), resolution_limits_plot_kwargs=dict(color="r", linestyle=":")), ks=["right", "left", "empty"]),
]
NAMES = dict(frequency="Frequency (Hz)", wavelength="Wavelength (m)", velocity="Velocity (m/s)", slowness="Slowness (s/m)", azimuth="Azimuth (deg)")


def rgba(c):
    return mc.to_hex(c, keep_alpha=False)


def seen(ax):
    """The marker last drawn at each place (style None: drawn, no matter how), and the curves."""
    pts, curves = {}, []
    for ln in sorted((ln for ln in ax.lines if ln.get_visible()), key=lambda v: v.get_zorder()):
        x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
        if ln.get_marker() in (None, "", " ", "None", "none"):
            if ln.get_linestyle() not in ("None", "", " ", "none"):
                curves.append((x, y, rgba(ln.get_color()), ln.get_linestyle()))
            continue
        good = np.isfinite(x) & np.isfinite(y)
        for p in zip(x[good].tolist(), y[good].tolist()):
            pts[p] = (rgba(ln.get_color()), ln.get_marker())
    return pts, curves


class Show:
    """Judges the figure at each question for a box."""

    def __init__(self, conf, refs, suite, xt, yt):
        self.conf, self.refs, self.suite, self.xt, self.yt = conf, refs, suite, xt, yt
        self.view = None

    def style(self, i):
        kw = self.conf["kw"].get("plot_kwargs") or {}
        c, m = kw.get("color"), kw.get("marker", "o")
        return (rgba(c[i] if isinstance(c, list) else c) if c is not None else None), m

    def look(self, fig, pending, msg):
        axes = fig.axes
        ok(len(axes) == len(self.xt), f"{msg}: {len(axes)} axes")
        view = [(a.get_xlim(), a.get_ylim(), a.get_xscale(), a.get_yscale(), a.get_xlabel(), a.get_ylabel()) for a in axes]
        if self.view is None:
            self.view = view
            for k, (v, ax) in enumerate(zip(view, axes)):
                for lab, t in ((v[4], self.xt[k]), (v[5], self.yt[k])):
                    ok(t not in NAMES or lab == NAMES[t], f"{msg}: axes {k} is labelled {lab!r} for {t}")
                for r in self.refs:
                    for x, y in zip(r.full(self.xt[k])[r.valid], r.full(self.yt[k])[r.valid]):
                        if np.isfinite(x) and np.isfinite(y):
                            ok(min(v[0]) < x < max(v[0]) and min(v[1]) < y < max(v[1]), f"{msg}: the peak {x}, {y} lies outside of the view {v[:2]} of axes {k}")
        for k, (v, w) in enumerate(zip(view, self.view)):
            ok(np.allclose(v[:2], w[:2], rtol=1e-9), f"{msg}: the view of axes {k} moved from {w[:2]} to {v[:2]}")
            ok(v[2:] == w[2:], f"{msg}: scales or labels of axes {k} changed from {w[2:]} to {v[2:]}")
        for k, ax in enumerate(axes):
            pts, curves = seen(ax)
            want, sel = {}, {}
            for i, (r, p) in enumerate(zip(self.refs, pending)):
                X, Y = r.full(self.xt[k]), r.full(self.yt[k])
                for x, y, q in zip(X[r.valid].tolist(), Y[r.valid].tolist(), p[r.valid].tolist()):
                    if np.isfinite(x) and np.isfinite(y):
                        want.setdefault((x, y), []).append(i)
                        sel.setdefault((x, y), []).append(q)
            keys = {self.near(p, pts): p for p in want}
            ok(None not in keys, f"{msg}: axes {k} does not show the peak {keys.get(None)}")
            extra = set(pts) - set(keys)
            ok(not extra, f"{msg}: axes {k} shows {sorted(extra)[:3]}, not among the retained peaks")
            for q, p in keys.items():
                if len(want[p]) > 1:
                    continue
                col, mk = self.style(want[p][0])
                if sel[p][0]:
                    ok(pts[q][0] != (col or self.plain[k][p]), f"{msg}: axes {k} does not mark the selected peak {p}")
                else:
                    ok(pts[q][1] == mk, f"{msg}: axes {k} draws the peak {p} with marker {pts[q][1]!r}, not {mk!r}")
                    first = self.plain.setdefault(k, {}).setdefault(p, pts[q][0])
                    ok(pts[q][0] == (col or first), f"{msg}: axes {k} draws the peak {p} in {pts[q][0]}, not {col or first}")
            self.limits(ax, k, curves, msg)

    plain = None

    @staticmethod
    def near(p, pts):
        if p in pts:
            return p
        for q in pts:
            if abs(q[0] - p[0]) <= 1e-9 * abs(p[0]) and abs(q[1] - p[1]) <= 1e-9 * abs(p[1]):
                return q
        return None

    def limits(self, ax, k, curves, msg):
        rl = self.conf["kw"].get("resolution_limits")
        want = []
        if rl is not None:
            f = plt.Figure()
            other = f.add_subplot()
            v = self.view[k]
            other.set_xscale(v[2])
            other.set_yscale(v[3])
            other.set_xlim(v[0])
            other.set_ylim(v[1])
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.suite.plot_resolution_limits(ax=other, xtype=self.xt[k], ytype=self.yt[k], limits=rl[1], attribute=rl[0], plot_kwargs=self.conf["kw"].get("resolution_limits_plot_kwargs"))
            want = seen(other)[1]
        ok(len(want) == len(curves), f"{msg}: axes {k} shows {len(curves)} limits, expected {len(want)}")
        for a, b in zip(curves, want):
            ok(a[2:] == b[2:], f"{msg}: limit drawn as {a[2:]}, expected {b[2:]}")
            ok(np.allclose(a[0], b[0], rtol=1e-9, equal_nan=True) and np.allclose(a[1], b[1], rtol=1e-9, equal_nan=True), f"{msg}: a resolution limit of axes {k} is misplaced")


def session(conf, first, chooser):
    refs = pool(conf["m"])
    suite = PeaksSuite.from_peaks([r.impl() for r in refs])
    xt = [conf["x"]] if isinstance(conf["x"], str) else conf["x"]
    yt = [conf["y"]] if isinstance(conf["y"], str) else conf["y"]
    s = s02.Session(refs, xt, yt)
    show = Show(conf, refs, suite, xt, yt)
    show.plain = {}
    trace = []
    figs = []

    def choose(kind):
        if kind == "input":
            e = chooser(kind)
            trace.append(e)
            s.answer(e)
            return e

        def go(fig):
            figs[:] = [fig]
            show.look(fig, s.pending, f"after {trace}")
            e = first if not trace else chooser(kind)
            trace.append(list(e))
            return s.clicks(e)(fig)
        return go
    u = s02.TrimUser(choose)
    cut = False
    try:
        with s02.quiet(), u.active():
            suite.interactive_trimming(xtype=conf["x"], ytype=conf["y"], **conf["kw"])
    except Horizon:
        cut = True
    if not cut:
        show.look(figs[0], s.pending, f"at the end of {trace}")
    return [trace[-1], [r.valid.tolist() for r in refs], cut]


def units(tier):
    return [dict(conf=i, first=k, horizon=3 if tier == "quick" else 5) for i, c in enumerate(CONF) for k in s02.kinds(c["ks"])]


def run(u, ctx):
    conf = CONF[u["conf"]]
    fc = ForkChooser(dict(ginput=s02.kinds(conf["ks"]), input=["2", "1", "0"] if u["conf"] % 2 else ["2", "x", "1", "0"]), u["horizon"], Horizon)
    ctx.current = [u["conf"], u["first"]]
    try:
        fc.explore(ctx, lambda choose: session(conf, tuple(u["first"]), choose))
    finally:
        plt.close("all")
