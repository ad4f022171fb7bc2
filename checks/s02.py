"""S02 interactive trimming: every sequence of boxes, misplaced clicks and answers up to the horizon, with real mouse events on the session's figure."""
import contextlib
import itertools
import warnings

import numpy as np
import matplotlib.pyplot as plt
from matplotlib.backend_bases import MouseEvent
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.figure import Figure

from swprocess import PeaksSuite

from mc.refpeaks import Ref, NAN
from mc.forks import ForkChooser
from mc.ui import User, Horizon
from mc.util import ok, close

RULE = ("every choice the user has at every question of the session (box, clicks on different axes, stray clicks, each answer and unrecognized ones) is explored depth first up to the "
        "horizon; the session is judged at every question and at its end against a model of pending and committed rejections computed on the full tables, and every prefix is a session cut short")
BOUNDS = dict(quick="7 configurations of suites (1 to 3 members, 1-D and 2-D), one or two axes in all domains, 4 to 7 kinds of click pair, 4 answers, every session of up to 4 events (5 for the smallest alphabets); every session of up to 8 events over one kind of box, the empty box and the three answers",
              thorough="every session of up to 6 events (5 for the larger alphabets); up to 11 events over the smallest alphabet")
ASSUMPTIONS = ["drawing on the screen is not part of the property: canvas drawing and layout are stubbed", "a selected but not yet confirmed peak still counts as a peak of a later box",
               "the user clicks within the axes shown"]
UNIT_TIMEOUT = dict(quick=400, thorough=880)


def suites():
    a = Ref([4, 8, 16, 32], [512, 256, 250, 128], "a", power=[1, 2, 3, 4], azimuth=[10, 100, 200, 300])
    b = Ref([4.5, 9, 18, 30], [500, NAN, 200, 140], "b", power=[4, 3, 2, 1], azimuth=[20, 110, 210, 310])
    c = Ref([[5, 10, 20], [5, 10, NAN]], [[480, 240, 180], [300, 150, NAN]], "c", power=[[1, 2, 3], [4, 1, NAN]], azimuth=[[0, 90, 180], [270, 45, NAN]])
    return dict(a=a, b=b, c=c)


# one side of the axes to the other, in fractions of the axes' box: (x0, y0), (x1, y1)
BOXES = dict(left=((0.02, 0.02), (0.45, 0.98)), right=((0.98, 0.98), (0.55, 0.02)), mid=((0.3, 0.9), (0.7, 0.1)), low=((0.98, 0.02), (0.02, 0.5)), all=((0.01, 0.99), (0.99, 0.01)), empty=((0.005, 0.005), (0.015, 0.01)))


def click(fig, px, py):
    ev = MouseEvent("button_press_event", fig.canvas, px, py, 1)
    fig.canvas.callbacks.process("button_press_event", ev)
    return ev


class Session:
    """The user's choices and the reference model of what the session has to do with them."""

    def __init__(self, refs, xtype, ytype):
        self.refs, self.xtype, self.ytype = refs, xtype, ytype
        self.pending = [np.zeros(r.valid.shape, bool) for r in refs]
        self.expect = "ginput"
        self.over = False

    def check(self, suite, msg):
        for p, r in zip(suite, self.refs):
            r.agree(p, msg)

    def clicks(self, kind):
        """Returns the function that performs a pair of clicks and tells the model."""
        def go(fig):
            axes = fig.axes
            if kind[0] == "split":          # one click on each of two axes
                pts = []
                for ax in axes[:2][::kind[1]]:
                    ev = click(fig, *ax.transAxes.transform((0.3, 0.3)))
                    pts.append((ev.xdata, ev.ydata))
                self.expect = "ginput"
                return pts
            k, name = kind[1], kind[2]
            if kind[0] == "stray":          # a click outside of all axes is not a corner
                click(fig, 1, 1)
            evs = [click(fig, *axes[k].transAxes.transform(c)) for c in BOXES[name]]
            ok(all(e.inaxes is axes[k] for e in evs), "harness: click outside of the axes")
            (x0, y0), (x1, y1) = [(e.xdata, e.ydata) for e in evs]
            hit = [r.inside(self.xtype[k], (x0, x1), self.ytype[k], (y0, y1)) for r in self.refs]
            if sum(h.sum() for h in hit):
                self.pending = [p | h for p, h in zip(self.pending, hit)]
                self.expect = "ginput"
            else:
                self.expect = "input"
            return [(x0, y0), (x1, y1)]
        return go

    def answer(self, a):
        if a in ("0", "1"):
            for r, p in zip(self.refs, self.pending):
                r.valid = r.valid & ~p
        if a in ("0", "1", "2"):
            self.pending = [np.zeros(r.valid.shape, bool) for r in self.refs]
            self.expect = "ginput"
            self.over = a == "0"
        else:
            self.expect = "input"


class TrimUser(User):
    @contextlib.contextmanager
    def active(self):
        with super().active():
            inner = Figure.ginput

            def ginput(fig, n=1, timeout=30, *a, **k):
                return [] if n == 0 else inner(fig, n, timeout, *a, **k)
            Figure.ginput = ginput
            try:
                yield self
            finally:
                Figure.ginput = inner


@contextlib.contextmanager
def quiet():
    old = FigureCanvasAgg.draw, Figure.tight_layout, Figure.pick
    FigureCanvasAgg.draw = lambda self, *a, **k: None
    Figure.tight_layout = Figure.pick = lambda self, *a, **k: None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        FigureCanvasAgg.draw, Figure.tight_layout, Figure.pick = old


ANSWERS = ["1", "2", "0", "x", ""]

CONF = [
    dict(m="a", x=["frequency"], y=["velocity"], kw={}, ks=["left", "mid", "empty", "stray"]),
    dict(m="ab", x=["wavelength"], y=["velocity"], kw={}, ks=["left", "right", "empty"]),
    dict(m="abc", x=["frequency", "wavelength"], y=["velocity", "velocity"], kw={}, ks=["left", "low1", "empty", "split"]),
    dict(m="c", x=["wavelength", "frequency"], y=["slowness", "velocity"], kw=dict(resolution_limits=("wavelength", (20, 200))), ks=["mid", "right1", "empty1", "split-"]),
    dict(m="bc", x=["frequency", "frequency"], y=["azimuth", "slowness"], kw={}, ks=["mid", "left1", "empty", "split"]),
    dict(m="cab", x=["frequency"], y=["wavenumber"], kw=dict(margins=0.3, plot_kwargs=dict(color=["r", "g", "b"])), ks=["low", "all", "empty"]),
    dict(m="ca", x=["velocity", "frequency", "wavelength"], y=["power", "velocity", "azimuth"], kw={}, ks=["mid", "low2", "empty1", "split"]),
    dict(m="ba", x="frequency", y="velocity", kw=dict(resolution_limits=("wavenumber", (0.1, 0.3)), resolution_limits_plot_kwargs=dict(color="r")), ks=["right", "left", "empty"]),
]


# longer sessions over two kinds of box and the three answers
DEEP = [
    dict(m="a", x="wavelength", y="velocity", kw={}, ks=["left", "empty"]),
    dict(m="c", x=["frequency"], y=["slowness"], kw={}, ks=["mid", "empty"]),
    dict(m="bca", x=["frequency", "wavelength"], y=["velocity", "azimuth"], kw={}, ks=["right1", "empty"]),
]


def kinds(names):
    out = []
    for n in names:
        if n.startswith("split"):
            out.append(("split", -1 if n.endswith("-") else 1))
        elif n == "stray":
            out.append(("stray", 0, "low"))
        elif n[-1].isdigit():
            out.append(("box", int(n[-1]), n[:-1]))
        else:
            out.append(("box", 0, n))
    return out


def session(conf, first, chooser):
    refs = [suites()[k] for k in conf["m"]]
    suite = PeaksSuite.from_peaks([r.impl() for r in refs])
    xt = [conf["x"]] if isinstance(conf["x"], str) else conf["x"]
    yt = [conf["y"]] if isinstance(conf["y"], str) else conf["y"]
    s = Session(refs, xt, yt)
    trace = []

    def choose(kind):
        ok(not s.over, "the session goes on after quit")
        ok(kind == s.expect, f"the session asks for {kind}, expected {s.expect} after {trace}")
        s.check(suite, f"after {trace}")
        e = first if not trace else chooser(kind)
        trace.append(list(e) if isinstance(e, tuple) else e)
        if kind == "input":
            s.answer(e)
            return e
        return s.clicks(e)
    u = TrimUser(choose)
    cut = False
    try:
        with quiet(), u.active():
            suite.interactive_trimming(xtype=conf["x"], ytype=conf["y"], **conf["kw"])
    except Horizon:
        cut = True
    ok(cut or s.over, f"the session ended without quit after {trace}")
    s.check(suite, f"at the end of {trace}")
    return [trace[-1], [r.valid.tolist() for r in refs], cut]


def units(tier):
    u = []
    for i, c in enumerate(CONF + DEEP):
        if i >= len(CONF):
            u += [dict(conf=i, first=k, horizon=7 if tier == "quick" else 10, few=True) for k in kinds(c["ks"])]
            continue
        for k in kinds(c["ks"]):
            if tier == "quick":
                u.append(dict(conf=i, first=k, horizon=4 if len(c["ks"]) == 3 else 3))
            else:
                u.append(dict(conf=i, first=k, horizon=6 if len(c["ks"]) == 3 else 5))
    return u


def run(u, ctx):
    conf = (CONF + DEEP)[u["conf"]]
    fc = ForkChooser(dict(ginput=kinds(conf["ks"]), input=["2", "1", "0"] if u.get("few") else ANSWERS if u["conf"] in (0, 2) else ANSWERS[:4]), u["horizon"], Horizon)
    ctx.current = [u["conf"], u["first"]]
    try:
        fc.explore(ctx, lambda choose: session(conf, tuple(u["first"]), choose))
    finally:
        plt.close("all")
