"""M03 which surveys and settings a run refuses: every source position, every place of a mismatching file, unknown names."""
import copy
import itertools
import warnings

import numpy as np
import matplotlib.pyplot as plt

from swprocess import Masw
from swprocess.masw import MaswXcorr

from mc.survey import write
from mc.util import ok, raises

RULE = ("every source position on, between and outside the sensors of every layout for every workflow and transform; every kind of mismatching file at every later place of lists of 2 to 4 files; "
        "unknown workflow, transform and mute names in every workflow")
BOUNDS = dict(quick="5 layouts x 13 or more source positions x 4 workflows (5 transforms and 3 offset ranges in rotation); 5 mismatches x places; 9 unknown names per workflow",
              thorough="transforms and offset ranges as a full product")
ASSUMPTIONS = ["the source is compared with the array as read, before any offset trimming"]

LAY = [[0., 2., 4., 6., 9.], [0., 2.], [-10., -4., -3.5, 0.25], [5., 5.5, 30.], [100. + 2 * i for i in range(12)]]
WFS = ["single", "time-domain", "frequency-domain", "time-domain-xcorr"]
TR = ["fdbf", "phaseshift", "slantstack", "fk"]


def settings(wf, tr="fdbf", offs=(0., np.inf), **kw):
    return Masw.create_settings_dict(workflow=wf, transform=tr, fmin=8., fmax=14., vmin=100., vmax=300., nvel=2, min_offset=offs[0], max_offset=offs[1], **kw)


def go(wf, fns, s, tmp):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if wf == "time-domain-xcorr":
                src = write(tmp, "src.su", f=3, xs=[0., 1.], delay=0.)
                return MaswXcorr.run(fns, [src], 0, s)
            return Masw.run(fns, s)
        finally:
            plt.close("all")


def position(tmp, lay, src, wf, tr, offs, sy):
    xs = LAY[lay]
    fns = [write(tmp, f"p{f}.su", f=f, xs=xs, src=src, sy=sy) for f in range(2)]
    s = settings(wf, tr, offs)
    inside = xs[0] < src < xs[-1]
    if inside:
        raises(ValueError, lambda: go(wf, fns, s, tmp), f"source at {src} inside the array")
        return "refused"
    left = [x for x in xs if offs[0] < abs(x - src) < offs[1]]
    if len(left) < 2:
        return None
    t = go(wf, fns, s, tmp)
    ok(t.array.position() == left or np.allclose(t.array.position(), left), "sensors processed")
    ok(t.power.shape == (2, len(t.frequencies)) and np.all(np.isfinite(np.abs(t.power))), f"image of an accepted survey with the source at {src}")
    return "accepted"


BAD = ["sx", "sy", "fewer", "more", "side"]


def mismatch(tmp, wf, kind, place, n):
    fns = []
    for f in range(n):
        kw = dict(xs=LAY[0], src=-3.)
        if f == place:
            kw.update({"sx": dict(src=-3.25), "sy": dict(sy=0.5), "fewer": dict(xs=LAY[0][:-1]), "more": dict(xs=LAY[0] + [11.]), "side": dict(src=12.)}[kind])
        fns.append(write(tmp, f"m{f}.su", f=f, **kw))
    s = settings(wf)
    if wf == "single" and place > 0:
        t = go(wf, fns, s, tmp)
        ok(t.array.nchannels == 5, "single workflow uses the first file")
        return "ignored"
    raises(ValueError, lambda: go(wf, fns, s, tmp), f"{kind} in file {place}")
    return "refused"


def unknown(tmp, wf, what, name):
    fn = write(tmp, "u.su", f=0, xs=LAY[0], src=-3.)
    s = settings(wf, mute=what == "mute")
    if what == "workflow":
        s["workflow"] = name
    elif what == "transform":
        s["processing"]["transform"] = name
    else:
        s["pre-processing"]["mute"]["method"] = name
    exc = NotImplementedError if what == "workflow" and wf == "time-domain-xcorr" else KeyError
    if what == "workflow" and wf != "time-domain-xcorr":
        raises(exc, lambda: go("time-domain", [fn], s, tmp), f"unknown {what} {name!r}")
    else:
        raises(exc, lambda: go(wf, [fn], s, tmp), f"unknown {what} {name!r}")


def units(tier):
    u = [dict(mode="pos", lay=i, wf=w, full=tier == "thorough") for i in range(len(LAY)) for w in WFS]
    u += [dict(mode="mis", wf=w) for w in WFS]
    u += [dict(mode="unk", wf=w) for w in WFS]
    return u


def run(u, ctx):
    if u["mode"] == "pos":
        xs = LAY[u["lay"]]
        cand = sorted(set([xs[0] - 1000., xs[0] - 5., xs[0] - 0.001, xs[0], xs[0] + 0.001, xs[-1] - 0.001, xs[-1], xs[-1] + 0.001, xs[-1] + 4., xs[-1] + 500.]
                          + xs[1:-1] + [round((a + b) / 2, 3) for a, b in zip(xs, xs[1:])]))
        i = 0
        for src in cand:
            if u["wf"] == "time-domain-xcorr" and (src < xs[0] - 20 or src > xs[-1] + 20):
                continue        # the records would not contain the travel times
            for j in range(12 if u["full"] else 3):
                i += 1
                tr, offs = (TR[j % 4], [(0., np.inf), (1.5, 2000.), (0., 5.)][j // 4]) if u["full"] else (TR[i % 4], [(0., np.inf), (1.5, 2000.), (0., 5.)][j])
                ctx.case([u["wf"], u["lay"], src, tr, offs, i % 2], position, ctx.tmp, u["lay"], src, u["wf"], tr, offs, (0., 3.)[i % 2])
    elif u["mode"] == "mis":
        for n in (2, 3, 4):
            for kind, place in itertools.product(BAD, range(1, n)):
                ctx.case([u["wf"], kind, place, n], mismatch, ctx.tmp, u["wf"], kind, place, n)
    else:
        for what in ("workflow", "transform", "mute"):
            for name in ("nonsense", "", "FDBF", "time_domain", "predefined"):
                ctx.case([u["wf"], what, name], unknown, ctx.tmp, u["wf"], what, name)
