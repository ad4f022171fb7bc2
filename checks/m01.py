"""M01 workflow runs against the documented steps performed by hand, for every combination of settings."""
import copy
import itertools
import os
import warnings

import numpy as np
import matplotlib.pyplot as plt

from swprocess import Masw

from mc.objs import obs, close_obs
from mc.survey import write, by_hand, XS
from mc.ui import User, Horizon
from mc.util import ok, close

RULE = ("every combination of workflow, files, trim, mute, pad, offset range, signal-to-noise and source side (transform, mute lines, window, trim limits and mapping in rotation): image, axes, array and "
        "signal-to-noise of the run compared with the documented steps performed one by one")
BOUNDS = dict(quick="3 workflows x 6 file arguments x 3 trims x 3 pads x 3 offset ranges x 3 signal-to-noise settings (signal window within the record or up to its last sample) x 3 sources, without mute and, for a third of them, with; 5 transforms and other options in rotation; 2..26 files x 11..73 sensors",
              thorough="transforms as a full product")
ASSUMPTIONS = ["mute lines are clicked through a scripted user; the images of frequency-domain runs are averaged with equal weights (one count per file)"]

WFS = ["single", "time-domain", "frequency-domain"]
TR = ["fdbf", "phaseshift", "slantstack", "fk", "fdbf2"]
FILES = ["str", "one", "two", "three", "tuple", "rev"]
TRIM = [None, (0., 0.5), (-0.1, 0.4)]
LINES = [(((0., 0.0), (9., 0.06)), ((0., 0.3), (9., 0.42))), (((-3., 0.1), (5., 0.0)), ((2., 0.25), (6., 0.25)))]
WIN = [None, dict(alpha=0.), dict(alpha=1.)]
PAD = [None, 1.25, 5.]
OFFS = [(0., np.inf), (4., 100.), (0., 8.5)]
SN = [None, ("nopad", (-0.2, 0.0), (0.05, 0.25)), ("pad", (-0.15, 0.0), (0.0, 0.3))]
END = {None: 0.59, (0., 0.5): 0.5, (-0.1, 0.4): 0.4}
SRCS = {"left": -3., "right": 14., "end": 0.}


def settings(wf, trim, mute, pad, offs, sn, tr):
    kw = dict(workflow=wf, fmin=8., fmax=30., vmin=90., vmax=300., nvel=4, vspace="log" if pad else "linear", min_offset=offs[0], max_offset=offs[1],
              transform="fdbf" if tr == "fdbf2" else tr)
    if offs[0] or trim and pad:
        kw.update(nvel=7, vmin=150., vmax=2000., fmin=3., fmax=19.)
    elif sn and not pad:
        kw.update(nvel=2, vmin=400., vmax=100., fmin=11., fmax=40.)
    if tr == "fdbf2":
        kw.update(weighting="invamp", steering="plane")
    if trim:
        kw.update(trim=True, trim_begin=trim[0], trim_end=trim[1])
    if mute is not None:
        kw.update(mute=True, window_kwargs=mute[1])
    if pad:
        kw.update(pad=True, df=pad)
    if sn:
        kw.update(snr=True, noise_begin=sn[1][0], noise_end=sn[1][1], signal_begin=sn[2][0], signal_end=sn[2][1], pad_snr=sn[0] == "pad", df_snr=2.5)
    return Masw.create_settings_dict(**kw)


def names(tmp, kind):
    fs = [os.path.join(tmp, f"f{i}.su") for i in range(3)]
    return {"str": fs[0], "one": fs[:1], "two": fs[:2], "three": fs, "tuple": tuple(fs[:2]), "rev": fs[::-1]}[kind]


def execute(fn, s, lines, mp):
    q = [[p] for l in lines for p in l]

    def choose(kind):
        if kind == "ginput":
            if not q:
                raise Horizon()
            return q.pop(0)
        return True if kind == "block" else None
    with User(choose).active(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return Masw.run(fnames=fn, settings=s, **mp)
        except Horizon:
            raise AssertionError("the run asks for more mute lines than one start and one end line")
        finally:
            plt.close("all")


def compare(t, want):
    close(np.array(t.frequencies), want["frequencies"], "frequencies", rtol=1e-12)
    close(np.array(t.velocities), want["velocities"], "velocities", rtol=1e-12)
    close(np.asarray(t.power, complex), np.asarray(want["power"], complex), "image", rtol=1e-8)
    close_obs(obs(t.array), obs(want["array"]), "array", rtol=1e-10)
    if want["snr"] is None:
        ok(t.snr is None and t.snr_frequencies is None, "signal-to-noise was not requested")
    else:
        close(np.array(t.snr_frequencies), np.array(want["snrf"]), "signal-to-noise frequencies", rtol=1e-12)
        close(np.array(t.snr), np.array(want["snr"]), "signal-to-noise", rtol=1e-9)


def check(tmp, wf, files, trim, mute, pad, offs, sn, tr, mp):
    s = settings(wf, trim, mute, pad, offs, sn, tr)
    fn = names(tmp, files)
    maps = {"id": {}, "shift": dict(map_x=lambda x: x + 100., map_y=lambda y: y - 2.), "flip": dict(map_x=lambda x: -x)}[mp]
    lines = ()
    if mute:
        lines = mute[0]
        if mp == "shift":
            lines = tuple(tuple((x + 100., t) for x, t in l) for l in lines)
        elif mp == "flip":
            lines = tuple(tuple((-x, t) for x, t in l) for l in lines)
    want = by_hand(fn, copy.deepcopy(s), lines or (None, None), **maps)
    t = execute(fn, s, lines, maps)
    compare(t, want)
    ok(t.n == want["n"], f"count {t.n}")
    return f"{np.round(np.abs(t.power).ravel()[:2], 6).tolist()}"


def many(tmp, wf, nf, ns, k):
    """Long file lists (not in the order of their names) and long arrays."""
    d = 0.5 if ns > 40 else 1.5
    xs = [d * i + (0.125 if i % 5 == 2 else 0.) for i in range(ns)]
    fs = [write(tmp, f"m{(7 * f + 3) % 97}.su", f=f % 4, xs=xs, src=(-3., d * ns + 4.)[k % 2], nst=1 + f % 3, order=[(i * 5 + f) % ns for i in range(ns)]) for f in range(nf)]
    s = settings(wf, TRIM[k % 3], None, PAD[k % 3], ((0., np.inf), (4., d * ns - 2.))[k // 2 % 2], SN[1 + k % 2], TR[k % 5])
    want = by_hand(fs, copy.deepcopy(s))
    t = execute(list(fs), s, (), {})
    compare(t, want)
    ok(t.n == want["n"], f"count {t.n}")
    return f"{wf} {nf} {ns} {np.round(np.abs(t.power).ravel()[:2], 6).tolist()}"


def units(tier):
    return [dict(mode="many", wf=w, ns=ns) for w in WFS for ns in (11, 24, 49, 73)] + [dict(wf=w, files=f, src=s, trim=i, full=tier == "thorough") for w in WFS for f in FILES for s in SRCS for i in range(3)]


def run(u, ctx):
    if u.get("mode") == "many":
        for nf, k in itertools.product((2, 5, 8, 12, 26), range(6)):
            if u["ns"] > 40 and nf > 5:
                continue
            ctx.case(["many", u["wf"], nf, u["ns"], k], many, ctx.newtmp(), u["wf"], nf, u["ns"], k)
        return
    xs = XS if u["src"] != "left" else [0., 1.5, 4., 6.5, 9.]
    for f in range(3):
        write(ctx.tmp, f"f{f}.su", f=f, xs=xs, src=SRCS[u["src"]], nst=f + 1, order=[(2 * k + f) % 5 for k in range(5)])
    i = WFS.index(u["wf"]) + FILES.index(u["files"]) + u["trim"]
    for mute, pad, offs, sn in itertools.product((False, True), PAD, OFFS, SN):
        for tr in (TR if u["full"] else [TR[i % 5]]):
            i += 1
            if mute and not u["full"] and (i + i // 3 + i // 9) % 3:
                continue        # drawing the waterfall dominates the cost
            m = (LINES[i % 2], WIN[i // 2 % 3]) if mute else None
            if sn and i % 3 == 0:       # signal window up to the last sample
                e = END[TRIM[u["trim"]]]
                sn = (sn[0], sn[1], (e - (sn[2][1] - sn[2][0]), e))
            mp = ("id", "shift", "flip", "id")[i % 4]
            if u["src"] == "end" and mp == "flip":
                mp = "shift"
            ctx.case([u["wf"], u["files"], u["src"], TRIM[u["trim"]], m, pad, offs, sn, tr, mp], check, ctx.tmp, u["wf"], u["files"], TRIM[u["trim"]], m, pad, offs, sn, tr, mp)
