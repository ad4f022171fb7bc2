"""W04 every sequence of normalize and plot calls against the original image."""
import itertools

import numpy as np
import matplotlib.pyplot as plt

from swprocess.register import WavefieldTransformRegistry as Reg

from mc.explore import explore
from mc.objs import array, obs, same_obs
from mc.util import ok, close, same, raises, wave

RULE = "breadth-first search over sequences of normalize and plot calls; after each, the image is compared with the magnitude of the original image under the last normalization alone"
BOUNDS = dict(quick="18 images (6 transforms, real, complex, negative, tiny, huge, stacked, one column, one row, one entry, up to 1100 velocities or frequencies); all sequences of 6 normalizations; all mixed sequences of normalizations and plots to depth 3",
              thorough="all sequences of 8 normalizations; mixed sequences to depth 4")
ASSUMPTIONS = ["every frequency has a non-zero entry (its unit-maximum image is otherwise undefined)"]

BY = ["none", "absolute-maximum", "frequency-maximum"]
CPLX = np.array([[1 + 1j, -2j, 0.5, 3], [0, 4 - 3j, -7, 0.1], [2, 1, 1j, -6 + 0.5j]])
IMAGES = ["phaseshift", "fk", "fdbf", "slantstack", "stack", "normstack", "real", "complex", "negative", "tiny", "huge", "column", "row", "single", "tall", "wide", "tallest", "widest"]


def build(kind):
    f, v = np.array([5., 10., 15., 20.]), np.array([100., 150., 225.])
    C = Reg.create_class("phaseshift")
    mk = dict(real=np.abs(CPLX), complex=CPLX, negative=-np.abs(CPLX) + 0.25, tiny=CPLX * 1e-30, huge=CPLX * 1e25)
    if kind in mk:
        return C(f, v, mk[kind].copy())
    if kind in ("tall", "wide", "tallest", "widest"):
        nv, nf = dict(tall=(23, 5), wide=(5, 40), tallest=(1100, 3), widest=(3, 1100))[kind]
        p = np.array([[((7 * i * i + 3 * i * j + j) % 11 + 1) * np.exp(1j * i * j) for j in range(nf)] for i in range(nv)])
        for j in range(nf):                     # the maximum in a different row of each column, first and last included
            p[(-1 - 3 * j) % nv, j] *= 20.
        return C(5. + np.arange(nf), 100. + 10 * np.arange(nv), p)
    if kind == "column":
        return C(f[:1], v, CPLX[:, :1].copy())
    if kind == "row":
        return C(f, v[:1], CPLX[:1, :].copy())
    if kind == "single":
        return C(f[:1], v[:1], CPLX[:1, :1].copy())
    a = array([0., 2., 5.], n=40, dt=0.01, recs=[wave(k, 40) + 3 * np.sin(0.8 * np.arange(40) + k) for k in range(3)])
    s = dict(fmin=6., fmax=30., vmin=100., vmax=300., nvel=4, vspace="linear")
    if kind in ("stack", "normstack"):
        e = Reg.create_class("empty").from_array(a, s)
        t1, t2 = Reg.create_class("fk").from_array(a, s), Reg.create_class("slantstack").from_array(a, s)
        if kind == "normstack":
            t1.normalize()
            t2.normalize("absolute-maximum")
        e.stack(t1)
        e.stack(t2)
        return e
    return Reg.create_class(kind).from_array(a, s)


def expected(mag, by):
    if by == "none":
        return mag
    return mag / (mag.max() if by == "absolute-maximum" else mag.max(axis=0))


def verify(w):
    t = w["t"]
    if w["last"] is not None:
        close(np.asarray(t.power), expected(w["mag"], w["last"]), f"after {w['hist']}", rtol=1e-10, atol=0)
        ok(np.all(np.asarray(t.power) >= 0), "negative magnitude")
        if w["last"] != "none":
            m = np.asarray(t.power).max(axis=0 if w["last"] == "frequency-maximum" else None)
            ok(np.allclose(m, 1, rtol=1e-12), f"maximum {m} is not one")
    same(t.frequencies, w["f"], "frequencies")
    same(t.velocities, w["v"], "velocities")
    ok(t.n == w["n"], "count")
    same(t.find_peak_power(by="frequency-maximum"), w["peaks"], "picked velocities")


def step(w, op):
    w["hist"] = w["hist"] + (tuple(op),)
    t = w["t"]
    if op[0] == "norm":
        if op[1] is None:
            t.normalize()
        else:
            t.normalize(by=op[1])
        w["last"] = op[1] or "frequency-maximum"
    elif op[0] == "bad":
        raises((KeyError, ValueError, NotImplementedError), lambda: t.normalize(by="loudest"), "unknown normalization")
    else:
        fig, ax = plt.subplots()
        kw = dict(normalization=op[1]) if op[1] else {}
        t.plot(fig=fig, ax=ax, peaks=op[2], **kw)
        w["last"] = op[1] or "frequency-maximum"
        plt.close(fig)
    verify(w)


def world(kind):
    t = build(kind)
    p = np.array(t.power)
    w = dict(t=t, mag=np.abs(p), last=None, hist=(), f=np.array(t.frequencies), v=np.array(t.velocities), n=t.n)
    w["peaks"] = w["v"][np.argmax(w["mag"], axis=0)]
    verify(w)
    return w


def units(tier):
    th = tier == "thorough"
    u = [dict(mode="norm", kind=k, depth=8 if th else 6) for k in IMAGES]
    u += [dict(mode="mix", kind=k, depth=4 if th else 3, first=i) for k in IMAGES[:10] for i in range(len(MIX))]
    return u


NORM = [["norm", b] for b in BY]
MIX = [["norm", b] for b in BY] + [["norm", None], ["plot", "none", "frequency-maximum"], ["plot", "absolute-maximum", "none"], ["plot", None, "frequency-maximum"]]
PLOTS = 2


def run(u, ctx):
    w = world(u["kind"])
    if u["mode"] == "norm":
        explore(ctx, [([u["kind"]], w)], NORM, u["depth"], step)
        return
    # plots are expensive: sequences with at most two (quick) plots
    th = u["depth"] == 4

    def acts(w):
        n = sum(h[0] == "plot" for h in w["hist"])
        return [a for a in MIX + [["bad"]] if a[0] != "plot" or n < (3 if th else PLOTS)]
    ctx.current = MIX[u["first"]]
    step(w, MIX[u["first"]])
    explore(ctx, [([u["kind"], MIX[u["first"]]], w)], acts, u["depth"] - 1, step)
