"""W03 recovery of known velocities and symmetries of the survey."""
import itertools

import numpy as np
from scipy import special

from swprocess.register import WavefieldTransformRegistry as Reg

from mc.objs import array
from mc.util import ok, close

RULE = ("noise-free waves of every trial velocity on every layout and source position: picked velocity at every frequency; every shift, mirror and scaling of the survey: "
        "image compared with the original survey's")
BOUNDS = dict(quick="6 layouts x 4 source positions x 9 true velocities x 8 methods x 2 grids; 6 shifts, 5 mirror points, 6 scalings per survey and method",
              thorough="3 wavelets, 3 paddings and all true velocities of a 25-velocity grid")
ASSUMPTIONS = ["frequencies and spacings without spatial aliasing for the trial velocities, records containing the travel times",
               "cylindrical steering is tried on cylindrical waves, everything else on plane waves",
               "slant-stack interpolates linearly between samples: its peak may be one grid step off"]

LAY = [[2. * i for i in range(12)], [0., 1., 3., 4., 6., 8., 9.], [-10., -8.5, -7., -6., -4., -2.5, -1.], [100. + 1.5 * i for i in range(16)],
       [0., 2., 3.5, 5., 7., 9., 11., 12., 14.], [0., 1., 2., 3., 4., 5., 6., 7.]]
SRC = {"left": -6., "right": 6., "farright": 15., "nearleft": -1.}
METH = [("phaseshift", None, None), ("fk", None, None), ("slantstack", None, None)] + [("fdbf", w, s) for w in ("none", "sqrt", "invamp") for s in ("plane", "cylindrical")]
VG = [(100., 300., 9, "linear"), (100., 310., 9, "log")]


def grid(v):
    a, b, n, sp = v
    i = np.arange(n) / (n - 1)
    return a + (b - a) * i if sp == "linear" else a * (b / a) ** i


def synth(off, v, n, dt, kind, wavelet, amps):
    """Exact (band-limited, periodic) wave of phase velocity v recorded at the offsets."""
    f = np.fft.rfftfreq(n, dt)
    fc = (14., 18., 11.)[wavelet]
    S = (f / fc) ** 2 * np.exp(-(f / fc) ** 2) * np.exp(-2j * np.pi * f * 0.15)
    if wavelet == 1:
        S = S * np.exp(1j * (f / 9.) ** 2 / 8)
    out = []
    for o, a in zip(off, amps):
        k = 2 * np.pi * f * o / v
        if kind == "plane":
            ph = np.exp(-1j * k)
        else:
            ph = np.exp(-1j * np.arctan2(special.y0(k), special.j0(k)))
            ph[0] = 1
        out.append(np.fft.irfft(a * S * ph, n) * 100)
    return np.array(out)


def survey(xs, skind, v, kind, wavelet=0, n=240, dt=0.005, amps=None):
    src = (xs[-1] if "right" in skind else xs[0]) + SRC[skind]
    off = np.abs(np.array(xs) - src)
    amps = np.ones(len(xs)) if amps is None else amps
    return src, synth(off, v, n, dt, kind, wavelet, amps)


def image(xs, src, recs, meth, vg, pad=None, flim=(6., 24.)):
    a = array(list(xs), n=recs.shape[1], dt=0.005, sx=src, recs=list(recs))
    if pad:
        a.zero_pad(pad)
    st = dict(fmin=flim[0], fmax=flim[1], vmin=vg[0], vmax=vg[1], nvel=vg[2], vspace=vg[3])
    if meth[0] == "fdbf":
        st["fdbf-specific"] = dict(weighting=meth[1], steering=meth[2])
    return Reg.create_class(meth[0]).from_array(a, st)


def recover(lay, skind, iv, meth, vg, wavelet, pad):
    xs = LAY[lay]
    g = grid(vg)
    v = g[iv]
    n = {None: 240, 0.5: 240, 1.: 200, 0.25: 240}[pad]
    src, recs = survey(xs, skind, v, "cyl" if meth[2] == "cylindrical" else "plane", wavelet, n)
    t = image(xs, src, recs, meth, vg, pad)
    p = t.find_peak_power(by="frequency-maximum")
    if meth[0] == "slantstack":
        bad = [(f, q) for f, q in zip(t.frequencies, p) if abs(int(np.argmin(abs(g - q))) - iv) > 1]
    else:
        bad = [(f, q) for f, q in zip(t.frequencies, p) if abs(q - v) > 1e-6 * v]
    ok(not bad, f"{meth} {skind}: true velocity {v:.2f}, picked (frequency, velocity) {bad[:6]}")
    return f"{v:.3f}"


def symmetric(lay, skind, v, meth, vg):
    xs = np.array(LAY[lay])
    amps = 1 / np.sqrt(1 + np.arange(len(xs)))
    src, recs = survey(list(xs), skind, v, "plane", 1, amps=amps)
    recs = recs + 0.02 * np.array([((np.arange(240) * (3 + k) + k * k) % 11 - 5.) for k in range(len(xs))])
    base = np.abs(image(xs, src, recs, meth, vg).power)
    for s in (7., -250., 0.5, 1000., -3.25, 64.):
        close(np.abs(image(xs + s, src + s, recs, meth, vg).power), base, f"{meth}: survey shifted by {s}", rtol=1e-7)
    for c in (0., 5., xs[0], 50.25, -3.):
        m = 2 * c - xs
        close(np.abs(image(m[::-1], 2 * c - src, recs[::-1], meth, vg).power), base, f"{meth}: survey mirrored about {c}", rtol=1e-7)
    for q in (2., 0.001, 3e4, -1., 0.7, -12.):
        g = np.abs(image(xs, src, recs * q, meth, vg).power)
        r = g.max() / base.max()
        close(g, base * r, f"{meth}: traces scaled by {q}", rtol=1e-7)
        want = {"phaseshift": 1., "slantstack": abs(q)}.get(meth[0], 1. if meth[1] == "invamp" else q * q)
        ok(abs(r / want - 1) < 1e-6, f"{meth}: traces scaled by {q}, image by {r}")
    if meth[0] == "phaseshift" or meth[1] == "invamp":
        for j in range(len(xs)):
            for q in (5., 1e-3):
                s = np.ones(len(xs))
                s[j] = q
                close(np.abs(image(xs, src, recs * s[:, None], meth, vg).power), base, f"{meth}: trace {j} scaled by {q}", rtol=1e-7)
    return f"{np.round(base.ravel()[:3], 6).tolist()}"


def units(tier):
    th = tier == "thorough"
    u = [dict(mode="recover", lay=i, src=s, vg=(100., 300., 25, "linear") if th and k == 0 else vg, full=th)
         for i in range(len(LAY)) for s in SRC for k, vg in enumerate(VG)]
    u += [dict(mode="sym", lay=i, src=s) for i in range(len(LAY)) for s in SRC]
    return u


def run(u, ctx):
    if u["mode"] == "recover":
        k = 0
        for iv, m in itertools.product(range(u["vg"][2]), METH):
            opts = itertools.product((0, 1, 2), (None, 0.5, 1.)) if u["full"] else [(k % 3, (None, 0.5, 1.)[k % 5 % 3])]
            for wv, pad in opts:
                k += 1
                ctx.case([u["lay"], u["src"], iv, m, u["vg"], wv, pad], recover, u["lay"], u["src"], iv, m, u["vg"], wv, pad)
    else:
        for m in METH:
            ctx.case([u["lay"], u["src"], m], symmetric, u["lay"], u["src"], 180., m, (100., 300., 5, "linear"))
