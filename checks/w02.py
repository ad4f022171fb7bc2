"""W02 each transform against an independent evaluation of its published definition."""
import itertools

import numpy as np

from swprocess.register import WavefieldTransformRegistry as Reg

from mc.objs import array, obs, same_obs
from mc.reftransform import nearest_bins, near_to_far, reference, slantstack, slantstack_ambiguous
from mc.util import ok, close

RULE = ("every combination of sensor layout, source position, record family, pre-trigger delay, velocity grid and method (all steerings and weightings) compared entry by entry "
        "with an independent evaluation of the definition by direct Fourier sums")
BOUNDS = dict(quick="18 layouts (2..96 sensors, uneven, nearly even, negative, millimetres apart, large coordinates) x 6 source positions x 8 record families (amplitudes 1e-9 to 1e7) x 6 velocity grids x 11 method variants; odd, longer and finely sampled records (47..333 samples, up to 190 Hz) in every tenth case; records of 40000 and 70000 samples with moveouts of nearly that length",
              thorough="also every 4-sensor subset of 8 positions and 3 paddings")
ASSUMPTIONS = ["no spectral bin of a trace is exactly zero (its unit-amplitude spectrum would be undefined)", "the source is not strictly inside the array",
               "the record contains the travel times of all trial velocities (slant-stack)",
               "power is compared by magnitude for beamforming (the quadratic form is real) and, for slant-stack, where the source coincides with the last sensor"]

LAY = [[0., 2., 4., 6.], [0., 2.], [1., 2.5, 3., 7.], [-10., -4., -3.5, 0.25, 9.], [0., 0.5, 10.], [100., 103., 104.5], [2. * i for i in range(24)],
       [-6., -4.], [0., 1., 2., 3., 4., 5.25, 6., 9.], [5., 5.125, 12.],
       [0.125 * i for i in range(7)], [0.333 * i for i in range(6)], [0., 0.004, 0.009], [100000.25 + 1.001 * i for i in range(5)], [2. + 1.037 * i for i in range(48)],
       [0., 2., 4.001, 6., 8.], [0.5 * i - 3 for i in range(64)], [1. * i + (0.25 if i % 7 == 3 else 0) for i in range(96)]]
SRC = ["left", "atleft", "right", "atright", "farleft", "nearright"]
VEL = [(100., 400., 5, "linear"), (60., 900., 4, "log"), (150., 150., 1, "linear"), (400., 80., 4, "linear"), (80., 81., 3, "log"), (200., 2000., 7, "lin")]
METH = [("phaseshift", None, None), ("fk", None, None), ("slantstack", None, None)] + \
       [("fdbf", w, s) for w in ("none", "sqrt", "invamp") for s in ("plane", "cylindrical")] + [("fdbf", None, None), ("fk", "sqrt", "cylindrical")]
FAM = ["mix", "wave", "attenuated", "sparse", "noise", "dispersive", "tiny", "huge"]


def source(xs, kind):
    return {"left": xs[0] - 5., "atleft": xs[0], "right": xs[-1] + 7.5, "atright": xs[-1], "farleft": xs[0] - 40.25, "nearright": xs[-1] + 0.5}[kind]


def rec(fam, k, off, n, dt):
    t = np.arange(n) * dt
    i = np.arange(n)
    base = 0.01 * np.cos(2.1 * i + 0.3 * k) + 0.002 * ((11 * i * i + 3 * k * i + i) % 13) + 0.02 * np.exp(-i / 3.)
    if fam == "wave":
        return np.exp(-((t - 0.1 - off / 180.) / 0.03) ** 2) * np.cos(90 * (t - 0.1 - off / 180.)) + base
    if fam == "attenuated":
        return (np.exp(-((t - 0.1 - off / 250.) / 0.03) ** 2) + base) / np.sqrt(1 + off) * (1 if k % 2 else 100)
    if fam == "sparse":
        return np.where(i == (5 + 3 * k) % n, 4., 0.) + base * 1e-2
    if fam == "noise":
        return ((i * i * (3 + k) + 5 * i + 7 * k * i + k) % 31 - 15.) + base
    if fam == "dispersive":
        return np.sin(40 * t * (1 + t) - off * (0.2 + t)) + base
    return (np.sin(0.9 * i + 0.7 * k) * np.exp(-i / (0.4 * n)) + base * 10) * {"tiny": 1e-9, "huge": 1e7}.get(fam, 1.)


def check(xs, skind, fam, vel, meth, delay, pad, n=60, dt=0.0125):
    src = source(xs, skind)
    recs = [rec(fam, k, abs(x - src), n, dt) for k, x in enumerate(xs)]
    a = array(xs, n=n, dt=dt, sx=src, recs=recs, delay=delay, nstacks=3)
    if pad:
        a.zero_pad(1 / (pad * dt))
    N = a[0].nsamples
    before = obs(a)
    step = N // pad if pad else 1
    if np.ptp(xs) / min(vel[:2]) / dt > N - 2 and meth[0] == "slantstack":
        return None
    fmin, fmax = (3.1, 3.4) if n > 49999 else (3.1, 7.1) if n > 9999 else (3.1, 27.) if dt > 0.002 else (61., 190.3)
    name, w, s = meth
    st = dict(fmin=fmin, fmax=fmax, vmin=vel[0], vmax=vel[1], nvel=vel[2], vspace=vel[3])
    if w or s:
        st["fdbf-specific"] = dict(weighting=w, steering=s)
    elif name == "fdbf":
        st["fdbf-specific"] = {}
    t = Reg.create_class(name).from_array(a, st)
    same_obs(obs(a), before, "the transform altered the array")
    f = nearest_bins(N, dt, fmin, fmax, step)
    close(np.array(t.frequencies), f, "frequencies", rtol=1e-12)
    u, off = near_to_far(xs, src, [q["amplitude"] for q in before["sensors"]])
    want = reference(name, u, off, dt, f, np.array(t.velocities), w, s)
    got = t.power
    if name == "slantstack" and slantstack_ambiguous(off, dt, t.velocities):
        alts = [slantstack(u, off, dt, f, np.array(t.velocities), fewer) for fewer in (True, False)]
        want = min(alts, key=lambda q: np.max(np.abs(np.abs(q) - np.abs(got))))
    if name != "slantstack" or skind == "atright":
        got, want = np.abs(got), np.abs(want)
    close(got, want, f"{meth} {skind} {fam} {vel}", rtol=1e-8)
    return f"{np.round(np.abs(want).ravel()[:3], 6).tolist()}"


def units(tier):
    u = [dict(mode="long", src=s, n=n) for s in ("left", "right") for n in (40000, 70000)]
    u += [dict(mode="grid", lay=i, src=s) for i in range(len(LAY)) for s in SRC]
    if tier == "thorough":
        u += [dict(mode="subsets", m=m, pad=p) for m in range(len(METH)) for p in (None, 60, 80, 40)]
    return u


def run(u, ctx):
    if u["mode"] == "long":          # travel times of many thousand samples
        for m in METH[:5]:
            for fam in ("mix", "noise"):
                v = 165. / (0.0021 * (u["n"] - 2500))
                ctx.case([u["src"], u["n"], m, fam], check, [0., 40., 100., 160.], u["src"], fam, (v, 1.2 * v, 2, "linear"), m, 0., None, u["n"], 0.0021)
        return
    if u["mode"] == "grid":
        i = 0
        for fam, v, m in itertools.product(FAM, VEL, METH):
            i += 1
            pad = (None, None, 60, 100, 30)[i % 5]
            if len(LAY[u["lay"]]) > 12 and i % (4 if len(LAY[u["lay"]]) < 50 else 11):
                continue
            ctx.case([u["lay"], u["src"], fam, v, m, pad], check, LAY[u["lay"]], u["src"], fam, v, m, -0.05 * (i % 3), pad)
            if i % 10 == 3 and len(LAY[u["lay"]]) < 50:
                n, dt = ((61, 0.0125), (256, 0.004), (333, 0.005), (47, 0.0128), (160, 0.0011))[(i // 10) % 5]
                ctx.case([u["lay"], u["src"], fam, v, m, n, dt], check, LAY[u["lay"]], u["src"], fam, v, m, -5 * dt * (i % 3), None, n, dt)
    else:
        P = [0., 1., 2., 4.5, 5., 8., 8.75, 12.]
        for xs in itertools.combinations(P, 4):
            for s, fam in itertools.product(SRC, ("mix", "noise")):
                ctx.case([xs, s, fam, METH[u["m"]], u["pad"]], check, list(xs), s, fam, VEL[0], METH[u["m"]], 0., u["pad"])
