"""E01 the documented pipeline end to end: shot files of known dispersion, workflow runs, picks, files, suites, rejections, statistics."""
import copy
import itertools
import os
import warnings

import numpy as np
import matplotlib.pyplot as plt
from matplotlib.figure import Figure

from swprocess import Masw, Peaks, PeaksSuite

from checks import p05
from mc.explore import explore
from mc.files import write_segy_like, write_seg2
from mc.refpeaks import Ref
from mc.util import ok, close, raises

RULE = ("surveys of dispersive waves of exactly known velocity are written to files, measured by complete runs for every workflow, transform, file format, padding and side of the source, "
        "drawn, picked, saved, loaded, merged with passive results, rejected by limits and boxes in every order, and the statistics are compared with the velocities the waves were made of")
BOUNDS = dict(quick="3 workflows x 9 methods x 3 file formats x 3 dispersion curves x 2 paddings (other options in rotation), 4 source positions, 3 shots each; every order of 7 steps (save and load, saving one by one, merging with passive results, three rejections, drawing) to depth 5 on 6 sets of measured curves",
              thorough="every sequence of steps to depth 6; formats and pre-trigger records as a full product")
ASSUMPTIONS = ["noise-free plane waves (cylindrical for cylindrical steering) without spatial aliasing", "slant-stack peaks (constant velocity only) may be one trial velocity off, two below 9 Hz", "picks of padded spectra between two bins of the records may be one trial velocity off"]

DT, N, PRE = 0.005, 240, 40
XS = [1.5 * i for i in range(16)]
SRCS = [-6., XS[-1] + 6., -10.5, XS[-1] + 12.]
GRID = [100. + 25 * i for i in range(13)]
METH = [("phaseshift", None, None), ("fk", None, None), ("slantstack", None, None)] + [("fdbf", w, s) for w in ("none", "sqrt", "invamp") for s in ("plane", "cylindrical")]
FMTS = ["SU", "SEGY", "SEG2"]
WF = ["time-domain", "frequency-domain", "single"]


def curve(k):
    """Trial velocity (index into the grid) as function of frequency; k == 3 is a higher mode."""
    def c(f):
        f = np.asarray(f, float)
        if k == 0:
            i = np.round(7 - (f - 5) / 4)
        elif k == 1:
            i = np.where(f < 9, 6, np.where(f < 14, 4, np.where(f < 18, 3, 2)))
        elif k == 2:
            i = 0 * f + 4
        else:
            i = 0 * f + 11
        return 100. + 25 * np.clip(i, 0, 12)
    return c


def synth(off, c, kind, amps):
    from scipy import special
    f = np.fft.rfftfreq(N, DT)
    S = (f / 14.) ** 2 * np.exp(-(f / 14.) ** 2) * np.exp(-2j * np.pi * f * 0.15)
    out = []
    for o, a in zip(off, amps):
        k = 2 * np.pi * f * o / c(f)
        ph = np.exp(-1j * k)
        if kind == "cylindrical":
            with np.errstate(all="ignore"):
                ph = np.exp(-1j * np.arctan2(special.y0(k), special.j0(k)))
        ph[0] = 1
        out.append(np.fft.irfft(a * S * ph, N) * 100)
    return np.array(out)


def shots(tmp, j, sx, c, fmt, kind, pre, n):
    """n shots at one position; later shots have other stack counts, amplitudes and orders of traces."""
    off = np.abs(np.array(XS) - sx)
    w = synth(off, c, kind, 1 / np.sqrt(1 + off / 10))
    names = []
    for q in range(n):
        rec = (1 + 0.5 * q) * w
        if pre:
            rec = np.hstack([0.01 * np.array([[((i * i + 3 * k + q) % 7) - 3. for i in range(PRE)] for k in range(len(XS))]), rec])
        order = [(i * (1, 3, 5)[q % 3] + q) % len(XS) for i in range(len(XS))]
        fn = os.path.join(tmp, f"e{9 - j}_{(q * 2 + 1) % 5}.{'dat' if fmt == 'SEG2' else fmt.lower()}")
        d = -PRE * DT if pre else 0.
        if fmt == "SEG2":
            write_seg2(fn, [dict(amp=rec[k], headers={"RECEIVER_LOCATION": repr(XS[k]), "SOURCE_LOCATION": repr(sx), "STACK": str(1 + q), "DELAY": repr(d)}) for k in order], DT)
        else:
            write_segy_like(fn, fmt, [dict(amp=rec[k], gx=round(XS[k] * 1000), gy=0, sx=round(sx * 1000), sy=0, scale=-1000, nst=1 + q, delay_ms=round(d * 1000)) for k in order], DT)
        names.append(fn)
    return names


def draw(t, how):
    if how == "notebook":
        fig = Figure()
        a0, a1, a2, a3, a4 = fig.subplots(5)
        t.array.plot(ax=a0)
        t.array.waterfall(ax=a1, amplitude_detrend=False, amplitude_normalization="each")
        if t.snr is not None:
            t.plot_snr(ax=a2, plot_kwargs=dict(color="black", label="SNR"))
        t.plot(fig=fig, ax=a3, cax=a4, normalization="frequency-maximum")
    elif how:
        fig, ax = t.plot(normalization=how)
        plt.close(fig)


def measure(tmp, wf, meth, fmt, ck, pad, pre, how, offs=False):
    """The runs of one survey: list of (identifier, frequencies, picks, array)."""
    st = Masw.create_settings_dict(workflow=wf, transform=meth[0], fmin=5.8, fmax=23., vmin=GRID[0], vmax=GRID[-1], nvel=len(GRID), weighting=meth[1] or "sqrt", steering=meth[2] or "cylindrical",
                                   trim=pre, trim_begin=0., trim_end=(N - 1) * DT, pad=pad is not None, df=pad or 1., snr=pre, noise_begin=-PRE * DT, noise_end=-DT, signal_begin=0., signal_end=(PRE - 1) * DT,
                                   min_offset=8. if offs else 0., max_offset=1000.)
    out = []
    for j, sx in enumerate(SRCS):
        c = curve(3 if j == 3 else ck)
        names = shots(tmp, j, sx, c, fmt, meth[2] or "plane", pre, 3)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t = Masw.run(fnames=names, settings=st)
            draw(t, how)
        f = np.array(t.frequencies)
        v = np.array(t.find_peak_power(by="frequency-maximum"))
        ok(len(f) > 9 and f[0] >= 5.4 and f[-1] <= 23.4, f"frequencies {f}")
        ok(t.array.source.x == sx, f"source at {t.array.source.x}, expected {sx}")
        ok([s.x for s in t.array.sensors] == [x for x in XS if not offs or abs(x - sx) > 8.], "sensors")
        # off the bins of the records (padded spectra), and where traces are shifted by interpolation, one trial velocity is allowed
        off = np.abs(np.round(f * N * DT) - f * N * DT) > 1e-6
        tol = np.where(off, 25.1, 1e-6) if meth[0] != "slantstack" else np.where(f > 9, 25.1, 50.1)
        # between two bins of the records a padded spectrum interpolates: there the velocities of both bins are right
        lo = np.minimum(c(np.floor(f * N * DT + 1e-6) / (N * DT)), c(np.ceil(f * N * DT - 1e-6) / (N * DT)))
        hi = np.maximum(c(np.floor(f * N * DT + 1e-6) / (N * DT)), c(np.ceil(f * N * DT - 1e-6) / (N * DT)))
        bad = [(float(a), float(b), float(e)) for a, b, e, l, h, q in zip(f, v, c(f), lo, hi, tol) if not l - q <= b <= h + q]
        ok(not bad, f"{wf} {meth} {fmt}, source at {sx}: (frequency, picked, true velocity) {bad[:5]}")
        out.append((f"{t.array.source.x}", f, v, t.array))
    return out


def survey(tmp, *a):
    m = measure(tmp, *a)
    return f"{a[0]} {a[1]} {[len(x[1]) for x in m]}"


# ---------------------------------------------------------------- what is done with the picks
STEPS = [["reload"], ["single"], ["passive"], ["velocity"], ["box"], ["wavelength"], ["draw"]]


def passive(tmp, ck, f):
    """A geopsy file of one window whose peaks lie on the same curve, at every second frequency."""
    rows = [p05.row(p05.T0, repr(float(x)), "Rayleigh", k, slo=repr(float(1 / curve(ck)(x)))) for k, x in enumerate(f[::2])]
    fn = os.path.join(tmp, "passive.max")
    with open(fn, "w") as h:
        h.write(p05.text(rows))
    s = PeaksSuite.from_max(fn)
    r = Ref(np.array([[float(x) for x in f[::2]]]), np.array([curve(ck)(f[::2])]), s[0].identifier)
    return s, r


def start(tmp, m):
    ps, refs = [], []
    for i, f, v, _ in m:
        ps.append(Peaks(f, v, identifier=i))
        refs.append(Ref(f, v, i))
    return PeaksSuite.from_peaks(ps), refs


def step(w, a):
    s, refs, tmp = w["s"], w["refs"], os.getcwd()
    op = a[0]
    if op in ("reload", "single"):
        fn = os.path.join(tmp, "e01.json")
        if op == "reload":
            s.to_json(fn)
        else:
            for k, p in enumerate(s):
                p.to_json(fname=fn, append=k > 0)
        w["s"] = PeaksSuite.from_json(fnames=[fn])
        os.remove(fn)
    elif op == "passive":
        q, r = passive(tmp, w["ck"], w["f"])
        if any(x.id == r.id for x in refs):
            raises(KeyError, lambda: PeaksSuite.from_peakssuite([s, q]), "passive results twice")
        else:
            w["s"] = PeaksSuite.from_peakssuite([s, q])
            refs.append(r)
    elif op == "velocity":
        s.reject_limits_outside("velocity", (None, 310.))
        for r in refs:
            r.valid = r.valid & ~r.limits("velocity", None, 310.)
    elif op == "box":
        s.reject_box_inside("frequency", (5., 24.), "velocity", (401., 330.))
        for r in refs:
            r.valid = r.valid & ~r.inside("frequency", (5., 24.), "velocity", (401., 330.))
    elif op == "wavelength":
        lim = 2 * np.pi / w["kres"]
        s.reject_limits_outside("wavelength", (2.2 * lim, None))
        for r in refs:
            r.valid = r.valid & ~r.limits("wavelength", 2.2 * lim, None)
    elif op == "draw":
        fig = Figure()
        s.plot(xtype=["frequency", "wavelength"], ytype=["velocity", "velocity"], ax=list(fig.subplots(1, 2)), plot_kwargs=dict(color="r", label="x"))
    w["done"] = w["done"] | {op}


def judge(w):
    s, refs, c = w["s"], w["refs"], curve(w["ck"])
    ok(len(s) == len(refs), f"{len(s)} members, expected {len(refs)}")
    for p, r in zip(s, refs):
        ok(p.identifier == r.id, f"identifier {p.identifier}, expected {r.id}")
        close(np.sort(np.ravel(p.frequency)), np.sort(r.full("frequency")[r.valid]), f"frequencies of {r.id}", rtol=1e-12)
        close(np.sort(np.ravel(p.velocity)), np.sort(r.full("velocity")[r.valid]), f"velocities of {r.id}", rtol=1e-12)
    clean = bool(w["done"] & {"velocity", "box"})
    f = np.array(w["f"])[1:-1]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        xx, mean, std, _ = s.statistics("frequency", "velocity", f, ignore_corr=True, drop_sample_if_fewer_count=3)
    keep = [x for x in f if "wavelength" not in w["done"] or c(x) / x >= 2.2 * 2 * np.pi / w["kres"]]
    keep = [x for x in keep if not w["done"] & {"wavelength"} or x < max(keep)]
    ok([x for x in keep if not np.any(np.abs(xx - x) < 1e-9)] == [], f"statistics are missing at {[x for x in keep if not np.any(np.abs(xx - x) < 1e-9)][:5]}")
    if clean and w["exact"]:
        on = np.array([np.any(np.abs(np.array(keep) - x) < 1e-9) for x in xx])
        # where a passive curve with fewer frequencies is interpolated, only its own frequencies are exact
        own = np.array([("passive" not in w["done"]) or np.any(np.abs(np.array(w["f"])[::2] - x) < 1e-9) for x in xx])
        q = on & own
        ok(q.any(), "no location left to compare")
        close(mean[q], c(xx[q]), "mean velocity against the true curve", rtol=1e-9)
        close(std[q], 0 * std[q], "deviation of measurements of one curve", atol=1e-6)
        wl = mean[q] / xx[q]
        if w["ck"] == 2 and "wavelength" not in w["done"]:
            inner = wl[1:-1]
            x2, m2, s2, _ = s.statistics("wavelength", "velocity", inner, drop_sample_if_fewer_count=3)
            close(x2, inner, "wavelengths", rtol=1e-12)
            close(m2, c(0 * inner), "mean velocity over wavelength", rtol=1e-9)


def units(tier):
    th = tier == "thorough"
    u = [dict(mode="survey", wf=w, meth=m, fmt=f, full=th) for w in WF for m in METH for f in FMTS]
    u += [dict(mode="steps", ck=c, meth=m, first=k, depth=6 if th else 4) for c in range(3) for m in (METH[1], METH[6]) for k in range(len(STEPS))]
    return u


def run(u, ctx):
    if u["mode"] == "survey":
        i = len(u["fmt"]) + METH.index(tuple(u["meth"]))
        # the finite stack of a time-domain shift smears sharp changes of velocity: constant velocities only
        for ck, pad in itertools.product(range(3) if u["meth"][0] != "slantstack" else (2,), (None, 1 / (2 * N * DT))):
            opts = itertools.product((False, True), (None, "notebook", "absolute-maximum", "frequency-maximum"), (False, True)) if u["full"] else [(i % 2 == 0, (None, "notebook", "frequency-maximum")[i % 3], i % 5 == 0)]
            for pre, how, offs in opts:
                i += 1
                a = (u["wf"], tuple(u["meth"]), u["fmt"], ck, pad, pre, how, offs)
                ctx.case(a, survey, ctx.tmp, *a)
        return
    w = {}

    def begin():
        m = measure(ctx.tmp, "time-domain", tuple(u["meth"]), "SU", u["ck"], None, False, None)
        s, refs = start(ctx.tmp, m)
        w.update(s=s, refs=refs, f=[float(x) for x in m[0][1]], kres=float(m[0][3].kres), ck=u["ck"], done=frozenset(), exact=True)
        judge(w)

    def st(w, a):
        step(w, a)
        judge(w)
    first = STEPS[u["first"]]
    if ctx.case([u["ck"], first], lambda: (begin(), st(w, first), f"{u['ck']}")[-1]):
        explore(ctx, [(f"{u['ck']}:{u['meth']}:{first}", w)], STEPS, u["depth"], st)
