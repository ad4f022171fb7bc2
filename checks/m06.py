"""M06 source averaging, cross-correlation and the velocity found, against direct correlation."""
import itertools
import os
import warnings

import numpy as np

from swprocess import Masw
from swprocess.array1d import Array1D, Array1DwSource
from swprocess.masw import MaswXcorr

from mc.survey import lag_window
from mc.files import write_segy_like, write_seg2
from mc.reftransform import nearest_bins, spectrum
from mc.util import ok, close, raises

RULE = ("every combination of source signal, sample type, format, number of source files, channel, source side, record lengths, offsets and velocity range: averaged source and correlated array against "
        "direct sums over a lag window common to all sensors; complete runs on waves of every trial velocity")
BOUNDS = dict(quick="4 formats/sample types x 1..5 files x 3 channels; 5 source signals x 6 layouts (up to 110 m) x 3 sides x 4 velocity ranges x 5 record-length pairs; runs: 5 true velocities x 2 signals x 5 transforms x 2 sides x 2 file counts",
              thorough="runs on 2 layouts, 2 pads and 2 offset ranges")
ASSUMPTIONS = ["source and sensor records have the same time step and start together once trimmed to the trigger",
               "the start of the lag window is left to the implementation; it has to cover the travel times from least offset/vmax to largest offset/vmin as far as the records reach"]

LAY = [[0., 2., 4., 6., 9.], [0., 3.], [-10., -8., -6., -3.5], [3. * i for i in range(12)], [2. * i - 7. for i in range(20)], [10. * i for i in range(12)], [0., 300., 650.]]
DT = 0.005


def source_signal(kind, n):
    t = np.arange(n) * DT
    if kind == "sweep":
        T = 0.4 * n * DT
        return np.where(t < T, np.sin(2 * np.pi * (6 + 14 * t / T) * t) * np.sin(np.pi * np.minimum(t / T, 1)) ** 0.5, 0)
    if kind == "pulse":
        return (1 - 2 * (np.pi * 14 * (t - 0.12)) ** 2) * np.exp(-(np.pi * 14 * (t - 0.12)) ** 2)
    if kind == "spike":
        return np.where(np.arange(n) == 3, 2., 0.) + 0.
    if kind == "random":
        i = np.arange(n)
        r = ((i * i * 7 + 3 * i + (i // 5) ** 3) % 29 - 14.)
        return np.where(t < 0.4 * n * DT, r, 0)
    return np.cos(2 * np.pi * 11 * t) * np.exp(-t / (0.1 * n * DT))


def average(fmt, nf, ch, tmp, big=False):
    n = 40
    recs = [[np.round(20 * source_signal("random", n) + 13 * f * np.cos(np.arange(n) * 0.3 + c) + c) + (20000001. if fmt.endswith("int") and big else 0.) for c in range(3)] for f in range(nf)]
    fns = []
    for f in range(nf):
        fn = os.path.join(tmp, f"a{f}.dat")
        if fmt in ("SU", "SEGY", "SEGYint"):
            write_segy_like(fn, fmt[:4], [dict(amp=r, gx=1000 * k, sx=-1000, delay_ms=0) for k, r in enumerate(recs[f])], DT, integer=fmt == "SEGYint")
        else:
            write_seg2(fn, [dict(amp=r, headers={"RECEIVER_LOCATION": str(k), "SOURCE_LOCATION": "-1", "STACK": "1", "DELAY": "0"}) for k, r in enumerate(recs[f])], DT, 2 if fmt == "SEG2int" else 4)
        fns.append(fn)
    rec = os.path.join(tmp, "r.su")
    write_segy_like(rec, "SU", [dict(amp=recs[0][k], gx=2000 * k, gy=100, sx=-4000, sy=500, scale=-1000, nst=3, delay_ms=-10) for k in range(3)], DT)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = Array1DwSource.from_files([rec], list(fns), ch)
        b = Array1DwSource.from_files([rec], fns[::-1], ch)
    want = sum(r[ch] for r in recs) / nf
    for q in (a, b):
        close(q.source.amplitude, want, f"average of {nf} files ({fmt})", rtol=1e-9 if big else 1e-6)
        ok(abs(q.source.dt - DT) < 1e-12, "source time step")
        ok((q.source.x, q.source.y) == (-4., 0.5), "source position")
        ok([s.x for s in q.sensors] == [0., 2., 4.] and all(s.y == 0.1 and s.nstacks == 3 and abs(s.delay + 0.01) < 1e-9 for s in q.sensors), "sensors")
    return f"{want[:3]}"


def correlate(kind, lay, side, vr, lens, tmp):
    xs = LAY[lay]
    src = xs[0] - 4. if side == "left" else xs[-1] + 5. if side == "right" else xs[0]
    n1, n2 = lens
    s = source_signal(kind, n2).astype(np.float32).astype(float)
    off = np.abs(np.array(xs) - src)
    recs = []
    for k, o in enumerate(off):
        d = int(o / 120. / DT)
        r = np.zeros(n1)
        m = max(0, min(n2, n1 - d))
        r[d:d + m] = s[:m] * (1 + 0.3 * k)
        recs.append((r + 0.01 * np.cos(np.arange(n1) * (0.5 + 0.1 * k))).astype(np.float32).astype(float))
    rec = os.path.join(tmp, "r.su")
    sf = os.path.join(tmp, "s.su")
    write_segy_like(rec, "SU", [dict(amp=recs[k], gx=round(x * 1000), sx=round(src * 1000), scale=-1000, nst=k * 0 + 4) for k, x in enumerate(xs)][::-1], DT)
    write_segy_like(sf, "SU", [dict(amp=s * 0, gx=0, sx=0), dict(amp=s, gx=1000, sx=0)], DT)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = Array1DwSource.from_files(rec, [sf], 1)
        a.xcorrelate(**({} if vr is None else dict(vmin=vr[0], vmax=vr[1])))
    vmin, vmax = vr or (50, 3000)
    ok([q.x for q in a.sensors] == xs, f"positions {[q.x for q in a.sensors]}")
    L = a.sensors[0].nsamples
    lag0 = lag_window(a.sensors, recs, s, off, vmin, vmax, DT)
    for q in a.sensors:
        ok(q.nstacks == 4 and q.delay == 0 and abs(q.dt - DT) < 1e-12 and q.nsamples == L, "stack count, delay, time step or length")
    return f"{L} {lag0}"


def wavefield(kind, xs, src, v, n, f=0):
    s = source_signal(kind, n)
    S = np.fft.rfft(s, 4 * n)
    fr = np.fft.rfftfreq(4 * n, DT)
    return s, [np.fft.irfft(S * np.exp(-2j * np.pi * fr * abs(x - src) / v), 4 * n)[:n] * (1 + 0.1 * f) for x in xs]


def recover(kind, lay, side, iv, tr, nf, tmp, pad, offs, win=None):
    xs = LAY[lay]
    src = xs[0] - 5. if side == "left" else xs[-1] + 5.
    g = np.linspace(100, 300, 5)
    n = 300
    recs, srcs = [], []
    for f in range(nf):
        s, rs = wavefield(kind, xs, src, g[iv], n, f)
        fn, sn = os.path.join(tmp, f"w{f}.su"), os.path.join(tmp, f"ws{f}.su")
        write_segy_like(fn, "SU", [dict(amp=np.concatenate([np.zeros(20), r]), gx=round(x * 1000), sx=round(src * 1000), scale=-1000, delay_ms=-100) for x, r in zip(xs, rs)], DT)
        write_segy_like(sn, "SU", [dict(amp=s, gx=0, sx=0), dict(amp=s * 0 + 1, gx=1000, sx=0)], DT)
        recs.append(fn)
        srcs.append(sn)
    name, w = tr
    st = Masw.create_settings_dict(workflow="time-domain-xcorr", transform=name, fmin=9.5, fmax=17., vmin=100., vmax=300., nvel=5, weighting=w, steering="plane",
                                   pad=pad is not None, df=pad or 1., min_offset=offs[0], max_offset=offs[1])
    if win:
        st = Masw.create_settings_dict(workflow="time-domain-xcorr", transform=name, fmin=9.5, fmax=17., vmin=100., vmax=300., nvel=5, weighting=w, steering="plane",
                                       pad=pad is not None, df=pad or 1., min_offset=offs[0], max_offset=offs[1], snr=True, noise_begin=win[0], noise_end=win[1], signal_begin=win[2],
                                       signal_end=win[3], pad_snr=win[4] is not None, df_snr=win[4] or 1.)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t = MaswXcorr.run(recs, srcs, 0, st)
    ok(t.array.position() == [x for x in xs if offs[0] < abs(x - src) < offs[1]], "sensors processed")
    if win:
        # windows of the records before correlation: averaged over the files, from the trigger on, detrended
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a = Array1D.from_files(recs)
        a.trim(0., max(a[0].time))
        a.trim_offsets(*offs)
        for q in a.sensors:
            q.detrend()
        nz, sg = Array1D.from_array1d(a), Array1D.from_array1d(a)
        nz.trim(win[0], win[1])
        sg.trim(win[2], win[3])
        if win[4]:
            nz.zero_pad(win[4])
            sg.zero_pad(win[4])
        spec = [np.abs(spectrum(q.timeseriesmatrix(), DT, t.snr_frequencies)).mean(axis=0) for q in (sg, nz)]
        m = nz[0].multiple
        close(np.array(t.snr_frequencies), nearest_bins(nz[0].nsamples, DT, 9.5, 17., m), "signal-to-noise frequencies", rtol=1e-12)
        close(np.array(t.snr), spec[0] / spec[1], "signal-to-noise", rtol=1e-8)
    else:
        ok(t.snr is None and t.snr_frequencies is None, "signal-to-noise was not requested")
    p = t.find_peak_power()
    tol = 1 if name == "slantstack" else 0
    bad = [(f, q) for f, q in zip(t.frequencies, p) if abs(int(np.argmin(abs(g - q))) - iv) > tol]
    ok(len(t.frequencies) > 3, "frequencies")
    ok(not bad, f"{kind} {tr} {side}: true velocity {g[iv]}, picked {bad[:5]}")
    return f"{len(t.frequencies)}"


def name_of(tr):
    return tr[0]


TRS = [("phaseshift", "none"), ("fk", "none"), ("fdbf", "sqrt"), ("fdbf", "invamp"), ("slantstack", "none")]


def units(tier):
    u = [dict(mode="avg", fmt=f) for f in ("SU", "SEGY", "SEGYint", "SEG2", "SEG2int")]
    u += [dict(mode="corr", lay=i, side=s) for i in range(len(LAY)) for s in ("left", "right", "at")]
    u += [dict(mode="vel", lay=i, side=s, iv=v, full=tier == "thorough") for i in ((3, 4) if tier == "thorough" else (3,)) for s in ("left", "right") for v in range(5)]
    u += [dict(mode="bad")]
    return u


def run(u, ctx):
    if u["mode"] == "avg":
        for nf, ch in itertools.product((1, 2, 3, 4, 5), range(3)):
            ctx.case([u["fmt"], nf, ch], average, u["fmt"], nf, ch, ctx.tmp)
            if u["fmt"].endswith("int"):        # integers that single precision cannot hold
                ctx.case([u["fmt"], nf, ch, "large"], average, u["fmt"], nf, ch, ctx.tmp, True)
    elif u["mode"] == "corr" and u["lay"] == 6:         # travel times of half a minute and more
        for kind in ("sweep", "spike"):
            ctx.case([kind, 6, u["side"], "slow"], correlate, kind, 6, u["side"], (20., 90.), (7600, 120), ctx.tmp)
    elif u["mode"] == "corr":
        for kind, vr, lens in itertools.product(("sweep", "pulse", "spike", "random", "decay"), (None, (100., 400.), (60., 3000.), (20., 90.)),
                                                ((120, 120), (120, 60), (60, 120), (300, 40), (260, 260))):
            ctx.case([kind, u["lay"], u["side"], vr, lens], correlate, kind, u["lay"], u["side"], vr, lens, ctx.tmp)
    elif u["mode"] == "vel":
        for kind, tr, nf in itertools.product(("sweep", "pulse"), TRS, (1, 3)):
            for pad, offs in (itertools.product((None, 0.5), ((0., np.inf), (4., 39.))) if u["full"] else [((None, 0.5)[nf // 3], (0., np.inf))]):
                if u["lay"] < 3:
                    offs = (0., np.inf)
                sn = None if nf == 1 and name_of(tr) != "fk" else [(0.9, 1.3, 0.1, 0.5, None), (1., 1.2, 0., 0.7, 1.25)][TRS.index(tr) % 2]
                ctx.case([kind, u["lay"], u["side"], u["iv"], tr, nf, pad, offs, sn], recover, kind, u["lay"], u["side"], u["iv"], tr, nf, ctx.tmp, pad, offs, sn)
    else:
        for wf in ("time-domain", "single", "xcorr"):
            s = Masw.create_settings_dict(workflow=wf)
            ctx.case([wf], lambda: raises(NotImplementedError, lambda: MaswXcorr.run(["a"], ["b"], 0, s), f"workflow {wf}") and None)
