"""M07 runs of the correlation workflow against its steps performed by hand, for every combination of settings."""
import copy
import itertools
import os
import warnings

import numpy as np
import matplotlib.pyplot as plt
import obspy

from swprocess import Masw
from swprocess.array1d import Array1D, Array1DwSource
from swprocess.masw import MaswXcorr
from swprocess.source import SourceWithSignal
from swprocess.register import WavefieldTransformRegistry

from mc.objs import obs, close_obs
from mc.reftransform import nearest_bins, spectrum
from mc.survey import lag_window, write
from mc.ui import User, Horizon
from mc.util import ok, close

RULE = ("every combination of numbers of receiver and source files, source channel, trim, mute, pad, offset range, signal-to-noise and source side (transform, mute lines, window and mapping in rotation): image, axes, "
        "array and signal-to-noise of a run compared with reading, trimming to the trigger, trimming by offset, detrending, trimming in time, muting, correlating, padding and transforming one by one")
BOUNDS = dict(quick="3 source sides x 4 file combinations x 3 channels x 3 trims x 3 pads x 3 offset ranges x 3 signal-to-noise settings (mute on for a sixth of them); 5 transforms, 3 pre-trigger delays and 3 mappings in rotation",
              thorough="the 5 transforms in full product")
ASSUMPTIONS = ["mute lines are clicked through a scripted user", "records are trimmed and muted before they are correlated, as the run does; the order of the lines printed by str() is not relied on"]

TR = ["fdbf", "phaseshift", "slantstack", "fk", "fdbf2"]
NF = [(1, 1), (1, 3), (2, 1), (3, 2)]
TRIM = [None, (0., 0.9), (0.1, 0.75)]
LINES = [(((0., 0.0), (9., 0.06)), ((0., 0.45), (9., 0.55))), (((-3., 0.3), (5., 0.1)), ((2., 0.6), (6., 0.6)))]
WIN = [None, dict(alpha=0.), dict(alpha=1.)]
PAD = [None, 0.5, 2.5]
OFFS = [(0., np.inf), (4., 100.), (0., 10.)]
SN = [None, (0.5, 0.7, 0.1, 0.3, None), (0.7, 0.9, 0.1, 0.5, 1.25)]
SRCS = {"left": -3., "right": 14., "end": 0.}
XS = [0., 2., 4., 6., 9.]
DT = 0.01
N = 140


def settings(trim, mute, pad, offs, sn, tr):
    kw = dict(workflow="time-domain-xcorr", fmin=6., fmax=25., vmin=90., vmax=300., nvel=4, vspace="log" if pad else "linear", min_offset=offs[0], max_offset=offs[1],
              transform="fdbf" if tr == "fdbf2" else tr)
    if offs[0]:
        kw.update(vmin=60., vmax=500., nvel=3)
    if tr == "fdbf2":
        kw.update(weighting="invamp", steering="plane")
    if trim:
        kw.update(trim=True, trim_begin=trim[0], trim_end=trim[1])
    if mute is not None:
        kw.update(mute=True, window_kwargs=mute[1])
    if pad:
        kw.update(pad=True, df=pad)
    if sn:
        kw.update(snr=True, noise_begin=sn[0], noise_end=sn[1], signal_begin=sn[2], signal_end=sn[3], pad_snr=sn[4] is not None, df_snr=sn[4] or 1.)
    return Masw.create_settings_dict(**kw)


def by_hand(recs, srcs, ch, s, lines, maps):
    pre, proc, sn = s["pre-processing"], s["processing"], s["signal-to-noise"]
    b = Array1D.from_files(recs, **maps)
    amp = np.mean([np.array(obspy.read(f)[ch].data, dtype=float) for f in srcs], axis=0)
    a = Array1DwSource(b.sensors, SourceWithSignal(b.source.x, b.source.y, b.source.z, amp, DT))
    a.trim(0, max(a.sensors[0].time))
    a.trim_offsets(pre["offsets"]["min"], pre["offsets"]["max"])
    for q in a.sensors:
        q.detrend()
    snr = snrf = None
    spec = []
    if sn["perform"]:
        nz = Array1D.from_array1d(a)
        nz.trim(sn["noise"]["begin"], sn["noise"]["end"])
    if pre["trim"]["apply"]:
        a.trim(pre["trim"]["begin"], pre["trim"]["end"])
    if pre["mute"]["apply"]:
        a.mute(signal_start=lines[0], signal_end=lines[1], window_kwargs=dict(pre["mute"]["window_kwargs"]) or None)
    if sn["perform"]:
        sg = Array1D.from_array1d(a)
        sg.trim(sn["signal"]["begin"], sn["signal"]["end"])
        if sn["pad"]["apply"]:
            nz.zero_pad(sn["pad"]["df"])
            sg.zero_pad(sn["pad"]["df"])
        snrf = nearest_bins(nz[0].nsamples, DT, proc["fmin"], proc["fmax"], nz[0].multiple)
        spec = [np.abs(spectrum(q.timeseriesmatrix(), DT, snrf)).mean(axis=0) for q in (sg, nz)]
        snr = spec[0] / spec[1]
    before = [np.array(q.amplitude) for q in a.sensors]
    a.xcorrelate(proc["vmin"], proc["vmax"])
    lag_window(a.sensors, before, amp, a.offsets, proc["vmin"], proc["vmax"], DT)
    if pre["pad"]["apply"]:
        a.zero_pad(pre["pad"]["df"])
    T = WavefieldTransformRegistry.create_class(proc["transform"])
    t = T.from_array(a, proc)
    return dict(frequencies=np.array(t.frequencies), velocities=np.array(t.velocities), power=np.array(t.power), array=a, snr=snr, snrf=snrf)


def execute(recs, srcs, ch, s, lines, maps):
    q = [[p] for l in lines for p in l]

    def choose(kind):
        if kind == "ginput":
            if not q:
                raise Horizon()
            return q.pop(0)
        return True if kind == "block" else None
    with User(choose).active():
        try:
            return MaswXcorr.run(recs, srcs, ch, s, **maps)
        except Horizon:
            raise AssertionError("the run asks for more mute lines than one start and one end line")
        finally:
            plt.close("all")


def check(tmp, nf, ch, trim, mute, pad, offs, sn, tr, mp, delay, as_str):
    s = settings(trim, mute, pad, offs, sn, tr)
    recs = [os.path.join(tmp, f"r{delay}_{f}.su") for f in range(nf[0])]
    srcs = [os.path.join(tmp, f"s{f}.su") for f in range(nf[1])]
    maps = {"id": {}, "shift": dict(map_x=lambda x: x + 100., map_y=lambda y: y - 2.), "flip": dict(map_x=lambda x: -x)}[mp]
    lines = ()
    if mute:
        d, m = {"id": (0., 1.), "shift": (100., 1.), "flip": (0., -1.)}[mp]
        lines = tuple(tuple((m * x + d, t) for x, t in l) for l in mute[0])
    before = copy.deepcopy(s)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = by_hand(list(recs), list(srcs), ch, copy.deepcopy(s), lines or (None, None), maps)
        t = execute(recs[0] if as_str else recs, srcs, ch, s, lines, maps)
    close(np.array(t.frequencies), want["frequencies"], "frequencies", rtol=1e-12)
    close(np.array(t.velocities), want["velocities"], "velocities", rtol=1e-12)
    close_obs(obs(t.array), obs(want["array"]), "array", rtol=1e-10)
    close(np.asarray(t.power, complex), np.asarray(want["power"], complex), "image", rtol=1e-8)
    if sn is None:
        ok(t.snr is None and t.snr_frequencies is None, "signal-to-noise was not requested")
    else:
        close(np.array(t.snr_frequencies), want["snrf"], "signal-to-noise frequencies", rtol=1e-12)
        close(np.array(t.snr), want["snr"], "signal-to-noise", rtol=1e-8)
    ok(s == before, "settings were altered")
    ok(t.n == 1, f"count {t.n}")
    return f"{np.round(np.abs(t.power).ravel()[:2], 6).tolist()}"


def units(tier):
    return [dict(src=s, nf=i, trim=j, pad=k, full=tier == "thorough") for s in SRCS for i in range(len(NF)) for j in range(3) for k in range(3)]


def run(u, ctx):
    src = SRCS[u["src"]]
    for delay in (0, -0.2, -0.05):
        for f in range(3):
            write(ctx.tmp, f"r{delay}_{f}.su", f=f, xs=XS, src=src, n=N, dt=DT, delay=delay, nst=f + 1, order=[(2 * k + f) % 5 for k in range(5)])
    for f in range(3):
        write(ctx.tmp, f"s{f}.su", f=f + 4, xs=[0., 1., 5.], src=-1., n=N, dt=DT, delay=0.)
    i = 3 * u["nf"] + u["trim"] + u["pad"]
    for ch, offs, sn in itertools.product(range(3), OFFS, SN):
        for tr in (TR if u["full"] else [TR[i % 5]]):
            i += 1
            mute = (LINES[i % 2], WIN[i // 2 % 3]) if (i + i // 6) % 6 == 0 else None
            mp = ("id", "shift", "flip", "id")[i % 4]
            if u["src"] == "end" and mp == "flip":
                mp = "shift"
            args = (NF[u["nf"]], ch, TRIM[u["trim"]], mute, PAD[u["pad"]], offs, sn, tr, mp, (0, -0.2, -0.05)[i % 3], NF[u["nf"]][0] == 1 and i % 2 == 0)
            ctx.case([u["src"], *args], check, ctx.tmp, *args)
