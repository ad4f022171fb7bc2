"""Survey files on disk and the documented processing steps performed by hand."""
import os

import numpy as np

from swprocess import Array1D
from swprocess.register import WavefieldTransformRegistry
from swprocess.snr import SignaltoNoiseRatio

from .files import write_segy_like
from .util import ok

XS = [0., 2., 4., 6., 9.]


def rec(f, k, off, n, dt, t0):
    t = np.arange(n) * dt + t0
    v = 150. + 10 * f
    return (1 + 0.2 * f) * np.exp(-((t - 0.04 - off / v) / 0.03) ** 2) * np.cos(80 * (t - 0.04 - off / v)) * 10 \
        + 0.3 * np.cos(1.7 * np.arange(n) + k * k + f) + 0.01 * ((np.arange(n) * (3 + k) + f) % 7) + 0.4 * k - 0.6 * t * (f + 1)


def write(tmp, name, f=0, xs=XS, src=-3., n=80, dt=0.01, delay=-0.2, nst=1, fmt="SU", sy=0., order=None):
    fn = os.path.join(tmp, name)
    order = range(len(xs)) if order is None else order
    write_segy_like(fn, fmt, [dict(amp=rec(f, k, abs(xs[k] - src), n, dt, delay), gx=round(xs[k] * 1000), gy=0, sx=round(src * 1000), sy=round(sy * 1000),
                                   scale=-1000, nst=nst, delay_ms=round(delay * 1000)) for k in order], dt)
    return fn


def process(array, s, lines, want_snr=True):
    """Steps common to all workflows, performed by hand on an array just read. Returns (array, noise, signal)."""
    pre, sn = s["pre-processing"], s["signal-to-noise"]
    array.trim_offsets(pre["offsets"]["min"], pre["offsets"]["max"])
    for q in array.sensors:
        q.detrend()
    noise = signal = None
    if sn["perform"]:
        noise = Array1D.from_array1d(array)
        noise.trim(sn["noise"]["begin"], sn["noise"]["end"])
    if pre["trim"]["apply"]:
        array.trim(pre["trim"]["begin"], pre["trim"]["end"])
    if pre["mute"]["apply"]:
        array.mute(signal_start=lines[0], signal_end=lines[1], window_kwargs=dict(pre["mute"]["window_kwargs"]) or None)
    if sn["perform"]:
        signal = Array1D.from_array1d(array)
        signal.trim(sn["signal"]["begin"], sn["signal"]["end"])
    if pre["pad"]["apply"]:
        array.zero_pad(pre["pad"]["df"])
    return array, noise, signal


def by_hand(fnames, s, lines=(None, None), map_x=lambda x: x, map_y=lambda y: y):
    names = [fnames] if isinstance(fnames, str) else list(fnames)
    proc, sn = s["processing"], s["signal-to-noise"]
    T = WavefieldTransformRegistry.create_class(proc["transform"])
    if s["workflow"] == "frequency-domain":
        groups = names
    elif s["workflow"] == "single":
        groups = [names[0]]
    else:
        groups = [names]
    powers = []
    nz = sg = None
    for g in groups:
        a, noise, signal = process(Array1D.from_files(g, map_x=map_x, map_y=map_y), s, lines)
        nz, sg = (noise, signal) if nz is None else (nz, sg)
        t = T.from_array(a, dict(proc))
        powers.append(np.array(t.power))
    out = dict(frequencies=np.array(t.frequencies), velocities=np.array(t.velocities), power=sum(powers) / len(powers), array=a, snr=None, snrf=None, n=len(powers))
    if sn["perform"]:
        q = SignaltoNoiseRatio.from_array1ds(sg, nz, fmin=proc["fmin"], fmax=proc["fmax"], pad_snr=sn["pad"]["apply"], df_snr=sn["pad"]["df"])
        out.update(snr=q.snr, snrf=q.frequencies)
    return out


def lag_window(sensors, recs, s, off, vmin, vmax, dt):
    """The sensors' signals are the correlations of recs with s over one lag window that covers the travel times; returns its first lag."""
    n1, n2, L = len(recs[0]), len(s), sensors[0].nsamples
    ok(L > 0, "empty correlation window")
    full = [np.array([np.dot(r[max(0, l):min(n1, n2 + l)], s[max(0, -l):max(0, -l) + min(n1, n2 + l) - max(0, l)]) for l in range(-(n2 - 1), n1)]) for r in recs]
    starts = [st for st in range(len(full[0]) - L + 1)
              if all(q.nsamples == L and np.max(np.abs(f[st:st + L] - q.amplitude)) <= 1e-6 * np.max(np.abs(f)) for f, q in zip(full, sensors))]
    ok(starts, "the sensors' signals are not the correlations over one common lag window")
    need0, need1 = np.min(off) / vmax / dt, min(np.max(off) / vmin / dt, n1 - 1)
    lags = [q - (n2 - 1) for q in starts]
    ok(any(q <= np.floor(need0) + 1 for q in lags), f"lag window starts at sample {lags[0]}, after the first arrival ({need0:.1f})")
    ok(any(q + L - 1 >= np.floor(need1) - 1 for q in lags), f"lag window ends at sample {lags[0] + L - 1}, before the last arrival ({need1:.1f})")
    return lags[0]
