"""Builders for the library's objects and observers of their public state."""
import numpy as np

import swprocess
from swprocess import ActiveTimeSeries, Sensor1C, Source, Array1D, Peaks, PeaksSuite  # noqa: F401

from .util import wave, ok, same, close  # noqa: F401


def ats(amp, dt=0.25, nstacks=1, delay=0.):
    return ActiveTimeSeries(amp, dt, nstacks=nstacks, delay=delay)


def sensor(amp, dt=0.25, x=0., y=0., z=0., nstacks=1, delay=0.):
    return Sensor1C(amp, dt, x, y, z, nstacks=nstacks, delay=delay)


def array(xs, n=8, dt=0.25, sx=-5., sy=0., sz=0., delay=0., nstacks=1, recs=None, ys=None):
    ss = []
    for k, x in enumerate(xs):
        amp = wave(k, n) if recs is None else recs[k]
        ss.append(Sensor1C(amp, dt, x, 0. if ys is None else ys[k], 0., nstacks=nstacks, delay=delay))
    return Array1D(ss, Source(sx, sy, sz))


def obs_ts(t):
    """Public observation of a time series / sensor."""
    d = dict(kind=type(t).__name__, amplitude=np.array(t.amplitude, copy=True), dt=t.dt, nsamples=t.nsamples,
             nstacks=t.nstacks, delay=t.delay, time=np.array(t.time, copy=True), df=t.df, multiple=t.multiple)
    for a in "xyz":
        if hasattr(t, a):
            d[a] = getattr(t, a)
    return d


def obs_src(s):
    return dict(kind=type(s).__name__, x=s.x, y=s.y, z=s.z)


def obs_array(a):
    return dict(sensors=[obs_ts(s) for s in a.sensors], source=obs_src(a.source), n=a.nchannels)


def obs(o):
    if isinstance(o, Array1D):
        return obs_array(o)
    if isinstance(o, ActiveTimeSeries):
        return obs_ts(o)
    if isinstance(o, Source):
        return obs_src(o)
    raise TypeError(type(o))


def same_obs(a, b, msg="", ignore=()):
    """Exact equality of two observations."""
    if isinstance(a, dict):
        ok(isinstance(b, dict) and set(a) == set(b), f"{msg}: keys differ {a.keys()} {b.keys()}")
        for k in a:
            if k not in ignore:
                same_obs(a[k], b[k], f"{msg}.{k}", ignore)
    elif isinstance(a, (list, tuple)):
        ok(len(a) == len(b), f"{msg}: lengths {len(a)} != {len(b)}")
        for i, (x, y) in enumerate(zip(a, b)):
            same_obs(x, y, f"{msg}[{i}]", ignore)
    elif isinstance(a, np.ndarray):
        same(a, b, msg)
    else:
        ok(a == b or (a != a and b != b), f"{msg}: {a!r} != {b!r}")


def close_obs(a, b, msg="", ignore=(), rtol=1e-9):
    if isinstance(a, dict):
        ok(set(a) - set(ignore) == set(b) - set(ignore), f"{msg}: keys differ {a.keys()} {b.keys()}")
        for k in a:
            if k not in ignore:
                close_obs(a[k], b[k], f"{msg}.{k}", ignore, rtol)
    elif isinstance(a, (list, tuple)):
        ok(len(a) == len(b), f"{msg}: lengths {len(a)} != {len(b)}")
        for i, (x, y) in enumerate(zip(a, b)):
            close_obs(x, y, f"{msg}[{i}]", ignore, rtol)
    elif isinstance(a, (np.ndarray, float, np.floating)):
        close(a, b, msg, rtol=rtol)
    else:
        ok(a == b, f"{msg}: {a!r} != {b!r}")
