"""M04 signal-to-noise ratio against direct Fourier sums at the reported frequencies."""
import itertools
import warnings

import numpy as np

from swprocess import Masw
from swprocess.snr import SignaltoNoiseRatio

from mc.objs import array
from mc.reftransform import nearest_bins, spectrum
from mc.survey import write, rec, XS
from mc.util import ok, close, raises

RULE = ("every combination of signal and noise window length, time step, padding (finer, equal, coarser, none), frequency limits and number of sensors: reported frequencies against the bins, ratio against "
        "direct Fourier sums of the windows; complete runs with every window, trim, pad and workflow against windows cut from the raw records")
BOUNDS = dict(quick="8 window lengths x 3 time steps x 9 paddings x 10 frequency limits; five amplitude scales (1e-12..1e9) x 1..49 sensors; default limits; unequal lengths: all 64 pairs x 4 paddings; runs: 3 workflows x 2 trims x 7 windows x 5 paddings x 3 frequency limits",
              thorough="every frequency limit x 3 numbers of sensors")
ASSUMPTIONS = ["frequency limits between 0 and the Nyquist frequency, not half way between two bins"]

NS = [20, 24, 32, 40, 50, 60, 64, 80]


def lims(N, dt):
    df, ny = 1 / (N * dt), 0.5 / dt
    g = [(2 * df, 5 * df), (0.3 * df, ny), (1.3 * df, 7.2 * df), (3 * df, 3.4 * df), (0, 4 * df), (ny * 0.5, ny * 0.93), (ny * 0.41, ny * 0.77), (df, df), (0.21 * ny, 0.6 * ny), (0.9 * df, 0.98 * ny)]
    return [(a, b) for a, b in g if b <= ny and all(abs((x / df) % 1 - 0.5) > 1e-3 for x in (a, b))]


def rows(seed, n, ns):
    i = np.arange(n)
    return [((i * i * (k + 1) + (3 + seed) * i + 5 * k) % 17 - 8.) * (1 + seed) / (k + 1) + np.sin(0.7 * i + k) for k in range(ns)]


def ratio(s, n, dt, f):
    return np.abs(spectrum(np.array(s), dt, f)).mean(axis=0) / np.abs(spectrum(np.array(n), dt, f)).mean(axis=0)


def padded(n, ppt):
    if ppt is None:
        return n, 1
    m = -(-n // ppt)
    return m * ppt, m


def direct(n1, n2, dt, ppt, lim, ns, scale=(1., 1.)):
    s, z = [scale[0] * r for r in rows(1, n1, ns)], [scale[1] * r for r in rows(4, n2, ns)]
    xs = [2. * k for k in range(ns)]
    sig, noi = array(xs, n=n1, dt=dt, recs=s), array(xs, n=n2, dt=dt, recs=z, delay=-dt * n2)
    (N1, m1), (N2, m2) = padded(n1, ppt), padded(n2, ppt)
    kw = dict(pad_snr=True, df_snr=1 / (ppt * dt)) if ppt else dict(pad_snr=False)
    if N1 != N2:
        raises(IndexError, lambda: SignaltoNoiseRatio.from_array1ds(sig, noi, fmin=1., fmax=10., **kw), f"windows of {N1} and {N2} samples")
        return "refused"
    fl = lims(N1, dt)
    if lim >= len(fl):
        return None
    fmin, fmax = fl[lim]
    q = SignaltoNoiseRatio.from_array1ds(sig, noi, fmin=fmin, fmax=fmax, **kw)
    f = nearest_bins(N1, dt, fmin, fmax, m1)
    close(np.array(q.frequencies), f, f"frequencies (N={N1}, {fmin:.4g}..{fmax:.4g} Hz, step {m1})", rtol=1e-12)
    close(np.array(q.snr), ratio(s, z, dt, f), "signal-to-noise ratio", rtol=1e-8)
    return f"{N1} {m1} {len(f)} {q.snr[0]:.6f}"


def default(n, dt, ns):
    """Without limits the ratio is given from 3 to 75 Hz."""
    s, z = rows(1, n, ns), rows(4, n, ns)
    xs = [2. * k for k in range(ns)]
    q = SignaltoNoiseRatio.from_array1ds(array(xs, n=n, dt=dt, recs=s), array(xs, n=n, dt=dt, recs=z))
    f = nearest_bins(n, dt, 3., 75., 1)
    close(np.array(q.frequencies), f, "frequencies by default", rtol=1e-12)
    close(np.array(q.snr), ratio(s, z, dt, f), "signal-to-noise ratio by default", rtol=1e-8)
    return f"{n} {len(f)}"


def cut(raw, t0, dt, a, b):
    i, j = int(round((a - t0) / dt)), int(round((b - t0) / dt))
    return raw[i:j + 1]


def detrended(r):
    i = np.arange(len(r))
    im, rm = i.mean(), r.mean()
    return r - (rm + ((i - im) * (r - rm)).sum() / ((i - im) ** 2).sum() * (i - im))


def workflow(tmp, wf, trim, win, pad, lim, offs):
    dt, t0, n = 0.01, -0.4, 121
    fn = write(tmp, "w.su", f=1, n=n, delay=t0, dt=dt)
    raw = [detrended(rec(1, k, abs(x + 3.), n, dt, t0).astype(np.float32).astype(float)) for k, x in enumerate(XS) if offs[0] < x + 3. < offs[1]]
    (na, nb), (sa, sb) = win
    st = Masw.create_settings_dict(workflow=wf, snr=True, noise_begin=na, noise_end=nb, signal_begin=sa, signal_end=sb, pad_snr=pad is not None, df_snr=1. if pad is None else 1 / (pad * dt),
                                   fmin=lim[0], fmax=lim[1], nvel=2, transform="fk", trim=trim is not None, trim_begin=(trim or (0, 1))[0], trim_end=(trim or (0, 1))[1], min_offset=offs[0], max_offset=offs[1])
    noise = [cut(r, t0, dt, na, nb) for r in raw]
    sig = [cut(r, t0, dt, sa, sb) for r in raw]
    (N1, m), (N2, _) = padded(len(sig[0]), pad), padded(len(noise[0]), pad)

    def go():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return Masw.run([fn], st)
    if N1 != N2:
        raises(IndexError, go, f"windows of {N1} and {N2} samples")
        return "refused"
    t = go()
    f = nearest_bins(N1, dt, lim[0], lim[1], m)
    close(np.array(t.snr_frequencies), f, "frequencies", rtol=1e-12)
    close(np.array(t.snr), ratio(sig, noise, dt, f), "signal-to-noise ratio", rtol=1e-6)
    return f"{N1} {m} {t.snr[0]:.5f}"


WIN = [((-0.4, 0.), (0., 0.4)), ((-0.35, -0.05), (0.1, 0.4)), ((-0.4, -0.01), (0.2, 0.59)), ((-0.3, -0.1), (0., 0.2)), ((-0.4, 0.), (0.05, 0.3)), ((-0.2, 0.), (0., 0.45)), ((-0.39, -0.04), (0.03, 0.38))]


def units(tier):
    u = [dict(mode="direct", n=n, dt=dt, full=tier == "thorough") for n in NS for dt in (0.01, 0.002, 0.0125)]
    u += [dict(mode="scale", n=n) for n in (32, 50)]
    u += [dict(mode="pairs", n=n) for n in NS] + [dict(mode="default"), dict(mode="long")]
    u += [dict(mode="run", wf=w, trim=t) for w in ("single", "time-domain", "frequency-domain") for t in (None, (0., 0.7))]
    return u


def run(u, ctx):
    if u["mode"] == "direct":
        for ppt, lim in itertools.product((None, u["n"], 2 * u["n"], u["n"] // 2, 25, 40, 64, 100, 200), range(10)):
            for ns in ((1, 4, 24) if u["full"] else ((1, 4, 3)[lim % 3],)):
                ctx.case([u["n"], u["dt"], ppt, lim, ns], direct, u["n"], u["n"], u["dt"], ppt, lim, ns)
    elif u["mode"] == "scale":
        for ns, scale, ppt in itertools.product((1, 5, 25, 49), ((1., 1e-10), (1e-10, 1.), (1e9, 1e9), (1e-12, 1e-12), (1e6, 1e-6)), (None, 2 * u["n"])):
            ctx.case(["scale", u["n"], ns, scale, ppt], direct, u["n"], u["n"], 0.01, ppt, 2, ns, scale)
    elif u["mode"] == "long":
        for n, ns, ppt, lim in itertools.product((4000, 6000), (1, 5), (None, 8192), (2, 4)):
            ctx.case(["long", n, ns, ppt, lim], direct, n, n, 0.002, ppt, lim, ns)
    elif u["mode"] == "default":
        for n, dt, ns in itertools.product((250, 334, 500, 1000), (0.004, 0.005, 0.002), (1, 3)):
            ctx.case(["default", n, dt, ns], default, n, dt, ns)
    elif u["mode"] == "pairs":
        for n2, ppt in itertools.product(NS, (None, 100, 40, 32)):
            ctx.case([u["n"], n2, ppt], direct, u["n"], n2, 0.01, ppt, 1, 2)
    else:
        i = 0
        for win, pad, lim in itertools.product(WIN, (None, 40, 50, 100, 20), ((5.1, 30.), (0.4, 49.), (12.2, 12.3))):
            i += 1
            offs = ((0., 100.), (4., 8.5))[i % 2]
            ctx.case([u["wf"], u["trim"], win, pad, lim, offs], workflow, ctx.tmp, u["wf"], u["trim"], win, pad, lim, offs)
