"""Independent evaluation of the wavefield transforms' definitions, at given physical frequencies (direct Fourier sums)."""
import numpy as np
from scipy import special


def nearest_bins(n, dt, fmin, fmax, step):
    """Reported frequencies: bins of a record of n samples from the one nearest fmin to the one nearest fmax, every step-th."""
    f = [k / (n * dt) for k in range(n)]
    lo = min(range(n), key=lambda k: (abs(f[k] - fmin), k))
    hi = min(range(n), key=lambda k: (abs(f[k] - fmax), k))
    return np.array([f[k] for k in range(lo, hi + 1, step)])


def spectrum(u, dt, freqs):
    """Fourier sums of the rows of u at the given frequencies."""
    u = np.atleast_2d(u)
    t = np.arange(u.shape[1]) * dt
    return u @ np.exp(-2j * np.pi * np.outer(t, freqs))


def near_to_far(xs, src, recs):
    off = np.abs(np.asarray(xs, float) - src)
    order = np.argsort(off, kind="stable")
    return np.asarray(recs, float)[order], off[order]


def trapz_weights(x):
    w = np.zeros(len(x))
    d = np.diff(x)
    w[:-1] += d / 2
    w[1:] += d / 2
    return w


def phaseshift(u, off, dt, freqs, vels):
    U = spectrum(u, dt, freqs)
    U = U / np.abs(U)
    w = trapz_weights(off)
    out = np.empty((len(vels), len(freqs)))
    for i, v in enumerate(vels):
        ph = np.exp(2j * np.pi * np.outer(off, freqs) / v)
        out[i] = np.abs((w[:, None] * U * ph).sum(axis=0))
    return out


def fdbf(u, off, dt, freqs, vels, weighting, steering):
    U = spectrum(u, dt, freqs)
    if weighting == "invamp":
        U = U / np.abs(U)
    w = off if weighting == "sqrt" else np.ones(len(off))
    out = np.empty((len(vels), len(freqs)))
    for i, v in enumerate(vels):
        kx = 2 * np.pi * np.outer(off, freqs) / v
        if steering == "cylindrical":
            ph = np.arctan2(special.y0(kx), special.j0(kx))
        else:
            ph = kx
        out[i] = np.abs((w[:, None] * np.exp(1j * ph) * U).sum(axis=0)) ** 2
    return out


def slantstack_ambiguous(off, dt, vels):
    """The largest moveout is a whole number of samples up to rounding: the last intercept time may be used or not."""
    m = np.ptp(off) / min(vels) / dt
    return m > 0.5 and abs(m - round(m)) < 1e-6


def slantstack(u, off, dt, freqs, vels, fewer=None):
    p = off - off.min()
    n = u.shape[1]
    m = p.max() / np.min(vels) / dt
    ntau = n - int(m) - 1
    if fewer is not None:
        ntau = n - int(round(m)) - 1 + (0 if fewer else 1)
    w = trapz_weights(p)
    t = np.arange(n) * dt
    out = np.empty((len(vels), len(freqs)), dtype=complex)
    tau = np.arange(ntau) * dt
    for i, v in enumerate(vels):
        s = np.zeros(ntau)
        for r, x, wt in zip(u, p, w):
            s += wt * np.interp(tau + x / v, t, r)
        out[i] = spectrum(s, dt, freqs)[0]
    return out


def reference(name, u, off, dt, freqs, vels, weighting=None, steering=None):
    if name == "phaseshift":
        return phaseshift(u, off, dt, freqs, vels)
    if name == "fdbf":
        return fdbf(u, off, dt, freqs, vels, weighting, steering)
    if name == "fk":
        return fdbf(u, off, dt, freqs, vels, None, "plane")
    if name == "slantstack":
        return slantstack(u, off, dt, freqs, vels)
    raise KeyError(name)
