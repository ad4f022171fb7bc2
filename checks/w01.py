"""W01 frequencies and trial velocities of every transform, against the record's bins and direct Fourier sums."""
import itertools

import numpy as np

from swprocess.register import WavefieldTransformRegistry as Reg

from mc.objs import array, obs, same_obs
from mc.reftransform import nearest_bins, near_to_far, reference
from mc.util import ok, close

RULE = ("every combination of record length, time step, padding, trim before padding, frequency limits, velocity grid, spacing and transform; frequencies against the bins of "
        "the (padded) record, power against a Fourier sum at exactly the reported frequency")
BOUNDS = dict(quick="6 record lengths x 3 time steps x up to 9 paddings (frequency steps of up to 80 bins) x 12 frequency limits; 8 velocity grids (0.3 to 6000 m/s) x 4 spacings; every number of velocities from 2 to 65 and 26 larger ones up to 2000; 6 transforms; repeated padding; records with more than a thousand frequencies",
              thorough="all frequency limits x all velocity grids x all spacings; every number of velocities from 2 to 2099")
ASSUMPTIONS = ["frequency limits between 0 and the Nyquist frequency and not exactly half way between two bins",
               "the record contains all velocities' travel times (for slant-stack)"]

NAMES = ["phaseshift", "fk", "fdbf", "slantstack", "empty"]
VEL = [(100., 400., 4), (50., 60., 2), (200., 200., 1), (90., 700., 7), (300., 150., 3), (0.3, 0.9, 4), (1., 20., 6), (1500., 6001.5, 12)]
SPACE = ["linear", "lin", "log", "logarithmic"]


def rec(k, n):
    i = np.arange(n)
    return np.sin(0.9 * i + 0.7 * k) * np.exp(-i / (0.4 * n)) + 0.3 * np.cos(2.1 * i - k) + 0.1 * ((7 * i * i + k * i) % 11)


def velocities(v, space):
    a, b, n = v
    if n == 1:
        return np.array([a])
    i = np.arange(n) / (n - 1)
    return a + (b - a) * i if space.startswith("lin") else a * (b / a) ** i


def limits(n, dt, step):
    """Frequency limits of interest for a record of n samples (bin df), in Hz."""
    df = 1 / (n * dt)
    ny = 0.5 / dt
    g = [(2 * df * step, 5 * df * step), (df, df), (1.3 * df, 7.2 * df), (3 * df, 3.4 * df), (0, 4 * df), (0.3 * df, ny), (ny * 0.5, ny * 0.93),
         (1.7 * df, 1.7 * df + 3.1 * step * df), (5.2 / 8 * ny, 5.9 / 8 * ny), (2 * df, ny * 0.77), (0.21 * ny, 0.6 * ny), (df * (step + 1), df * (3 * step + 0.9))]
    return [(a, b) for a, b in g if b <= ny and all(abs((x / df) % 1 - 0.5) > 1e-3 for x in (a, b))]


def check(name, n, dt, pads, trim, lim, v, space, power=True):
    xs, src = [0., 2., 5., 6.503], -4.
    a = array(xs, n=n, dt=dt, sx=src, recs=[rec(k, n) for k in range(4)], delay=-4 * dt)
    if trim:
        t = a[0].time
        a.trim(float(t[trim]), float(t[-2]))
    native = 1 / (a[0].nsamples * dt)
    for ppt in pads:                       # requested step = 1 / (ppt * dt)
        a.zero_pad(1 / (ppt * dt))
    N = a[0].nsamples
    step = 1
    if pads:
        step = N // pads[-1]
        ok(step * pads[-1] == N, "padded length")
    fs = limits(N, dt, step)
    if lim >= len(fs):
        return None
    fmin, fmax = fs[lim]
    want_f = nearest_bins(N, dt, fmin, fmax, step)
    want_v = velocities(v, space)
    s = dict(fmin=fmin, fmax=fmax, vmin=v[0], vmax=v[1], nvel=v[2], vspace=space)
    if name == "fdbf":
        s["fdbf-specific"] = dict(weighting="sqrt", steering="cylindrical")
    before = obs(a)
    w = Reg.create_class(name).from_array(a, s)
    close(np.array(w.frequencies), want_f, f"{name} frequencies (N={N}, step {step}, {fmin:.4g}..{fmax:.4g} Hz)", rtol=1e-12)
    close(np.array(w.velocities), want_v, f"{name} velocities", rtol=1e-12)
    if len(want_f) > 1:
        d = np.diff(w.frequencies)
        close(d, np.full(len(d), 1 / (pads[-1] * dt) if pads else native), "frequency step", rtol=1e-6)
    ok(w.power.shape == (len(want_v), len(want_f)), f"power has shape {w.power.shape}")
    same_obs(obs(a), before, "the transform altered the array")
    if name != "empty":
        u, off = near_to_far(xs, src, [q["amplitude"] for q in before["sensors"]])
        want = reference(name, u, off, dt, want_f, want_v, "sqrt", "cylindrical")
        close(w.power if name == "slantstack" else np.abs(w.power), want, f"{name} power at the reported frequencies", rtol=1e-8)
    else:
        ok(np.all(w.power == 0) and w.n == 0, "empty accumulator is not empty")
    return f"{N} {step} {len(want_f)} {want_f[0]:.5g}"


def sweep(name, nvel, space):
    """Any number of trial velocities is honoured, one by one, including both ends."""
    a = array([0., 2.], n=40, dt=0.02, sx=-4., recs=[rec(k, 40) for k in range(2)])
    s = dict(fmin=5., fmax=5., vmin=80., vmax=640., nvel=nvel, vspace=space)
    if name == "fdbf":
        s["fdbf-specific"] = dict(weighting="sqrt", steering="plane")
    w = Reg.create_class(name).from_array(a, s)
    want = velocities((80., 640., nvel), space)
    close(np.array(w.velocities), want, f"{name} {nvel} velocities ({space})", rtol=1e-12)
    ok(w.power.shape == (nvel, 1), f"power has shape {w.power.shape}")
    if name != "empty" and nvel <= 64:
        u, off = near_to_far([0., 2.], -4., [rec(k, 40) for k in range(2)])
        close(np.abs(w.power), np.abs(reference(name, u, off, 0.02, nearest_bins(40, 0.02, 5., 5., 1), want, "sqrt", "plane")), f"{name} power for {nvel} velocities", rtol=1e-8)


NVEL = list(range(2, 66)) + [99, 100, 101, 127, 128, 129, 200, 250, 255, 256, 257, 300, 399, 400, 401, 500, 511, 512, 513, 600, 800, 1000, 1023, 1024, 1025, 2000]


def units(tier):
    return [dict(name=nm, n=5000, dt=0.01, full=False) for nm in NAMES] + [dict(mode="sweep", name=nm, space=sp, full=tier == "thorough") for nm in NAMES for sp in SPACE] + \
        [dict(name=nm, n=n, dt=dt, full=tier == "thorough") for nm in NAMES for n in (48, 50, 64, 71, 120, 480) for dt in (0.01, 0.0125, 0.02)]


def run(u, ctx):
    if u.get("mode") == "sweep":
        for nv in (range(2, 2100) if u["full"] and u["name"] in ("empty", "phaseshift") else NVEL):
            ctx.case(["sweep", u["name"], nv, u["space"]], sweep, u["name"], nv, u["space"])
        return
    n = u["n"]
    pads = [(), (n,), (2 * n,), (n // 2,), (40,), (25,), (100,), (200,), (25, 60), (60, 25)]
    if n == 480:
        pads = [(10,), (15,), (20,), (32,), (48,), (6,)]        # frequency steps of 8..80 bins
    i = 0
    if n > 999:             # more than a thousand frequencies
        for p, trim, lim in (((), 0, 5), ((2500,), 0, 5), ((), 3, 9), ((10000,), 0, 10)):
            ctx.case([u["name"], n, p, trim, lim], check, u["name"], n, u["dt"], p, trim, lim, (100., 300., 3), "linear")
        return
    for p, trim, lim in itertools.product(pads, (0, 3), range(12)):
        vs = itertools.product(VEL, SPACE) if u["full"] else [(VEL[i % 8], SPACE[(i // 8) % 4])]
        for v, sp in vs:
            i += 1
            if u["name"] == "slantstack" and v[0] < 60:
                v = VEL[0]
            ctx.case([u["name"], n, u["dt"], p, trim, lim, v, sp], check, u["name"], n, u["dt"], p, trim, lim, v, sp)
