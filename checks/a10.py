"""A10 histories of processing steps on real arrays: each step acts on what the records say, never on how they came about."""
import os

import numpy as np
from scipy.signal.windows import tukey

from swprocess.wavefieldtransforms import PhaseShift, FDBF

from mc.explore import explore
from mc.objs import Array1D, Source, Sensor1C, array, obs, same_obs
from mc import util
from mc.util import ok, same, close, wave, raises

RULE = ("breadth-first over every sequence of processing steps (trims on and off the grid, paddings, detrending, offset trims kept and refused, "
        "mutes, stacking, copies, file round trips, refused steps) from every initial array; each step is compared with its definition applied to "
        "the records observed before it, and in every reached state the array must behave as one newly built from the same records")
BOUNDS = dict(quick="7 initial arrays (1 to 6 sensors, source left, inside, right; delays 0, -0.02, -0.04), 18 steps, all histories to depth 2 and, for a 10-step sub-alphabet, depth 3",
              thorough="all 18 steps to depth 3, the 10-step sub-alphabet to depth 4")
ASSUMPTIONS = ["file round trips are only taken when the first sample is at or before the trigger and on a millisecond (the finding recorded for A06)",
               "mute edges may be rounded to a neighbouring sample"]
DT = 0.004


def worlds():
    L = [("left3", [0., 2., 5.], -3., 0., 25), ("left6", [0., 1., 2., 3., 4., 5.], -2., -0.02, 30), ("right4", [0., 2., 3., 7.], 9., -0.04, 26),
         ("in3", [-2., 1., 4.], 0., -0.02, 21), ("one", [3.], 0., -0.02, 24), ("neg4", [-9., -7., -5., -3.], -11., -0.04, 33), ("in2", [1., 6.], 2., 0., 18)]
    out = []
    for name, xs, sx, d, n in L:
        recs = [wave(k, n) + (2. + 0.1 * k) * util.GAIN for k in range(len(xs))]
        out.append((name, dict(o=array(xs, n=n, dt=DT, sx=sx, sy=1., delay=d, recs=recs, nstacks=2, ys=[0.5 * k for k in range(len(xs))]), old=[])))
    return out


def rebuild(st, multiple=True):
    """A new array of the observed records (first sample time and padding multiple included)."""
    ss = []
    for r in st["sensors"]:
        s = Sensor1C(r["amplitude"], r["dt"], r["x"], r["y"], r["z"], nstacks=r["nstacks"], delay=0.)
        ss.append(s)
    return Array1D(ss, Source(st["source"]["x"], st["source"]["y"], st["source"]["z"]))


def invariant(w):
    o = w["o"]
    st = obs(o)
    S = st["sensors"]
    xs = [r["x"] for r in S]
    ok(xs == sorted(xs) and len(set(xs)) == len(xs), f"positions out of order: {xs}")
    for k in ("dt", "nsamples", "nstacks", "delay", "multiple", "df"):
        ok(len({r[k] for r in S}) == 1, f"sensors differ in {k}: {[r[k] for r in S]}")
    n = S[0]["nsamples"]
    ok(n == len(S[0]["amplitude"]), "nsamples")
    close(S[0]["time"], S[0]["delay"] + DT * np.arange(n), "time", atol=1e-12)
    sx = st["source"]["x"]
    same(np.array(o.offsets), np.array([abs(x - sx) for x in xs]), "offsets")
    same(np.array(o.position()), np.array(xs), "positions")
    f = rebuild(st)
    for kw in (dict(), dict(detrend=True), dict(normalize="all")):
        if "normalize" in kw and not all(np.any(r["amplitude"]) for r in S):
            continue
        close(o.timeseriesmatrix(**kw), f.timeseriesmatrix(**kw), f"matrix {kw}", rtol=1e-12)
    if len(S) > 1:
        ok(o.kres == f.kres and o.array_center_distance == f.array_center_distance, "geometry of a new array differs")
        spans = []
        for a in (o, f):
            try:
                spans.append(a.spacing)
            except ValueError:
                spans.append(None)
        ok(spans[0] == spans[1], f"spacing {spans}")
    if n >= 8 and not (xs[0] < sx < xs[-1]) and len(S) > 2 and n < 60:
        df = 1 / (n * DT)
        for C, more in ((PhaseShift, {}), (FDBF, dict(**{"fdbf-specific": dict(weighting="sqrt", steering="plane")}))):
            kw = dict(fmin=df, fmax=min(4 * S[0]["df"], 0.4 / DT), vmin=100., vmax=300., nvel=4, vspace="linear", **more)
            if S[0]["multiple"] > 1:
                kw.update(fmin=S[0]["df"], fmax=2 * S[0]["df"])
            a, b = C.from_array(o, dict(kw)), C.from_array(f, dict(kw))
            fa, fb = np.round(np.asarray(a.frequencies) / df).astype(int).tolist(), np.round(np.asarray(b.frequencies) / df).astype(int).tolist()
            ok(set(fa) <= set(fb) and all(q % S[0]["multiple"] == 0 for q in fa), f"frequencies {fa} of {fb} (multiple {S[0]['multiple']})")
            cols = [fb.index(q) for q in fa]
            B = np.asarray(b.power)
            if np.all(np.isfinite(B)):
                close(np.asarray(a.power), B[:, cols], f"{C.__name__} of a new array with the same records differs", rtol=1e-7)
    for k, (old, before) in enumerate(w["old"]):
        same_obs(obs(old), before, f"array copied earlier changed ({k})")


def detrended(y):
    n = len(y)
    t = np.arange(n) - (n - 1) / 2
    return y - y.mean() - t * (t @ y) / (t @ t) if n > 1 else y - y.mean()


def line_at(line, x):
    (x1, t1), (x2, t2) = line
    return t1 + (t2 - t1) * (x - x1) / (x2 - x1)


def check_mute(r, q, s, e):
    n, t0 = r["nsamples"], r["delay"]
    cand = []
    for ln, default in ((s, [0]), (e, [n - 1, n])):
        if ln is None:
            cand.append(default)
        else:
            b = int(np.floor((line_at(ln, r["x"]) - t0) / DT + 1e-9))
            cand.append(sorted({min(max(k, 0), n) for k in (b - 1, b, b + 1)}))
    best = None
    for i in cand[0]:
        for j in cand[1]:
            win = np.zeros(n)
            if j > i:
                win[i:j] = tukey(j - i, alpha=0.5)
            d = np.max(np.abs(win * r["amplitude"] - q["amplitude"]))
            best = d if best is None else min(best, d)
    ok(best < 1e-9, f"mute at x={r['x']}: off by {best:.3g}")


def others_same(pre, now, changed):
    same_obs(now, pre, "step", ignore=changed)


def step(w, a):
    o = w["o"]
    pre = obs(o)
    S = pre["sensors"]
    n, t0, times = S[0]["nsamples"], S[0]["delay"], S[0]["time"]
    op = a[0]
    if op == "trim":
        i, j = a[1], a[2]       # in samples from either end, fractions allowed
        if n - i - j < 8:
            return
        s, e = times[0] + i * DT, times[-1] - j * DT
        o.trim(s, e)
        now = obs(o)
        i0, j0 = int(np.floor(i + 0.5)), int(np.floor(j + 0.5))
        for p, q in zip(S, now["sensors"]):
            same(q["amplitude"], p["amplitude"][i0:n - j0], "samples kept by the trim")
            ok(abs(q["time"][0] - p["time"][i0]) <= DT / 2 + 1e-12, "kept samples moved in time")
        others_same(pre, now, ("amplitude", "time", "delay", "nsamples", "df"))
    elif op == "badtrim":
        raises(IndexError, lambda: o.trim(times[0] - 3 * DT, times[-1]), "limits outside the record")
        same_obs(obs(o), pre, "refused trim")
    elif op == "pad":
        m = a[1]
        o.zero_pad(1 / (m * DT))
        mult = -(-n // m)
        now = obs(o)
        for p, q in zip(S, now["sensors"]):
            same(q["amplitude"], np.concatenate((p["amplitude"], np.zeros(mult * m - n))), "padded record")
            ok(q["multiple"] == mult, f"multiple {q['multiple']} != {mult}")
        others_same(pre, now, ("amplitude", "time", "nsamples", "df", "multiple"))
    elif op == "badpad":
        raises(ValueError, lambda: o.zero_pad(0), "zero frequency step")
        same_obs(obs(o), pre, "refused padding")
    elif op == "detrend":
        for s in o.sensors:
            s.detrend()
        now = obs(o)
        for p, q in zip(S, now["sensors"]):
            close(q["amplitude"], detrended(p["amplitude"]), "detrended", rtol=1e-9, atol=1e-9)
        others_same(pre, now, ("amplitude",))
    elif op == "offs":
        offs = [abs(r["x"] - pre["source"]["x"]) for r in S]
        u = sorted(offs)
        lo, hi = dict(near=(u[0], u[-1] + 1), far=(-1., u[-1]), none=(u[-1] + 1, u[-1] + 2), all=(-1, u[-1] + 1))[a[1]]
        keep = [r for r, d in zip(S, offs) if lo < d < hi]
        if not keep:
            raises(ValueError, lambda: o.trim_offsets(lo, hi), "no sensor left")
            same_obs(obs(o), pre, "refused offset trim")
        else:
            o.trim_offsets(lo, hi)
            now = obs(o)
            same_obs(now["sensors"], keep, "sensors kept")
            same_obs(now["source"], pre["source"], "source")
    elif op == "mute":
        T = times[-1] - times[0]
        x0, x1 = S[0]["x"], S[0]["x"] + 5
        s = ((x0, times[0] + 0.2 * T), (x1, times[0] + 0.35 * T)) if a[1] in "sb" else None
        e = ((x0, times[0] + 0.6 * T), (x1, times[0] + 0.9 * T)) if a[1] in "eb" else None
        o.mute(signal_start=s, signal_end=e, window_kwargs=dict(alpha=0.5))
        now = obs(o)
        for p, q in zip(S, now["sensors"]):
            check_mute(p, q, s, e)
        others_same(pre, now, ("amplitude",))
    elif op == "stack":
        b = Array1D.from_array1d(o)
        for s in b.sensors:
            s.detrend()
        for x, y in zip(o.sensors, b.sensors):
            x.stack_append(y)
        now = obs(o)
        for p, q in zip(S, now["sensors"]):
            close(q["amplitude"], (p["amplitude"] + detrended(p["amplitude"])) / 2, "stack", rtol=1e-9, atol=1e-9)
            ok(q["nstacks"] == 2 * p["nstacks"], "stack count")
        others_same(pre, now, ("amplitude", "nstacks"))
    elif op == "copy":
        w["o"] = Array1D.from_array1d(o)
        w["old"] = w["old"][-1:] + [(o, pre)]
        same_obs(obs(w["o"]), pre, "copy")
    elif op == "file":
        if t0 > 1e-9 or abs(t0 * 1000 - round(t0 * 1000)) > 1e-6:
            return
        fn = os.path.join(os.getcwd(), "a10.su")
        o.to_file(fn)
        same_obs(obs(o), pre, "writing the array")
        w["o"] = Array1D.from_files(fn)
        os.remove(fn)
        now = obs(w["o"])
        for p, q in zip(S, now["sensors"]):
            same(q["amplitude"], np.asarray(p["amplitude"], dtype=np.float32).astype(float), "samples read back")
            ok(abs(q["delay"] - p["delay"]) < 1e-9, "delay read back")
        same_obs(now, pre, "file", ignore=("amplitude", "time", "delay", "multiple", "df"))
    elif op == "look":
        o.timeseriesmatrix(detrend=True, normalize="none")
        o.timeseriesmatrix(normalize="all") if any(np.any(r["amplitude"]) for r in S) else None
        o.auto_pick_first_arrivals(algorithm="threshold") if n > 12 and all(np.any(r["amplitude"]) for r in S) else None
        o == Array1D.from_array1d(o)
        same_obs(obs(o), pre, "reading the array")


ALL = [["trim", 2, 1], ["trim", 0, 3], ["trim", 3, 0], ["trim", 1.3, 1.3], ["badtrim"], ["pad", 8], ["pad", 12], ["pad", 50], ["badpad"], ["detrend"],
       ["offs", "near"], ["offs", "far"], ["offs", "none"], ["offs", "all"], ["mute", "s"], ["mute", "b"], ["stack"], ["copy"], ["file"], ["look"]]
FEW = [["trim", 2, 1], ["trim", 3, 0], ["pad", 8], ["pad", 50], ["detrend"], ["offs", "near"], ["mute", "e"], ["stack"], ["copy"], ["file"]]


def units(tier):
    th = tier == "thorough"
    W = [x[0] for x in worlds()]
    return ([dict(w=k, few=0, first=i, depth=3 if th else 2) for k in range(len(W)) for i in range(len(ALL))]
            + [dict(w=k, few=0, first=i, depth=2, gain=g) for k in (0, 2) for i in range(len(ALL)) for g in (2. ** -60, 2. ** 40)]
            + [dict(w=k, few=1, first=i, depth=4 if th else 3) for k in range(len(W)) for i in range(len(FEW))])


def run(u, ctx):
    alpha = FEW if u["few"] else ALL
    name, w = worlds()[u["w"]]

    def st(w, a):
        step(w, a)
        invariant(w)

    def first():
        st(w, alpha[u["first"]])
        return name
    if ctx.case([name, alpha[u["first"]]], first):
        explore(ctx, [(f"{name}:{alpha[u['first']]}", w)], alpha, u["depth"] - 1, st)
