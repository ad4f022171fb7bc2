"""P04 simplification: every assignment of validity and relative power over small grids, also after rejections."""
import itertools

import numpy as np

from mc.refpeaks import Ref, NAN, OPT, wide
from mc.util import ok, same, close

RULE = ("every pair of column patterns (validity x power of up to three maxima), embedded in tables of one to three frequencies, every attribute simplified and compared with "
        "the entry of largest power among the valid ones (first valid one without power), also when the validity is produced by a rejection")
BOUNDS = dict(quick="216 column patterns of three maxima (validity x powers 0..2 with ties): all single columns, all pairs of a covering set of 60, power scaled by 1, -1, 1e-6, and for single columns up to +-1e300 and down to 1e-300; all 512 validity patterns of 3x3 without power and with distinct powers; tall columns of up to 60 maxima with the strongest at every place; tables of up to 30 x 40; the other values rise or fall from maximum to maximum",
              thorough="all pairs of the 216 column patterns, and all triples of 24 of them")
ASSUMPTIONS = ["among valid peaks of exactly equal power any may be chosen, but the same for every attribute", "power is finite where the peak is valid"]

ALL = ["frequency", "velocity", "azimuth", "ellipticity", "noise", "power", "wavelength", "slowness", "wavenumber"]


def table(cols, scale=1., power=True, missing_nan=False, down=False):
    """Columns: (validity tuple, power tuple); the other values rise from row to row, or fall."""
    nr, nc = len(cols[0][0]), len(cols)
    i, j = np.meshgrid(np.arange(nr), np.arange(nc), indexing="ij")
    f = np.array([16., 4., 8.])[j] if nc <= 3 else 2. ** j
    k = nr - 1 - i if down else i
    tab = dict(azimuth=10. * k + j, ellipticity=k - j * 2.5, noise=1. + k * nc + j)
    v = 100. + 17 * k + 31 * j
    valid = np.array([[cols[c][0][r] for c in range(nc)] for r in range(nr)], bool)
    if power:
        tab["power"] = scale * np.array([[cols[c][1][r] for c in range(nc)] for r in range(nr)], float)
    if missing_nan:
        for t in list(tab.values()) + [v, f]:
            t[~valid] = NAN
        return Ref(f, v, "m", **tab)
    return Ref(f, v, "m", valid=valid, **tab)


def judge(p, r, msg=""):
    """All attributes simplified to one and the same strongest valid peak per frequency."""
    cand = []
    for c in range(r.valid.shape[1]):
        rows = np.flatnonzero(r.valid[:, c])
        if len(rows) == 0:
            continue
        if "power" in r.tab:
            pw = r.tab["power"][rows, c]
            rows = rows[pw == pw.max()]
        else:
            rows = rows[:1]
        cand.append((c, list(rows)))
    choice = None
    for d in ["velocity"] + [a for a in ALL if a in r.domains() and a != "velocity"]:
        got = np.asarray(p.simplify_mpeaks(d), float)
        ok(got.shape == (len(cand),), f"{msg}{d}: {got.shape} values for {len(cand)} frequencies with a valid peak")
        if choice is None:           # velocities are all different: they tell which peak was chosen
            choice = []
            for (c, rows), g in zip(cand, got):
                hit = [k for k in rows if r.tab["velocity"][k, c] == g]
                ok(hit, f"{msg}frequency {c}: velocity {g} is not that of a strongest valid peak ({[float(r.tab['velocity'][k, c]) for k in rows]})")
                choice.append((hit[0], c))
        (same if d not in ("wavelength", "slowness", "wavenumber") else close)(got, np.array([r.full(d)[k] for k in choice]), f"{msg}{d} is not that of the peak chosen for velocity")
    r.agree(p, f"{msg}after simplification")
    return f"{r.valid.astype(int).tolist()} {choice}"


def grid(cols, scale, power, mnan):
    out = ""
    for down in (False,) if power and scale not in (1, -1) else (False, True):
        r = table(cols, scale, power, mnan, down)
        out = judge(r.impl(), r)
    return out


def rejected(pattern, power):
    """Validity produced step by step by rejections of noise values."""
    cols = [((1, 1, 1), (3, 1, 2)), ((1, 1, 1), (1, 2, 3)), ((1, 1, 1), (2, 3, 1))]
    r = table(cols, 1., power)
    p = r.impl()
    for k, keep in enumerate(pattern):
        if not keep:
            i, j = divmod(k, 3)
            n = r.tab["noise"][i, j]
            p.reject_box_inside("noise", (n - 0.5, n + 0.5), "frequency", (0, 100))
            r.valid[i, j] = False
            judge(p, r, f"after rejecting entry {k}: ")


def flat(order, mask, mode):
    n = len(order)
    f = [2. ** k for k in order]
    o = {} if mode == "bare" else dict(power=[float(k % 2) for k in order], azimuth=[k * 10. for k in order])
    r = Ref(f, [100. + 7 * k for k in range(n)], "f", valid=mask, **o)
    p = r.impl()
    for d in r.domains():
        close(np.asarray(p.simplify_mpeaks(d), float), r.values(d), f"1-D {d}", rtol=1e-12)
    r.agree(p, "after simplification")


def large(nr, nc, cut, power, seed):
    """Tables of many windows and frequencies, simplified before and after rejections."""
    i, k = np.mgrid[0:nr, 0:nc]
    f = 0.5 * 1.05 ** k
    v = 90. + 17 * i + 0.37 * k + (i * k) % 7 * 0.01
    gap = (i * i + seed * k) % 11 == 3
    tab = dict(azimuth=10. * i + k, noise=1. + i * nc + k)
    if power:
        tab["power"] = ((i * 31 + k * 17 + seed * i * k) % 211) * 1. + i * 1e-3 - 40
    for t in list(tab.values()) + [v]:
        t[gap] = NAN
    f = np.where(gap, NAN, f)
    r = Ref(f, v, "large", **tab)
    p = r.impl()
    out = judge(p, r)
    p.reject_limits_outside("velocity", (None, cut))
    r.valid = r.valid & ~r.limits("velocity", None, cut)
    judge(p, r, "after the limit: ")
    p.reject_box_inside("frequency", (0.6, 1.2), "velocity", (0., 1e4))
    r.valid = r.valid & ~r.inside("frequency", (0.6, 1.2), "velocity", (0., 1e4))
    judge(p, r, "after the box: ")
    return str(hash(out))


PAT = [(v, w) for v in itertools.product((0, 1), repeat=3) for w in itertools.product((0, 1, 2), repeat=3)]


def units(tier):
    u = [dict(mode="single"), dict(mode="valid", part=0), dict(mode="valid", part=1), dict(mode="flat"), dict(mode="large")]
    u += [dict(mode="pairs", part=k, step=1 if tier == "thorough" else 3.6) for k in range(8)]
    if tier == "thorough":
        u += [dict(mode="triples", part=k) for k in range(8)]
    return u


def run(u, ctx):
    m = u["mode"]
    if m == "single":
        for c in PAT:
            for s, mn in itertools.product((1., -1., 1e-6, 1e6, -1e6, -1e300, 1e-300), (False, True)):
                ctx.case([c, s, mn], grid, [c], s, True, mn)
            ctx.case([c, "nopower"], grid, [c], 1., False, False)
        for n in (1, 2, 4):
            for v in itertools.product((0, 1), repeat=n):
                for w in itertools.permutations(range(n)):
                    ctx.case([v, w], grid, [(v, w)], 1., True, False)
        # the strongest (or only) valid peak at every place of a tall column, of either sign
        for n in (5, 6, 8, 12, 60):
            for k, s in itertools.product(range(n), (1., -1., 1e-6, -1e6)):
                w = tuple(k + 1 if i == k else (i * 7) % n % (k + 1) for i in range(n))
                for v in ((1,) * n, tuple(int(i == k) for i in range(n)), tuple(int(i >= k) for i in range(n)), tuple(int(i != k) for i in range(n))):
                    ctx.case([n, k, s, v], grid, [(v, tuple(x - (s < 0) * n for x in w))], abs(s), True, k % 2 == 0)
    elif m == "pairs":
        pats = [PAT[int(k * u["step"])] for k in range(int(216 / u["step"]))]
        for i, a in enumerate(pats):
            if i % 8 == u["part"]:
                for j, b in enumerate(pats):
                    ctx.case([a, b], grid, [a, b], (1., -1., 1e-6)[(i + j) % 3], True, (i + j) % 2 == 0)
    elif m == "triples":
        pats = PAT[1::9]
        for i, a in enumerate(pats):
            if i % 8 == u["part"]:
                for b, c in itertools.product(pats, repeat=2):
                    ctx.case([a, b, c], grid, [a, b, c], 1., True, False)
    elif m == "large":
        for nr, nc, power, seed in itertools.product((1, 2, 7, 30), (1, 8, 40), (True, False), (1, 2, 5)):
            ctx.case([nr, nc, power, seed], large, nr, nc, 90 + 17 * nr * 0.7, power, seed)
        for n, r in wide().items():
            if r.valid.ndim == 2:
                ctx.case([n], lambda: judge(r.impl(), r))
    elif m == "valid":
        for k, v in enumerate(itertools.product((0, 1), repeat=9)):
            if k % 2 == u["part"]:
                cols = [(v[0::3], (3, 1, 2)), (v[1::3], (1, 2, 3)), (v[2::3], (2, 3, 1))]
                for power, mn in itertools.product((True, False), repeat=2):
                    ctx.case([v, power, mn], grid, cols, 1., power, mn)
                if k % 8 == u["part"]:
                    ctx.case(["rejected", v], rejected, v, bool(k & 16))
    else:
        for n in (0, 1, 2, 3):
            for o in itertools.permutations(range(n)):
                for mask in itertools.product((True, False), repeat=n):
                    for mode in ("bare", "power"):
                        ctx.case([o, mask, mode], flat, o, mask, mode)
