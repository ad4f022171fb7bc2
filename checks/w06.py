"""W06 peak picking on every small image."""
import itertools

import numpy as np
import matplotlib.pyplot as plt

from swprocess.register import WavefieldTransformRegistry as Reg

from mc.util import ok, same, raises, close

RULE = ("every column of four velocities over an alphabet of seven complex values, and every pair of columns of three over five values, with a unique maximum: picks before and after "
        "every sequence of two normalizations; plots of images with known picks; every history of picking, plotting, normalizing, stacking, replacing the image and reversing its grid, against a plain copy of the image")
BOUNDS = dict(quick="columns 7^4 x 3 grids; pairs of columns 125^2 (unique maxima); real images 6^4; near ties (1e-12..1e-7) 5^4; six scales from 1e-300 to 1e300; 54 plots; up to 2100 velocities with the maximum at 16 places; histories of 8 operations up to depth 3", thorough="columns 8^5 x 3 grids as well; histories up to depth 4")
ASSUMPTIONS = ["the maximum at each frequency is unique"]

AL = [0, 1, -1.5, 2j, -2.5 - 1j, 3 - 1j, -4]
AL2 = [0.25, 1, -1.5j, 2 + 1j, -4]
REAL = [0., 0.5, 1., -2., 3., -7.]
GRIDS = [lambda n: np.linspace(100, 400, n), lambda n: np.geomspace(80, 800, n), lambda n: np.linspace(500, 90, n)]
BY = ["none", "absolute-maximum", "frequency-maximum"]
SEQ = [()] + [(b,) for b in BY] + list(itertools.product(BY, repeat=2))


def unique_strict(c):
    m = sorted(map(abs, c))
    return m[-1] > m[-2]


NEAR = [1., -(1 + 2e-12), (1 + 1e-9) * 1j, -1j * (1 + 1e-7), 1 - 1e-10]
EXP = [1e170, 1e-170, 1e-300, 1e300, 1e38, 1e-46]


def unique(c):
    m = sorted(map(abs, c))
    return m[-1] > m[-2] * (1 + 1e-9) and m[-1] > 0


def pick(cols, grid, cls, deep):
    p = np.array(cols).T
    n = p.shape[0]
    v = GRIDS[grid](n)
    want = [v[max(range(n), key=lambda j: abs(c[j]))] for c in cols]
    f = 5. + np.arange(len(cols))
    if cls == "fdbf":
        p = p.astype(complex)
    for seq in (SEQ if deep else SEQ[:4]):
        t = Reg.create_class(cls)(f, v, p.copy())
        for b in seq:
            t.normalize(by=b)
        got = t.find_peak_power() if deep else t.find_peak_power(by="frequency-maximum")
        same(got, want, f"picks after normalizing {seq}")
    return str(want)


OPS = ["pick", "plot", "none", "absolute-maximum", "frequency-maximum", "stack", "set", "back"]


def history(seq, cls, k):
    """Operations on one image; a plain copy of its power is kept alongside."""
    n, m = 4, 3
    a = [[AL2[(3 * i + 2 * j + k) % 5] * (1 + 0.1 * i) for j in range(m)] for i in range(n)]
    b = [[AL2[(2 * i + 3 * j + k + 1) % 5] * 7 * (1 + 0.2 * (n - i)) for j in range(m)] for i in range(n)]
    c = [[AL2[(i + j + k + 2) % 5] * (1 + 0.3 * ((i + k) % n)) for j in range(m)] for i in range(n)]
    v = GRIDS[k % 3](n)
    f = 5. + np.arange(m)
    T = Reg.create_class(cls)
    t = Reg.create_class("empty")(f, v, np.array(a, complex))
    t.n = 1
    p, w = [list(r) for r in a], 1
    picks = []
    for op in seq + ("pick",):
        if op == "stack":
            t.stack(T(f, np.array(v), np.array(b, complex)))
            p = [[(x * w + y) / (w + 1) for x, y in zip(r, q)] for r, q in zip(p, b)]
            w += 1
        elif op == "set":
            t.power = np.array(c, complex)
            p = [list(r) for r in c]
        elif op == "back":
            v, p = v[::-1], p[::-1]
            t.velocities, t.power = np.array(v), np.array(t.power)[::-1]
        elif op in BY:
            t.normalize(by=op)
            p = [[abs(x) for x in r] for r in p]
            if op == "absolute-maximum":
                top = max(max(r) for r in p)
                p = [[x / top for x in r] for r in p]
            elif op == "frequency-maximum":
                tops = [max(r[j] for r in p) for j in range(m)]
                p = [[x / y for x, y in zip(r, tops)] for r in p]
        else:
            for j in range(m):
                if not unique([r[j] for r in p]):
                    return "tie"
            want = [v[max(range(n), key=lambda i: abs(p[i][j]))] for j in range(m)]
            if op == "pick":
                same(t.find_peak_power(), want, "picks")
            else:
                fig, ax = plt.subplots()
                t.plot(fig=fig, ax=ax, normalization="none")
                p = [[abs(x) for x in r] for r in p]
                pts = [(x, y) for ln in ax.get_lines() for x, y in zip(ln.get_xdata(), ln.get_ydata())]
                plt.close(fig)
                close(np.array(sorted(pts)), np.array(sorted(zip(f, want))), "marked points", rtol=1e-12)
            picks.append(want)
    return str(picks)


def plot(cols, grid, norm):
    p = np.array(cols).T
    v = GRIDS[grid](p.shape[0])
    want = [v[max(range(p.shape[0]), key=lambda j: abs(c[j]))] for c in cols]
    f = 5. + 2.5 * np.arange(len(cols))
    for peaks in ("frequency-maximum", "none"):
        t = Reg.create_class("fdbf")(f, v, p.copy())
        fig, ax = plt.subplots()
        kw = dict(marker="x")
        t.plot(fig=fig, ax=ax, normalization=norm, peaks=peaks, peak_kwargs=kw)
        ok(kw == dict(marker="x"), "peak_kwargs altered")
        if peaks == "none":
            ok(len(ax.get_lines()) == 0, "points drawn though none were requested")
        else:
            pts = [(x, y) for ln in ax.get_lines() for x, y in zip(ln.get_xdata(), ln.get_ydata())]
            close(np.array(sorted(pts)), np.array(sorted(zip(f, want))), "marked points", rtol=1e-12)
        plt.close(fig)
    t = Reg.create_class("fdbf")(f, v, p.copy())
    fig, ax = t.plot(normalization=norm)
    pts = [(x, y) for ln in ax.get_lines() for x, y in zip(ln.get_xdata(), ln.get_ydata())]
    close(np.array(sorted(pts)), np.array(sorted(zip(f, want))), "marked points", rtol=1e-12)
    raises(NotImplementedError, lambda: t.find_peak_power(by="loudest"), "unknown picking method")
    plt.close("all")


def large(n, at, grid, sign):
    """Many trial velocities, the maximum anywhere among them and elsewhere at the next frequency."""
    i = np.arange(n)
    c = 1. + ((7 * i * i + 3 * i) % 97) / 100. + 0j
    c[at] = 2.5 * sign
    d = c[::-1] * 3.
    return pick([tuple(c), tuple(d), tuple(c * 1e-3)], grid, "fdbf", False)


def units(tier):
    u = [dict(mode="large", n=n) for n in (65, 129, 257, 1030, 2100)]
    u += [dict(mode="col", first=i, grid=g, n=4) for i in range(len(AL)) for g in range(3)]
    u += [dict(mode="pair", first=i) for i in range(len(AL2))]
    u += [dict(mode="real", first=i) for i in range(len(REAL))]
    u += [dict(mode="near", first=i) for i in range(len(NEAR))] + [dict(mode="scale", e=e) for e in EXP]
    u += [dict(mode="plot", grid=g, norm=b) for g in range(2) for b in BY]
    u += [dict(mode="hist", a=a, b=b, deep=tier == "thorough") for a in OPS for b in OPS]
    if tier == "thorough":
        u += [dict(mode="col", first=i, grid=g, n=5) for i in range(len(AL)) for g in range(3)]
    return u


def run(u, ctx):
    if u["mode"] == "large":
        n = u["n"]
        for at in sorted({0, 1, n // 3, n // 2 + 1, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, n - 2, n - 1}):
            if at < n:
                for g, s in itertools.product(range(3), (1., -1., 1j)):
                    ctx.case(["large", n, at, g, str(s)], large, n, at, g, s)
    elif u["mode"] == "col":
        for c in itertools.product(AL, repeat=u["n"] - 1):
            c = (AL[u["first"]],) + c
            if unique(c):
                ctx.case([c, u["grid"]], pick, [c], u["grid"], "fdbf", True)
    elif u["mode"] == "pair":
        cols = [c for c in itertools.product(AL2, repeat=3) if unique(c)]
        for i, c in enumerate(cols):
            if c[0] == AL2[u["first"]]:
                for d in cols:
                    ctx.case([c, d], pick, [c, d], i % 3, "slantstack", False)
    elif u["mode"] == "hist":
        seqs = [(u["a"], u["b"])] + [(u["a"], u["b"], c) for c in OPS]
        if u["deep"]:
            seqs += [(u["a"], u["b"], c, d) for c in OPS for d in OPS]
        for i, q in enumerate(seqs):
            for k in range(3):
                ctx.case(["hist", q, k], history, q, ("fdbf", "slantstack")[i % 2], k)
    elif u["mode"] == "near":
        for c in itertools.product(NEAR, repeat=3):
            c = (NEAR[u["first"]],) + c
            if unique_strict(c):
                ctx.case(["near", c], pick, [c], 0, "fdbf", True)
    elif u["mode"] == "scale":
        for c in itertools.product(AL2, repeat=3):
            if unique(c):
                ctx.case(["scale", u["e"], c], pick, [tuple(x * u["e"] for x in c), c], 1, "fdbf", True)
    elif u["mode"] == "real":
        for c in itertools.product(REAL, repeat=3):
            c = (REAL[u["first"]],) + c
            if unique(c):
                ctx.case([c], pick, [c, c[::-1]], 1, "phaseshift", True)
    else:
        cols = [c for c in itertools.product(AL, repeat=3) if unique(c)]
        for k in range(9):
            ctx.case([k, u["grid"], u["norm"]], plot, cols[k * 11:k * 11 + 4], u["grid"], u["norm"])
