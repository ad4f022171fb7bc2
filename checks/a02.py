"""A02 derived geometry: every subset of a position alphabet, every source, before and after every offset trim."""
import itertools

import numpy as np

from mc.objs import array, obs, same_obs
from mc.util import ok, same, close, raises
from mc.explore import explore

RULE = ("initial states = every subset (with at least one sensor) of the position alphabet and every source position; transitions = offset "
        "trims; in every state all derived quantities are recomputed from the public sensor positions and reading is checked to change nothing")
BOUNDS = dict(quick="all non-empty subsets of {-3,0,1,2,3.5,5,10.25} plus uniform arrays with spacing 0.3..5 and 2..24 sensors, nearly uniform, far away (500 km) and 96-sensor ones; 6 source positions (beside the line and at other heights too); trim sequences to depth 1 (every eighth initial state: 2) over 8 ranges",
              thorough="adds two positions to the alphabet and depth 2 to 3")
ASSUMPTIONS = ["arrays whose spacings differ by less than 9 mm count as uniform, by more than 11 mm as non-uniform (the library tolerates 1 cm)"]
ALPHA = [-3., 0., 1., 2., 3.5, 5., 10.25]
SRC = [-10., -3., 0.4, 2., 10.25, 17.]
TRIMS = [(0., 100.), (1., 9.), (0.5, 6.), (3., 30.), (-1., 4.), (2., 5.5), (5., np.inf), (50., 60.)]


def invariant(w):
    a = w["o"]
    before = obs(a)
    xs = [s.x for s in a.sensors]
    sx = a.source.x
    n = len(xs)
    ok(xs == sorted(xs), "position order")
    p = a.position()
    same(p, xs, "position()")
    r = a.position(normalize=True)
    close(r, [x - xs[0] for x in xs], "relative position")
    off = a.offsets
    close(off, [abs(sx - x) for x in xs], "offsets")
    close(a.array_center_distance, sum(abs(sx - x) for x in xs) / n, "mean offset")
    ok(a.nchannels == n, "nchannels")
    ok(a._source_inside == (xs[0] < sx < xs[-1]) if hasattr(a, "_source_inside") else True, "source inside")
    if n > 1:
        d = [b - c for b, c in zip(xs[1:], xs)]
        close(a.kres, np.pi / min(d), "kres")
        if max(d) - min(d) < 9e-3:
            ok(min(d) - 0.005 - 1e-9 <= a.spacing <= max(d) + 0.005 + 1e-9, f"spacing {a.spacing} != {d[0]}")
        else:
            raises(ValueError, lambda: a.spacing, "spacing of a non-uniform array")
    # results are the caller's own
    p[:] = [99.] * n
    off[:] = [99.] * n
    r[:] = [99.] * n
    same_obs(obs(a), before, "reading changed the array")
    same(a.position(), xs, "position() after writing to an earlier result")


def step(w, t):
    a = w["o"]
    keep = [s.x for s, in zip(a.sensors) if t[0] < abs(a.source.x - s.x) < t[1]]
    if not keep:
        raises(ValueError, lambda: a.trim_offsets(*t), "no sensors left")
    else:
        a.trim_offsets(*t)
        same([s.x for s in a.sensors], keep, "sensors after trim_offsets")


def units(tier):
    alpha = ALPHA + ([-8.7, 14.] if tier == "thorough" else [])
    subs = [c for k in range(1, len(alpha) + 1) for c in itertools.combinations(alpha, k)]
    return [dict(subs=subs[i::16], depth=3 if tier == "thorough" else 2) for i in range(16)] + [dict(uniform=True, depth=2)]


def run(u, ctx):
    if u.get("uniform"):
        sets = [[x0 + d * i for i in range(n)] for x0 in (0., -4., 7.3) for d in (0.3, 0.5, 1., 2., 5.) for n in (2, 3, 12, 24)]
        sets += [[5e5 + 2. * i for i in range(12)], [-2e4 - 0.25 * i for i in range(5)][::-1], [0., 2.003, 4., 6.001, 8.], [0., 1., 2.02, 3.], [0., 1., 2., 3.012], [0., 5., 10.015, 15.], [0., 10., 20., 30.05, 40.], [0., 0.5, 1.004, 1.5], [0.01 * i for i in range(96)]]
    else:
        sets = u["subs"]
    for j, xs in enumerate(sets):
        for k, sx in enumerate(SRC):
            a = array(list(xs)[::-1] if k % 2 else list(xs), n=3, sx=sx, sy=[0., 7., -30.][(j + k) % 3], sz=[0., -1.5][j % 2], ys=[float(i) for i in range(len(xs))])
            explore(ctx, [([list(xs), sx], dict(o=a))], [list(t) for t in TRIMS],
                    u["depth"] if (j + k) % 8 == 0 else u["depth"] - 1, step, invariant)
