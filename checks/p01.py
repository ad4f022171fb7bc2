"""P01 rejections: every history of limits and box rejections in every domain, in lockstep with masks of the full table."""
import itertools
import warnings

import numpy as np

from swprocess import PeaksSuite

from mc.explore import explore
from mc.refpeaks import members, wide, Ref, NAN
from mc.util import ok

RULE = ("breadth-first search over histories of limits and box rejections (limits at, between and beyond the data values of each domain, one- and two-sided, "
        "reversed and infinite box ranges), on single objects and on suites, compared after every step with the mask computed directly on the full table")
BOUNDS = dict(quick="10 objects (1-D, 2-D, missing values, already rejected, decimal values) 3 tables of 72 frequencies, one of 1200, and 6 suites (3 to 13 members); every action once, and depth 3 over a coarser alphabet of actions",
              thorough="full alphabet at depth 2, and depth 4 over the coarse alphabet")
ASSUMPTIONS = ["limits of a limits rejection are given in increasing order", "limits equal to derived data values are used where those are exact (dyadic tables); wavenumber limits lie between data values"]


def dyadic(r):
    return all(float(x) == round(float(x)) for k in ("frequency", "velocity") for x in r.tab[k].ravel() if np.isfinite(x))


def grid(refs, d):
    v = sorted({float(x) for r in refs if d in r.domains() for x in r.values(d) if np.isfinite(x)})
    if not v:
        return [0., 1.]
    if len(v) > 6:                      # coarser between the values of longer tables
        mids = [(a + b) / 2 for a, b in zip(v, v[1:])][::3]
        return sorted(set(mids + [v[0] - abs(v[0]) / 2 - 1, v[-1] * 1.5 + 1] + (v[::2] if d in refs[0].tab else [])))
    mids = [(a + b) / 2 for a, b in zip(v, v[1:])]
    out = mids + [v[0] - abs(v[0]) / 2 - 1, v[-1] * 1.5 + 1]
    if d in refs[0].tab or (d != "wavenumber" and all(dyadic(r) for r in refs)):
        out += v
    return sorted(set(out))


def common(refs):
    return [d for d in refs[0].domains() if all(d in r.domains() for r in refs)]


def alphabet(refs, coarse):
    acts = []
    ds = common(refs)
    for d in ds:
        g = grid(refs, d)
        if coarse:
            k = len(g) // 2
            acts += [["limits", d, None, g[k]], ["limits", d, g[k - 1], None], ["limits", d, g[0] if k < 2 else g[1], g[-2]]]
        else:
            acts += [["limits", d, None, x] for x in g] + [["limits", d, x, None] for x in g]
            acts += [["limits", d, a, b] for a, b in itertools.combinations_with_replacement(g, 2)]
    acts.append(["limits", "velocity", None, None])
    pairs = list(itertools.permutations(ds, 2)) + [(d, d) for d in ds]
    for i, (a, b) in enumerate(pairs):
        ga, gb = grid(refs, a), grid(refs, b)
        if coarse:
            if i % 3:
                continue
            ka, kb = len(ga) // 2, len(gb) // 2
            acts += [["box", a, [ga[0], ga[ka]], b, [gb[-1], gb[0]]], ["box", a, [ga[-1], ga[ka - 1]], b, [gb[kb - 1], gb[-1]]]]
        else:
            full = a in ("frequency", "wavelength") and b in ("velocity", "slowness", "azimuth", "power")
            xs = list(itertools.combinations(ga, 2)) if full else [(ga[0], ga[-1]), (ga[len(ga) // 2], ga[0])]
            ys = list(itertools.combinations(gb, 2)) if full else [(gb[0], gb[-1]), (gb[-1], gb[len(gb) // 2])]
            for j, (x, y) in enumerate(itertools.product(xs, ys)):
                x = x[::-1] if j % 3 == 1 else x
                y = y[::-1] if j % 3 == 2 else y
                acts.append(["box", a, list(x), b, list(y)])
            acts += [["box", a, [float("-inf"), float("inf")], b, list(ys[0])], ["box", a, [ga[0]] * 2, b, list(ys[0])]]
    return acts


def step(w, act):
    o, refs = w["impl"], w["refs"]
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        if act[0] == "limits":
            lim = (act[2], act[3])
            o.reject_limits_outside(act[1], lim)
            hit = [r.limits(act[1], *lim) for r in refs]
            if lim == (None, None):
                ok(ws, "no warning that the limits reject nothing")
        else:
            o.reject_box_inside(*act[1:])
            hit = [r.inside(*act[1:]) for r in refs]
    for r, h in zip(refs, hit):
        r.valid = r.valid & ~h
    agree(w)


def agree(w):
    o, refs = w["impl"], w["refs"]
    ps = [o] if not isinstance(o, PeaksSuite) else [o[i] for i in range(len(o))]
    ok(len(ps) == len(refs), "number of members")
    for p, r in zip(ps, refs):
        r.agree(p)


def world(name):
    m = {**members(), **wide()}
    for k, n in (("d1b", "d1"), ("onec", "one"), ("d2e", "d2")):      # members of their own name
        m[k] = members()[n]
        m[k].id = k
    k = np.arange(1200)
    m["huge"] = Ref(1. + 0.25 * k, 900. / (1 + 0.01 * k) + 3 * (-1.) ** k, "huge", azimuth=(37. * k) % 360)
    refs = [m[n] for n in name.split("+")]
    ps = [r.impl() for r in refs]
    return dict(impl=ps[0] if len(ps) == 1 else PeaksSuite.from_peaks(ps), refs=refs)


NAMES = ["d1", "d1nan", "d1all", "d2", "d2rej", "one", "none", "d1+d2+d1nan", "d1all+one+d2", "dec", "big", "allrej", "dec+big+d1", "big+allrej+dec"]
LONG = "d1+d1nan+d1all+d2+d2rej+one+none+dec+big+allrej+d1b+onec+d2e"


def units(tier):
    u = [dict(name=n, mode="full", depth=1) for n in NAMES]
    u += [dict(name=n, mode="coarse", depth=3 if tier == "quick" else 4) for n in NAMES]
    u += [dict(name=LONG, mode="coarse", depth=2)]
    u += [dict(name=n, mode="coarse", depth=2) for n in ("wide1", "wide4", "widerej", "wide4+d2+wide1+widerej", "huge")]
    if tier == "thorough":
        for n in NAMES:
            k = len(alphabet(world(n)["refs"], False))
            u += [dict(name=n, mode="second", part=i, parts=8) for i in range(8)] if k > 60 else [dict(name=n, mode="full", depth=2)]
    return u


def run(u, ctx):
    refs = world(u["name"])["refs"]
    if u["mode"] == "second":
        acts = alphabet(refs, False)
        for i, a in enumerate(acts):
            if i % u["parts"] == u["part"]:
                w = world(u["name"])
                step(w, a)
                explore(ctx, [([u["name"], a], w)], acts, 1, step, agree)
        return
    explore(ctx, [(u["name"], world(u["name"]))], alphabet(refs, u["mode"] == "coarse"), u["depth"], step, agree)
