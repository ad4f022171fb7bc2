"""A09 interactive muting and picking against the non-interactive calls, for every script of clicks."""
import itertools
import warnings

import numpy as np
import matplotlib.pyplot as plt

from swprocess import Array1D

from mc.objs import array, obs, same_obs, close_obs
from mc.ui import User, Horizon
from mc.util import ok, close, raises

RULE = ("every sequence of clicked points from a set of five (with and without superseded extra clicks and empty selections), for both orientations, every mute location, window setting, delay, array and drawing (absolute or relative positions, own or given axes); "
        "lines, muted array, number of requests and picks compared with the clicks and with the non-interactive call on a copy")
BOUNDS = dict(quick="20 ordered point pairs for one line, 400 for both lines; 2 orientations; 2 delays; 5 arrays; window settings and click forms in rotation; picks: every sequence of up to 3 of 5 points, and sessions of 7 to 100 points",
              thorough="window settings and click forms as a full product; picks up to 4 points")
ASSUMPTIONS = ["the two points of one line have different distances (a vertical line gives no start time)"]

PTS = [(0., 0.5), (3., 1.25), (9., 0.25), (-2., 0.875), (5., 3.)]   # (distance, time)
WIN = [None, dict(alpha=0.), dict(alpha=1.), dict(alpha=0.5, sym=False)]


def scripted(clicks, seq):
    """User script: list of ginput answers; waits: blocking ones get answered by a key at once, timed ones per seq."""
    q = list(clicks)
    t = list(seq)

    def choose(kind):
        if kind == "ginput":
            if not q:
                raise Horizon()
            return q.pop(0)
        if kind == "block":
            return True
        if kind == "timed":
            return t.pop(0) if t else None
        raise AssertionError("unexpected request")
    return User(choose), q


GEO = [([0., 2., 5., 9.], 16, 0.25), ([10., 12., 15., 19.], 16, 0.25), ([-7.5 + 0.75 * i for i in range(13)], 64, 0.0625), ([250.25 + 0.4 * i for i in range(24)], 200, 0.02), ([1., 4., 9.], 30, 0.125)]


def mute(loc, p, kind, axis, delay, win, form, geo=0, rel=False, given=False):
    """geo: the array; rel: the waterfall is drawn relative to the first sensor; given: it is drawn on axes of the user."""
    xs, n, dt = GEO[geo]
    p = [(q[0] + xs[0], q[1]) for q in p]
    a = array(xs, n=n, dt=dt, delay=delay, recs=[np.arange(n) % 5 + 1. + k for k in range(len(xs))], nstacks=1 + geo)
    b = Array1D.from_array1d(a)
    d0 = xs[0] if rel else 0.
    oi = (lambda q: (q[0] - d0, q[1])) if axis == "y" else (lambda q: (q[1], q[0] - d0))
    clicks = []
    for i, q in enumerate(p):
        if form == 1 and i == 1:
            clicks.append([])
        if form == 2:
            clicks.append([oi((77., 66.)), oi(q)])
        elif form == 3 and i == 0:
            clicks.append([oi(p[-1]), oi((1., 2.)), oi(q)])
        else:
            clicks.append([oi(q)])
    user, left = scripted(clicks, [])
    wk = dict(time_ax=axis) if axis == "x" or form % 2 else None
    if rel:
        wk = dict(wk or {}, position_normalization=True)
    if given:
        wk = dict(wk or {}, ax=plt.subplots()[1])
    keep = None if wk is None else dict(wk)
    kwin = None if win is None else dict(win)
    with user.active(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            kw = {} if loc == "both" and form == 0 else dict(mute_location=loc)
            start, end = a.interactive_mute(window_kwargs=win, waterfall_kwargs=wk, **kw)
        except Horizon:
            raise AssertionError("more points requested than the lines need")
        finally:
            plt.close("all")
    ok(not left, f"{len(left)} clicks never asked for")
    ok(wk == keep and win == kwin, "arguments altered")
    want_s, want_e = {"before": ((p[0], p[1]), None), "after": (None, (p[0], p[1])), "both": ((p[0], p[1]), (p[2], p[3]) if len(p) > 2 else None)}[loc]

    def norm(l):
        return None if l is None else tuple(tuple(float(v) for v in q) for q in l)
    for got, want, nm in ((start, want_s, "start"), (end, want_e, "end")):
        ok((got is None) == (want is None), f"{nm} line {got}, clicked {want}")
        if want is not None:
            close(np.array(norm(got)), np.array(norm(want)), f"{nm} line", rtol=1e-12 if rel else 0, atol=1e-9 if rel else 0)
    want_s, want_e = start, end
    b.mute(signal_start=want_s, signal_end=want_e, window_kwargs=None if win is None else dict(win))
    close_obs(obs(a), obs(b), "interactively muted array", rtol=1e-12)
    return f"{loc} {norm(start)} {norm(end)}"


def pick(p, axis, exits, adj, form):
    a = array([0., 2., 5., 9.], n=16, delay=-0.5)
    before = obs(a)
    oi = (lambda q: q) if axis == "y" else (lambda q: (q[1], q[0]))
    clicks = [[oi((3., 3.)), oi(q)] if form == 1 else [oi(q)] for q in p]
    if form == 2:
        clicks.insert(1, [])
    seq = ([False] + [None] * 200)[:len(p) - 1] + [True]
    user, left = scripted(clicks, seq)
    wk = dict(time_ax="x") if axis == "x" else (None if form else dict(time_ax="y", position_normalization=True))
    if axis == "x" and len(p) % 2:
        wk = dict(time_ax="x", position_normalization=bool(form % 2), amplitude_scale=1.5)
    if sum(q[1] for q in p) > 3:
        wk = dict(wk or {}, ax=plt.subplots()[1])
    with user.active(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            d, t = a.manual_pick_first_arrivals(waterfall_kwargs=wk)
        except Horizon:
            raise AssertionError("picking did not end when the user left")
        finally:
            plt.close("all")
    ok(not left, "clicks never asked for")
    close(np.array(d, float), np.array([q[0] for q in p]), "distances")
    close(np.array(t, float), np.array([q[1] for q in p]), "times")
    same_obs(obs(a), before, "picking changed the array")
    return f"{p}"


def units(tier):
    full = tier == "thorough"
    u = [dict(mode="one", axis=ax, delay=d, loc=l, full=full) for ax in "xy" for d in (0., -0.75) for l in ("before", "after")]
    u += [dict(mode="both", axis=ax, delay=d, first=i, full=full) for ax in "xy" for i in range(20) for d in ((0., -0.75) if full else (-0.75 * ((i + "xy".index(ax)) % 2),))]
    u += [dict(mode="pick", axis=ax, n=4 if full else 3, first=i) for ax in "xy" for i in range(5)]
    u += [dict(mode="long", axis=ax) for ax in "xy"]
    return u


def run(u, ctx):
    pairs = [(PTS[i], PTS[j]) for i in range(5) for j in range(5) if i != j]
    if u["mode"] == "one":
        for (i, p), win, form in itertools.product(enumerate(pairs), WIN, range(4)):
            if not u["full"] and (i + WIN.index(win)) % 4 != form:
                continue
            g = (i + form + WIN.index(win)) % 5
            ctx.case([u["loc"], p, win, form], mute, u["loc"], list(p), None, u["axis"], u["delay"], win, form)
            ctx.case([u["loc"], p, win, form, g], mute, u["loc"], list(p), None, u["axis"], u["delay"], win, form, g, i % 2 == 0, i % 3 == 0)
    elif u["mode"] == "both":
        for i, q in enumerate(pairs):
            wf = itertools.product(WIN, range(4)) if u["full"] else [(WIN[(i + u["first"]) % 4], (i // 4 + u["first"]) % 4)]
            for win, form in wf:
                ctx.case([u["first"], q, win, form], mute, "both", list(pairs[u["first"]] + q), None, u["axis"], u["delay"], win, form, (i + u["first"]) % 5, (i + u["first"] // 2) % 2 == 0, i % 3 == 0)
    elif u["mode"] == "long":
        for n in (7, 12, 25, 51, 100):
            for form in range(3):
                ctx.case(["long", n, form], pick, [(0.25 * i, 0.125 * i - 0.5) for i in range(n)], u["axis"], None, None, form)
    else:
        for n in range(1, u["n"] + 1):
            for i, rest in enumerate(itertools.product(range(5), repeat=n - 1)):
                p = [PTS[u["first"]]] + [PTS[j] for j in rest]
                ctx.case([p, i % 3], pick, p, u["axis"], None, None, i % 3)
