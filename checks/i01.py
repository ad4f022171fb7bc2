"""I01 point-picking sessions: every sequence of user events up to the horizon, in lockstep with a reference session."""
import itertools
import warnings

import numpy as np
import matplotlib.pyplot as plt

from swprocess.interact import ginput_session

from mc.ui import User, Chooser, Horizon
from mc.util import ok

RULE = ("the session runs against a scripted user; depth-first enumeration of every user event (selection of 0, 1, 2 or 5 points; key press, mouse press or no press at each wait) "
        "up to the horizon, for every option combination; results and the order and kind of every request for an event compared with the reference session")
BOUNDS = dict(quick="8 (npts) x 4 option combinations x 2 message settings; horizon of 7 events; sessions of 10, 51 and 150 points with up to 32 clicks in a selection", thorough="horizon of 9 events")
ASSUMPTIONS = ["a wait is told by its time-out: with a positive time-out it asks whether to exit, otherwise it pauses until a key press"]

A, B, C, D = (0.25, 1.5), (-3.0, 0.125), (7.0, 0.0), (0.0, 0.0)
ALPHA = dict(ginput=[[], [A], [B, C], [C, A, B, C, D], [D]], block=[True, False], timed=[None, True, False])


def model(opts, events):
    """Reference session over the recorded events; returns the number and kind of requests and the result (None if it needs more)."""
    it = iter(events)
    kinds = []

    def ask(kind):
        kinds.append(kind)
        try:
            k, v = next(it)
        except StopIteration:
            raise Horizon()
        ok(k == kind, f"the session asked for '{k}' where '{kind}' is due, after {kinds[:-1]}")
        return v
    try:
        if opts["initial_adjustment"]:
            while not ask("block"):
                pass
        pts = []
        while len(pts) < opts["npts"]:
            v = ask("ginput")
            if not v:
                continue
            pts.append(v[-1])
            if opts["ask_to_continue"]:
                while not ask("block"):
                    pass
            if ask("timed"):
                break
        rest = list(it)
        ok(not rest, f"the session asked for more events than due: {rest}")
        return pts
    except Horizon:
        return None


def long(n, npts, atc, stop):
    """A session of many points, with an empty selection and presses in between, until the user stops or the number asked for is reached."""
    fig, ax = plt.subplots()
    count = dict(ginput=0, block=0, timed=0)
    points = []

    def choose(kind):
        count[kind] += 1
        if len(points) > n + 5:
            raise Horizon()
        if kind == "ginput":
            if count[kind] % 7 == 3:
                return []
            points.append((count[kind] * 0.5, count[kind] ** 2 * 0.01))
            return [(0.5 * k, -1. * k) for k in range((0, 2, 5, 12, 31)[count[kind] % 5])] + points[-1:]
        return count[kind] % 3 != 1 if kind == "block" else (True if stop and len(points) >= n else False if count[kind] % 2 else None)
    with User(choose).active(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            xs, ys = ginput_session(ax, npts=npts, initial_adjustment=atc, ask_to_continue=atc)
        except Horizon:
            raise AssertionError(f"the session goes on after {len(points)} points")
    plt.close(fig)
    ok(len(points) == n and list(zip(xs, ys)) == points, f"{len(xs)} points returned, {n} given")
    return f"{n}"


def units(tier):
    return [dict(mode="long", n=n) for n in (10, 51, 150)] + [dict(ia=a, atc=b, npts=n, msg=m, first=f, horizon=9 if tier == "thorough" else 7)
            for a, b in itertools.product((True, False), repeat=2) for n in (1, 2, 3, "inf") for m in (False, True)
            for f in ((0, 1) if a else range(5))]


def run(u, ctx):
    if u.get("mode") == "long":
        for atc in (False, True):
            for npts, stop in ((np.inf, True), (u["n"], False), (u["n"] + 40, True)):
                ctx.case([u["n"], npts, atc, stop], long, u["n"], npts, atc, stop)
        return
    fig, ax = plt.subplots()
    opts = dict(initial_adjustment=u["ia"], ask_to_continue=u["atc"], npts=np.inf if u["npts"] == "inf" else u["npts"])
    if u["msg"]:
        opts.update(initial_adjustment_message="adjust", ask_to_continue_message="more?")
    h = u["horizon"] - (2 if u["msg"] else 0)
    ch = Chooser(ALPHA, h)
    key = "block" if u["ia"] else "ginput"
    for _ in ch.runs():
        # the first event is fixed by the unit: runs starting otherwise belong to other units
        if ch.prefix and ch.prefix[0][1] != u["first"]:
            if ch.prefix[0][1] < u["first"]:
                ch.prefix[:] = [[key, u["first"]]]
            else:
                break
        elif not ch.prefix:
            ch.prefix[:] = [[key, u["first"]]]
        user = User(ch.choose)

        def go():
            res = None
            with user.active(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    res = ginput_session(ax, **opts)
                except Horizon:
                    pass
            want = model(opts, user.trace)
            if res is None:
                ok(want is None, f"the session goes on where it should have ended with {want}")
                return "open " + str(len(user.trace))
            ok(want is not None, f"the session ended with {res}, too early")
            xs, ys = res
            ok(list(zip(xs, ys)) == want and len(xs) == len(ys) == len(want), f"session returned {res}, expected {want}")
            return str(want)
        try:
            r = go()
        except AssertionError as e:
            ctx.transitions += len(user.trace)
            ctx.fail(str(e), trace=[u, user.trace])
        else:
            ctx.transitions += len(user.trace)
            ctx.validated += 1
            ctx.state(repr(user.trace))
            ctx.outcome(r)
            ctx.sample(user.trace)
        for a in list(ax.texts) + list(ax.lines):
            a.remove()
    plt.close(fig)
