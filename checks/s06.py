"""S06 histories on suites: whatever was rejected, appended, saved, merged, computed or drawn before, the answers are those of the members' retained peaks."""
import json
import os

import numpy as np

from swprocess import PeaksSuite

from checks import s03, s05
from mc.explore import explore
from mc.refpeaks import Ref, NAN
from mc.util import ok, same, close, raises

RULE = ("breadth-first over histories of suite and single-member rejections, appends (accepted and refused), merges (the merged suites keep their members), file round trips, statistics and plots; in every reached state "
        "the table, statistics, simplified curves, comparison, file contents and plot of the suite are compared with the list of reference tables")
BOUNDS = dict(quick="4 initial suites (1 to 4 members, one- and two-dimensional), 17 actions, all histories to depth 3 with the cheap observations in every state and the plot and file in states to depth 2; suites of 60 and 130 members built four ways through a five-step history",
              thorough="all histories to depth 4; suites of 300 members")
ASSUMPTIONS = ["members are not renamed after they were added"]


def pool():
    return dict(
        a=Ref([2, 4, 8, 16, 32], [400, 300, 220, 180, 150], "a", power=[1, 2, 3, 4, 5]),
        b=Ref([16, 2, 32, 4, 8], [185, 410, 148, 296, 215], "b", power=[1, 1, 2, 3, 4]),
        c=Ref([[2, 4, 8, 16], [2, 4, 8, NAN]], [[380, 280, 240, 190], [500, 320, 210, NAN]], "c", power=[[1, 3, 1, 1], [2, 1, 2, NAN]]),
        d=Ref([3, 6, 12, 24], [350, 260, 200, 160], "d", power=[4, 3, 2, 1], valid=[True, False, True, True]),
        e=Ref([2, 4, 8, 20], [420, 310, 230, 170], "e", power=[1, 1, 1, 1]),
        f=Ref([5, 7], [290, 235], "a", power=[1, 2]))


INIT = ["a", "abc", "dcb", "abcd"]
XX = {"frequency": [1., 2., 3., 5.5, 8., 10., 16., 24., 40.], "wavelength": [190., 93., 61., 27., 13.3, 8.1, 3.]}
ACTS = ([["lim", "frequency", 3.5, None], ["lim", "velocity", None, 305.], ["lim", "wavelength", 7., 120.], ["lim", "power", None, 3.5], ["box", "frequency", (3., 9.), "velocity", (215., 299.)],
         ["box", "wavelength", (20., 40.), "slowness", (0., 1.)], ["mlim", 0, "frequency", None, 20.], ["mbox", -1, "frequency", (7., 13.), "velocity", (0., 999.)],
         ["append", "e"], ["append", "f"], ["append", "d"], ["merge"], ["join", "e"], ["json"], ["stat", "frequency"], ["stat", "wavelength"], ["plot"]])


def do(w, a):
    s, refs = w["s"], w["refs"]
    op = a[0]
    if op == "lim":
        s.reject_limits_outside(a[1], (a[2], a[3]))
        for r in refs:
            r.valid = r.valid & ~r.limits(a[1], a[2], a[3])
    elif op == "box":
        s.reject_box_inside(*a[1:])
        for r in refs:
            r.valid = r.valid & ~r.inside(*a[1:])
    elif op == "mlim":
        s[a[1]].reject_limits_outside(a[2], (a[3], a[4]))
        refs[a[1]].valid = refs[a[1]].valid & ~refs[a[1]].limits(a[2], a[3], a[4])
    elif op == "mbox":
        s[a[1]].reject_box_inside(*a[2:])
        refs[a[1]].valid = refs[a[1]].valid & ~refs[a[1]].inside(*a[2:])
    elif op == "append":
        r = pool()[a[1]]
        if r.id in [q.id for q in refs]:
            raises(KeyError, lambda: s.append(r.impl()), "identifier already present")
        else:
            s.append(r.impl())
            refs.append(r)
    elif op == "merge":
        w["old"] = w["old"] + [(s, [r.id for r in refs])]
        w["s"] = PeaksSuite.from_peakssuite([s])
    elif op == "join":
        r = pool()[a[1]]
        if r.id in [q.id for q in refs]:
            raises(KeyError, lambda: PeaksSuite.from_peakssuite([s, PeaksSuite(r.impl())]), "identifier already present")
        else:
            b = PeaksSuite(r.impl())
            w["old"] = w["old"] + [(s, [r.id for r in refs]), (b, [r.id])]
            w["s"] = PeaksSuite.from_peakssuite([s, b])
            refs.append(r)
    elif op == "json":
        fn = os.path.join(os.getcwd(), "s06.json")
        s.to_json(fn)
        w["s"] = PeaksSuite.from_json(fn)
        os.remove(fn)
    elif op == "stat":
        if len(refs) > 2:
            s.statistics("frequency" if a[1] == "frequency" else "wavelength", "velocity", XX[a[1]], ignore_corr=False, drop_sample_if_fewer_count=1)
        else:
            s.to_array(a[1], "velocity", XX[a[1]])
    elif op == "plot":
        ax = s05.axes(1)
        s.plot(ax=ax[0])


def invariant(w):
    s, refs = w["s"], w["refs"]
    ok(len(s) == len(refs), f"{len(s)} members, expected {len(refs)}")
    for i, r in enumerate(refs):
        r.agree(s[i], f"member {i}")
        for d in ("frequency", "velocity"):
            close(np.asarray(s[i].simplify_mpeaks(d), float), s03.points(r, d), f"simplified {d} of member {i}", rtol=1e-12)
    for o, ids in w["old"]:
        ok(len(o) == len(ids) == len(o.ids) and [p.identifier for p in o] == ids == list(o.ids), f"a suite that was merged before now holds {[p.identifier for p in o]}, expected {ids}")
    given = [r.impl() for r in refs]
    f = PeaksSuite.from_peaks(given)
    ok(len(given) == len(refs), "the list of members given was changed")
    ok(s == f and f == s, "differs from a new suite of the same members")
    for xd in ("frequency", "wavelength"):
        xx = s03.clear_of_edges(refs, xd, XX[xd])
        full = np.array([s03.interpolate(r, xd, "velocity", np.array(xx)) for r in refs])
        _, arr = s.to_array(xd, "velocity", xx)
        close(arr, full, f"table over {xd}", rtol=1e-12)
        if len(refs) > 2:
            for count in (2, 3):
                out = s.statistics(xd, "velocity", xx, ignore_corr=True, drop_sample_if_fewer_count=count)
                n = np.sum(~np.isnan(full), axis=0)
                cols = np.flatnonzero(n >= count)
                same(np.array(out[0], float), np.array(xx)[cols], f"locations over {xd}")
                if len(cols):
                    m = full[:, cols]
                    close(out[1], np.array([np.mean(c[~np.isnan(c)]) for c in m.T]), f"mean over {xd}", rtol=1e-12)
                    close(out[2], np.array([np.std(c[~np.isnan(c)], ddof=1) for c in m.T]), f"standard deviation over {xd}", rtol=1e-9)
    for i, r in enumerate(refs):
        r.agree(s[i], f"member {i} after reading")
    w["n"] = min(w["n"] + 1, 4)
    if w["n"] <= 3:
        ax = s05.axes(1)
        s.plot(xtype="frequency", ytype="velocity", ax=ax[0])
        s05.lines_of(ax[0], refs, "frequency", "velocity", None, [{}] * len(refs), "plot")
        A, B = (os.path.join(os.getcwd(), k) for k in ("s06a.json", "s06b.json"))
        s.to_json(A)
        f.to_json(B)
        with open(A) as x, open(B) as y:
            da, db = json.load(x), json.load(y)
        os.remove(A), os.remove(B)
        ok(list(da) == list(db), f"file lists {list(da)}, expected {list(db)}")
        for k in da:
            r = next(q for q in refs if q.id == k)
            for d in r.tab:
                same(np.array(da[k][d], float), r.tab[d], f"{d} of {k} in the file")
            same(np.array(da[k]["valid"], bool), r.valid, f"retained peaks of {k} in the file")


def large(n, how, tmp):
    """A suite of many members: every one is reached by a rejection, a merge and a file."""
    refs = [Ref([2 + k / n, 5 + k / n, 11 + k / n, 23 + k / n], [400 - k, 310 - k, 230 - k / 2, 170 - k / 4], f"m{k}", power=[1 + k % 4, 2, 3, 4]) for k in range(n)]
    if how == "merge":
        h = n // 2
        s = PeaksSuite.from_peakssuite([PeaksSuite.from_peaks([r.impl() for r in refs[:h]]), PeaksSuite.from_peaks([r.impl() for r in refs[h:]])])
    elif how == "append":
        s = PeaksSuite(refs[0].impl())
        for r in refs[1:]:
            s.append(r.impl())
    else:
        s = PeaksSuite.from_peaks([r.impl() for r in refs])
    w = dict(s=s, refs=refs, n=9, old=[])
    invariant(w)
    if how == "file":
        do(w, ["json"])
        invariant(w)
    for a in (["lim", "frequency", 2.6, 23.8], ["box", "frequency", (5., 5.7), "velocity", (0., 280.)], ["mlim", n - 1, "power", 2.5, None], ["box", "wavelength", (15., 25.), "slowness", (0., 1.)], ["append", "e"]):
        do(w, a)
        invariant(w)
    return how


def units(tier):
    big = [dict(large=n, how=h) for n in ((60, 130) if tier == "quick" else (60, 130, 300)) for h in ("list", "merge", "append", "file")]
    return big + [dict(init=i, first=k, depth=4 if tier == "thorough" else 3) for i in INIT for k in range(len(ACTS))]


def run(u, ctx):
    if "large" in u:
        ctx.case([u["large"], u["how"]], large, u["large"], u["how"], ctx.tmp)
        return
    refs = [pool()[k] for k in u["init"]]
    w = dict(s=PeaksSuite.from_peaks([r.impl() for r in refs]), refs=refs, n=0, old=[])

    def st(w, a):
        do(w, a)
        invariant(w)
    if ctx.case([u["init"], ACTS[u["first"]]], lambda: (invariant(w), st(w, ACTS[u["first"]]), u["init"])[-1]):
        explore(ctx, [(f"{u['init']}:{ACTS[u['first']]}", w)], ACTS, u["depth"] - 1, st)
