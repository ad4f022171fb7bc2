"""S01 composition of suites: every sequence of constructors and appends, against a list of members."""
import itertools
import json
import os

import numpy as np

from swprocess import Peaks, PeaksSuite

from mc.explore import explore
from mc.refpeaks import Ref
from mc.util import ok, raises

RULE = ("breadth-first search over histories of constructors (from one object, iterables, dictionaries, files, other suites) and appends of valid, duplicate and foreign objects, "
        "compared after every step with a list of members: order, identity, identifiers, length, indexing, iteration; a refused operation must leave the suite as it was")
BOUNDS = dict(quick="5 peaks (two pairs sharing an identifier), 9 foreign objects, every constructor over every list of up to 3 of them, then every sequence of 3 appends; suites of 6..40 members with each identifier repeated",
              thorough="every sequence of 5 appends; constructors over lists of up to 4")
ASSUMPTIONS = ["members are not renamed after they were added", "dictionaries list their members in insertion order"]


def pool():
    return [Ref([4, 8], [100, 200], "a"), Ref([4, 8], [300, 200], "b"), Ref([1], [50], "a"), Ref([], [], "c"), Ref([[4, 8], [4, 8]], [[1, 2], [3, 4]], "1")]


FOREIGN = [None, 0, "a", [1, 2], {"frequency": [1], "velocity": [2]}, np.array([1., 2.]), "Peaks", "suite", "duck"]


class Duck:
    identifier = "z"
    frequency = velocity = np.array([1.])


def foreign(k, ps):
    f = FOREIGN[k]
    if isinstance(f, str) and f == "Peaks":
        return Peaks
    if isinstance(f, str) and f == "suite":
        return PeaksSuite(ps[1])
    if isinstance(f, str) and f == "duck":
        return Duck()
    return f


def agree(w):
    s, mem = w["suite"], w["members"]
    ps, refs = w["ps"], w["refs"]
    ok(len(s) == len(mem) == len(s.peaks) == len(s.ids), f"length {len(s)}, {len(s.peaks)} members, {len(s.ids)} identifiers, expected {len(mem)}")
    ok([str(i) for i in s.ids] == [refs[k].id for k in mem], f"identifiers {s.ids}, expected {[refs[k].id for k in mem]}")
    for i, k in enumerate(mem):
        refs[k].agree(s[i], f"member {i}")
        ok(s[i] is s.peaks[i] and s[i - len(mem)] is s[i], "indexing")
        if w.get("same", True):
            ok(s[i] is ps[k], f"member {i} is not the object added")
    ok([p.identifier for p in s] == [refs[k].id for k in mem], "iteration")
    raises(IndexError, lambda: s[len(mem)], "index beyond the last member")


def step(w, act):
    s, ps, refs = w["suite"], w["ps"], w["refs"]
    if act[0] == "append":
        k = act[1]
        if refs[k].id in [refs[j].id for j in w["members"]]:
            raises(KeyError, lambda: s.append(ps[k]), "append of an identifier already present")
        else:
            s.append(ps[k])
            w["members"].append(k)
    else:
        raises(TypeError, lambda: s.append(foreign(act[1], ps)), "append of a foreign object")
    agree(w)


ACTS = [["append", k] for k in range(5)] + [["foreign", k] for k in range(len(FOREIGN))]


def build(how, lists, tmp=None):
    """Returns the world, or None when the constructor has to refuse."""
    refs = pool()
    ps = [r.impl() for r in refs]
    flat = [k for l in lists for k in l]
    ids = [refs[k].id for k in flat]
    dup = len(set(ids)) != len(ids)
    w = dict(ps=ps, refs=refs, members=flat, same=how not in ("dict", "json", "dicts"))
    tab = lambda k: {a: v.tolist() for a, v in refs[k].tab.items()}      # noqa: E731

    def make():
        if how == "one":
            return PeaksSuite(ps[flat[0]])
        if how == "list":
            return PeaksSuite.from_peaks([ps[k] for k in flat])
        if how == "tuple":
            return PeaksSuite.from_peaks(tuple(ps[k] for k in flat))
        if how == "dicts":
            return PeaksSuite.from_dict([{refs[k].id: tab(k)} for k in flat])
        if how == "dict":
            return PeaksSuite.from_dict({refs[k].id: tab(k) for k in flat})
        if how == "json":
            fns = []
            for i, k in enumerate(flat):
                fns.append(os.path.join(tmp, f"{i}.json"))
                with open(fns[-1], "w") as f:
                    json.dump({refs[k].id: tab(k)}, f)
            return PeaksSuite.from_json(fns)
        if how == "suites":
            w["parts"] = [PeaksSuite.from_peaks([ps[k] for k in l]) for l in lists]
            return PeaksSuite.from_peakssuite(w["parts"])
        if how == "suitetuple":
            w["parts"] = [PeaksSuite.from_peaks([ps[k] for k in l]) for l in lists]
            return PeaksSuite.from_peakssuite(tuple(w["parts"]))
        if how == "suite":
            w["parts"] = [PeaksSuite.from_peaks([ps[k] for k in flat])]
            return PeaksSuite.from_peakssuite(w["parts"][0])
    if dup and how == "suites" and any(len({refs[k].id for k in l}) != len(l) for l in lists):
        return None
    if how == "suite" and dup:
        return None
    if dup and how != "dict":
        raises(KeyError, make, f"{how} of {ids}")
        return None
    if dup:
        return None
    w["suite"] = make()
    agree(w)
    return w


def parts_untouched(w, lists):
    """Building from suites and appending to the result leaves the suites it was built from alone."""
    refs, ps = w["refs"], w["ps"]
    for k in range(5):
        if refs[k].id not in [refs[j].id for j in w["members"]]:
            w["suite"].append(ps[k])
            w["members"].append(k)
    agree(w)
    for part, l in zip(w["parts"], lists):
        agree(dict(w, suite=part, members=list(l)))


def case_build(how, lists, tmp):
    w = build(how, lists, tmp)
    if w is None:
        return f"{how} refused"
    if "parts" in w:
        parts_untouched(w, lists)
    return f"{how} {w['members']}"


def list_independent(how):
    """The list given to the constructor stays the caller's."""
    refs = pool()
    ps = [r.impl() for r in refs]
    l = [ps[0], ps[1]]
    s = PeaksSuite.from_peaks(l)
    s.append(ps[3])
    ok(len(l) == 2, "the caller's list grew")
    l.append(ps[4])
    ok(len(s) == 3 and list(s.ids) == ["a", "b", "c"], "the suite follows the caller's list")


def many(n, how):
    """Suites of many members: every repeated identifier is refused, wherever the first one stands."""
    refs = [Ref([4, 8], [100 + k, 200], f"m{k}") for k in range(n)]
    ps = [r.impl() for r in refs]
    s = PeaksSuite(ps[0])
    if how == "append":
        for p in ps[1:]:
            s.append(p)
    elif how == "peaks":
        s = PeaksSuite.from_peaks(ps)
    else:
        s = PeaksSuite.from_peakssuite([PeaksSuite.from_peaks(ps[:n // 2]), PeaksSuite.from_peaks(ps[n // 2:])])
    w = dict(suite=s, ps=ps, refs=refs, members=list(range(n)))
    agree(w)
    for k in range(n):
        other = Ref([1], [50 + k], f"m{k}").impl()
        raises(KeyError, lambda: s.append(other), f"identifier of member {k} of {n}")
        raises(KeyError, lambda: s.append(ps[k]), f"member {k} of {n} again")
        if n < 20:
            raises(KeyError, lambda: PeaksSuite.from_peaks(ps + [other]), f"identifier of member {k} of {n}")
            raises(KeyError, lambda: PeaksSuite.from_peakssuite([s, PeaksSuite(other)]), f"identifier of member {k} of {n}")
        agree(w)


def bad_ctor(k):
    refs = pool()
    ps = [r.impl() for r in refs]
    f = foreign(k, ps)
    raises(TypeError, lambda: PeaksSuite(f), "suite of a foreign object")
    raises(TypeError, lambda: PeaksSuite.from_peaks([ps[0], f]), "foreign object in second place")
    raises(TypeError, lambda: PeaksSuite.from_peaks([ps[0], ps[1], f]), "foreign object in third place")


def lists_for(how, n):
    import itertools as it
    out = []
    if how == "one":
        return [[[k]] for k in range(5)]
    for m in range(1, n + 1):
        for c in it.product(range(5), repeat=m):
            if how in ("suites", "suitetuple"):
                for cut in range(1, m + 1):
                    out.append([list(c[:cut])] + ([list(c[cut:])] if cut < m else []))
                if m == 3:
                    out.append([[c[0]], [c[1]], [c[2]]])
            else:
                out.append([list(c)])
    return out


HOWS = ["one", "list", "tuple", "dict", "dicts", "json", "suites", "suitetuple", "suite"]


def units(tier):
    n = 3 if tier == "quick" else 4
    return [dict(mode="ctor", how=h, n=n) for h in HOWS] + [dict(mode="hist", how=h, depth=3 if tier == "quick" else 5) for h in HOWS] + [dict(mode="bad")]


def run(u, ctx):
    if u["mode"] == "ctor":
        for l in lists_for(u["how"], u["n"]):
            ctx.case([u["how"], l], case_build, u["how"], l, ctx.tmp)
    elif u["mode"] == "hist":
        worlds = []
        for l in lists_for(u["how"], 2):
            w = build(u["how"], l, ctx.tmp)
            if w is not None:
                w.pop("parts", None)
                worlds.append(([u["how"], l], w))
        explore(ctx, worlds, ACTS, u["depth"], step, agree)
    else:
        for k in range(len(FOREIGN)):
            ctx.case(["foreign", k], bad_ctor, k)
        for n, how in itertools.product((6, 11, 14, 40, 130), ("append", "peaks", "suites")):
            ctx.case(["many", n, how], many, n, how)
        ctx.case(["list"], list_independent, 0)
