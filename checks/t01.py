"""T01 stacking histories: BFS over stack operations on real records against a weighted-sum model."""
import copy

import numpy as np
from sigpropy import TimeSeries

from mc.explore import explore
from mc.objs import ats, sensor, obs, same_obs
from mc.util import ok, close, wave, raises

RULE = ("state = complete attributes of all live records + model (weighted sum, count) of each; transition = one "
        "stack_append (accepted or refused) on the real object; after each: amplitude/count against the model, every "
        "other record and every refused target observed unchanged")
BOUNDS = dict(quick="2 targets x 12-16 sources (3 compatible with counts 1,2,5; self and cross; 7-11 incompatible): all "
                    "histories to depth 3 (2 for lengths 2, 64); compatible-only to depth 5; every single source repeated 20 times; counts of 300, 70000 and 3e9 to depth 3; classes, "
                    "lengths 2/5/64/4097, delays 0/-0.5/after trim",
              thorough="mixed depth 3 for all lengths, compatible-only depth 7")
ASSUMPTIONS = ["sample values outside the enumerated families behave alike (the code is data-oblivious there)"]


def build(kind, n, delay, trimmed):
    def mk(k, ns, **kw):
        amp = wave(k, kw.pop("n", n))
        a = dict(dt=0.25, nstacks=ns, delay=delay)
        a.update(kw)
        pos = {q: a.pop(q) for q in "xyz" if q in a}
        o = sensor(amp, x=pos.get("x", 2.), y=pos.get("y", 1.), z=pos.get("z", 0.5), **a) if kind == "sensor" else ats(amp, **a)
        if trimmed:
            t = o.time
            o.trim(t[1], t[-2])
        return o
    recs = dict(A=mk(0, 1), B=mk(1, 3), p1=mk(2, 1), p2=mk(3, 2), p5=mk(4, 5), p300=mk(5, 300), p7e4=mk(6, 70000), p3e9=mk(7, 3 * 10**9))
    bad = dict(longer=mk(2, 1, n=n + 3), dt=mk(2, 1, dt=0.5), dt2=mk(2, 1, dt=0.2501), dt3=mk(2, 1, dt=0.2500001), delay3=mk(2, 1, delay=delay - 1e-6),
               delay=mk(2, 1, delay=delay - 0.25))
    if n > 3 and not trimmed:
        bad["single"] = mk(2, 1, n=1)
    if n > 3:
        bad["shorter"] = mk(2, 1, n=n - 1 if not trimmed else n - 1)
    if kind == "sensor":
        bad.update(x3=mk(2, 1, x=2.000001), x=mk(2, 1, x=2.5), y=mk(2, 1, y=0.), z=mk(2, 1, z=0.), plain=ats(recs["p1"].amplitude, delay=delay) if delay <= 0 else None)
        if bad["plain"] is None:
            del bad["plain"]
    else:
        # a sensor is an active time series: it may be stacked on a plain record
        s = sensor(wave(5, n), nstacks=2, delay=delay, x=3.)
        if trimmed:
            t = s.time
            s.trim(t[1], t[-2])
        recs["sens"] = s
    bad.update(none=None, array=np.array(recs["p1"].amplitude), ts=TimeSeries(recs["p1"].amplitude, 0.25))
    model = {k: (np.array(r.amplitude) * r.nstacks, r.nstacks) for k, r in recs.items()}
    return dict(r=recs, bad=bad, m=model)


FROZEN = {}
LARGE = ("p300", "p7e4", "p3e9")


def quick_obs(r):
    return (np.array(r.amplitude, copy=True), r.nstacks, r.dt, r.delay, r.nsamples)


def unchanged(r, o, msg):
    n = quick_obs(r)
    ok(np.array_equal(n[0], o[0]) and n[1:] == o[1:], msg)


def step(w, a):
    tgt, src = a
    T = w["r"][tgt]
    if src in FROZEN["bad"]:
        S, so = FROZEN["bad"][src]
        before = obs(T)
        raises(ValueError, lambda: T.stack_append(S), f"stacking {src} on {tgt}")
        same_obs(obs(T), before, f"refused {src} changed {tgt}")
    else:
        S, so = FROZEN["good"].get(src) or (w["r"][src], quick_obs(w["r"][src]))
        s_amp, s_n = w["m"][src] if src in w["m"] else FROZEN["m"][src]
        t_amp, t_n = w["m"][tgt]
        T.stack_append(S)
        w["m"][tgt] = (t_amp + s_amp, t_n + s_n)
    if so is not None and src != tgt:
        unchanged(S, so, f"contributed record {src} changed")


def inv(w):
    for k, r in w["r"].items():
        amp, n = w["m"][k]
        ok(r.nstacks == n, f"{k}: nstacks {r.nstacks} != {n}")
        close(r.amplitude, amp / n, f"{k}: amplitude", rtol=1e-11)
        ok(r.nsamples == len(amp), f"{k} nsamples")
        ok(r.dt == 0.25, f"{k} dt")


def units(tier):
    u = []
    for kind in ("ats", "sensor"):
        for n in (2, 5, 64):
            for delay, trimmed in ((0., False), (-0.5, False), (0., True)):
                if trimmed and n == 2:
                    continue
                u.append(dict(kind=kind, n=n, delay=delay, trimmed=trimmed, mode="mixed"))
                u.append(dict(kind=kind, n=n, delay=delay, trimmed=trimmed, mode="deep"))
                u.append(dict(kind=kind, n=n, delay=delay, trimmed=trimmed, mode="long"))
                u.append(dict(kind=kind, n=n, delay=delay, trimmed=trimmed, mode="counts"))
        u.append(dict(kind=kind, n=4097, delay=-0.5, trimmed=False, mode="counts"))
    u += [dict(x, gain=g) for x in u if x["mode"] != "mixed" and x["n"] == 5 for g in (2. ** -60, 2. ** 40)]
    for x in u:
        x["tier"] = tier
    return u


def run(u, ctx):
    w = build(u["kind"], u["n"], u["delay"], u["trimmed"])
    th = u["tier"] == "thorough"
    good = [k for k in w["r"] if k not in LARGE]
    bad = w.pop("bad")
    FROZEN["bad"] = {k: (v, quick_obs(v) if hasattr(v, "nstacks") else None) for k, v in bad.items()}
    FROZEN["good"] = {k: (w["r"][k], quick_obs(w["r"][k])) for k in w["r"] if k not in "AB"}
    FROZEN["m"] = {k: w["m"][k] for k in FROZEN["good"]}
    w = dict(r={k: w["r"][k] for k in "AB"}, m={k: w["m"][k] for k in "AB"})
    name = f"{u['kind']},n={u['n']},delay={u['delay']},trimmed={u['trimmed']}"
    if u["mode"] == "mixed":
        acts = [[t, s] for t in "AB" for s in good + list(bad)]
        explore(ctx, [(name, w)], acts, 3 if th or u["n"] == 5 else 2, step, inv)
    elif u["mode"] == "counts":
        acts = [["A", s] for s in ("p1", "p2", "A") + LARGE]
        explore(ctx, [(name, w)], acts, 4 if th else 3, step, inv)
    elif u["mode"] == "deep":
        acts = [["A", s] for s in ("p1", "p2", "p5", "A")]
        explore(ctx, [(name, w)], acts, 7 if th else 5, step, inv)
    else:  # long periodic histories
        for s1 in good:
            for s2 in good:
                x = copy.deepcopy(w)
                L = 20 if "A" not in (s1, s2) else 5
                explore(ctx, [(name + f",period {s1},{s2}", x)], lambda y: [["A", (s1, s2)[y.setdefault("i", 0) % 2]]],
                        L, lambda y, a: (step(y, a), y.__setitem__("i", y["i"] + 1)), inv)
    for k, (r, o) in {**FROZEN["good"], **FROZEN["bad"]}.items():
        if o is not None:
            unchanged(r, o, f"contributed record {k} changed")
