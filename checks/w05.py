"""W05 every sequence of stacking operations on accumulators, against the count-weighted mean."""
import numpy as np

from swprocess.register import WavefieldTransformRegistry as Reg

from mc.explore import explore
from mc.objs import array
from mc.util import ok, close, same, raises, wave

RULE = ("breadth-first search over sequences of stack calls on an accumulator (initially empty or not), with real, complex, normalized, and already stacked contributions, the accumulator's own "
        "copy, and objects that are no images; image, count, axes and every contribution compared with the weighted mean after each step")
BOUNDS = dict(quick="3 accumulators x 12 operations (contributions of 1, 2, 5 and 260 images), all sequences to depth 4; on images of 57 x 75, to depth 3", thorough="depth 5")
ASSUMPTIONS = ["contributions have the accumulator's frequencies and velocities and a positive count"]

OPS = ["ps", "fk", "ss", "norm", "two", "five", "big", "copy", "none", "array", "str", "power"]


def fill(w, wide=False):
    if wide:
        a = array([1.5 * k for k in range(12)], n=200, dt=0.005, recs=[wave(k, 200) + 3 * np.sin(0.4 * np.arange(200) + k) for k in range(12)])
        s = dict(fmin=4., fmax=60., vmin=80., vmax=900., nvel=75, vspace="log")
    else:
        a = array([0., 2., 5.], n=40, dt=0.01, recs=[wave(k, 40) + 3 * np.sin(0.8 * np.arange(40) + k) for k in range(3)])
        s = dict(fmin=6., fmax=20., vmin=100., vmax=300., nvel=3, vspace="linear")
    mk = {n: Reg.create_class(c).from_array(a, s) for n, c in (("ps", "phaseshift"), ("fk", "fk"), ("ss", "slantstack"), ("norm", "fk"))}
    mk["norm"].normalize()
    E = Reg.create_class("empty")
    two = E.from_array(a, s)
    two.stack(mk["ps"])
    two.stack(mk["ss"])
    ok(two.n == 2, "count of two")
    five = E.from_array(a, s)
    for k in (two, mk["fk"], two):
        five.stack(k)
    ok(five.n == 5, f"count {five.n} of five")
    close(five.power, (2 * mk["ps"].power + 2 * mk["ss"].power + mk["fk"].power) / 5, "mean of five", rtol=1e-10)
    big = E.from_array(a, s)
    for k in range(260):
        big.stack(mk["ps" if k % 4 else "fk"])
        ok(big.n == k + 1, f"count {big.n} after {k + 1} images")
    close(big.power, (65 * mk["fk"].power + 195 * mk["ps"].power) / 260, "mean of 260", rtol=1e-9)
    mk.update(two=two, five=five, big=big)
    acc = E.from_array(a, s)
    sm, n = np.zeros(acc.power.shape, complex), 0
    if w == "full":
        acc = Reg.create_class("empty").from_array(a, s)
        acc.stack(mk["five"])
        sm, n = 5 * mk["five"].power, 5
    elif w == "one":
        acc = Reg.create_class("empty").from_array(a, s)
        acc.stack(mk["ps"])
        sm, n = mk["ps"].power.astype(complex), 1
    keep = {k: (np.array(v.power), v.n) for k, v in mk.items()}
    return dict(acc=acc, mk=mk, keep=keep, sum=sm, n=n, f=np.array(acc.frequencies), v=np.array(acc.velocities))


class OnlyPower:
    def __init__(self):
        self.power = 3.


def step(w, op):
    import copy
    acc = w["acc"]
    p0, n0 = np.array(acc.power), acc.n
    if op in w["mk"]:
        o = w["mk"][op]
        acc.stack(o)
        w["sum"] = w["sum"] + o.power * o.n
        w["n"] += o.n
    elif op == "copy":
        if acc.n:
            acc.stack(copy.deepcopy(acc))
            w["sum"], w["n"] = 2 * w["sum"], 2 * w["n"]
    else:
        bad = {"none": None, "array": np.ones(acc.power.shape), "str": "image", "power": OnlyPower()}[op]
        raises(AttributeError, lambda: acc.stack(bad), f"stacking {op}")
        same(acc.power, p0, "image after a refused stack")
        ok(acc.n == n0, "count after a refused stack")
    ok(acc.n == w["n"], f"count {acc.n}, contributions {w['n']}")
    if w["n"]:
        close(np.asarray(acc.power, complex), w["sum"] / w["n"], "stacked image", rtol=1e-9)
    else:
        ok(np.all(acc.power == 0), "nothing stacked yet")
    same(acc.frequencies, w["f"], "frequencies")
    same(acc.velocities, w["v"], "velocities")
    for k, v in w["mk"].items():
        same(v.power, w["keep"][k][0], f"contributed image {k}")
        ok(v.n == w["keep"][k][1], f"count of contribution {k}")


def units(tier):
    return [dict(acc=a, first=o, depth=5 if tier == "thorough" else 4) for a in ("empty", "full", "one") for o in OPS] + [dict(acc=a, first=o, depth=3, wide=True) for a in ("empty", "full") for o in OPS]


def run(u, ctx):
    w = fill(u["acc"], u.get("wide"))
    ctx.current = [u["acc"], u["first"]]
    step(w, u["first"])
    explore(ctx, [([u["acc"], u["first"]], w)], OPS, u["depth"] - 1, step)
