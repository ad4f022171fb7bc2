"""M05 settings dictionaries and registries."""
import copy
import itertools
import json

import numpy as np

from swprocess import Masw
from swprocess.register import MaswWorkflowRegistry, WavefieldTransformRegistry, AbstractRegistry

from mc.explore import explore
from mc.util import ok, raises

RULE = ("every single and pairwise choice of non-default arguments (several values and input types each), with the complete dictionary compared; every sequence of create and modify; every sequence of registry operations "
        "on both registries (and two fresh ones) against reference dictionaries")
BOUNDS = dict(quick="26 arguments, all pairs of 2-4 values each, zero among them where it is a possible value; sequences of 3 creations and modifications; registry sequences to depth 4 over 14 operations, restored afterwards",
              thorough="all triples of arguments; registry sequences to depth 5")
ASSUMPTIONS = ["values have the documented meaning (numbers for numbers, true/false for flags)"]

# argument -> (place, type, default, other values)
A = dict(
    workflow=(("workflow",), str, "time-domain", ["single", "frequency-domain"]),
    trim=(("pre-processing", "trim", "apply"), bool, False, [True, 1, np.bool_(True)]),
    trim_begin=(("pre-processing", "trim", "begin"), float, 0.0, [-0.25, 1]),
    trim_end=(("pre-processing", "trim", "end"), float, 1.0, [0.5, 3, np.float32(0.75), 0]),
    mute=(("pre-processing", "mute", "apply"), bool, False, [True, 1]),
    method=(("pre-processing", "mute", "method"), str, "interactive", ["predefined"]),
    window_kwargs=(("pre-processing", "mute", "window_kwargs"), dict, {}, [{"alpha": 0.3}, {"alpha": 1, "sym": False}, {"alpha": 0}]),
    pad=(("pre-processing", "pad", "apply"), bool, False, [True, 1]),
    df=(("pre-processing", "pad", "df"), float, 1.0, [0.5, 2]),
    transform=(("processing", "transform"), str, "fdbf", ["phaseshift", "fk"]),
    fmin=(("processing", "fmin"), float, 5., [3, 7.5, 0, 0.0625]),
    fmax=(("processing", "fmax"), float, 100., [50, 62.5]),
    vmin=(("processing", "vmin"), float, 100., [80, 90.5]),
    vmax=(("processing", "vmax"), float, 1000., [500, 612.5, 12345.678]),
    nvel=(("processing", "nvel"), int, 200, [10, 35.0, np.int64(400), 1234]),
    vspace=(("processing", "vspace"), str, "linear", ["log"]),
    weighting=(("processing", "fdbf-specific", "weighting"), str, "sqrt", ["none", "invamp"]),
    steering=(("processing", "fdbf-specific", "steering"), str, "cylindrical", ["plane"]),
    snr=(("signal-to-noise", "perform"), bool, False, [True, 1]),
    noise_begin=(("signal-to-noise", "noise", "begin"), float, -0.5, [-1, -0.125, 0]),
    noise_end=(("signal-to-noise", "noise", "end"), float, 0., [-0.1, 1]),
    signal_begin=(("signal-to-noise", "signal", "begin"), float, 0., [0.1, 1]),
    signal_end=(("signal-to-noise", "signal", "end"), float, 0.5, [0.75, 2, 0]),
    pad_snr=(("signal-to-noise", "pad", "apply"), bool, True, [False, 0]),
    df_snr=(("signal-to-noise", "pad", "df"), float, 1., [0.25, 4]),
    min_offset=(("pre-processing", "offsets", "min"), float, 0., [5, 2.5]),
    max_offset=(("pre-processing", "offsets", "max"), float, float("inf"), [40, 62.5, 0]),
)


def place(d, path, v):
    for p in path[:-1]:
        d = d.setdefault(p, {})
    d[path[-1]] = v


def expected(kw):
    d = {}
    for k, (path, typ, default, _) in A.items():
        place(d, path, typ(kw.get(k, default)))
    return d


def same(a, b, path=""):
    ok(type(a) is type(b), f"{path}: {a!r} is {type(a).__name__}, should be {type(b).__name__} {b!r}")
    if isinstance(a, dict):
        ok(set(a) == set(b), f"{path}: entries {sorted(a)} instead of {sorted(b)}")
        for k in b:
            same(a[k], b[k], f"{path}/{k}")
    else:
        ok(a == b, f"{path}: {a!r} instead of {b!r}")


def create(kw):
    arg = copy.deepcopy(kw)
    d = Masw.create_settings_dict(**arg)
    same(d, expected(kw))
    ok(arg == kw, "arguments altered")
    same(json.loads(json.dumps(d)), d, "json")
    if "window_kwargs" in arg:
        arg["window_kwargs"]["alpha"] = 99
        same(d, expected(kw), "after changing the argument passed")
    d["processing"]["fmin"] = -1
    d["pre-processing"]["mute"]["window_kwargs"]["beta"] = 2
    d["signal-to-noise"]["pad"]["df"] = -7
    d["processing"]["fdbf-specific"]["weighting"] = "x"
    if "window_kwargs" in arg:
        ok("beta" not in arg["window_kwargs"], "changing the settings changes the argument passed")
    same(Masw.create_settings_dict(), expected({}), "defaults after a dictionary was changed")
    return str(sorted(kw))


class FreshA(AbstractRegistry):
    _register = {}


class FreshB(AbstractRegistry):
    _register = {}


REGS = dict(W=MaswWorkflowRegistry, T=WavefieldTransformRegistry, A=FreshA, B=FreshB)


class C0:
    def __init__(self, *a, **k):
        self.args = (a, k)


class C1(C0):
    pass


class C2(C0):
    pass


CL = [C0, C1, C2]
OPS = [["reg", r, n, c] for r, n, c in (("A", "x", 0), ("A", "x", 1), ("B", "x", 2), ("B", "y", 0), ("W", "x", 1), ("T", "x", 2), ("T", "fdbf", 0), ("W", "single", 2), ("A", "y", 1), ("T", "y", 1))] + \
      [["instance", r] for r in ("A", "T")] + [["decorated"], ["dictionary"]]
PROBE = ["x", "y", "z", "fdbf", "fk", "single", "time-domain", "empty", "", "X"]


class Regs:
    """The registries' real contents are process-global: restored to the history's state before each step."""

    def __init__(self):
        self.model = {k: dict(v._register) for k, v in REGS.items()}
        self.inst = 0

    def __deepcopy__(self, memo):
        n = Regs.__new__(Regs)
        n.model = {k: dict(v) for k, v in self.model.items()}
        n.inst = self.inst
        return n


def step(w, op):
    for k, v in REGS.items():
        v._register.clear()
        v._register.update(w.model[k])
    if op[0] == "reg":
        r = REGS[op[1]].register(op[2])(CL[op[3]])
        ok(r is CL[op[3]], "register does not return the class")
        w.model[op[1]][op[2]] = CL[op[3]]
    elif op[0] == "decorated":
        mark = object()

        @FreshB.register("z")
        class D(C1):
            token = mark
        ok(D.__name__ == "D" and issubclass(D, C1) and D.token is mark, "the decorated class is not the one that was defined")
        w.model["B"]["z"] = D
    elif op[0] == "instance":
        for n, c in w.model[op[1]].items():
            if issubclass(c, C0):
                o = REGS[op[1]].create_instance(n, 1, 2, k=3)
                ok(type(o) is c and o.args == ((1, 2), {"k": 3}), f"instance of {n}")
    else:
        create({"fmin": 3})
    for k, v in REGS.items():
        for n in PROBE:
            if n in w.model[k]:
                ok(v.create_class(n) is w.model[k][n], f"registry {k}: {n} resolves to {v.create_class(n)}, last registered {w.model[k][n]}")
            else:
                raises(KeyError, lambda: v.create_class(n), f"registry {k}: unknown name {n!r}")
                raises(KeyError, lambda: v.create_instance(n), f"registry {k}: unknown name {n!r}")


def units(tier):
    th = tier == "thorough"
    u = [dict(mode="args", first=k, triples=th) for k in A]
    u += [dict(mode="reg", first=i, depth=5 if th else 4) for i in range(len(OPS))]
    u += [dict(mode="names")]
    return u


def run(u, ctx):
    if u["mode"] == "args":
        names = list(A)
        i = names.index(u["first"])
        ctx.case([], create, {})
        for v in A[u["first"]][3]:
            kw = {u["first"]: v}
            ctx.case([kw], create, kw)
            for j in range(i + 1, len(names)):
                for v2 in A[names[j]][3]:
                    kw = {u["first"]: v, names[j]: v2}
                    ctx.case([kw], create, kw)
                    if u["triples"]:
                        for k in range(j + 1, len(names)):
                            kw3 = dict(kw, **{names[k]: A[names[k]][3][0]})
                            ctx.case([kw3], create, kw3)
    elif u["mode"] == "reg":
        w = Regs()
        keep = copy.deepcopy(w)
        try:
            step(w, OPS[u["first"]])
            explore(ctx, [([OPS[u["first"]]], w)], OPS, u["depth"] - 1, step)
        finally:
            for k, v in REGS.items():
                v._register.clear()
                v._register.update(keep.model[k])
    else:
        def f():
            ok({"single", "time-domain", "frequency-domain", "time-domain-xcorr"} <= set(MaswWorkflowRegistry._register), "workflows")
            for n in ("fk", "fdbf", "phaseshift", "slantstack", "empty"):
                WavefieldTransformRegistry.create_class(n)
                raises(KeyError, lambda: MaswWorkflowRegistry.create_class(n), n)
            for n in ("single", "time-domain", "frequency-domain", "time-domain-xcorr"):
                MaswWorkflowRegistry.create_class(n)
                raises(KeyError, lambda: WavefieldTransformRegistry.create_class(n), n)
        ctx.case(["names"], f)
        every = {k: v[3][-1] for k, v in A.items()}
        ctx.case(["all"], create, every)
