"""P02 JSON round trips: every sequence of write, append, reject, read and from-dictionary operations, against a model of the file."""
import itertools
import json
import os
import pathlib
import warnings

import numpy as np

from swprocess import Peaks, PeaksSuite

from mc.refpeaks import Ref, NAN, members, wide
from mc.util import ok, same, raises
import copy

RULE = ("every sequence of file and object operations up to the depth bound is run on real files in lockstep with a model of the file's content; after every "
        "operation the file is read back by every reader and compared with the model, and the dictionaries used are compared with their originals")
BOUNDS = dict(quick="4 objects (two sharing an identifier), 12 operations, every sequence of 3 (after a first write: of 4); round trip of 11 objects x 19 identifiers, every ordered pair of identifiers in one file; suites of 1..3 members in every order, written, split over files, read by str, path and lists",
              thorough="every sequence of 5")
ASSUMPTIONS = ["one process uses the file at a time", "files are JSON objects keyed by identifier, as documented"]


def objs():
    return [Ref([4, 8, 16.1], [512.5, NAN, 1 / 3], "a", azimuth=[10, NAN, 0.1], power=[1e-300, 2e10, 3]),
            Ref([1, 2], [100, 200], "a"),
            Ref([[4, 8, 16], [4, 8, NAN]], [[256, 128, 64], [512, 256, NAN]], "b c", power=[[1, 2, 3], [4, 1, NAN]], noise=[[float("inf"), 1, 2], [3, 4, NAN]]),
            Ref([8], [256.125], "10", ellipticity=[-0.5])]


def snap(r):
    return Ref(identifier=r.id, valid=r.valid.copy(), **{k: v.copy() for k, v in r.tab.items()})


def full_agree(p, r, msg):
    """Equal to the original, the rejected entries recorded: saving it again gives the same record."""
    r.agree(p, msg)
    ok(p == r.impl(), f"{msg}: not equal to what was written")


def recorded(d, r, msg):
    ok(set(d) - {"valid"} == set(r.tab), f"{msg}: record {sorted(d)}")
    for k, v in r.tab.items():
        same(np.array(d[k], float), v, f"{msg}: recorded {k}")


def check_file(fn, model):
    if not model:
        ok(not os.path.exists(fn), "a file appeared")
        return
    with open(fn) as f:
        raw = json.load(f)
    ok(list(raw) == [r.id for r in model], f"identifiers in the file {list(raw)}, expected {[r.id for r in model]}")
    for r in model:
        recorded(raw[r.id], r, r.id)
    s = PeaksSuite.from_json(fn)
    ok(len(s) == len(model) and list(s.ids) == [r.id for r in model], f"suite read: {s.ids}")
    for p, r in zip(s, model):
        full_agree(p, r, f"suite member {r.id}")
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        p = Peaks.from_json(fn)
    full_agree(p, model[0], "single reader")
    ok(bool(ws) == (len(model) > 1), "warning about further members")
    before = copy.deepcopy(raw)
    for _ in range(2):
        for r in model:
            full_agree(Peaks.from_dict(raw[r.id], identifier=r.id), r, "from_dict")
        s2 = PeaksSuite.from_dict(raw)
        ok(s2 == s, "from_dict of the file's content differs from from_json")
        ok(json.dumps(raw) == json.dumps(before), "the dictionary was altered")


OPS = ([["write", k] for k in range(4)] + [["append", k] for k in range(4)] + [["reject", 0], ["reject", 2], ["rewrite"], ["appendload", 3]])


def apply(op, fn, refs, ps, model):
    k = op[1] if len(op) > 1 else None
    if op[0] == "write":
        ps[k].to_json(fn)
        return [snap(refs[k])]
    if op[0] == "append":
        if not model:
            raises(FileNotFoundError, lambda: ps[k].to_json(fn, append=True), "append to no file")
            return model
        if refs[k].id in [r.id for r in model]:
            before = open(fn, "rb").read()
            raises(KeyError, lambda: ps[k].to_json(fn, append=True), "identifier already there")
            ok(open(fn, "rb").read() == before, "the refused append changed the file")
            return model
        ps[k].to_json(fn, append=True)
        return model + [snap(refs[k])]
    if op[0] == "reject":
        hit = refs[k].limits("frequency", None, 8)
        ps[k].reject_limits_outside("frequency", (None, 8))
        refs[k].valid &= ~hit
        return model
    if op[0] == "rewrite":
        if model:
            PeaksSuite.from_json(fn).to_json(fn)
        return model
    if op[0] == "appendload":       # an object that was itself loaded is appended
        if not model or refs[k].id in [r.id for r in model]:
            return model
        t = fn + ".other"
        ps[k].to_json(t)
        Peaks.from_json(t).to_json(fn, append=True)
        os.remove(t)
        return model + [snap(refs[k])]


def sequence(ops, tmp):
    fn = os.path.join(tmp, "p.json")
    if os.path.exists(fn):
        os.remove(fn)
    refs = objs()
    ps = [r.impl() for r in refs]
    model = []
    for i, op in enumerate(ops):
        model = apply(op, fn, refs, ps, model)
        if i >= len(ops) - 1:      # shorter prefixes are sequences of their own
            check_file(fn, model)
            for p, r in zip(ps, refs):
                r.agree(p, "the object written")
    return f"{[(r.id, r.tab['frequency'].shape, r.valid.astype(int).tolist()) for r in model]}"


IDS = ["0", "", "été", 'a"b', "a\\b", "20170609223200.000000-rtbf", "x" * 300, "valid", "frequency", " a", "a ", "A", "\ta", "a\u0301", "\u00e1", "1", "01", "1.0", "null"]


def roundtrip(name, ident, tmp):
    r = {**members(), **wide()}[name] if isinstance(name, str) else objs()[name]
    r.id = ident
    p = r.impl()
    fn = os.path.join(tmp, "r.json")
    p.to_json(fn)
    check_file(fn, [r])
    Peaks.from_json(fn).to_json(fn)
    check_file(fn, [r])
    p2 = Peaks.from_json(fn)
    # rejecting after loading and saving again
    h = r.limits("velocity", 200, None)
    p2.reject_limits_outside("velocity", (200, None))
    r.valid &= ~h
    p2.to_json(fn)
    check_file(fn, [r])


def near(a, b, tmp):
    """Identifiers that differ by little are different identifiers."""
    r1, r2 = Ref([1, 2], [100, 200], a), Ref([4, 8, 16], [512.5, NAN, 128], b)
    fn = os.path.join(tmp, "n.json")
    r1.impl().to_json(fn)
    r2.impl().to_json(fn, append=True)
    check_file(fn, [r1, r2])
    raises(KeyError, lambda: r2.impl().to_json(fn, append=True), "identifier already there")
    raises(KeyError, lambda: r1.impl().to_json(fn, append=True), "identifier already there")
    check_file(fn, [r1, r2])


def intid(tmp):
    p = Peaks([1., 2.], [3., 4.], identifier=7)
    fn = os.path.join(tmp, "i.json")
    p.to_json(fn)
    q = Peaks.from_json(fn)
    ok(q.identifier == "7" and q == p, "numeric identifier")


def plain(kind):
    """Dictionaries as users write them: without mask, lists, tuples or arrays; used twice."""
    c = dict(list=list, tuple=tuple, array=np.array)[kind]
    d = dict(frequency=c([1., 2., 4.]), velocity=c([100., NAN, 50.]), azimuth=c([1., 2., 3.]))
    keep = {k: np.array(v) for k, v in d.items()}
    outer = dict(p1=d)
    a = Peaks.from_dict(d, identifier="p1")
    b = PeaksSuite.from_dict(outer)[0]
    c2 = PeaksSuite.from_dict([outer])[0]
    same(a.frequency, [1., 4.], "frequency")
    same(a.azimuth, [1., 3.], "azimuth")
    ok(a == b == c2, "the same dictionary gives the same peaks")
    a.reject_limits_outside("frequency", (None, 2))
    b.reject_limits_outside("frequency", (3, None))
    same(c2.frequency, [1., 4.], "objects built from one dictionary are independent")
    ok(list(outer) == ["p1"] and set(d) == set(keep), "dictionary altered")
    for k in keep:
        same(np.array(d[k]), keep[k], "dictionary altered")


def suites(order, split, tmp):
    m = {**members(), **wide()}
    refs = [m[n] for n in order]
    s = PeaksSuite.from_peaks([r.impl() for r in refs])
    fn = os.path.join(tmp, "s.json")
    with open(fn, "w") as f:
        f.write("left over from an earlier run, longer than what is written now" * 40)
    s.to_json(fn)
    check_file(fn, refs)
    ok(PeaksSuite.from_json(fn) == s, "suite not equal to what was written")
    for arg in (fn, pathlib.Path(fn), [fn], (fn,), [pathlib.Path(fn)]):
        ok(PeaksSuite.from_json(arg) == s, f"read from {type(arg)}")
    if split < len(refs):
        f1, f2 = os.path.join(tmp, "s1.json"), os.path.join(tmp, "s2.json")
        PeaksSuite.from_peaks([r.impl() for r in refs[:split]]).to_json(f1)
        PeaksSuite.from_peaks([r.impl() for r in refs[split:]]).to_json(f2)
        ok(PeaksSuite.from_json([f1, f2]) == s, "split over two files")
        if s.ids[0] != s.ids[-1]:
            ok(PeaksSuite.from_json([f2, f1]) != s or len(refs) == 1, "order of the files")
        raises(KeyError, lambda: PeaksSuite.from_json([f1, f2, f1]), "an identifier twice")
    ok(s == PeaksSuite.from_peaks([r.impl() for r in refs]), "writing altered the suite")


def units(tier):
    n = 3 if tier == "quick" else 4
    u = [dict(mode="seq", first=o, n=n, all=True) for o in OPS]
    if tier == "quick":
        u += [dict(mode="seq", first=["write", k], n=4, sub=s) for k in (0, 2) for s in range(4)]
    else:
        u += [dict(mode="seq", first=o, n=5, sub=s) for o in OPS for s in range(4)]
    u += [dict(mode="round"), dict(mode="suites")]
    return u


def run(u, ctx):
    if u["mode"] == "seq":
        if u.get("all"):
            for n in range(1, u["n"] + 1):
                for rest in itertools.product(OPS, repeat=n - 1):
                    ops = [u["first"], *rest]
                    ctx.case(ops, sequence, ops, ctx.tmp)
        else:
            for i, rest in enumerate(itertools.product(OPS, repeat=u["n"] - 1)):
                if i % 4 == u["sub"]:
                    ops = [u["first"], *rest]
                    ctx.case(ops, sequence, ops, ctx.tmp)
    elif u["mode"] == "round":
        for n in list(members()) + list(wide()) + [0, 1, 2, 3]:
            for i in IDS:
                ctx.case([n, i], roundtrip, n, i, ctx.tmp)
        for a, b in itertools.permutations(IDS + ["a"], 2):
            ctx.case(["near", a, b], near, a, b, ctx.tmp)
        ctx.case(["int"], intid, ctx.tmp)
        for k in ("list", "tuple", "array"):
            ctx.case(["plain", k], plain, k)
    else:
        for o in itertools.permutations(wide()):
            ctx.case([o], suites, list(o), 1, ctx.tmp)
            ctx.case([o, "all"], suites, list(o) + list(members()), 2, ctx.tmp)
        for n in (1, 2, 3):
            for o in itertools.permutations(members(), n):
                for s in range(1, n + 1):
                    ctx.case([o, s], suites, list(o), s, ctx.tmp)
