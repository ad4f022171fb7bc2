"""P03 equality: every pair of peaks of a family closed under small differences, and every pair of suites."""
import copy
import itertools

import numpy as np

from swprocess import Peaks, PeaksSuite

from mc.explore import digest
from mc.refpeaks import Ref, NAN
from mc.util import ok

RULE = ("every ordered pair of a family of peaks that differ in number, values, order, missing values, mask, attributes, identifier and shape, and every ordered pair of "
        "suites of one to three members, compared with equality of the identifiers, attributes and retained values computed directly")
BOUNDS = dict(quick="family of about 410 objects (all ordered pairs; up to 45 entries), 9 kinds of foreign operand, 604 suites (up to 30 members) (all ordered pairs)",
              thorough="family of about 1580 objects, all ordered pairs; 604 suites")
ASSUMPTIONS = ["values differ either by less than 1e-9 or by at least 1e-4 (the floating-point tolerance itself is not part of the property), and are not tiny",
               "attributes are those with an accessor: azimuth, ellipticity, noise and power"]


def family(tier):
    out = []
    F = [[], [8.], [8., 4.], [4., 8.], [8., 8.], [8., 4., 2.]]
    V = {0: [[]], 1: [[256.], [128.], [NAN]], 2: [[256., 128.], [128., 256.], [256., NAN], [NAN, 128.], [NAN, NAN], [256., 256.]],
         3: [[256., 128., 64.], [256., NAN, 64.], [NAN, 128., 64.], [NAN, NAN, 64.], [256., 256., 64.]]}
    A = [{}, dict(azimuth=1.), dict(azimuth=2.), dict(azimuth=NAN), dict(power=1.), dict(azimuth=1., power=1.), dict(power=1., azimuth=1.), dict(ellipticity=1.), dict(noise=float("inf"))]
    for f in F:
        for v in V[len(f)]:
            for i, a in enumerate(A if tier == "thorough" else A[:6]):
                opt = {k: [x] * len(f) for k, x in a.items()}
                masks = [None] + [m for m in itertools.product([True, False], repeat=len(f)) if not any(b and np.isnan(x) for b, x in zip(m, v))]
                if tier == "quick":
                    masks = masks if i < 2 else masks[:1] + masks[-1:]
                for m in masks:
                    for ident in (("p", "q") if tier == "thorough" or i == 0 else ("p",)):
                        out.append(Ref(f, v, ident, valid=m, **opt))
    # differences below and above the tolerance, values of the last element only, 2-D tables, a different attribute value in one entry
    out += [Ref([8., 4.], [256. * (1 + 1e-12), 128.], "p"), Ref([8., 4.], [256. * 1.02, 128.], "p"), Ref([8., 4.], [256., 128. * 1.02], "p"),
            Ref([8. * (1 + 1e-12), 4.], [256., 128.], "p"), Ref([8., 4. * 1.02], [256., 128.], "p"),
            Ref([8., 4.], [256. * 1.0002, 128.], "p"), Ref([8., 4.], [256., 128. * 0.9997], "p"), Ref([8. * 1.001, 4.], [256., 128.], "p"), Ref([8., 4. * 0.9999], [256., 128.], "p"),
            Ref([8., 4.], [256., 128.], "p", azimuth=[1.0003, 2.]), Ref([8., 4.], [256., 128.], "p", power=[1., 2.001]),
            Ref([8., 4.], [256., 128.], "p", azimuth=[1., 2.]), Ref([8., 4.], [256., 128.], "p", azimuth=[1., NAN]), Ref([8., 4.], [256., 128.], "p", power=[1., 2.]),
            Ref([[8., 4.]], [[256., 128.]], "p"), Ref([[8.], [4.]], [[256.], [128.]], "p"), Ref([[8., NAN], [NAN, 4.]], [[256., NAN], [NAN, 128.]], "p"),
            Ref([[8., 4.], [8., 2.]], [[256., 128.], [128., 64.]], "p", valid=[[True, True], [False, False]])]
    # missing and infinite values of every attribute among the retained peaks
    for k in ("azimuth", "ellipticity", "noise", "power"):
        for x in ([NAN, 2.], [NAN, NAN], [2., NAN], [2., np.inf], [2., -np.inf], [2., 3.], [2., 0.]):
            out.append(Ref([8., 4.], [256., 128.], "p", **{k: x}))
    # long tables which differ in one entry
    lf, lv = [60. - k for k in range(45)], [150. + 3. * k for k in range(45)]
    out.append(Ref(lf, lv, "p"))
    for k in range(0, 45, 4):
        out.append(Ref(lf, [v + (0.5 if i == k else 0) for i, v in enumerate(lv)], "p"))
        out.append(Ref([v + (0.25 if i == k else 0) for i, v in enumerate(lf)], lv, "p"))
        out.append(Ref(lf, lv, "p", valid=[i != k for i in range(45)]))
    for k in range(0, 45, 11):
        out.append(Ref(np.reshape(lf, (9, 5)), np.reshape([v + (0.5 if i == k else 0) for i, v in enumerate(lv)], (9, 5)), "p", noise=np.reshape(lf, (9, 5))))
        out.append(Ref(np.reshape(lf, (9, 5)), np.reshape(lv, (9, 5)), "p", noise=np.reshape([v * (2 if i == k else 1) for i, v in enumerate(lf)], (9, 5))))
    return out


def want(a, b):
    if a.id != b.id or set(a.tab) != set(b.tab):
        return False
    for k in a.tab:
        x, y = a.values(k), b.values(k)
        if x.shape != y.shape:
            return False
        e = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) < 1e-9 * np.maximum(np.abs(x), np.abs(y)))
        if not e.all():
            return False
    return True


def row(i, refs, ps, digs):
    a, pa = refs[i], ps[i]
    n = 0
    for j, (b, pb) in enumerate(zip(refs, ps)):
        w = want(a, b)
        r = pa == pb
        ok(bool(r) == w, f"objects {i} and {j}: equality {r}, expected {w}: {show(a)} / {show(b)}")
        ok((pa != pb) == (not w), f"objects {i} and {j}: != disagrees with ==")
        n += w
    return f"{n}"


def show(r):
    return f"{r.id} { {k: v.tolist() for k, v in r.tab.items()} } mask {r.valid.tolist()}"


FOREIGN = [None, 0, "p", [], {}, np.array([1., 2.]), object(), Ref, float("nan")]


def foreign(p, s):
    for o in FOREIGN:
        r = p == o
        ok(not (r.any() if isinstance(r, np.ndarray) else r), f"equal to {o!r}")
        r = s == o
        ok(not (r.any() if isinstance(r, np.ndarray) else r), f"suite equal to {o!r}")
    ok(not (p == s) and not (s == p), "peaks equal to a suite")


def suite_family():
    base = [Ref([8., 4.], [256., 128.], "p"), Ref([8., 4.], [256., NAN], "p"), Ref([8.], [256.], "p"),
            Ref([8., 4.], [256., 128.], "q"), Ref([8., 4.], [256., 64.], "q"), Ref([], [], "q"),
            Ref([8., 4.], [256., 128.], "r", azimuth=[1., 2.]), Ref([8., 4.], [256., 128.], "r")]
    out = []
    for n in (1, 2, 3):
        for c in itertools.permutations(range(len(base)), n):
            ids = [base[k].id for k in c]
            if len(set(ids)) == n:
                out.append([base[k] for k in c])
    # many members, one of them different
    many = [Ref([8., 4. + k], [256., 100. + k], f"m{k}") for k in range(30)]
    out += [many, many[:29], many[1:], many[::-1]]
    for k in (0, 1, 9, 12, 19, 23, 28, 29):
        out.append(many[:k] + [Ref([8., 4. + k], [256., 101. + k], f"m{k}")] + many[k + 1:])
        out.append(many[:k] + [Ref([8., 4. + k], [256., 100. + k], f"M{k}")] + many[k + 1:])
    return out


def suite_row(i, fam, ss):
    for j, b in enumerate(fam):
        a = fam[i]
        w = len(a) == len(b) and all(want(x, y) for x, y in zip(a, b))
        r = ss[i] == ss[j]
        ok(bool(r) == w, f"suites {i} and {j}: {r}, expected {w}: {[show(x) for x in a]} / {[show(x) for x in b]}")
        ok((ss[i] != ss[j]) == (not w), "!= disagrees")


def units(tier):
    return [dict(mode="pairs", part=k, tier=tier) for k in range(8)] + [dict(mode="suites", part=k) for k in range(4)]


def run(u, ctx):
    if u["mode"] == "pairs":
        refs = family(u["tier"])
        ps = [r.impl() for r in refs]
        digs = [digest(p) for p in ps]
        for i in range(len(refs)):
            if i % 8 == u["part"]:
                ctx.case([i, show(refs[i])], row, i, refs, ps, digs)
                ctx.transitions += 2 * len(refs) - 1
                ctx.validated += len(refs) - 1
                s = PeaksSuite(ps[i])
                ctx.case([i, "foreign"], foreign, ps[i], s)
        for i, p in enumerate(ps):
            if digest(p) != digs[i]:
                # caches are allowed: what can be observed is not to change
                refs[i].agree(p, "after comparisons")
            refs[i].agree(p, "after comparisons")
    else:
        fam = suite_family()
        ss = [PeaksSuite.from_peaks([r.impl() for r in f]) for f in fam]
        for i in range(len(fam)):
            if i % 4 == u["part"]:
                ctx.case([i, [show(r) for r in fam[i]]], suite_row, i, fam, ss)
                ctx.transitions += len(fam) - 1
                ctx.validated += len(fam) - 1
