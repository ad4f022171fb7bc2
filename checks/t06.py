"""T06 equality: every pair of a family of records, sensors, sources and arrays, against equality of their descriptors."""
import itertools

import numpy as np

from swprocess import ActiveTimeSeries, Sensor1C, Source, Array1D

from mc.objs import ats, sensor, obs, same_obs
from mc.util import ok, raises

RULE = ("families generated as the product of attribute alphabets; every ordered pair of each family and every (member, foreign object) "
        "pair is compared with ==, != and judged by equality of the generating descriptors")
BOUNDS = dict(quick="86 records, 155 sensors, 35 sources, 34 arrays (incl. records made equal or different by stacking/trimming, and attributes that differ by a thousandth or by a millionth of their size); 14 foreign objects",
              thorough="as quick, with larger alphabets for sensors")
ASSUMPTIONS = ["differences used are well above floating-point tolerance"]

AMPS = [(1., -2., 3., 0.5), (1., -2., 3., 0.6), (1.5, -2., 3., 0.5), (1., 2., 3., 0.5), (1., -2., 3.), (1., -2., 3., 0.5, 0.), (0., 0., 0., 0.)]


def fam_ats():
    for amp, dt, ns, de in itertools.product(AMPS, (0.25, 0.5), (1, 2), (0., -0.25)):
        yield ("ats", amp, dt, ns, de), lambda amp=amp, dt=dt, ns=ns, de=de: ats(amp, dt, nstacks=ns, delay=de)

    # small but real differences of a single attribute, also in long records
    for dt, de, ns in ((0.25, 0., 1), (0.2505, 0., 1), (0.001, 0., 1), (0.0011, 0., 1), (0.0005, 0., 1), (0.25, -0.2501, 1), (0.25, -0.001, 1), (0.25, -0.0005, 1), (0.25, 0., 100), (0.25, 0., 101),
                       (0.25, 0., 400000), (0.25, 0., 400001), (0.2500001, 0., 1), (0.25, -1e-7, 1), (0.25, -30., 1), (0.25, -30.0001, 1)):
        if (dt, de, ns) != (0.25, 0., 1):
            yield ("ats", AMPS[0], dt, ns, de), lambda dt=dt, ns=ns, de=de: ats(AMPS[0], dt, nstacks=ns, delay=de)
    for amp in ((1., -2., 3.0003, 0.5), (1., -2., 3., 0.50005), (1.0001, -2., 3., 0.5), (1e6, 2., 3., 4.), (1e6 + 100, 2., 3., 4.)):
        yield ("ats", amp, 0.25, 1, 0.), lambda amp=amp: ats(amp, 0.25)
    for f, k in ((1, 0), (1, 599), (1.002, 0), (1.002, 300), (1.002, 599), (-1, 599)):
        amp = tuple(float((i * 7) % 11 - 4) * (f if i == k else 1) for i in range(600))
        if f == 1 and k:
            amp = amp[:-1]
        yield ("ats", amp, 0.001, 1, 0.), lambda amp=amp: ats(amp, 0.001)

    def trimmed():
        t = ats((9.,) + AMPS[0], 0.25, delay=-0.5)
        t.trim(-0.25, 0.5)
        return t
    yield ("ats", AMPS[0], 0.25, 1, -0.25), trimmed

    def stacked():
        t = ats(AMPS[0], 0.5)
        t.stack_append(ats(AMPS[0], 0.5))
        return t
    yield ("ats", AMPS[0], 0.5, 2, 0.), stacked

    def late():
        t = ats((9.,) + AMPS[0], 0.25)
        t.trim(0.25, 1.)
        return t
    yield ("ats", AMPS[0], 0.25, 1, 0.25), late


def fam_sensor(big):
    xs = ys = zs = (0., 1.5)
    for amp, dt, ns, de, x, y, z in itertools.product(AMPS[:3] + AMPS[4:5], (0.25, 0.5) if big else (0.25,), (1, 3), (0., -0.25), xs, ys, zs):
        yield ("sensor", amp, dt, ns, de, x, y, z), lambda a=(amp, dt, x, y, z, ns, de): sensor(*a)
    for x, y, z, de in ((0.001, 0., 0., 0.), (0., 0.001, 0., 0.), (0., 0., -0.001, 0.), (1.5001, 0., 0., 0.), (1500., 0., 0., 0.), (1500.01, 0., 0., 0.), (0., 0., 0., -0.001), (150000., 0., 0., 0.), (150000.5, 0., 0., 0.), (150000., 2e5, 0., 0.), (150000., 2e5 + 1, 0., 0.), (0., 1e-7, 0., 0.)):
        yield ("sensor", AMPS[0], 0.25, 1, de, x, y, z), lambda a=(AMPS[0], 0.25, x, y, z, 1, de): sensor(*a)
    yield ("sensor", AMPS[0], 0.5, 1, 0., 0., 0., 0.), lambda: sensor(AMPS[0], 0.5)


def fam_source():
    for x, y, z in list(itertools.product((0., -1., 2.5), repeat=3)) + [(0.001, 0., 0.), (0., 0.001, 0.), (0., 0., 0.001), (2500., 0., 0.), (2500.01, 0., 0.), (5e5, 0., 0.), (5e5 + 1, 0., 0.), (0., 0., 1e-7)]:
        yield ("source", x, y, z), lambda x=x, y=y, z=z: Source(x, y, z)


def fam_array():
    base = [(0., 0.), (2., 0.), (5., 0.)]
    lay = [base, base[:2], base[::-1], base + [(7., 0.)], [(0., 0.), (2., 1.), (5., 0.)], [(0., 0.), (2., 0.), (5.5, 0.)]]
    for pos in lay:
        for sx, sy in ((-3., 0.), (-3., 1.), (8., 0.)):
            for recs in (0, 1):
                rows = {p: AMPS[(i + recs) % 3] for i, p in enumerate(sorted(pos))}
                desc = ("array", sx, sy, tuple((p, rows[p]) for p in sorted(pos)), 1)
                yield desc, lambda pos=pos, rows=rows, sx=sx, sy=sy: Array1D([Sensor1C(rows[p], 0.25, p[0], p[1], 0.) for p in pos], Source(sx, sy, 0.))
    rows = {p: AMPS[i % 3] for i, p in enumerate(sorted(base))}
    # one attribute of all sensors different
    yield ("array", -3., 0., tuple((p, rows[p]) for p in base), 2), lambda: Array1D([Sensor1C(rows[p], 0.25, p[0], p[1], 0., nstacks=2) for p in base], Source(-3., 0., 0.))
    # last record different only
    r2 = dict(rows)
    r2[base[-1]] = AMPS[3]
    yield ("array", -3., 0., tuple((p, r2[p]) for p in base), 1), lambda: Array1D([Sensor1C(r2[p], 0.25, p[0], p[1], 0.) for p in base], Source(-3., 0., 0.))

    def trimmed():
        a = Array1D([Sensor1C(AMPS[i % 3], 0.25, p[0], p[1], 0.) for i, p in enumerate(base + [(99., 0.)])], Source(-3., 0., 0.))
        a.trim_offsets(0., 50.)
        return a
    yield ("array", -3., 0., tuple((p, rows[p]) for p in base), 1), trimmed


FOREIGN = [None, 1, 0.5, "record", [1., -2., 3.], (1.,), {}, object(), np.array([1., -2., 3., 0.5]), True, ActiveTimeSeries, b"x", {1}, 1j]


def build(family, tier):
    big = tier == "thorough"
    g = dict(ats=fam_ats, source=fam_source, array=fam_array)
    return list(fam_sensor(big)) if family == "sensor" else list(g[family]())


def units(tier):
    u = [dict(f=f, tier=tier, part=p, parts=n) for f, n in (("ats", 2), ("sensor", 6), ("source", 1), ("array", 4)) for p in range(n)]
    u += [dict(f="cross", tier=tier), dict(f="make", tier=tier)]
    return u


def run(u, ctx):
    if u["f"] == "make":
        for ns in (0, -1, -5):
            ctx.case(["nstacks", ns], lambda: (raises(ValueError, lambda: ats([1, 2], nstacks=ns)), raises(ValueError, lambda: sensor([1, 2], nstacks=ns))) and None)
        for de in (0.001, 1, 1e-9, 100.):
            ctx.case(["delay", de], lambda: (raises(ValueError, lambda: ats([1, 2], delay=de)), raises(ValueError, lambda: sensor([1, 2], delay=de))) and None)
        for ns, de in itertools.product((1, 2, 1000), (0, 0., -1e-9, -3)):
            def f():
                for o in (ats([1., 2], nstacks=ns, delay=de), sensor([1., 2], nstacks=ns, delay=de)):
                    ok(o.nstacks == ns and o.delay == de, "accepted values stored")
            ctx.case(["good", ns, de], f)
        return
    if u["f"] == "cross":
        reps = [build(f, "quick")[:3] for f in ("ats", "sensor", "source", "array")]
        flat = [(k, d, m) for k, fam in enumerate(reps) for d, m in fam]
        for k1, d1, m1 in flat:
            for k2, d2, m2 in flat:
                if k1 != k2:
                    ctx.case([d1, d2], lambda: ok(not (m1() == m2()) and (m1() != m2()), "objects of different kinds are equal"))
        return
    fam = build(u["f"], u["tier"])
    objs = [(d, m(), m()) for d, m in fam]
    seen = [obs(a) for _, a, _ in objs]
    for i, (d1, a, _) in enumerate(objs):
        if i % u["parts"] != u["part"]:
            continue
        for j, (d2, _, b) in enumerate(objs):
            def f():
                e, r = (a == b), (b == a)
                ok(bool(e) == (d1 == d2), f"== gives {e} for {d1} and {d2}")
                ok(bool(e) == bool(r), "not symmetric")
                ok(bool(a != b) == (not e), "!= inconsistent with ==")
                return f"equal={bool(e)} differing={[k for k in range(min(len(d1), len(d2))) if d1[k] != d2[k]]}"
            ctx.case([d1, d2], f)
        for x in FOREIGN:
            def g():
                ok((a == x) is False or not np.any(a == x), "equal to foreign")
                if not isinstance(x, np.ndarray):
                    ok(not (x == a), "foreign equal to it")
            ctx.case([d1, repr(x)], g)
    for (d, a, b), s in zip(objs, seen):
        def h():
            same_obs(obs(a), s, "comparison altered the left operand")
            same_obs(obs(b), s, "comparison altered the right operand")
        ctx.case(["unaltered", d], h)
