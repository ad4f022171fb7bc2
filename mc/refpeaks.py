"""Reference model of dispersion peaks: full tables plus a mask of the retained entries."""
import numpy as np

from swprocess import Peaks

from .util import ok, same, close

OPT = ["azimuth", "ellipticity", "noise", "power"]
NAN = float("nan")


class Ref:
    def __init__(self, frequency, velocity, identifier="0", valid=None, **opt):
        self.tab = dict(frequency=np.array(frequency, float), velocity=np.array(velocity, float),
                        **{k: np.array(v, float) for k, v in opt.items()})
        self.id = str(identifier)
        self.valid = ~np.isnan(self.tab["velocity"]) if valid is None else np.array(valid, bool)

    def impl(self):
        """An implementation object with the same content, built through the public constructor."""
        t = {k: v.tolist() for k, v in self.tab.items()}
        if np.array_equal(self.valid, ~np.isnan(self.tab["velocity"])):
            return Peaks(t.pop("frequency"), t.pop("velocity"), identifier=self.id, **t)
        return Peaks.from_dict(dict(t, valid=self.valid.tolist()), identifier=self.id)

    def full(self, domain):
        f, v = self.tab["frequency"], self.tab["velocity"]
        if domain == "wavelength":
            return v / f
        if domain == "slowness":
            return 1 / v
        if domain == "wavenumber":
            return 2 * np.pi * f / v
        return self.tab[domain]

    def domains(self):
        return list(self.tab) + ["wavelength", "slowness", "wavenumber"]

    def values(self, domain):
        return self.full(domain)[self.valid]

    def limits(self, domain, lo, hi):
        v = self.full(domain)
        out = np.zeros(v.shape, bool)
        if lo is not None:
            out |= v < lo
        if hi is not None:
            out |= v > hi
        return out & self.valid

    def inside(self, xd, xl, yd, yl):
        x, y = self.full(xd), self.full(yd)
        return self.valid & (x > min(xl)) & (x < max(xl)) & (y > min(yl)) & (y < max(yl))

    def agree(self, p, msg="", exact=("frequency", "velocity") + tuple(OPT)):
        ok(isinstance(p, Peaks), f"{msg}: {type(p)}")
        ok(p.identifier == self.id, f"{msg}: identifier {p.identifier!r}, expected {self.id!r}")
        for d in self.domains():
            got = getattr(p, d)
            (same if d in exact else close)(got, self.values(d), f"{msg}: {d} of the retained peaks")
        ok(set(p.attrs) == set(self.tab), f"{msg}: attributes {p.attrs}")


def members():
    """Small peaks with dyadic values (wavelengths and slownesses are exact), ties, missing values and rejected entries."""
    m = {}
    m["d1"] = Ref([4, 8, 16, 32], [512, 256, 256, 128], "d1")
    m["d1nan"] = Ref([4, 8, 16], [512, NAN, 128], "d1nan", azimuth=[10, 20, NAN], power=[1, 2, 3])
    m["d1all"] = Ref([16, 4, 8], [128, 256, 512], "d1all", azimuth=[350, 10, 180], ellipticity=[-1.5, 0, 1.5], noise=[float("inf"), 0.5, 2], power=[3, 1, 2])
    m["d2"] = Ref([[4, 8, 16], [4, 8, NAN]], [[256, 128, 64], [512, 256, NAN]], "d2", power=[[1, 2, 3], [4, 1, NAN]], azimuth=[[0, 90, 180], [270, NAN, NAN]])
    m["d2rej"] = Ref([[4, 8], [4, 8]], [[256, 128], [512, 256]], "d2rej", valid=[[True, False], [True, True]])
    m["one"] = Ref([8], [256], "one")
    m["allrej"] = Ref([4, 8, 16], [300.1, 200.3, 100.7], "allrej", valid=[False] * 3)
    m["dec"] = Ref([3.3, 4.7, 6.1, 7.9, 9.2, 11.3, 15.7, 22.9, 31.1], [0.1, 0.47, 733.3, 611.7, 523.9, 407.3, 301.1, 222.7, 1187.9], "dec",
                   noise=[1.5e-9, 2e-8, 0.3, 0.7, 1.1, 1.3, 0, -0.1, 1e9], azimuth=[0.1, 0.2, 0.3, 359.9, 180.7, 90.3, 45.1, 22.7, 11.3])
    m["big"] = Ref([[2.3, 4.1, 8.7, 16.9, 33.1]] * 3, [[901.1, 703.3, 505.7, NAN, 101.9], [887.3, 701.1, NAN, 299.3, 111.7], [901.7, 689.9, 511.3, 303.1, NAN]], "big",
                   power=[[-3, -2, 0, NAN, 1e-3], [-4, -1, NAN, 5, 1e-5], [-5, -3, -1, 4, NAN]], noise=[[0.1, 0.2, 0.3, NAN, 0.5], [0.5, 0.4, NAN, 0.2, 0.1], [0.3, 0.3, 0.1, 0.7, NAN]])
    m["none"] = Ref([8], [NAN], "none")
    return m


def wide():
    """Larger tables: many frequencies, windows, large velocities and frequencies, all attributes."""
    f = np.array([0.3 * 1.09 ** k for k in range(72)])
    v = np.array([[4800. / (1 + 0.07 * k) + 13.7 * r * (-1) ** k for k in range(72)] for r in range(4)])
    v[1, 5::7] = v[3, ::3] = NAN
    w = np.where(np.isnan(v), NAN, 1.)
    i, k = np.mgrid[0:4, 0:72]
    one = Ref(f, v[0], "wide1", power=1e4 * np.cos(np.arange(72)) ** 2)
    two = Ref(w * f, v, "wide4", power=w * (((7 * i + 3 * k * k) % 101) - 50.5), azimuth=w * ((37.3 * k + 90 * i) % 360), ellipticity=w * (i - 1.5) * k, noise=w * (k + 0.5) / (i + 1))
    rej = Ref(f[::-1], v[2], "widerej", valid=[q % 5 != 2 for q in range(72)])
    return dict(wide1=one, wide4=two, widerej=rej)
