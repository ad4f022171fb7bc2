"""Small assertion and construction helpers shared by the checks."""
import contextlib

import numpy as np


GAIN = 1.       # amplitude of every record made by `wave` (set per unit by the runner)


def set_gain(g):
    global GAIN
    GAIN = float(g)


class SigError(AssertionError):
    def __init__(self, msg, sig):
        super().__init__(msg)
        self.sig = sig


def ok(cond, msg, sig=None):
    if not cond:
        raise SigError(msg, sig) if sig else AssertionError(msg)


def same(a, b, msg=""):
    """Exact equality of arrays (nan equal)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        ok(False, f"{msg}: shape {a.shape} != {b.shape}")
    e = (a == b) | ((a != a) & (b != b))
    if not np.all(e):
        ok(False, f"{msg}: values differ: {a.ravel()[:12]} != {b.ravel()[:12]}")


def close(a, b, msg="", rtol=1e-9, atol=None):
    """Equality to rounding: |a-b| <= rtol * max(scale of both) (+atol)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        ok(False, f"{msg}: shape {a.shape} != {b.shape}")
    if a.size == 0:
        return
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        ok(False, f"{msg}: nan pattern differs: {a.ravel()[:12]} vs {b.ravel()[:12]}")
    fin = ~na
    if not fin.any():
        return
    x, y = a[fin], b[fin]
    inf = np.isinf(x) | np.isinf(y)
    ok(np.array_equal(x[inf], y[inf]), f"{msg}: infinities differ")
    x, y = x[~inf], y[~inf]
    if x.size == 0:
        return
    scale = max(np.max(np.abs(x)), np.max(np.abs(y)))
    tol = rtol * scale + (atol if atol is not None else 1e-14 * min(GAIN, 1.))
    d = np.abs(x - y)
    if not np.max(d) <= tol:
        ok(False, f"{msg}: differ by {np.max(d):.3g} (tol {tol:.3g}): {x.ravel()[:10]} vs {y.ravel()[:10]}")


def raises(exc, f, msg=""):
    """f must raise exc (a class or tuple)."""
    try:
        r = f()
    except exc as e:
        return e
    except Exception as e:
        raise AssertionError(f"{msg}: expected {exc}, got {type(e).__name__}: {e}")
    raise AssertionError(f"{msg}: expected {exc}, but it returned {r!r}"[:600])


@contextlib.contextmanager
def patched(obj, name, value):
    old = getattr(obj, name)
    setattr(obj, name, value)
    try:
        yield
    finally:
        setattr(obj, name, old)


def wave(k, n):
    """Deterministic, reproducible, non-degenerate record number k of n samples (small dyadic rationals)."""
    i = np.arange(n)
    v = ((i * (7 + 4 * k) + 3 * k + (i * i) * (k + 1)) % 17) - 8
    return (v / 4.0 + (k + 1) / 8.0) * GAIN
