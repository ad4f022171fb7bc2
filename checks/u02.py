"""U02 linear least squares: every problem of an alphabet, exact rational reference in information form."""
import itertools
from fractions import Fraction as F

import numpy as np

from swprocess.inversion import leastsquare_iterativealgorithm, leastsquare_posterioricovmatrix

from mc.util import ok, same

RULE = ("every combination of Jacobian (including rank-deficient, zero, wide and tall ones), prior covariance, data covariance, prior, data and previous estimate: the update and the posterior covariance "
        "are compared with the exact rational solution of the normal equations, for a linear model from every previous estimate; repeated steps stay; every symmetric entry, the order relative to the prior and the inputs are checked")
BOUNDS = dict(quick="1..3 parameters x 1..3 data (and 20 sizes of 4 to 20 of three kinds), 2x2 Jacobians over {-1,0,2}, all covariance pairs of the alphabet, 4 priors, 3 data vectors, 4 previous estimates each; constant offsets of the model; each problem again with parameters and data on scales 2^4 and 2^12 apart, and all of them about 2^-36 and 2^27",
              thorough="2x2, 2x3 and 3x2 Jacobians over {-1,0,2}, 3x3 over a 40-member subset")
ASSUMPTIONS = ["covariances are symmetric positive definite", "vectors are columns of shape (j,1), (k,1) as documented"]

VALS = [-1, 0, 2]
COV = {1: [[[1]], [[F(1, 4)]], [[9]]],
       2: [[[1, 0], [0, 1]], [[4, 0], [0, F(1, 2)]], [[2, 1], [1, 2]], [[1, F(-1, 2)], [F(-1, 2), 3]]],
       3: [[[1, 0, 0], [0, 2, 0], [0, 0, F(1, 2)]], [[2, 1, 0], [1, 2, 1], [0, 1, 3]]]}
PRI = {1: [[0], [3]], 2: [[0, 0], [1, -2], [5, 3]], 3: [[0, 0, 0], [1, -2, 4]]}
PREV = {1: [[0], [1], [-7]], 2: [[0, 0], [1, -2], [-3, 8]], 3: [[0, 0, 0], [3, -1, 2], [10, 10, -10]]}
DAT = {1: [[0], [4]], 2: [[0, 0], [4, -1]], 3: [[0, 0, 0], [4, -1, 7]]}


def mm(a, b):
    return [[sum(F(x) * F(y) for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def tr(a):
    return [list(c) for c in zip(*a)]


def add(a, b, s=1):
    return [[F(x) + s * F(y) for x, y in zip(r, q)] for r, q in zip(a, b)]


def inv(a):
    n = len(a)
    m = [[F(v) for v in r] + [F(int(i == j)) for j in range(n)] for i, r in enumerate(a)]
    for i in range(n):
        p = next(r for r in range(i, n) if m[r][i] != 0)
        m[i], m[p] = m[p], m[i]
        m[i] = [v / m[i][i] for v in m[i]]
        for r in range(n):
            if r != i:
                m[r] = [x - m[r][i] * y for x, y in zip(m[r], m[i])]
    return [r[n:] for r in m]


def col(v):
    return [[x] for x in v]


def npa(a):
    return np.array([[float(v) for v in r] for r in a])


def near(x, want, what):
    w = npa(want)
    ok(np.shape(x) == w.shape, f"{what}: shape {np.shape(x)}, expected {w.shape}")
    s = max(1., float(np.max(np.abs(w))))
    ok(np.max(np.abs(np.asarray(x) - w)) < 1e-9 * s, f"{what}: {np.asarray(x).tolist()}, expected {w.tolist()}")


def problem(J, cp, cd):
    k, j = len(J), len(J[0])
    ip, idd = inv(cp), inv(cd)
    H = add(ip, mm(mm(tr(J), idd), J))
    post = inv(H)
    fJ, fcp, fcd = npa(J), npa(cp), npa(cd)
    keep = [a.copy() for a in (fJ, fcp, fcd)]
    C = leastsquare_posterioricovmatrix(fcp, fcd, fJ)
    near(C, post, "posterior covariance")
    ok(np.max(np.abs(C - C.T)) < 1e-10 * max(1, np.max(np.abs(C))), "posterior covariance is not symmetric")
    ok(np.min(np.linalg.eigvalsh(fcp - (C + C.T) / 2)) > -1e-9 * np.max(fcp), "posterior exceeds prior")
    for a, b in zip((fJ, fcp, fcd), keep):
        same(a, b, "an input was altered")
    n = 0
    for p0, d0, off in itertools.product(PRI[j], DAT[k], (0, 3)):
        rhs = add(mm(ip, col(p0)), mm(mm(tr(J), idd), col([v - off for v in d0])))
        best = mm(post, rhs)
        for pm in PREV[j]:
            dm = add(mm(J, col(pm)), [[off]] * k)
            args = [npa(col(p0)), npa(col(pm)), fcp, npa(col(d0)), npa(dm), fcd, fJ]
            keep = [a.copy() for a in args]
            p = leastsquare_iterativealgorithm(*args)
            near(p, best, f"update from {pm} (prior {p0}, data {d0}, offset {off})")
            for a, b in zip(args, keep):
                same(a, b, "an input was altered")
            # a step from the optimum stays there
            q = leastsquare_iterativealgorithm(args[0], p, fcp, args[3], fJ @ p + off, fcd, fJ)
            near(q, best, "second step")
            n += 2
    return n


def scaled(J, cp, cd, e, b=0):
    """The same problem in other units: parameters and data on scales that are powers of two far apart."""
    k, j = len(J), len(J[0])
    sp, sd = [F(2) ** (b - e * i) for i in range(j)], [F(2) ** (b - e * i + 3) for i in range(k)]
    J2 = [[F(J[a][b]) * sd[a] / sp[b] for b in range(j)] for a in range(k)]
    cp2 = [[F(cp[a][b]) * sp[a] * sp[b] for b in range(j)] for a in range(j)]
    cd2 = [[F(cd[a][b]) * sd[a] * sd[b] for b in range(k)] for a in range(k)]
    H = add(inv(cp2), mm(mm(tr(J2), inv(cd2)), J2))
    post = inv(H)
    C = leastsquare_posterioricovmatrix(npa(cp2), npa(cd2), npa(J2))
    u = np.sqrt([float(cp2[a][a]) for a in range(j)])
    w = npa(post)
    ok(np.shape(C) == w.shape, f"posterior covariance: shape {np.shape(C)}")
    ok(np.max(np.abs(np.asarray(C) - w) / np.outer(u, u)) < 1e-5, f"posterior covariance on scales 2**{-e} apart: {np.asarray(C).tolist()}, expected {w.tolist()}")
    p0, d0, pm = PRI[j][-1], DAT[k][-1], PREV[j][-1]
    p0, pm, d0 = ([F(v) * q for v, q in zip(p0, sp)], [F(v) * q for v, q in zip(pm, sp)], [F(v) * q for v, q in zip(d0, sd)])
    best = npa(mm(post, add(mm(inv(cp2), col(p0)), mm(mm(tr(J2), inv(cd2)), col(d0)))))
    got = leastsquare_iterativealgorithm(npa(col(p0)), npa(col(pm)), npa(cp2), npa(col(d0)), npa(mm(J2, col(pm))), npa(cd2), npa(J2))
    ok(np.shape(got) == best.shape and np.max(np.abs(got - best)[:, 0] / (u * 20)) < 1e-5, f"update on scales 2**{-e} apart: {np.asarray(got).tolist()}, expected {best.tolist()}")
    return f"{e}"


def jacobians(k, j, tier):
    full = list(itertools.product(VALS, repeat=k * j))
    if k * j > 4 and not (tier == "thorough" and k * j == 6):
        full = full[::max(1, len(full) // 40)]
    return [[list(f[i * j:(i + 1) * j]) for i in range(k)] for f in full]


def several(k, j, kind):
    """Problems of more parameters and data, with correlated and uncorrelated covariances."""
    J = [[((3 * a + 5 * b + a * b) % 7) - 3 for b in range(j)] for a in range(k)]
    if kind == "thin":
        J = [[v if (a + b) % 3 == 0 else 0 for b, v in enumerate(r)] for a, r in enumerate(J)]
    if kind == "equal":
        J = [J[0]] * k
    cov = lambda n, c: [[F(1 + (a % 3)) if a == b else (F(c, 4) if abs(a - b) == 1 else F(0)) for b in range(n)] for a in range(n)]
    PRI[j], PREV[j], DAT[k] = [[(b * 5) % 4 - 1 for b in range(j)]], [[0] * j, [b - 2 for b in range(j)]], [[(a * 3) % 5 - 2 for a in range(k)]]
    return f"{[problem(J, cov(j, c), cov(k, d)) for c in (0, 1) for d in (0, -1)]}"


def units(tier):
    u = [dict(several=[k, j]) for k, j in itertools.product((4, 5, 7, 10), repeat=2)] + [dict(several=[k, j]) for k, j in ((1, 6), (6, 1), (20, 4), (4, 20))]
    for k in (1, 2, 3):
        for j in (1, 2, 3):
            for a in range(len(COV[j])):
                u.append(dict(k=k, j=j, cp=a, tier=tier))
    return u


def run(u, ctx):
    if "several" in u:
        keep = [dict(d) for d in (PRI, PREV, DAT)]
        for kind in ("full", "thin", "equal"):
            try:
                ctx.case([u["several"], kind], several, *u["several"], kind)
            finally:
                for d, q in zip((PRI, PREV, DAT), keep):
                    d.clear()
                    d.update(q)
        return
    k, j = u["k"], u["j"]
    for i, J in enumerate(jacobians(k, j, u["tier"])):
        for b, cd in enumerate(COV[k]):
            ctx.case([k, j, J, u["cp"], b], problem, J, COV[j][u["cp"]], cd)
            for e, s in ((4, 0), (12, 0), (3, -36), (3, 27)):
                ctx.case([k, j, J, u["cp"], b, "scaled", e, s], scaled, J, COV[j][u["cp"]], cd, e, s)
