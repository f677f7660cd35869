"""C27: samples follow their distribution exactly and expansions reproduce polynomials."""
import itertools
import math

from . import core
from .core import require

MEANS = [0.8, 1.7, 0.4, 2.2]
COVS = {
    "diag": [[0.3, 0, 0, 0], [0, 1.2, 0, 0], [0, 0, 0.05, 0], [0, 0, 0, 0.6]],
    "full": [[0.5, 0.2, -0.1, 0.05], [0.2, 0.4, 0.1, 0.0], [-0.1, 0.1, 0.6, 0.2], [0.05, 0.0, 0.2, 0.9]],
}


def design(n, samples):
    """The standard normal design: Sobol points mapped through the inverse distribution, one column per sample."""
    import numpy as np
    import sobol_seq
    from scipy.special import ndtri

    return ndtri(np.array(sobol_seq.i4_sobol_generate(n, samples, math.ceil(math.log2(samples))))).T


def sub(m, n):
    import numpy as np

    return np.array([r[:n] for r in m[:n]], dtype=float)


def run_sample(cfg, tr):
    import casadi as ca
    import numpy as np
    from yaocptool import stochastic

    n, s = cfg["n"], cfg["samples"]
    mean, cov = MEANS[:n], sub(COVS[cfg["cov"]], n)
    low = np.linalg.cholesky(cov)
    arg = ca.DM(mean) if cfg["form"] == "dm" else list(mean)
    if cfg["dist"] == "normal":
        out = stochastic.sample_parameter_normal_distribution_with_sobol(arg, ca.DM(cov), s)
        exp = np.array(mean)[:, None] + low @ design(n, s)
    else:
        out = stochastic.sample_parameter_log_normal_distribution_with_sobol(arg, ca.DM(cov), s)
        exp = np.exp(np.log(mean)[:, None] + low @ design(n, s))
    out = ca.DM(out).full()
    require(out.shape == (n, s), "shape", lambda: "%s" % (out.shape,))
    require(bool(np.all(np.isfinite(out))), "finite", lambda: "%s" % out)
    for j in range(s):
        tr.step()
        tr.state((cfg["dist"], [round(float(v), 8) for v in exp[:, j]]))
        require(bool(np.all(np.abs(out[:, j] - exp[:, j]) <= 1e-9 * (1 + np.abs(exp[:, j])))), "sample", lambda: "sample %d: %s, expected %s" % (j, out[:, j], exp[:, j]))


def hermite(k, v):
    a, b = 1.0, v
    if k == 0:
        return a
    for i in range(1, k):
        a, b = b, v * b - i * a
    return b


def indices(n, order):
    return [e for e in itertools.product(range(order + 1), repeat=n) if sum(e) <= order]


def basis(e, v):
    return math.prod(hermite(k, q) for k, q in zip(e, v))


POINTS = [(0.37, -0.61, 1.21), (-1.13, 0.47, 0.29), (0.83, 1.51, -0.71), (2.03, -1.87, 0.53)]


def run_expansion(cfg, tr):
    import casadi as ca
    import numpy as np
    from yaocptool.stochastic.pce import get_ls_factor

    n, order, lamb = cfg["n"], cfg["order"], cfg["lamb"]
    idx = indices(n, order)
    npol = len(idx)
    s = npol + cfg["extra"]
    np.random.seed(5)
    ls, norms, psi = get_ls_factor(n, s, order, lamb) if cfg["lamb"] else get_ls_factor(n, s, order)
    ls, norms = ca.DM(ls).full(), ca.DM(norms).full().flatten()
    require(ls.shape == (npol, s) and norms.shape == (npol,), "shape", lambda: "%s %s" % (ls.shape, norms.shape))
    # the polynomials: a constant first, then every product of Hermite polynomials up to the order, once
    at = [[float(q) for q in ca.DM(psi(ca.DM(list(p[:n])))).full().flatten()] for p in POINTS]
    left, perm = list(idx), []
    for i in range(npol):
        hit = [e for e in left if all(abs(at[j][i] - basis(e, p[:n])) <= 1e-9 * (1 + abs(basis(e, p[:n]))) for j, p in enumerate(POINTS))]
        require(len(hit) == 1, "polynomial", lambda: "entry %d is none of the remaining Hermite products: %s" % (i, [a[i] for a in at]))
        perm.append(hit[0])
        left.remove(hit[0])
        tr.step()
        tr.state((n, order, hit[0]))
    require(sum(perm[0]) == 0, "mean-first", "the first polynomial is not the constant")
    # regularised least squares over the design
    Z = design(n, s)
    Psi = np.array([[basis(e, Z[:, j]) for e in perm] for j in range(s)])
    N = Psi.T @ Psi + lamb * np.eye(npol)
    res = N @ ls - Psi.T
    # (the code solves the normal equations: no claim where these are numerically singular)
    require(np.linalg.cond(N) > 1e10 or bool(np.all(np.abs(res) <= 1e-7 * (1 + np.abs(N) @ np.abs(ls)))), "least-squares", lambda: "residual %s" % np.abs(res).max())
    # the expectations of the squares
    xs, ws = np.polynomial.hermite_e.hermegauss(40)
    ws = ws / ws.sum()
    for i, e in enumerate(perm):
        exact = math.prod(math.factorial(k) for k in e)
        fourth = math.prod(float(sum(w * hermite(k, x) ** 4 for x, w in zip(xs, ws))) for k in e)
        tol = 7 * math.sqrt(max(0.0, fourth - exact ** 2) / 100000) + 1e-9
        require(abs(norms[i] - exact) <= tol, "expectation", lambda: "%s: %s, expected %s +- %s" % (e, norms[i], exact, tol))


def build(tier):
    import yaocptool.stochastic.pce  # noqa: F401

    th = tier == "thorough"
    samp, expa = [], []
    for dist, n, s, cov, form in itertools.product(("normal", "lognormal"), (1, 2, 3, 4), range(1, 40 if th else 18), COVS, ("dm", "list")):
        samp.append(dict(dist=dist, n=n, samples=s, cov=cov, form=form))
    for n, orders in ((1, range(1, 11)), (2, range(1, 7 if th else 5)), (3, range(1, 5 if th else 4))):
        for order in orders:
            for extra, lamb in itertools.product((0, 1, 5), (0.0, 0.3)) if (th or n * order <= 4) else ((0, 0.0), (5, 0.3)):
                expa.append(dict(n=n, order=order, extra=extra, lamb=lamb))
    expa.sort(key=lambda c: -c["n"] * c["order"])
    return [core.Suite("expansions", expa, run_expansion), core.Suite("samples", samp, run_sample)]


if __name__ == "__main__":
    core.main("C27", build,
              {"quick": "normal and log-normal samples in 1-4 dimensions, 1-17 samples, diagonal and full covariances; expansions in 1 variable up to order 10, 2 up to 4, 3 up to 3, exactly and over-determined, with and without regularisation",
               "thorough": "up to 39 samples, 2 variables up to order 6, 3 up to 4"},
              ["the Sobol sequence is the installed sobol_seq's; expectations are accepted within 7 standard deviations of the code's 100000 draws"])
