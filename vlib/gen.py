"""Workload generators shared by the checks."""
import numpy as np

FORGETS = [0.0, 0.0, 1e-6, 0.001, 0.01, 0.03, 0.1, 0.3, 0.5, 0.9]


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def design(rng, n, J, hostile=True):
    kind = pick(rng, ["normal", "normal", "uniform", "corr", "scales", "offset", "binary"]) if hostile else "normal"
    X = rng.normal(size=(n, J))
    if kind == "uniform":
        X = rng.uniform(-1, 3, size=(n, J))
    elif kind == "corr" and J > 1:
        X = X + 1.5 * X[:, :1]
    elif kind == "scales":
        X = X * 10 ** rng.uniform(-2, 2, J)
    elif kind == "offset":
        X = X + rng.uniform(-5, 5, J)
    elif kind == "binary":
        X[:, -1] = (X[:, -1] > 0.2).astype(float)
        X[0, -1], X[1, -1], X[2 % n, -1] = 0.0, 1.0, 0.0
    return X


def weights(rng, n, kind=None):
    """None, uniform, integer, with zeros, tiny/large"""
    kind = kind or pick(rng, ["none", "unif", "int", "zeros", "wide"])
    if kind == "none":
        return kind, None
    if kind == "unif":
        return kind, rng.uniform(0.1, 3, n)
    if kind == "int":
        return kind, rng.integers(1, 5, n).astype(float)
    if kind == "zeros":
        w = rng.uniform(0.2, 2, n)
        w[rng.uniform(size=n) < 0.3] = 0.0
        return kind, w
    return kind, 10 ** rng.uniform(-2, 2, n)


def partition(rng, n0, n, single=0.4):
    """boundaries n0=c0<c1<...<=n of the update batches"""
    cuts = [n0]
    style = rng.uniform()
    while cuts[-1] < n:
        if style < 0.2:
            k = 1
        elif style < 0.3:
            k = n - n0
        else:
            k = 1 if rng.uniform() < single else int(rng.integers(1, 9))
        cuts.append(min(n, cuts[-1] + k))
    return cuts


def slices(cuts):
    return [slice(a, b) for a, b in zip(cuts[:-1], cuts[1:])]


def disc(forget, n):
    """reference discount vector, newest = 1"""
    return (1.0 - forget) ** np.arange(n - 1, -1, -1.0)


def sl(w, s):
    return None if w is None else w[s]


# ---- distributional regression -------------------------------------------------


def dr_data(name, rng, n, J, ncov=2, amp=0.3, eta0=None, X=None):
    """data from the reference sampler with a linear predictor in the first `ncov` parameters"""
    from .dists import REF, sut

    d, dist = REF[name], sut(name)
    if X is None:
        X = rng.normal(size=(n, J))
    th = []
    for p, e0 in enumerate(eta0 or d.eta0()):
        b = rng.uniform(-amp, amp, X.shape[1]) if p < ncov else np.zeros(X.shape[1])
        z = (X - X.mean(0)) / np.where(X.std(0) > 0, X.std(0), 1)
        th.append(dist.link_inverse(e0 + z @ b, param=p))
    t = np.stack(th, 1)
    return X, d.rvs(rng, t)


TIGHT = dict(abs_tol_outer=1e-9, abs_tol_inner=1e-9, rel_tol_outer=1e-13, rel_tol_inner=1e-13)


def DR(**kw):
    from ondil.estimators import OnlineDistributionalRegression

    return OnlineDistributionalRegression(**kw)


def warm_dr(lasso=False, ols=True, ridge=False, F=False):
    """compile the kernels that a DR run needs"""
    from ondil.methods import LassoPath, Ridge

    rng = np.random.default_rng(0)
    X = rng.normal(size=(60, 2))
    y = X[:, 0] + rng.normal(size=60)
    for m in ([("ols")] if ols else []) + ([LassoPath(lambda_n=5)] if lasso else []) + ([Ridge(lambda_reg=0.1)] if ridge else []):
        e = DR(method=m, equation={0: "all", 1: "all"}, max_it_outer=2).fit(X[:40], y[:40])
        e.update(X[40:50], y[40:50])
        e.update(X[50:51], y[50:51])
        if F:  # selected columns give Fortran-ordered design matrices
            e = DR(method=m, equation={0: np.array([1, 0]), 1: np.array([0])}, max_it_outer=2).fit(X[:40], y[:40])
            e.update(X[40:50], y[40:50])
            e.update(X[50:51], y[50:51])


def nonzero_batches(w, cuts):
    """the input validation refuses batches whose weights are all zero"""
    if w is not None:
        for s in slices(cuts):
            if not np.any(w[s] > 0):
                w[s.start] = 0.7
    return w
