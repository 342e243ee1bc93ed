"""Configured estimators of all kinds with data histories, and a snapshot of everything observable."""
import numpy as np

from .gen import DR, dr_data, nonzero_batches, partition, pick, sl, slices, weights

KINDS = ["scaler", "ols", "ridge", "lasso", "enet", "OnlineLasso", "dr-ols", "dr-lasso", "dr-mixed", "dr-gamma", "dr-beta"]
DIST = {"dr-gamma": "Gamma", "dr-beta": "Beta"}


def dist_of(c):
    return c.get("dist") or DIST.get(c["kind"], "Normal")


def make_method(kind, lam=0.3, J=3):
    from ondil.methods import ElasticNetPath, LassoPath, Ridge

    return {"ols": "ols", "ridge": Ridge(lambda_reg=lam), "lasso": LassoPath(lambda_n=8, lambda_eps=1e-2),
            "enet": ElasticNetPath(lambda_n=8, alpha=0.6)}[kind]


def build(c, distribution=None, method=None, **over):
    """a fresh estimator for configuration c"""
    from ondil.estimators import OnlineLasso, OnlineLinearModel
    from ondil.scaler import OnlineScaler
    from .dists import sut

    k = c["kind"]
    if k == "scaler":
        return OnlineScaler(forget=c["forget"], to_scale=c["sel"] if c["sel"] is None or isinstance(c["sel"], (bool, np.ndarray)) else np.array(c["sel"]))
    sel = c["sel"] if isinstance(c["sel"], (bool, np.ndarray)) else np.array(c["sel"])
    if k == "OnlineLasso":
        return OnlineLasso(forget=c["forget"], scale_inputs=sel, lambda_n=8, ic=c["ic"], **over)
    if not k.startswith("dr"):
        return OnlineLinearModel(forget=c["forget"], scale_inputs=sel, method=method or make_method(k), ic=c["ic"], **over)
    J = c["J"]
    D = distribution or sut(dist_of(c))
    eq = {0: "all", 1: {"all": "all", "intercept": "intercept", "cols": np.arange(J)[::2].copy()}[c["eq1"]], 2: "intercept", 3: "intercept"}
    eq = {p: eq[p] for p in range(D.n_params)}
    meth = method or {"dr-ols": "ols", "dr-lasso": make_method("lasso"), "dr-mixed": {0: make_method("lasso"), 1: "ols"},
                      "dr-gamma": "ols", "dr-beta": {1: make_method("ridge"), 0: "ols"}}[k]
    opts = dict(distribution=D, equation=eq, forget=c["forget"] if not c["fdict"] else {p: c["forget"] / (1 + p) for p in range(D.n_params)},
                method=meth, scale_inputs=sel, ic=c["ic"], model_selection=c["ms"], max_it_outer=3, max_it_inner=4)
    opts.update(over)
    return DR(**opts)


def config(rng, kinds=KINDS, i=None, nup=(2, 25)):
    k = kinds[i % len(kinds)] if i is not None else pick(rng, kinds)
    J = int(rng.integers(2, 5))
    n0 = int(rng.integers(40, 70))
    n = n0 + int(rng.integers(*nup))
    sel = pick(rng, [True, True, False, [bool(b) for b in np.arange(J) % 2 == 0], [0, J - 1]])
    return dict(kind=k, J=J, n0=n0, n=n, forget=float(pick(rng, [0.0, 0.0, 0.002, 0.02])), sel=sel, ic=pick(rng, ["aic", "bic", "hqc"]),
                eq1=pick(rng, ["all", "intercept", "cols"]), ms=pick(rng, ["local_rss", "global_ll"]), fdict=bool(rng.uniform() < 0.3),
                wk=pick(rng, ["none", "none", "unif", "int"]), cuts=partition(rng, n0, n), seed=int(rng.integers(2**31)))


def data(c):
    rng = np.random.default_rng(c["seed"])
    name = dist_of(c)
    X, y = dr_data(name, rng, c["n"], c["J"])
    X = X * 10 ** rng.uniform(-0.4, 0.4, c["J"]) + rng.uniform(-1, 1, c["J"])
    _, w = weights(rng, c["n"], c["wk"])
    w = nonzero_batches(w, [0] + c["cuts"])
    Z = np.array(X[:5]) + 0.1 * rng.normal(size=(5, c["J"]))
    return X, y, w, Z


def batches(c):
    return [slice(0, c["n0"])] + slices(c["cuts"])


def feed(e, c, X, y, w, s, first, how="update"):
    f = e.fit if first and how != "partial" else e.partial_fit if how == "partial" else e.update
    if c["kind"] == "scaler":
        f(X[s], sample_weight=sl(w, s))
    else:
        f(X[s], y[s], sample_weight=sl(w, s))


def snapshot(e, Z):
    """everything a user can observe"""
    out = {}

    def arr(v):
        return {k: None if x is None else np.array(x) for k, x in v.items()} if isinstance(v, dict) else None if v is None else np.array(v)

    for a in ("coef_", "coef_path_", "n_observations_", "n_training_", "mean_", "var_", "std_", "n_features_"):
        if hasattr(e, a):
            out[a] = arr(getattr(e, a))
    for m in ("predict", "predict_path", "predict_distribution_parameters", "predict_median", "transform"):
        if hasattr(e, m) and not (m == "predict_path" and not hasattr(e, "coef_path_")):
            out[m] = np.array(getattr(e, m)(Z))
    if hasattr(e, "predict_quantile"):
        out["predict_quantile"] = np.array(e.predict_quantile(Z, np.array([0.1, 0.5, 0.9])))
    return out


def same_up_to(a, b, rtol):
    """first observable that differs by more than rtol, or None"""
    for k in a:
        x, y = a[k], b.get(k)
        xs = x.values() if isinstance(x, dict) else [x]
        ys = y.values() if isinstance(y, dict) else [y]
        for u, v in zip(xs, ys):
            if u is None and v is None:
                continue
            u, v = np.asarray(u, float), np.asarray(v, float)
            if u.shape != v.shape:
                return k, u.shape, v.shape
            sc = np.max(np.abs(np.r_[u.ravel(), v.ravel(), 1e-12]))
            if not np.all(np.abs(u - v) <= rtol * sc):
                return k, u, v
    return None


def fragile(run, want, rtol, tries=40):
    """Does a change of the inputs by a few rounding errors already change the results of one and the same run?
    Then rows of the path tie in the criterion, or a coefficient sits exactly on its threshold, and a comparison with
    another run of the same history (other summation order) says nothing. run(noise) repeats the run of `want` with
    noise applied to its inputs."""
    for t in range(tries):
        rng = np.random.default_rng(1000 + t)
        try:
            got = run(lambda A: None if A is None else A * (1 + 10.0 ** (-14 + t % 3) * rng.standard_normal(np.shape(A))))
        except Exception:
            continue
        if same_up_to(want, got, rtol) is not None:
            return True
    return False


def warm(kinds=KINDS):
    rng = np.random.default_rng(0)
    for i, k in enumerate(kinds):
        c = config(rng, [k])
        c["sel"] = True
        X, y, w, Z = data(c)
        e = build(c)
        feed(e, c, X, y, None, slice(0, c["n0"]), True)
        feed(e, c, X, y, None, slice(c["n0"], c["n0"] + 1), False)
        feed(e, c, X, y, None, slice(0, 3), False)
