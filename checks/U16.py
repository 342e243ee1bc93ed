import copy

import numpy as np

from vlib import zoo
from vlib.core import deep_equal
from vlib.gen import pick, sl


def public(o):
    """public attributes of a user object (methods / distributions)"""
    out = {}
    for k in dir(o):
        if k.startswith("_") or callable(getattr(type(o), k, None)):
            continue
        out[k] = frozen(getattr(o, k))
    return out


def frozen(v):
    from ondil.base import Distribution, EstimationMethod

    if isinstance(v, (Distribution, EstimationMethod)):
        return (type(v).__name__, public(v))
    if isinstance(v, dict):
        return {k: frozen(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [frozen(x) for x in v]
    return copy.deepcopy(v) if isinstance(v, (int, float, str, bool, np.ndarray, np.generic, type(None))) else type(v).__name__


def params(e):
    return {k: frozen(v) for k, v in e.get_params(deep=False).items()}


TWO = ["Normal", "Gamma", "Logistic", "LogNormal", "Gumbel", "InverseGaussian", "Beta", "NormalMeanVariance"]


class Check:
    ID = "U16"
    RULE = ("histories of all estimator kinds (dict options, bounds, parameter orders): fingerprints of every argument and hyperparameter around every call, "
            "bitwise replay, replay with extra predictions / verbosity / debug recording / another global random state, replay through a reused buffer that is "
            "overwritten after every call; non-trivial = distinct (estimator, variant, options)")
    QUICK, THOROUGH = 520, 12000
    BUDGET = (20, 400)
    MIN_CASES = 60
    ASSUMPTIONS = ["cyclic coordinate selection", "debug mode itself may keep references (documented), its results may not differ"]

    def warmup(self):
        zoo.warm()

    def case(self, rng, i):
        c = zoo.config(rng, i=i, nup=(2, 12))
        c["bounds"] = bool(rng.uniform() < 0.4)
        c["order"] = bool(rng.uniform() < 0.4)
        c["variant"] = pick(rng, ["verbose", "debug", "predict", "rng", "buffer", "buffer"])
        c["dicts"] = bool(rng.uniform() < 0.6)
        c["special"] = bool(rng.uniform() < 0.5)
        if c["kind"] in ("dr-ols", "dr-lasso"):
            c["dist"] = TWO[i // 11 % len(TWO)]
        return c

    def make(self, c, **extra):
        from ondil.methods import ElasticNetPath, LassoPath

        k, J = c["kind"], c["J"]
        if k == "scaler":
            return zoo.build(c)
        over = {}
        if c["bounds"]:
            lo, hi = np.full(J + 1, -np.inf), np.full(J + 1, np.inf)
            lo[1], hi[-1] = -0.1, 0.05
            if k == "OnlineLasso":
                over.update(beta_lower_bound=lo, beta_upper_bound=hi)
            elif k == "lasso":
                over["method"] = LassoPath(lambda_n=8, beta_lower_bound=lo, beta_upper_bound=hi)
            elif k == "enet":
                over["method"] = ElasticNetPath(lambda_n=8, alpha=0.5, beta_lower_bound=lo, beta_upper_bound=hi)
        if k.startswith("dr"):
            if c["order"]:
                over["param_order"] = np.array([1, 0])
            if c["dicts"]:
                over.update(fit_intercept={0: True}, ic={1: c["ic"]}, step_size={0: 0.9}, regularize_intercept={1: False})
            over.update(extra)
        return zoo.build(c, **over)

    def run(self, c, mon):
        X, y, w, Z = zoo.data(c)
        bs = zoo.batches(c)
        scaler = c["kind"] == "scaler"
        if c["special"]:  # entries that a clean-up could be tempted to touch
            r = np.random.default_rng(c["seed"] + 1)
            m = r.uniform(size=X.shape)
            X[m < 0.02], X[m > 0.98] = 1e-13, -0.0
            Z[0, 0], Z[-1, -1] = -0.0, 1e-13
            if w is None:
                w = np.ones(c["n"])
            w[r.uniform(size=c["n"]) < 0.15] = 1e-13
            w[r.uniform(size=c["n"]) < 0.05] = 1e-3
            w[[b.start for b in bs]] = 1.0
            if not scaler and zoo.dist_of(c) in ("Normal", "Logistic", "Gumbel", "NormalMeanVariance"):
                y[r.uniform(size=c["n"]) < 0.03] = -0.0
        v = c["variant"]
        dr = c["kind"].startswith("dr")
        if v in ("verbose", "debug") and not dr:
            v = "predict"

        def args(s, mk=np.array):
            a = dict(X=mk(X[s]))
            if not scaler:
                a["y"] = mk(y[s])
            if w is not None:
                a["sample_weight"] = mk(w[s])
            return a

        e = self.make(c)
        trace = []
        p0 = params(e)
        for k, s in enumerate(bs):
            a = args(s)
            a0 = {q: np.array(u) for q, u in a.items()}
            Z0 = np.array(Z)
            with mon.sut("call"):
                (e.update if k else e.fit)(**a)
                trace.append(zoo.snapshot(e, Z0))
            mon.same("arguments unchanged", a, a0, detail=c["kind"])
            mon.same("prediction input unchanged", Z0, Z)
            if hasattr(e, "predict_quantile"):  # the levels are an argument as well
                lev = np.r_[0.0, 1.0, 0.5, 1e-14] if c["special"] else np.r_[0.01, 0.5, 0.99]
                lev0 = lev.copy()
                with mon.sut("predict_quantile"):
                    e.predict_quantile(Z0, lev)
                mon.same("quantile levels unchanged", lev, lev0)
                mon.same("prediction input unchanged", Z0, Z)
            mon.same("hyperparameters unchanged", params(e), p0, detail=c["kind"])
            mon.event("calls fingerprinted")

        # plain replay with the very same user objects, on fresh estimators
        r = type(e)(**e.get_params(deep=False))
        for k, s in enumerate(bs):
            with mon.sut("call"):
                (r.update if k else r.fit)(**args(s))
                snap = zoo.snapshot(r, Z)
            if not mon.same("replay with the same objects is bit-identical", snap, trace[k], detail=f"{c['kind']} step {k}"):
                return

        # replay in a variant that must not matter
        e2 = self.make(c, **({"verbose": 3} if v == "verbose" else {"debug": True} if v == "debug" else {}))
        rng = np.random.default_rng(c["seed"] + 5)
        bufs, views, Zb = {}, {}, np.empty_like(Z)
        for k, s in enumerate(bs):
            if v == "buffer":
                bx = {q: u for q, u in args(s).items()}
                for q in bx:  # one buffer of fixed capacity, reused for every batch
                    base = bufs.setdefault(q, np.empty((max(t.stop - t.start for t in bs),) + bx[q].shape[1:]))
                    base[: len(bx[q])] = bx[q]
                    bx[q] = views.setdefault((q, len(bx[q])), base[: len(bx[q])])
                a = bx
            else:
                a = args(s)
            if v == "rng":
                np.random.seed(int(rng.integers(2**31)))
            with mon.sut("call"):
                (e2.update if k else e2.fit)(**a)
            if v == "buffer":
                for q in a:
                    a[q][...] = 7.7e3
            if v == "predict":
                with mon.sut("predict"):
                    for _ in range(int(rng.integers(1, 3))):
                        s1 = zoo.snapshot(e2, pick(rng, [Z, X[: c["n0"]], X[:1]]))
                        for u in s1.values():  # results belong to the caller
                            if isinstance(u, np.ndarray) and u.dtype == float:
                                u[...] = np.nan
                    for m in ("predict", "transform", "predict_distribution_parameters"):
                        if hasattr(e2, m):
                            out = getattr(e2, m)(np.array(Z))
                            if isinstance(out, np.ndarray):
                                out[...] = 1e9
            with mon.sut("call"):
                if v == "buffer":  # the prediction input is a reused buffer as well
                    Zb[...] = X[: len(Z)]
                    zoo.snapshot(e2, Zb)
                    Zb[...] = Z
                    snap = zoo.snapshot(e2, Zb)
                    mon.same("prediction buffer unchanged", Zb, Z)
                else:
                    snap = zoo.snapshot(e2, Z)
            if v == "buffer":
                d = zoo.same_up_to(snap, trace[k], 1e-9)
                if not mon.true("results do not depend on later changes of the caller's buffers", d is None, lambda: f"{c['kind']} step {k} {d}"):
                    return
            elif not mon.same(f"no influence of: {v}", snap, trace[k], detail=f"{c['kind']} step {k}"):
                return
        mon.sig(c["kind"], v, c["bounds"], c["order"], c["dicts"], c["wk"])
