import numpy as np

from vlib import zoo
from vlib.core import Skip
from vlib.dists import REF, sut
from vlib.gen import DR, TIGHT, dr_data, nonzero_batches, partition, pick, sl, slices, warm_dr, weights

PAIRS = ["class", "strings", "alpha1", "ridge0", "gauss", "gausspath", "meanvar", "median", "lognormal", "mirror", "zaga", "beinf0", "beinf"]


class Check:
    ID = "Z25"
    RULE = ("random histories run on both members of a pair of equivalent formulations (convenience class / method object, shortcut / object, alpha=1 / lasso, vanishing "
            "ridge / OLS, Gaussian regression / linear model, reparameterised and transformed distributions, mixed / interior distribution), compared after every call; "
            "non-trivial = distinct (pair, options, number of covariates, weights, forget, call)")
    QUICK, THOROUGH = 600, 12000
    BUDGET = (18, 420)
    MIN_CASES = 60
    ASSUMPTIONS = ["distributional pairs are judged where both fits have converged (the reversed parameter order leads to the same result)"]

    def warmup(self):
        zoo.warm(["ols", "lasso", "ridge", "enet"])
        warm_dr(lasso=True)

    def case(self, rng, i):
        pair = PAIRS[i % len(PAIRS)]
        J = int(rng.integers(1, 5))
        n0 = int(rng.integers(60, 140))
        n = n0 + int(rng.integers(1, 20))
        return dict(pair=pair, J=J, n0=n0, n=n, cuts=partition(rng, n0, n), forget=float(pick(rng, [0.0, 0.0, 0.003, 0.02])), scale=bool(rng.uniform() < 0.7),
                    fi=bool(rng.uniform() < 0.8), ic=pick(rng, ["aic", "bic", "hqc", "max"]), wk=pick(rng, ["none", "unif", "int"]),
                    dr=bool(rng.uniform() < 0.4), opt=int(rng.integers(2**31)), seed=int(rng.integers(2**31)))

    def clone(self, e):
        from sklearn.base import clone

        return clone(e)

    # ---- histories ---------------------------------------------------------------
    def feed(self, e, X, y, w, s, first):
        a = dict(X=X[s], y=y[s])
        if w is not None:
            a["sample_weight"] = w[s]
        (e.fit if first else e.update)(**a)

    def both(self, c, mon, a, b, X, y, w, rtol, keys=None):
        Z = X[:6] + 0.1
        fresh = self.clone(a)
        for k, s in enumerate([slice(0, c["n0"])] + slices(c["cuts"])):
            with mon.sut(c["pair"] + (": fit" if k == 0 else ": update")):
                self.feed(a, X, y, w, s, k == 0)
                self.feed(b, X, y, w, s, k == 0)
                u, v = zoo.snapshot(a, Z), zoo.snapshot(b, Z)
            if keys:
                u, v = {q: u[q] for q in keys}, {q: v[q] for q in keys}
            bad = zoo.same_up_to(u, v, rtol)
            if bad is not None:

                def again(noise):
                    r, Xn, yn = self.clone(fresh), noise(X), noise(y)
                    for q, t in enumerate(([slice(0, c["n0"])] + slices(c["cuts"]))[: k + 1]):
                        self.feed(r, Xn, yn, w, t, q == 0)
                    r = zoo.snapshot(r, Z)
                    return {q: r[q] for q in keys} if keys else r

                if zoo.fragile(again, u, rtol):
                    mon.event("tie in the criterion")
                    return
            mon.true(f"{c['pair']}: equivalent formulations agree", bad is None, lambda: f"call {k}: {bad} {c}")
            mon.sig(c["pair"], c["J"], c["fi"], c["scale"], c["forget"] > 0, c["wk"], c["dr"], "fit" if k == 0 else "update")

    def options(self, rng, J):
        o = dict(lambda_n=int(rng.integers(5, 25)), lambda_eps=float(10 ** rng.uniform(-4, -1)), early_stop=int(pick(rng, [0, 0, 1, 2])),
                 tolerance=float(pick(rng, [1e-4, 1e-7])), max_iterations=int(pick(rng, [1000, 1000, 3])),
                 start_value_update=pick(rng, ["previous_fit", "previous_lambda", "average"]))
        if rng.uniform() < 0.3:
            o["beta_lower_bound"] = np.r_[[-np.inf], np.full(J - 1, -0.2)]
        if rng.uniform() < 0.3:
            o["beta_upper_bound"] = np.r_[[np.inf], np.full(J - 1, 0.15)]
        return o

    def run(self, c, mon):
        from ondil.estimators import OnlineLasso, OnlineLinearModel
        from ondil.methods import ElasticNetPath, LassoPath, OrdinaryLeastSquares, Ridge

        rng = np.random.default_rng(c["seed"])
        opt = np.random.default_rng(c["opt"])
        pair, J, n = c["pair"], c["J"], c["n"]
        _, w = weights(rng, n, c["wk"])
        if pair in ("class", "strings", "alpha1", "ridge0"):
            X, y = dr_data("Normal", rng, n, J)
            X = X * 10 ** rng.uniform(-0.3, 0.3, J) + rng.uniform(-1, 1, J)
            y = y + X @ rng.normal(size=J)
            ri = bool(c["fi"] and opt.uniform() < 0.3)
            base = dict(forget=c["forget"], scale_inputs=c["scale"], fit_intercept=c["fi"], regularize_intercept=ri, ic=c["ic"])

            def lin(m):
                if c["dr"]:
                    ic = c["ic"]
                    return DR(distribution=sut("Normal"), method={0: m, 1: "ols"}, max_it_outer=3, max_it_inner=3,
                              **dict(base, ic=ic, fit_intercept={0: c["fi"], 1: True}, regularize_intercept={0: ri, 1: False}))
                return OnlineLinearModel(method=m, **base)

            o = self.options(opt, J + c["fi"])
            if pair == "class":
                o["start_value"] = o.pop("start_value_update")
                a = OnlineLasso(**base, **o)
                o["start_value_update"] = o.pop("start_value")
                self.both(dict(c, dr=False), mon, a, OnlineLinearModel(method=LassoPath(**o), **base), X, y, w, 1e-9)
                # and with the documented defaults
                self.both(dict(c, dr=False), mon, OnlineLasso(), OnlineLinearModel(method="lasso", ic="bic"), X, y, w, 1e-9)
            elif pair == "strings":
                for s, m in (("ols", OrdinaryLeastSquares()), ("lasso", LassoPath()), ("elasticnet", ElasticNetPath(alpha=0.5))):
                    self.both(dict(c, pair="shortcut " + s), mon, lin(s), lin(m), X, y, w, 1e-9)
            elif pair == "alpha1":
                self.both(c, mon, lin(ElasticNetPath(alpha=1.0, **o)), lin(LassoPath(**o)), X, y, w, 1e-9)
            else:
                c = dict(c, dr=False)
                self.both(c, mon, lin(Ridge(lambda_reg=1e-9, tolerance=1e-12, max_iterations=20000)), lin("ols"), X, y, w, 1e-5, ["coef_", "predict"])
            return
        if pair in ("gauss", "gausspath"):
            if pair == "gausspath":
                J = 1  # several covariates: active sets may leave different but equally admissible rows
            X, y = dr_data("Normal", rng, n, J)
            base = dict(forget=c["forget"], scale_inputs=c["scale"], ic="bic")
            m = "ols" if pair == "gauss" else LassoPath(lambda_n=10, lambda_eps=1e-3, tolerance=1e-11, max_iterations=5000)
            s = slice(0, c["n0"])
            with mon.sut("fit"):
                a = OnlineLinearModel(method=m, fit_intercept=c["fi"] or pair == "gausspath", **base)
                b = DR(distribution=sut(pick(opt, ["Normal", "NormalMeanVariance"])), method={0: m, 1: "ols"}, equation={0: "all", 1: "intercept"},
                       fit_intercept={0: c["fi"] or pair == "gausspath", 1: True}, max_it_outer=60, max_it_inner=30, **base, **TIGHT)
                self.feed(a, X, y, w, s, True)
                self.feed(b, X, y, w, s, True)
            if pair == "gausspath" and not np.all(np.abs(b.coef_[0] - a.coef_) <= 1e-6 * np.max(np.abs(a.coef_))):

                def again(noise, e):
                    r = self.clone(e)
                    self.feed(r, noise(X), noise(y), w, s, True)
                    return dict(c=r.coef_[0] if isinstance(r.coef_, dict) else r.coef_)

                if zoo.fragile(lambda f: again(f, a), dict(c=a.coef_), 1e-6) or zoo.fragile(lambda f: again(f, b), dict(c=b.coef_[0]), 1e-6):
                    mon.event("tie in the criterion")
                    return
            mon.close(f"{pair}: mean of the Gaussian regression is the linear regression", b.coef_[0], a.coef_, rtol=1e-6, scale=np.max(np.abs(a.coef_)))
            mon.close(f"{pair}: predictions agree", b.predict(X[:9]), a.predict(X[:9]), rtol=1e-6, scale=1.0)
            if pair == "gausspath":
                mon.close("gausspath: paths agree", b.coef_path_[0], a.coef_path_, rtol=1e-5, scale=np.max(np.abs(a.coef_path_)))
            mon.sig(pair, J, c["fi"], c["scale"], c["forget"] > 0, c["wk"])
            return
        # distributional pairs: (name a, name b, response map, parameter map of b's predictions to a's)
        ident = lambda t: t  # noqa
        A, B, fy, ft = {
            "meanvar": ("Normal", "NormalMeanVariance", ident, lambda t: np.stack([t[:, 0], np.sqrt(t[:, 1])], 1)),
            "median": ("LogNormal", "LogNormalMedian", ident, lambda t: np.stack([np.log(t[:, 0]), t[:, 1]], 1)),
            "lognormal": ("LogNormal", "Normal", np.log, ident),
            "mirror": ("Gumbel", "ReverseGumbel", np.negative, lambda t: np.stack([-t[:, 0], t[:, 1]], 1)),
            "zaga": ("ZeroAdjustedGamma", "Gamma", None, None),
            "beinf0": ("BetaInflatedZero", "Beta", None, None),
            "beinf": ("BetaInflated", "Beta", None, None),
        }[pair]
        X, y = dr_data(A, rng, n, J, amp=0.2)
        mixed = fy is None
        if mixed:
            c["scale"], c["forget"] = False, 0.0
            inner = (y > 0) & (y < 1 if pair != "zaga" else y > 0)
            if inner[: c["n0"]].sum() < 30 or inner[: c["n0"]].all():
                raise Skip("too few interior observations")
        cov1 = bool(opt.uniform() < 0.5)
        order = None if opt.uniform() < 0.5 else np.array([1, 0])

        def make(name, rev):
            P = REF[name].p
            od = np.arange(P) if order is None or P > 2 else order
            eq = {p: "all" if p == 0 or (p == 1 and cov1) else "intercept" for p in range(REF[name].p)}
            return DR(distribution=sut(name), equation=eq, forget=c["forget"], scale_inputs=c["scale"], max_it_outer=100, max_it_inner=10,
                      param_order=od[::-1].copy() if rev else od, **TIGHT)

        Z = X[:8]
        es = [make(A, False), make(B, False), make(A, True), make(B, True)]
        for k, s in enumerate([slice(0, c["n0"])] + (slices(c["cuts"]) if not mixed else [])):
            with mon.sut(pair + (": fit" if k == 0 else ": update")):
                th = []
                for q, e in enumerate(es):
                    if mixed and q % 2:
                        self.feed(e, X[s][inner[s]], y[s][inner[s]], None if w is None else w[s][inner[s]], slice(None), k == 0)
                    else:
                        self.feed(e, X, y if q % 2 == 0 or mixed else fy(y), w, s, k == 0)
                    th.append(e.predict_distribution_parameters(Z))
            sc = np.max(np.abs(th[0]), axis=0)
            if not all(np.all(np.isfinite(t)) for t in th) or np.max(np.abs(th[0] - th[2]) / sc) > 1e-7 or np.max(np.abs(th[1] - th[3]) / np.max(np.abs(th[1]), axis=0)) > 1e-7:
                if k == 0:
                    raise Skip("not converged")
                break
            want = th[0][:, :2] if mixed else th[0]
            mon.close(f"{pair}: the same fitted distribution", th[1] if mixed else ft(th[1]), want, rtol=2e-5 if mixed else 1e-5, scale=np.max(np.abs(want), axis=0),
                      detail=f"call {k} cov1={cov1}")
            mon.sig(pair, J, c["scale"], c["forget"] > 0, c["wk"], cov1, "fit" if k == 0 else "update")
