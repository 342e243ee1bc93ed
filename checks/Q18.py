import numpy as np

from vlib import zoo
from vlib.core import Skip
from vlib.dists import NAMES, REF, sut
from vlib.gen import DR, disc, dr_data, nonzero_batches, partition, pick, sl, slices, weights, warm_dr

LINEAR = ["ols", "ridge", "lasso", "enet", "OnlineLasso"]


def moments(X, w, forget):
    W = (np.ones(len(X)) if w is None else w) * disc(forget, len(X))
    m = (W[:, None] * X).sum(0) / W.sum()
    return m, np.sqrt((W[:, None] * (X - m) ** 2).sum(0) / W.sum())


class Check:
    ID = "Q18"
    RULE = ("linear and distributional estimators (all distributions, equations, scaling selections, with and without intercept) after fits and updates; every "
            "prediction method is recomputed from coef_, the moments of the history and the reference distributions, on new data far from and close to the "
            "training data, single rows and permuted / repeated subsets; non-trivial = distinct (estimator, equation kinds, scaling, quantile levels)")
    QUICK, THOROUGH = 900, 20000
    BUDGET = (24, 420)
    MIN_CASES = 120
    ASSUMPTIONS = ["linear predictors are kept within [-8, 8] so that reference moments are representable"]

    def warmup(self):
        warm_dr(lasso=True)
        zoo.warm(["ridge", "lasso", "ols"])

    def case(self, rng, i):
        lin = i % 4 == 3
        return dict(lin=lin, i=i, name=LINEAR[(i // 4) % len(LINEAR)] if lin else NAMES[(i - i // 4) % len(NAMES)], seed=int(rng.integers(2**31)))

    def run(self, c, mon):
        rng = np.random.default_rng(c["seed"])
        (self.linear if c["lin"] else self.dr)(c, mon, rng)

    def rowwise(self, mon, what, f, Z, full, rng, axis=0):
        full = np.asarray(full)
        idx = rng.integers(0, len(Z), int(rng.integers(1, len(Z) + 3)))
        with mon.sut(what):
            part = np.asarray(f(Z[idx]))
        # magnitudes along a row: the predictor may cancel
        sc = np.nanmax(np.abs(np.where(np.isfinite(full), full, 0))) if full.size else 1.0
        mon.close(f"{what}: row-wise", part, full[idx], rtol=1e-10, atol=1e-12 + 1e-12 * sc)

    # ------------------------------------------------------------------
    def linear(self, c, mon, rng):
        z = zoo.config(rng, [c["name"]])
        z["wk"] = pick(rng, ["none", "unif", "int", "zeros"])
        X, y, w, _ = zoo.data(z)
        icpt = bool(rng.uniform() < 0.7)
        e = zoo.build(z, fit_intercept=icpt)
        J = z["J"]
        sel = np.arange(J) if z["sel"] is True else np.arange(0) if z["sel"] is False else np.arange(J)[np.array(z["sel"])]
        for k, b in enumerate(zoo.batches(z)):
            with mon.sut("fit/update"):
                (e.update if k else e.fit)(X[b], y[b], sample_weight=sl(w, b))
            if k and rng.uniform() < 0.5:
                continue
            m, s = moments(X[:b.stop], sl(w, slice(0, b.stop)), z["forget"])
            mm, ss = np.zeros(J), np.ones(J)
            mm[sel], ss[sel] = m[sel], s[sel]
            Z = X[rng.integers(0, z["n"], 6)] + rng.normal(size=(6, J)) * 10 ** rng.uniform(-2, 2)
            D = (Z - mm) / ss
            if icpt:
                D = np.c_[np.ones(6), D]
            with mon.sut("predict"):
                p = e.predict(Z)
            sc = np.abs(D) @ np.abs(e.coef_)
            mon.close("linear prediction", p, D @ e.coef_, rtol=0, atol=1e-8 * (1 + sc.max()), detail=f"{c['name']} sel={z['sel']}")
            self.rowwise(mon, "predict", e.predict, Z, p, rng)
            if getattr(e, "coef_path_", None) is not None and c["name"] not in ("ols", "ridge"):
                with mon.sut("predict_path"):
                    pp = e.predict_path(Z)
                mon.close("path prediction", pp, D @ e.coef_path_.T, rtol=0, atol=1e-8 * (1 + (np.abs(D) @ np.abs(e.coef_path_).T).max()))
                mon.true("path contains the point prediction", np.any(np.all(np.abs(pp - p[:, None]) <= 1e-9 * (1 + np.abs(pp)), axis=0)))
                self.rowwise(mon, "predict_path", e.predict_path, Z, pp, rng)
            mon.same("beta is coef_", np.array(e.beta), np.array(e.coef_))
            mon.event("linear states")
        mon.sig(c["name"], str(z["sel"]), icpt, z["wk"], z["forget"] > 0)

    # ------------------------------------------------------------------
    def dr(self, c, mon, rng):
        from ondil.methods import LassoPath

        name = c["name"]
        d, D = REF[name], sut(name)
        P = D.n_params
        J = int(rng.integers(1, 5))
        n0 = int(rng.integers(50, 90))
        n = n0 + int(rng.integers(0, 8))
        X, y = dr_data(name, rng, n, J, amp=0.15, eta0=[0.4, -1.2] if name == "InverseGamma" else None)
        loc, sc = rng.uniform(-2, 2, J), 10 ** rng.uniform(-0.5, 0.5, J)
        X = X * sc + loc
        cuts = partition(rng, n0, n)
        wk, w = weights(rng, n, pick(rng, ["none", "unif", "int"]))
        f = float(pick(rng, [0.0, 0.0, 0.01]))
        fg = f if rng.uniform() < 0.6 else {p: f if p == 0 else 0.003 for p in range(P)}
        kinds, eq, cols = {}, {}, {}
        for p in range(P):
            k = pick(rng, ["all", "intercept", "ints", "mask"])
            kinds[p] = k
            if k == "all":
                eq[p], cols[p] = "all", np.arange(J)
            elif k == "intercept":
                eq[p], cols[p] = "intercept", np.arange(0)
            elif k == "ints":
                a = rng.permutation(J)[: int(rng.integers(1, J + 1))]
                eq[p], cols[p] = a, a
            else:
                a = rng.uniform(size=J) < 0.6
                a[int(rng.integers(J))] = True
                eq[p], cols[p] = a, np.flatnonzero(a)
        icpt = {p: True if kinds[p] == "intercept" or p > 0 else bool(rng.uniform() < 0.8) for p in range(P)}
        sel = pick(rng, [True, True, False, np.arange(J) % 2 == 0, np.array([J - 1])])
        ss_ = np.arange(J) if sel is True else np.arange(0) if sel is False else np.arange(J)[sel]
        meth = pick(rng, ["ols", "ols", {p: LassoPath(lambda_n=6, lambda_eps=1e-2) if p == 0 else "ols" for p in range(P)}])
        e = DR(distribution=D, equation=eq, forget=fg, fit_intercept=icpt, scale_inputs=sel, method=meth, param_order=pick(rng, [None, rng.permutation(P)]), max_it_outer=int(pick(rng, [1, 2, 4])), max_it_inner=int(pick(rng, [1, 3])))
        for k, b in enumerate([slice(0, n0)] + slices(cuts)):
            try:
                (e.update if k else e.fit)(X[b], y[b], sample_weight=sl(w, b))
            except np.linalg.LinAlgError:
                raise Skip("estimation diverged")
            if k and rng.uniform() < 0.5:
                continue
            if not all(np.all(np.isfinite(v)) for v in e.coef_.values()):
                raise Skip("estimation diverged")
            m, s = moments(X[:b.stop], sl(w, slice(0, b.stop)), f)
            mm, sd = np.zeros(J), np.ones(J)
            mm[ss_], sd[ss_] = m[ss_], s[ss_]
            q = int(rng.integers(2, 7)) if rng.uniform() > 0.04 else 1100
            Z = X[rng.integers(0, n, q)] + rng.normal(size=(q, J)) * sc * pick(rng, [0.0, 0.1, 1.0])
            S = (Z - mm) / sd
            E = np.empty((q, P))
            scale = 0.0
            for p in range(P):
                A = S[:, cols[p]]
                if icpt[p]:
                    A = np.c_[np.ones(q), A]
                if not mon.true("one coefficient per covariate of the equation", A.shape[1] == len(e.coef_[p]), lambda: f"{name} param {p} {kinds[p]}"):
                    return
                E[:, p] = A @ e.coef_[p]
                scale = max(scale, (np.abs(A) @ np.abs(e.coef_[p])).max())
            with mon.sut("predict"):
                eta = e.predict_distribution_parameters(Z, what="link")
                theta = e.predict_distribution_parameters(Z)
                (th2, contr) = e.predict_distribution_parameters(Z, return_contributions=True)
                (et2, contr2) = e.predict_distribution_parameters(Z, what="link", return_contributions=True)
            mon.close("linear predictor from the coefficients", eta, E, rtol=0, atol=1e-9 * (1 + scale), detail=f"{name} {kinds}")
            mon.close("what=link with contributions", et2, eta, rtol=0, atol=1e-9 * (1 + scale))
            mon.close("response with contributions", th2, theta, rtol=1e-9 * (1 + scale), atol=1e-9 * (1 + scale))
            mon.true("one contribution array per parameter", len(contr) == P and len(contr2) == P)
            for p in range(P):
                for C_ in (contr[p], contr2[p]):
                    C_ = np.asarray(C_)
                    mon.close("contributions sum to the predictor", C_.reshape(q, -1).sum(1), eta[:, p], rtol=0, atol=1e-9 * (1 + scale))
                mon.true("one contribution per coefficient", np.asarray(contr[p]).shape == (q, len(e.coef_[p])), lambda: f"{np.asarray(contr[p]).shape}")
                mon.close("parameters are the inverse links", theta[:, p], D.links[p].inverse(eta[:, p]), rtol=1e-10, atol=1e-12)
            mon.raises("unknown kind refused", ValueError, lambda: e.predict_distribution_parameters(Z, what="foo"))
            mon.event("distributional states")
            if np.max(np.abs(eta)) > 8 or (name == "InverseGamma" and theta[:, 1].max() > 0.9):
                mon.event("predictor too large for the moments")
                continue
            with mon.sut("predict"):
                mean, med = e.predict(Z), e.predict_median(Z)
            mon.true("one mean per row", np.shape(mean) == (q,), np.shape(mean))
            mon.close("mean", np.asarray(mean).reshape(-1), d.mean(theta), rtol=1e-7, atol=1e-9, detail=name)
            lv = pick(rng, [np.array([0.5]), np.array([0.05, 0.5, 0.95]), rng.uniform(0.01, 0.99, 5), np.array([0.99, 0.02, 0.98, 0.01, 0.02]), np.array([0.5, 1e-4, 0.9999, 1e-3])])
            lv = np.sort(lv) if rng.uniform() < 0.4 else rng.permutation(lv)
            with mon.sut("predict_quantile"):
                Q = e.predict_quantile(Z, lv)
                q1 = float(lv[int(rng.integers(len(lv)))])
                Q1 = e.predict_quantile(Z, q1)
            if not mon.true("quantiles: (rows, levels)", Q.shape == (q, len(lv)) and Q1.shape == (q, 1), lambda: f"{Q.shape} {Q1.shape}"):
                return
            mon.true("quantiles non-decreasing in the level", np.all(np.diff(Q[:, np.argsort(lv)], axis=1) >= -1e-12 * (1 + np.abs(Q[:, np.argsort(lv)[1:]]))), lambda: f"{name} {lv} {Q}")
            mon.close("scalar level equals array level", Q1[:, 0], Q[:, list(lv).index(q1)], rtol=1e-10, atol=1e-14)
            for j, a in list(enumerate(lv)) + [(-1, 0.5)]:
                x = Q[:, j] if j >= 0 else np.asarray(med).reshape(-1)
                what = "quantile of the predicted distribution" if j >= 0 else "median of the predicted distribution"
                hi = d.cdf(x, theta)
                h = 1e-6 * np.abs(x) + 1e-9
                lo = np.where(x - h < d.lower, 0.0, d.cdf(np.maximum(x - h, d.lower if np.isfinite(d.lower) else -np.inf), theta))
                if d.mixed:
                    lo = np.where(x <= 0, 0.0, lo)
                tol = min(1e-5, 0.02 * min(a, 1 - a))
                mon.true(what, np.all(hi >= a - tol) and np.all(lo <= a + tol), lambda: f"{name} level {a} cdf {hi} {lo} x {x} theta {theta[:2]}")
            for what, g, full in [("predict", e.predict, mean), ("predict_median", e.predict_median, med), ("predict_quantile", lambda A: e.predict_quantile(A, lv), Q),
                                  ("predict_distribution_parameters", e.predict_distribution_parameters, theta)]:
                self.rowwise(mon, what, g, Z, full, rng)
            mon.event("moments and quantiles judged")
        mon.same("beta is coef_", {k: np.array(v) for k, v in e.beta.items()}, {k: np.array(v) for k, v in e.coef_.items()})
        mon.sig(name, str(sorted(kinds.items())), str(sel), str(meth)[:3], f > 0)
