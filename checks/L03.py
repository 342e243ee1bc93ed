import numpy as np

from vlib.gen import nonzero_batches, FORGETS, design, disc, partition, pick, slices, sl, weights


def moments(X, d):
    mu = (d[:, None] * X).sum(0) / d.sum()
    return mu, np.sqrt((d[:, None] * (X - mu) ** 2).sum(0) / d.sum())


class Ref:
    """batch solution of the documented problem, rebuilt from the full history"""

    def __init__(self, c):
        self.c = c
        self.rows, self.n = [], 0

    def add(self, b):
        c = self.c
        m = b.stop
        w = np.ones(m) if c["w"] is None else c["w"][:m]
        self.mu, self.sd = np.zeros(c["J"]), np.ones(c["J"])
        cols = np.arange(c["J"])[c["scale"]] if isinstance(c["scale"], np.ndarray) else np.arange(c["J"]) if c["scale"] else []
        if len(cols):
            mu, sd = moments(c["X"][:m], w * disc(c["forget"], m))
            self.mu[cols], self.sd[cols] = mu[cols], sd[cols]
        self.rows.append(self.design(c["X"][b]))
        self.n = m
        self.w = w

    def design(self, X):
        Z = (X - self.mu) / self.sd
        return np.c_[np.ones(len(Z)), Z] if self.c["icpt"] else Z

    def solve(self):
        c = self.c
        D = np.vstack(self.rows)
        W = self.w * disc(c["forget"], self.n)
        A = (D * W[:, None]).T @ D
        P = np.zeros(len(A))
        if c["lam"] is not None:
            P[:] = c["lam"]
            if c["icpt"] and not c["regint"]:
                P[0] = 0
        A = A + np.diag(P)
        sc = 1 / np.sqrt(np.diag(A))
        cond = np.linalg.cond(A * np.outer(sc, sc))
        beta = sc * np.linalg.solve(A * np.outer(sc, sc), sc * (D.T @ (W * c["y"][: self.n])))
        return beta, cond


class Check:
    ID = "L03"
    RULE = ("random streams and partitions for the online linear model with OLS and Ridge, all intercept/scaling/weight/forget options; "
            "coefficients after every batch vs. batch solution; non-trivial = distinct option combinations with at least one update")
    QUICK, THOROUGH = 1600, 60000
    BUDGET = (30, 540)
    MIN_CASES = 100
    ASSUMPTIONS = ["no covariate is constant over the data seen so far", "well-conditioned problems (scaled condition number below 1e5)"]

    def warmup(self):
        from ondil.estimators import OnlineLinearModel
        from ondil.methods import Ridge

        rng = np.random.default_rng(0)
        X, y = rng.normal(size=(20, 2)), rng.normal(size=20)
        for m in ("ols", Ridge(lambda_reg=0.1)):
            e = OnlineLinearModel(method=m).fit(X, y)
            e.update(X[:1], y[:1])
            e.update(X[:3], y[:3])

    def case(self, rng, i):
        J = int(rng.integers(1, 6)) if i % 25 != 17 else int(rng.integers(8, 20))
        n0 = int(rng.integers(J + 6, J + 40))
        n = n0 + int(rng.integers(1, 30 if i % 10 else 250))
        kind, w = weights(rng, n)
        if w is not None:
            w[:n0] = np.maximum(w[:n0], 0.4)
        f = float(pick(rng, FORGETS[:-2]))
        meth = pick(rng, ["ols", "ols", "OLS", "ridge", "ridge"])
        icpt = bool(rng.uniform() < 0.7)
        sel = pick(rng, ["true", "true", "false", "mask", "index"])
        scale = {"true": True, "false": False, "mask": np.arange(J) % 2 == 0, "index": np.array([J - 1])}[sel]
        X = design(rng, n, J)
        if sel != "true":
            X = rng.normal(size=(n, J)) + rng.uniform(-1, 1, J)
        y = X @ rng.normal(size=J) / (np.abs(X).max() + 1) + rng.normal(size=n) * 10 ** rng.uniform(-2, 0) + rng.uniform(-3, 3)
        y = y * float(pick(rng, [1.0, 1.0, 1e-7, 1e5]))  # unit of the response
        if meth == "ridge" and sel != "true" and rng.uniform() < 0.4:
            free = np.setdiff1d(np.arange(J), np.arange(J)[scale] if sel != "false" else [])
            if len(free):  # a covariate that first moves after the initial fit
                X[: min(n - 1, n0 + int(rng.integers(0, 4))), pick(rng, free)] = 0.0
        return dict(J=J, n0=n0, n=n, w=w, wkind=kind, forget=f, method=meth, icpt=icpt, sel=sel, scale=scale, X=X, y=y,
                    lam=float(10 ** rng.uniform(-2, 1.5)) if meth == "ridge" else None,
                    regint=bool(icpt and meth == "ridge" and rng.uniform() < 0.3), order=pick(rng, ["cyclic", "random"]),
                    cuts=partition(rng, n0, n), Z=rng.normal(size=(4, J)), refit=bool(i % 6 == 0))

    def run(self, c, mon):
        from ondil.estimators import OnlineLinearModel
        from ondil.methods import OrdinaryLeastSquares, Ridge

        X, y, w, f, n0 = c["X"], c["y"], nonzero_batches(c["w"], c["cuts"]), c["forget"], c["n0"]
        m = {"ols": "ols", "OLS": OrdinaryLeastSquares()}.get(c["method"]) or Ridge(
            lambda_reg=c["lam"], tolerance=1e-13, max_iterations=20000, selection=c["order"])
        e = OnlineLinearModel(forget=f, scale_inputs=c["scale"], fit_intercept=c["icpt"], regularize_intercept=c["regint"], method=m)
        if c["refit"]:
            e.fit(X[::-1] + 1, y[::-1])
        ref = Ref(c)
        b0 = slice(0, n0)
        with mon.sut("fit"):
            e.fit(X[b0], y[b0], sample_weight=sl(w, b0))
        ref.add(b0)
        state = {"worst": 1.0, "stop": False}

        def verify(b):
            beta, cond = ref.solve()
            state["worst"] = max(state["worst"], cond)
            if not state["worst"] < 1e5 or (f and c["lam"] is None and (b.stop - n0) * -np.log1p(-f) > 12):
                state["stop"] = True  # numerically meaningless from here on
                return
            nobs = ref.w.sum()
            mon.close("n_observations", e.n_observations_, nobs, rtol=1e-9)
            mon.close("n_training", e.n_training_, nobs if f == 0 else (1 - (1 - f) ** nobs) / f, rtol=1e-9)
            tol = 1e-6 if c["lam"] is None else 1e-5
            sc = np.abs(beta).max() + 1e-6 * np.abs(y).max()
            if not mon.close("coefficients", e.coef_, beta, rtol=tol, scale=sc, detail=f"after {b.stop} rows, cond {cond:.1e}"):
                return
            mon.same("beta alias", e.beta, e.coef_)
            want = ref.design(c["Z"]) @ beta
            mon.close("predict", e.predict(c["Z"]), want, rtol=10 * tol, scale=np.abs(ref.design(c["Z"])).max() * sc * len(beta))
            pr = ref.design(X[:b.stop]) @ beta
            yy = y[:b.stop]
            sst = np.sum((yy - yy.mean()) ** 2)
            mon.close("score", e.score(X[:b.stop], yy), 1 - np.sum((yy - pr) ** 2) / sst, rtol=1e-3, atol=1e-3 * (1 + np.max(np.abs(pr)) ** 2 * b.stop / sst * 1e-3))

        verify(b0)
        for k, b in enumerate(slices(c["cuts"])):
            if state["stop"]:
                mon.event("stopped: ill-conditioned")
                break
            with mon.sut("update"):
                (e.partial_fit if k % 3 == 2 else e.update)(X[b], y[b], sample_weight=sl(w, b))
            ref.add(b)
            mon.event("update single" if b.stop - b.start == 1 else "update multi")
            if k < 8 or b.stop == c["n"]:
                verify(b)
        mon.sig(c["method"], f, c["wkind"], c["icpt"], c["sel"], c["regint"])
