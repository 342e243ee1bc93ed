import numpy as np

from vlib import zoo
from vlib.core import Skip
from vlib.gen import DR, disc, dr_data, nonzero_batches, partition, pick, sl, slices, weights

FORGETS = [0.0, 1e-8, 1e-4, 0.001, 0.01, 0.1, 0.37, 0.5, 0.9, 0.99]


class Check:
    ID = "X22"
    RULE = ("closed-form sums vs. the effective / asymptotic lengths and the online mean over streams of scalars and batches; effective lengths and counts of all "
            "estimators along histories; measured influence of one perturbed old observation on least squares coefficients; two different pasts followed by the "
            "same long stream (all estimator kinds) have to be forgotten, or remembered without forgetting; non-trivial = distinct (mode, estimator, forget)")
    QUICK, THOROUGH = 700, 20000
    BUDGET = (18, 400)
    MIN_CASES = 120

    def warmup(self):
        zoo.warm()

    def case(self, rng, i):
        mode = ["mean", "length", "influence", "past", "counts", "alike"][i % 6]
        return dict(mode=mode, i=i, seed=int(rng.integers(2**31)))

    def run(self, c, mon):
        rng = np.random.default_rng(c["seed"])
        getattr(self, c["mode"])(c, mon, rng)

    def length(self, c, mon, rng):
        from ondil.utils import calculate_asymptotic_training_length as asym, calculate_effective_training_length as eff

        f = float(pick(rng, FORGETS + [float(rng.uniform(0, 0.999))]))
        prev = 0.0
        for n in np.unique(rng.integers(1, int(pick(rng, [5, 50, 2000])), 8)):
            with mon.sut("lengths"):
                e, a = eff(f, int(n)), asym(f)
            mon.close("effective length is the sum of the discount weights", e, float(np.sum((1 - f) ** np.arange(n, dtype=float))), rtol=1e-7 if 0 < f < 1e-6 else 1e-9)
            mon.true("never exceeds the asymptotic length", e <= a * (1 + 1e-9), lambda: f"{f} {n} {e} {a}")
            mon.true("grows with the stream", e >= prev * (1 - 1e-12), lambda: f"{f} {n}")
            prev = e
        if f > 0:
            mon.close("asymptotic length is the limit", asym(f), eff(f, int(60 / f + 1)), rtol=1e-6)
        mon.sig("length", f)

    def mean(self, c, mon, rng):
        from ondil.utils import online_mean_update

        f = float(pick(rng, FORGETS + [float(rng.uniform(0, 0.99))]))
        n = int(pick(rng, [2, 10, 60, 300]))
        v = rng.normal(size=n) * 10 ** rng.uniform(-2, 3) + rng.normal() * 10
        k0 = int(rng.integers(1, n))
        W = disc(f, k0)
        avg = float((W * v[:k0]).sum() / W.sum())
        seen = k0
        sc = np.max(np.abs(v))
        while seen < n:
            k = int(pick(rng, [1, 1, 2, 5, n]))
            x = v[seen:seen + k]
            seen += len(x)
            x0 = x.copy()
            with mon.sut("online mean"):
                scalar = len(x) == 1 and rng.uniform() < 0.6
                avg = online_mean_update(avg, float(x[0]) if scalar else x, f, seen)
            mon.same("values not modified", x, x0)
            W = disc(f, seen)
            mon.close("online mean is the discounted mean", avg, float((W * v[:seen]).sum() / W.sum()), rtol=1e-8, scale=sc, detail=f"forget {f} n {seen}")
            mon.event("means compared")
        mon.sig("mean", f, n)

    def counts(self, c, mon, rng):
        z = zoo.config(rng, i=c["i"] // 6, nup=(1, 12))
        z["forget"] = float(pick(rng, [0.0, 0.001, 0.02]))
        X, y, w, Z = zoo.data(z)
        e = zoo.build(z)
        for k, s in enumerate(zoo.batches(z)):
            with mon.sut("fit/update"):
                zoo.feed(e, z, X, y, w, s, k == 0)
            N = float(s.stop if w is None else w[: s.stop].sum())
            mon.close("number of observations", e.n_observations_, N, rtol=1e-10)
            if hasattr(e, "n_training_"):
                nt = e.n_training_ if isinstance(e.n_training_, dict) else {0: e.n_training_}
                for p, v in nt.items():
                    fp = z["forget"] / (2 if p == 1 and z["fdict"] else 1)
                    want = N if fp == 0 else float(np.sum((1 - fp) ** np.arange(s.stop, dtype=float))) if w is None else (1 - (1 - fp) ** N) / fp
                    mon.close("effective training length of the estimator", v, want, rtol=1e-9, detail=f"{z['kind']} param {p}")
                    mon.true("bounded by the asymptotic length", fp == 0 or v <= 1 / fp * (1 + 1e-12))
        mon.sig("counts", z["kind"], z["forget"], z["wk"])

    def influence(self, c, mon, rng):
        """the effect of y_i on the coefficients is (X'WX)^-1 x_i w_i (1 - forget)^(later observations)"""
        from ondil.estimators import OnlineLinearModel

        J, n0 = int(rng.integers(1, 4)), int(rng.integers(10, 25))
        n = n0 + int(rng.integers(5, 40))
        f = float(pick(rng, [0.0, 0.001, 0.01, 0.05]))
        X, y = rng.normal(size=(n, J)), rng.normal(size=n) * 3 + 1
        cuts = partition(rng, n0, n)
        wk, w = weights(rng, n, pick(rng, ["none", "unif", "int"]))
        icpt = bool(rng.uniform() < 0.7)
        i = int(rng.integers(n))
        y2 = y.copy()
        y2[i] += 1000.0
        dr = rng.uniform() < 0.3
        es = [OnlineLinearModel(forget=f, scale_inputs=False, fit_intercept=icpt) for _ in range(2)]
        D = np.c_[np.ones(n), X] if icpt else X
        for k, s in enumerate([slice(0, n0)] + slices(cuts)):
            with mon.sut("fit/update"):
                for e, yy in zip(es, (y, y2)):
                    (e.update if k else e.fit)(X[s], yy[s], sample_weight=sl(w, s))
            if i >= s.stop:
                mon.same("future observations have no influence", es[0].coef_, es[1].coef_)
                continue
            W = (np.ones(s.stop) if w is None else w[: s.stop]) * disc(f, s.stop)
            A = (D[: s.stop] * W[:, None]).T @ D[: s.stop]
            want = 1000.0 * np.linalg.solve(A, D[i] * W[i])
            mon.close("influence of an observation is discounted geometrically", es[1].coef_ - es[0].coef_, want, rtol=1e-6, scale=np.max(np.abs(want)) + 1e-9,
                      detail=f"forget {f} age {s.stop - 1 - i}")
            mon.event("influences measured")
        mon.sig("influence", f, wk, icpt, i < n0)

    def past(self, c, mon, rng):
        kinds = zoo.KINDS
        z = zoo.config(rng, kinds, i=c["i"] // 6)
        remember = z["kind"] in ("scaler", "ols", "ridge", "dr-ols") and rng.uniform() < 0.3
        f = 0.0 if remember else float(pick(rng, [0.25, 0.3]) if z["kind"] in ("scaler",) else pick(rng, [0.12, 0.15]))
        z["forget"], z["fdict"], z["wk"] = f, False, "none"
        L = 40 if remember else int(pick(rng, [260, 300]))
        n0 = z["n0"]
        z["n"] = n0 + L
        z["cuts"] = sorted(set([n0] + [int(v) for v in np.r_[np.arange(n0, n0 + L, int(pick(rng, [5, 17, 40]))), n0 + L]]))
        if z["kind"].startswith("dr"):
            z["eq1"] = "intercept"
        if z["kind"] in ("lasso", "enet", "OnlineLasso") or "lasso" in z["kind"] or z["kind"] == "dr-mixed":
            z["ic"] = "aic"
        z["sel"] = True if not remember else z["sel"]
        X, y, w, Z = zoo.data(z)
        Xa, ya = X.copy(), y.copy()
        Xa[:n0] = Xa[:n0] * 1.5 + 0.3
        if z["kind"] not in ("dr-gamma", "dr-beta"):
            ya[:n0] = 0.5 * ya[:n0] + 1.5
        else:
            ya[:n0] = ya[:n0][np.random.default_rng(5).permutation(n0)] * 0.7
        a, b = zoo.build(z), zoo.build(z)
        first = None
        for k, s in enumerate(zoo.batches(z)):
            try:
                zoo.feed(a, z, X, y, w, s, k == 0)
                zoo.feed(b, z, Xa, ya, w, s, k == 0)
            except np.linalg.LinAlgError:
                raise Skip("estimation diverged")
            if k == 0:
                first = self.dist(a, b, Z, z)
        last = self.dist(a, b, Z, z)
        if not np.isfinite(first) or not np.isfinite(last):
            raise Skip("estimation diverged")
        if remember:
            mon.true("without forgetting the past keeps its influence", last > 1e-3 * first or first < 1e-6, lambda: f"{z['kind']} {first} -> {last}")
        else:
            tol = {"scaler": 1e-9, "ols": 1e-6, "ridge": 1e-3}.get(z["kind"], 2e-2 if not z["kind"] in ("dr-ols", "dr-gamma") else 1e-3)
            mon.true("with forgetting the past is forgotten", last <= tol * max(first, 0.05) + 1e-9, lambda: f"{z['kind']} forget {f} {first} -> {last} after {L}")
        mon.event("pasts compared")
        mon.sig("past", z["kind"], f, len(z["cuts"]) > 10)

    def dist(self, a, b, Z, z):
        if z["kind"] == "scaler":
            return float(np.max(np.abs(a.transform(Z) - b.transform(Z))))
        if z["kind"].startswith("dr"):
            return float(np.max(np.abs(a.predict_distribution_parameters(Z, what="link") - b.predict_distribution_parameters(Z, what="link"))))
        return float(np.max(np.abs(a.predict(Z) - b.predict(Z))))

    def alike(self, c, mon, rng):
        """zero forgetting: the order of the whole stream is irrelevant for unscaled least squares"""
        from ondil.estimators import OnlineLinearModel

        J, n0 = int(rng.integers(1, 4)), int(rng.integers(12, 25))
        n = n0 + int(rng.integers(3, 30))
        X, y = rng.normal(size=(n, J)) + rng.uniform(-1, 1, J), rng.normal(size=n)
        wk, w = weights(rng, n, pick(rng, ["none", "unif", "int"]))
        es = []
        for q in range(2):
            o = np.arange(n) if q == 0 else rng.permutation(n)
            e = OnlineLinearModel(forget=0.0, scale_inputs=False)
            for k, s in enumerate([slice(0, n0)] + slices(partition(rng, n0, n))):
                with mon.sut("fit/update"):
                    (e.update if k else e.fit)(X[o][s], y[o][s], sample_weight=None if w is None else w[o][s])
            es.append(e)
        mon.close("all data are treated alike without forgetting", es[1].coef_, es[0].coef_, rtol=1e-7, scale=np.max(np.abs(es[0].coef_)))
        mon.sig("alike", wk, J)
