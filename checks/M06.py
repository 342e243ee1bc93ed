import numpy as np

from vlib.gen import FORGETS, TIGHT, design, disc, dr_data, nonzero_batches, partition, pick, slices, sl, weights
from vlib.gen import DR


def crit(kind, n, p, ll):
    if kind == "aic":
        return -2 * ll + 2 * p
    if kind == "aicc":
        return -2 * ll + 2 * p * n / (n - p - 1)
    if kind == "bic":
        return -2 * ll + p * np.log(n)
    if kind == "hqc":
        return -2 * ll + 2 * p * np.log(np.log(n))
    return -ll


def ll_rss(n, rss):
    return -n / 2 * np.log(rss / n) - n / 2 * (1 + np.log(2 * np.pi))


LAST, LOG = {}, {}


def recording_dist(dist):
    """the same distribution, noting the parameters at which the working data are computed"""
    cls = type(dist)

    class RecD(cls):
        def dl1_dp1(self, y, theta, param=0):
            LAST["theta"], LAST["param"] = np.array(theta), param
            return super().dl1_dp1(y, theta, param=param)

    RecD.__name__ = cls.__name__
    return RecD()


def recording(cls):
    """estimation method that records the working data and the path of every solve"""

    class Rec(cls):
        def _log(self, kind, **kw):
            LOG.setdefault(LAST.get("param"), []).append((kind, kw))

        def init_x_gram(self, X, weights, forget):
            self._log("x", X=np.array(X), W=np.array(weights), theta=LAST.get("theta"), param=LAST.get("param"))
            return cls.init_x_gram(X, weights=weights, forget=forget)

        def update_x_gram(self, gram, X, weights, forget):
            self._log("x", X=np.array(X), W=np.array(weights), theta=LAST.get("theta"), param=LAST.get("param"))
            return cls.update_x_gram(gram, X, weights=weights, forget=forget)

        def init_y_gram(self, X, y, weights, forget):
            self._log("y", y=np.array(y), W=np.array(weights))
            return cls.init_y_gram(X, y, weights=weights, forget=forget)

        def update_y_gram(self, gram, X, y, weights, forget):
            self._log("y", y=np.array(y), W=np.array(weights))
            return cls.update_y_gram(gram, X, y, weights=weights, forget=forget)

        def fit_beta_path(self, *a, **k):
            out = super().fit_beta_path(*a, **k)
            self._log("path", P=out.copy())
            return out

        def update_beta_path(self, *a, **k):
            out = super().update_beta_path(*a, **k)
            self._log("path", P=out.copy())
            return out

    Rec.__name__ = "Rec" + cls.__name__
    return Rec


class Check:
    ID = "M06"
    RULE = ("criterion formulas on random scalars/arrays; chosen row of the coefficient path of linear and distributional (Gaussian, gamma, "
            "Student-t, logistic, exponential) models after every fit/update vs. argmin of the independently accumulated criterion; "
            "non-trivial = distinct (estimator, criterion, strategy, forget>0, weights) with a strict minimum inside the path")
    QUICK, THOROUGH = 1100, 30000
    BUDGET = (45, 560)
    MIN_CASES = 80
    ASSUMPTIONS = ["for the distributional regression the working data of each solve are observed through a recording estimation method"]

    def warmup(self):
        from ondil.estimators import OnlineLinearModel
        from ondil.methods import LassoPath

        rng = np.random.default_rng(0)
        X, y = rng.normal(size=(20, 2)), rng.normal(size=20)
        e = OnlineLinearModel(method=LassoPath(lambda_n=5)).fit(X, y)
        e.update(X[:1], y[:1])
        e.update(X[:3], y[:3])

    def case(self, rng, i):
        c = dict(mode=["formula", "linear", "dr_rss", "linear", "dr_ll", "dr_rss"][i % 6], ic=pick(rng, ["aic", "bic", "hqc", "max"]), seed=int(rng.integers(2**31)))
        if c["mode"] == "formula":
            c["ic"] = pick(rng, ["aic", "bic", "hqc", "max", "aicc"])
        return c

    def run(self, c, mon):
        rng = np.random.default_rng(c["seed"])
        LAST.clear()
        LOG.clear()
        getattr(self, c["mode"])(c, mon, rng)

    # ---- formulas
    def formula(self, c, mon, rng):
        from ondil.information_criteria import InformationCriterion as IC

        for _ in range(10):
            n = float(pick(rng, [rng.integers(5, 5000), rng.uniform(4, 300)]))
            p = pick(rng, [int(rng.integers(0, 60)), rng.integers(0, 50, 7)])
            if np.any(np.abs(n - np.asarray(p) - 1) < 1e-6):
                continue
            ll = pick(rng, [float(rng.normal() * 100), rng.normal(size=7) * 100])
            rss = pick(rng, [float(10 ** rng.uniform(-3, 5)), 10 ** rng.uniform(-3, 5, 7)])
            with mon.sut("criterion"):
                a = IC(n_observations=n, n_parameters=p, criterion=c["ic"]).from_ll(ll)
                b = IC(n_observations=n, n_parameters=p, criterion=c["ic"]).from_rss(rss)
            wa = crit(c["ic"], n, np.asarray(p), ll) + 0 * (np.asarray(p) if c["ic"] != "max" else 0)
            wb = crit(c["ic"], n, np.asarray(p), ll_rss(n, np.asarray(rss)))
            mon.close("from_ll", a, wa, rtol=1e-10, scale=1.0)
            mon.close("from_rss", b, wb, rtol=1e-10, scale=1.0)
        mon.raises("unknown criterion refused", ValueError, lambda: IC(10, 1, criterion="foo"))
        mon.sig("formula", c["ic"])

    def check_choice(self, mon, what, coef, P, ic, tag, tolscale=1.0):
        """coef has to be a row of P with minimal criterion"""
        hit = np.flatnonzero(np.all(P == coef, axis=1))
        if not mon.true(what + ": reported coefficients are a row of the path", len(hit) > 0, lambda: f"{coef} {tag}"):
            return
        if not np.all(np.isfinite(ic)):
            mon.event("non-finite criterion")
            return
        best = ic.min()
        mon.true(what + ": criterion minimal", ic[hit].min() <= best + 1e-6 * tolscale * (1 + abs(best)),
                 lambda: f"chose row {hit[0]} ic {ic[hit[0]]} but row {ic.argmin()} has {best} ({tag})")
        k = int(ic.argmin())
        if len(P) - 1 > k > 0:
            mon.event("interior minimum")
        return k

    # ---- linear model
    def linear(self, c, mon, rng):
        from ondil.estimators import OnlineLasso, OnlineLinearModel
        from ondil.methods import ElasticNetPath, LassoPath

        J = int(rng.integers(2, 8))
        n0 = int(rng.integers(J + 12, 80))
        n = n0 + int(rng.integers(1, 20))
        cuts = partition(rng, n0, n)
        wk, w = weights(rng, n)
        if w is not None:
            w[:n0] = np.maximum(w[:n0], 0.2)
        w = nonzero_batches(w, cuts)
        X = design(rng, n, J)
        y = (X - X.mean(0)) / X.std(0) @ (rng.normal(size=J) * (rng.uniform(size=J) < 0.5)) + rng.normal(size=n) * 10 ** rng.uniform(-0.5, 0.7) + 1
        unit = float(pick(rng, [1.0, 1.0, 1e-10, 1e-5, 1e6]))  # of the response
        y = y * unit
        f = float(pick(rng, [0.0, 0.0, 0.001, 0.01, 0.05]))
        icpt, scale = bool(rng.uniform() < 0.7), bool(rng.uniform() < 0.8)
        ln = int(pick(rng, [5, 20, 40]))
        if rng.uniform() < 0.25:
            e = OnlineLasso(forget=f, fit_intercept=icpt, scale_inputs=scale, lambda_n=ln, ic=c["ic"])
        else:
            m = pick(rng, [LassoPath(lambda_n=ln), ElasticNetPath(alpha=0.6, lambda_n=ln, lambda_eps=1e-3)])
            e = OnlineLinearModel(forget=f, fit_intercept=icpt, scale_inputs=scale, method=m, ic=c["ic"])
        S = 0.0
        strict = False
        for k, b in enumerate([slice(0, n0)] + slices(cuts)):
            with mon.sut("fit" if k == 0 else "update"):
                (e.update if k else e.fit)(X[b], y[b], sample_weight=sl(w, b))
            m_ = b.stop
            W = (np.ones(m_) if w is None else w[:m_])
            Wd = W * disc(f, m_)
            Z = X[b]
            if scale:
                mu = (Wd[:, None] * X[:m_]).sum(0) / Wd.sum()
                sd = np.sqrt((Wd[:, None] * (X[:m_] - mu) ** 2).sum(0) / Wd.sum())
                Z = (Z - mu) / sd
            D = np.c_[np.ones(len(Z)), Z] if icpt else Z
            P = e.coef_path_
            S = (1 - f) ** (b.stop - b.start) * S + (Wd[b.start:, None] * (y[b][:, None] - D @ P.T) ** 2).sum(0)
            nobs = W.sum()
            neff = nobs if f == 0 else (1 - (1 - f) ** nobs) / f
            if neff <= 3:
                break
            ic = crit(c["ic"], neff, np.count_nonzero(P, axis=1), ll_rss(neff, S))
            kk = self.check_choice(mon, "linear", e.coef_, P, ic, f"step {k} {c['ic']}")
            strict = strict or (kk is not None and 0 < kk < ln - 1)
            mon.event("selections")
            pp = e.predict_path(X[:3])
            mon.true("point prediction on the path", np.any(np.all(np.abs(pp - e.predict(X[:3])[:, None]) <= 1e-9 * (unit + np.abs(pp)), axis=0)))
        if strict:
            mon.sig("linear", c["ic"], f, wk, icpt, scale, type(e).__name__)

    # ---- distributional regression, local RSS
    def _dr(self, c, mon, rng, strategy):
        from ondil.methods import ElasticNetPath, LassoPath
        from vlib.dists import REF, sut

        name = pick(rng, ["Normal", "Normal", "Gamma", "StudentT", "Logistic", "Exponential", "LogNormal"] if strategy == "local_rss" else ["Normal", "Gamma", "Exponential", "LogNormal", "Logistic"])
        J = int(rng.integers(2, 6))
        n0, n = int(rng.integers(60, 140)), 0
        n = n0 + int(rng.integers(1, 16))
        cuts = partition(rng, n0, n)
        X, y = dr_data(name, rng, n, J, ncov=2, amp=0.25)
        if rng.uniform() < 0.3:
            X = X * float(pick(rng, [1e-3, 1e3, 1e5]))
        wk, w = weights(rng, n, pick(rng, ["none", "unif", "int"]))
        if rng.uniform() < 0.15:
            wk, w = "small", rng.uniform(0.5, 1, n) * 10 ** rng.uniform(-2.5, -1.3)
        f = float(pick(rng, [0.0, 0.0, 0.005, 0.03]))
        dist = recording_dist(sut(name))
        ln = int(pick(rng, [8, 20]))
        cls = pick(rng, [LassoPath, LassoPath, ElasticNetPath])
        kw = dict(lambda_n=ln, lambda_eps=1e-3)
        if cls is ElasticNetPath:
            kw["alpha"] = 0.7
        base = recording(cls)(**kw)
        eq = {p: pick(rng, ["all", "intercept"]) if p else "all" for p in range(dist.n_params)}
        e = DR(distribution=dist, method=base, equation=eq, forget=f, ic=c["ic"], model_selection=strategy, scale_inputs=bool(rng.uniform() < 0.7),
               max_it_outer=int(pick(rng, [2, 5, 30])), max_it_inner=int(pick(rng, [2, 30])))
        if rng.uniform() < 0.4:  # options per parameter
            ics = {p: pick(rng, ["aic", "bic", "hqc", "max"]) for p in range(dist.n_params)}
            fs = {p: f * float(pick(rng, [1, 0.5, 0])) for p in range(dist.n_params)}
            e.set_params(ic=ics, forget=fs)
        else:
            ics, fs = {p: c["ic"] for p in range(dist.n_params)}, {p: f for p in range(dist.n_params)}
        return e, dist, X, y, w, wk, fs, ics, cuts, n0, ln

    def dr_rss(self, c, mon, rng):
        e, dist, X, y, w, wk, fs, ics, cuts, n0, ln = self._dr(c, mon, rng, "local_rss")
        S = {}
        strict = False
        for k, b in enumerate([slice(0, n0)] + slices(cuts)):
            with mon.sut("fit" if k == 0 else "update"):
                (e.update if k else e.fit)(X[b], y[b], sample_weight=sl(w, b))
            nobs = float(b.stop if w is None else w[:b.stop].sum())
            mon.event("selections")
            for p in range(dist.n_params):
                f = fs[p]
                neff = nobs if f == 0 else (1 - (1 - f) ** nobs) / f
                log = LOG.get(p, [])
                P = e.coef_path_[p]
                # find the solve whose path was kept
                j = next((j for j in range(len(log) - 1, -1, -1) if log[j][0] == "path" and np.array_equal(log[j][1]["P"], P)), None)
                if not mon.true("reported path was computed by the estimation method", j is not None):
                    return
                xs = next(log[q][1] for q in range(j, -1, -1) if log[q][0] == "x")
                ys = next(log[q][1] for q in range(j, -1, -1) if log[q][0] == "y")
                D, wv, W = xs["X"], ys["y"], ys["W"] * disc(f, len(ys["y"]))
                mon.close("working weights of both Gramians agree", xs["W"], ys["W"], rtol=1e-12)
                new = (W[:, None] * (wv[:, None] - D @ P.T) ** 2).sum(0)
                S[p] = new if k == 0 else (1 - f) ** len(wv) * S[p] + new
                npar = np.count_nonzero(P, axis=1)
                ic = crit(ics[p], neff, npar, ll_rss(neff, S[p]))
                kk = self.check_choice(mon, "distributional", e.coef_[p], P, ic, f"step {k} param {p} {ics[p]}", 10.0)
                strict = strict or (kk is not None and 0 < kk < ln - 1)
                log.clear()
        if strict:
            mon.sig("dr_rss", type(dist).__name__, c["ic"], fs[0], len(set(ics.values())), wk)

    def dr_ll(self, c, mon, rng):
        from vlib.dists import REF

        e, dist, X, y, w, wk, fs, ics, cuts, n0, ln = self._dr(c, mon, rng, "global_ll")
        ref = REF[type(dist).__name__]
        LL = {}
        strict = False
        for k, b in enumerate([slice(0, n0)] + slices(cuts)):
            with mon.sut("fit" if k == 0 else "update"):
                (e.update if k else e.fit)(X[b], y[b], sample_weight=sl(w, b))
            nobs = float(b.stop if w is None else w[:b.stop].sum())
            mon.event("selections")
            for p in range(dist.n_params):
                f = fs[p]
                neff = nobs if f == 0 else (1 - (1 - f) ** nobs) / f
                W = (np.ones(b.stop - b.start) if w is None else w[b]) * disc(f, b.stop - b.start)
                P = e.coef_path_[p]
                log = LOG.get(p, [])
                j = next((j for j in range(len(log) - 1, -1, -1) if log[j][0] == "path" and np.array_equal(log[j][1]["P"], P)), None)
                if not mon.true("reported path was computed by the estimation method", j is not None):
                    return
                xs = next(log[q][1] for q in range(j, -1, -1) if log[q][0] == "x")
                D, theta = xs["X"], xs["theta"]
                if theta is None or xs["param"] != p or len(theta) != len(D):
                    mon.event("parameters not observed")
                    return
                ll = np.empty(len(P))
                for r in range(len(P)):
                    t = theta.copy()
                    t[:, p] = dist.link_inverse(D @ P[r], param=p)
                    ll[r] = (W * ref.logpdf(y[b], t)).sum()
                LL[p] = ll if k == 0 else (1 - f) ** (b.stop - b.start) * LL[p] + ll
                ic = crit(ics[p], neff, np.count_nonzero(P, axis=1), LL[p])
                kk = self.check_choice(mon, "likelihood", e.coef_[p], P, ic, f"step {k} param {p} {ics[p]}", 10.0)
                strict = strict or (kk is not None and 0 < kk < ln - 1)
                mon.event("ll selections judged")
                log.clear()
        if strict:
            mon.sig("dr_ll", type(dist).__name__, c["ic"], fs[0], len(set(ics.values())), wk)
