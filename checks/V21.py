import numpy as np

from vlib import zoo
from vlib.core import Skip
from vlib.dists import REF, sut
from vlib.gen import DR, dr_data, partition, pick, sl, slices, weights, warm_dr

EXACT = dict(abs_tol_outer=0.0, abs_tol_inner=1e-8, rel_tol_outer=0.0, rel_tol_inner=0.0)  # decisions above rounding noise
# how theta changes under y -> a + b y (b > 0)
FAM = {
    "Normal": lambda t, a, b: np.c_[a + b * t[:, 0], b * t[:, 1]],
    "NormalMeanVariance": lambda t, a, b: np.c_[a + b * t[:, 0], b * b * t[:, 1]],
    "Logistic": lambda t, a, b: np.c_[a + b * t[:, 0], b * t[:, 1]],
    "Gumbel": lambda t, a, b: np.c_[a + b * t[:, 0], b * t[:, 1]],
    "ReverseGumbel": lambda t, a, b: np.c_[a + b * t[:, 0], b * t[:, 1]],
    "StudentT": lambda t, a, b: np.c_[a + b * t[:, 0], b * t[:, 1], t[:, 2]],
    "JSU": lambda t, a, b: np.c_[a + b * t[:, 0], b * t[:, 1], t[:, 2], t[:, 3]],
}
SCALE = {  # positive families: y -> b y only
    "Gamma": lambda t, b: np.c_[b * t[:, 0], t[:, 1]],
    "Exponential": lambda t, b: b * t,
    "LogNormal": lambda t, b: np.c_[np.log(b) + t[:, 0], t[:, 1]],
    "LogNormalMedian": lambda t, b: np.c_[b * t[:, 0], t[:, 1]],
}
DISTS = list(FAM) + list(SCALE)


def equivariant_start(name):
    cls = type(sut(name))
    if name not in ("StudentT", "JSU"):
        return sut(name)

    class Start(cls):
        def initial_values(self, y, param=None, **kw):
            rest = [8.0] if name == "StudentT" else [0.0, 1.5]
            t = np.tile(np.r_[np.mean(y), np.std(y), rest], (len(y), 1))
            return t if param is None else t[:, param]

    Start.__name__ = cls.__name__
    return Start()


class Check:
    ID = "V21"
    RULE = ("paired runs (fit and updates) of linear and distributional estimators on transformed data: permuted covariates, affine maps of covariates, permuted "
            "observations of the initial fit, affine maps of the response; non-trivial = distinct (estimator/distribution, transformation, options)")
    QUICK, THOROUGH = 900, 24000
    BUDGET = (20, 420)
    MIN_CASES = 100
    ASSUMPTIONS = ["permutations of covariates are judged for least squares and ridge (coordinate descent is order dependent within its tolerance)",
                   "response maps for StudentT and JSU use equivariant start values (their own start values come from a numerical optimiser)"]

    def warmup(self):
        warm_dr(lasso=True, ridge=True)
        zoo.warm(["ols", "ridge", "lasso"])

    def case(self, rng, i):
        lin = i % 3 == 0
        t = pick(rng, ["permute", "affine X", "rows", "response"])
        return dict(lin=lin, t=t, name=pick(rng, ["ols", "ridge", "lasso", "enet"]) if lin else DISTS[(i - i // 3) % len(DISTS)], seed=int(rng.integers(2**31)))

    def run(self, c, mon):
        rng = np.random.default_rng(c["seed"])
        (self.linear if c["lin"] else self.dr)(c, mon, rng)

    def xmap(self, rng, J, t, wide=False):
        if t == "permute":
            perm = rng.permutation(J)
            return lambda A: A[:, perm], perm
        if t == "affine X":
            a, b = rng.uniform(-3, 3, J), 10 ** rng.uniform(-1, 1, J) * rng.choice([-1, 1], J)
            if wide:  # standardised covariates: any unit of measurement
                b = 10 ** rng.uniform(-6, 6, J) * rng.choice([-1, 1], J)
                a = a * np.abs(b)
            return lambda A: a + b * A, None
        return lambda A: A, None

    def linear(self, c, mon, rng):
        from ondil.methods import Ridge

        k, t = c["name"], c["t"]
        if t == "response" and k == "enet":
            k = "lasso"  # the quadratic part of the penalty is not homogeneous
        if t == "permute" and k in ("lasso", "enet"):
            k = pick(rng, ["ols", "ridge"])
        z = zoo.config(rng, [k], nup=(1, 15))
        scale = bool(rng.uniform() < 0.7)
        icpt = True
        if t == "affine X" and k != "ols":
            scale = True
        if t == "rows":
            z["forget"] = 0.0
        if t in ("permute", "response"):
            icpt = bool(rng.uniform() < 0.7)
        z["sel"] = scale
        z["wk"] = pick(rng, ["none", "unif", "int"])
        X, y, w, Z = zoo.data(z)
        J = z["J"]
        f, perm = self.xmap(rng, J, t, wide=scale and rng.uniform() < 0.6)
        a, b = 0.0, 1.0
        if t == "response":
            b = float(10 ** rng.uniform(-2, 2)) * float(pick(rng, [1, -1]))
            a = float(rng.normal() * 10) if icpt and k in ("ols", "ridge") else 0.0
        rows = np.arange(z["n"])
        if t == "rows":
            rows[: z["n0"]] = rng.permutation(z["n0"])
        m = Ridge(lambda_reg=0.3, tolerance=1e-13, max_iterations=100000) if k == "ridge" else None
        e1, e2 = zoo.build(z, fit_intercept=icpt, method=m), zoo.build(z, fit_intercept=icpt, method=m)
        X2, y2, w2, Z2 = f(X)[rows], (a + b * y)[rows], None if w is None else w[rows], f(Z)
        for q, s in enumerate(zoo.batches(z)):
            with mon.sut("fit/update"):
                (e1.update if q else e1.fit)(X[s], y[s], sample_weight=sl(w, s))
                (e2.update if q else e2.fit)(X2[s].copy(), y2[s], sample_weight=sl(w2, s))
                p1, p2 = a + b * e1.predict(Z), e2.predict(Z2)
            sc = abs(a) + abs(b) * np.std(y) + np.max(np.abs(p1))
            ok = np.all(np.abs(p1 - p2) <= 1e-6 * sc)
            if not ok and k in ("lasso", "enet"):

                def again(noise):
                    r, Xn, yn = zoo.build(z, fit_intercept=icpt, method=m), noise(X), noise(y)
                    for u, v in enumerate(zoo.batches(z)[: q + 1]):
                        (r.update if u else r.fit)(Xn[v], yn[v], sample_weight=sl(w, v))
                    return dict(p=r.predict(Z))

                if zoo.fragile(again, dict(p=e1.predict(Z)), 1e-6):
                    mon.event("tie in the criterion")
                    return
            if not mon.true(f"linear prediction equivariant: {t}", ok, lambda: f"{k} step {q}: {p1} vs {p2}"):
                return
            if t == "permute":
                i0 = int(icpt)
                c1 = np.r_[e1.coef_[:i0], e1.coef_[i0:][perm]]
                mon.close("permuted coefficients", e2.coef_, c1, rtol=1e-6, scale=np.max(np.abs(c1)))
            if t in ("rows",) or (t == "affine X" and k != "ols"):
                mon.close("effective counts unchanged", [e2.n_observations_, e2.n_training_], [e1.n_observations_, e1.n_training_], rtol=1e-12)
            mon.event("paired steps")
        mon.sig("linear", k, t, scale, icpt, z["wk"], z["forget"] > 0)

    def dr(self, c, mon, rng):
        from ondil.methods import LassoPath

        name, t = c["name"], c["t"]
        J = int(rng.integers(2, 4))
        n0 = int(rng.integers(50, 90))
        n = n0 + int(rng.integers(1, 8))
        X, y = dr_data(name, rng, n, J, amp=0.2)
        cuts = partition(rng, n0, n)
        wk, w = weights(rng, n, pick(rng, ["none", "none", "unif", "int"]))
        P = REF[name].p
        scale = bool(rng.uniform() < 0.7)
        forget = 0.0 if t == "rows" else float(pick(rng, [0.0, 0.01]))
        eq = {p: "all" if p == 0 or (p == 1 and rng.uniform() < 0.6) else "intercept" for p in range(P)}
        f, perm = self.xmap(rng, J, t, wide=scale and rng.uniform() < 0.6)
        a, b = 0.0, 1.0
        if t == "response":
            b = float(10 ** (rng.uniform(-1, 1) if rng.uniform() < 0.4 else rng.uniform(-3, 3)))
            a = float(rng.normal() * 5 * max(1.0, b) if b > 0.1 else rng.normal() * 5 * b) if name in FAM else 0.0
        rows = np.arange(n)
        if t == "rows":
            rows[:n0] = rng.permutation(n0)
        opts = dict(equation=eq, scale_inputs=scale, forget=forget, max_it_outer=int(pick(rng, [1, 2])), max_it_inner=int(pick(rng, [1, 2, 3])), **EXACT)
        D = equivariant_start(name)
        e1, e2 = DR(distribution=D, **opts), DR(distribution=D, **opts)
        X2, y2, w2 = f(X)[rows], (a + b * y)[rows], None if w is None else w[rows]
        Z, Z2 = X[:5] + 0.1, f(X[:5] + 0.1)
        for q, s in enumerate([slice(0, n0)] + slices(cuts)):
            try:
                (e1.update if q else e1.fit)(X[s], y[s], sample_weight=sl(w, s))
                (e2.update if q else e2.fit)(X2[s].copy(), y2[s], sample_weight=sl(w2, s))
            except np.linalg.LinAlgError:
                raise Skip("estimation diverged")
            t1, t2 = e1.predict_distribution_parameters(Z), e2.predict_distribution_parameters(Z2)
            want = FAM[name](t1, a, b) if name in FAM else SCALE[name](t1, b)
            if not np.all(np.isfinite(want)) or np.max(np.abs(e1.predict_distribution_parameters(Z, what="link"))) > 20 + abs(a) + abs(b) * 20:
                raise Skip("estimation diverged")
            sc = np.maximum(np.max(np.abs(want), axis=0), np.r_[abs(b), np.zeros(want.shape[1] - 1)] if name in FAM else 0)
            if not mon.true(f"distributional prediction equivariant: {t}", np.all(np.abs(want - t2) <= 1e-5 * sc), lambda: f"{name} step {q} a={a} b={b}: {t2} vs {want}"):
                return
            if t == "permute":
                for p in range(P):
                    if eq[p] == "all":
                        c1 = np.r_[e1.coef_[p][:1], e1.coef_[p][1:][perm]]
                        mon.close("permuted coefficients", e2.coef_[p], c1, rtol=1e-5, scale=np.max(np.abs(c1)))
            mon.event("paired steps")
        mon.sig("dr", name, t, scale, forget > 0, wk)
