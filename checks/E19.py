import copy

import numpy as np

from vlib import zoo
from vlib.core import Skip
from vlib.dists import REF, sut
from vlib.gen import DR, disc, dr_data, partition, pick, sl, slices, weights, warm_dr

NAMES = ["Normal", "Gamma", "StudentT", "Beta", "LogNormal", "Exponential", "BetaInflated", "ZeroAdjustedGamma", "JSU", "Logistic"]
LOG = []


def recording_dist(name):
    cls = type(sut(name))

    class RecD(cls):
        def dl1_dp1(self, y, theta, param=0):
            LOG.append(("deriv", param, np.array(theta)))
            return super().dl1_dp1(y, theta, param=param)

    RecD.__name__ = cls.__name__
    return RecD()


def recording(cls, tag, **kw):
    """estimation method that notes who calls it with what"""

    class Rec(cls):
        def init_x_gram(self, X, weights, forget):
            LOG.append(("x", tag, np.array(X), float(forget)))
            return cls.init_x_gram(X, weights=weights, forget=forget)

        def update_x_gram(self, gram, X, weights, forget):
            LOG.append(("x", tag, np.array(X), float(forget)))
            return cls.update_x_gram(gram, X, weights=weights, forget=forget)

        def init_y_gram(self, X, y, weights, forget):
            LOG.append(("y", tag, np.array(X), float(forget)))
            return cls.init_y_gram(X, y, weights=weights, forget=forget)

        def update_y_gram(self, gram, X, y, weights, forget):
            LOG.append(("y", tag, np.array(X), float(forget)))
            return cls.update_y_gram(gram, X, y, weights=weights, forget=forget)

        def fit_beta(self, x_gram, y_gram, is_regularized=None, **k):
            b = super().fit_beta(x_gram=x_gram, y_gram=y_gram, is_regularized=is_regularized, **k)
            LOG.append(("beta", tag, np.array(b), np.array(is_regularized)))
            return b

        def update_beta(self, x_gram, y_gram, beta, is_regularized=None, **k):
            b = super().update_beta(x_gram=x_gram, y_gram=y_gram, beta=beta, is_regularized=is_regularized, **k)
            LOG.append(("beta", tag, np.array(b), np.array(is_regularized)))
            return b

        def fit_beta_path(self, x_gram, y_gram, is_regularized=None, **k):
            b = super().fit_beta_path(x_gram=x_gram, y_gram=y_gram, is_regularized=is_regularized, **k)
            LOG.append(("beta", tag, None, np.array(is_regularized)))
            return b

        def update_beta_path(self, x_gram, y_gram, beta_path, is_regularized=None, **k):
            b = super().update_beta_path(x_gram=x_gram, y_gram=y_gram, beta_path=beta_path, is_regularized=is_regularized, **k)
            LOG.append(("beta", tag, None, np.array(is_regularized)))
            return b

    Rec.__name__ = cls.__name__
    return Rec(**kw)


def equation(rng, J, p, allow_all=True):
    k = pick(rng, ["all", "intercept", "ints", "mask"] if allow_all else ["intercept", "ints", "mask"])
    if k == "all":
        return k, "all", np.arange(J)
    if k == "intercept":
        return k, "intercept", np.arange(0)
    if k == "ints":
        a = rng.permutation(J)[: int(rng.integers(1, J + 1 if allow_all else J))]
        return k, a, a
    a = rng.uniform(size=J) < 0.6
    a[int(rng.integers(J))] = True
    if not allow_all and a.all():
        a[int(rng.integers(J))] = False
    return k, a, np.flatnonzero(a)


class Check:
    ID = "E19"
    RULE = ("distributional models with random equations and option dictionaries; modes: equivalent encodings of equations (all, integers, mask, column names of "
            "pandas/polars frames, missing, None), scalar vs. dictionary vs. permuted vs. incomplete option dictionaries, changed values of covariates no equation "
            "selects, and recording methods/distributions that log which data, forget factor, regularisation mask and step each parameter really gets; "
            "non-trivial = distinct (mode, distribution, equation kinds, option)")
    QUICK, THOROUGH = 700, 16000
    BUDGET = (20, 420)
    MIN_CASES = 80
    ASSUMPTIONS = ["scaling moments use the forget factor of the first parameter"]

    def warmup(self):
        warm_dr(lasso=True, ridge=True, F=True)

    def case(self, rng, i):
        return dict(mode=["encode", "options", "trace", "influence", "irrelevant", "options", "trace"][i % 7], name=NAMES[(i // 3) % len(NAMES)], seed=int(rng.integers(2**31)))

    def run(self, c, mon):
        rng = np.random.default_rng(c["seed"])
        self.name = c["name"]
        self.P = REF[self.name].p
        self.J = int(rng.integers(2, 5))
        self.n0 = int(rng.integers(45, 80))
        self.n = self.n0 + int(rng.integers(1, 7))
        self.X, self.y = dr_data(self.name, rng, self.n, self.J, amp=0.15)
        self.X = self.X * 10 ** rng.uniform(-0.3, 0.3, self.J) + rng.uniform(-1, 1, self.J)
        self.cuts = partition(rng, self.n0, self.n, single=0.2)
        self.wk, self.w = weights(rng, self.n, pick(rng, ["none", "none", "unif"]))
        self.Z = self.X[:4] + 0.1
        self.bs = [slice(0, self.n0)] + slices(self.cuts)
        LOG.clear()
        getattr(self, c["mode"])(c, mon, rng)

    def history(self, e, mon, X=None, wrap=lambda A: A, upto=None):
        X = self.X if X is None else X
        out = []
        for k, b in enumerate(self.bs[:upto]):
            try:
                (e.update if k else e.fit)(wrap(X[b]), self.y[b], sample_weight=sl(self.w, b))
            except (np.linalg.LinAlgError, FloatingPointError):
                raise Skip("estimation diverged")
            if not all(np.all(np.isfinite(v)) for v in e.coef_.values()):
                raise Skip("estimation diverged")
            out.append({p: np.array(v) for p, v in e.coef_.items()})
        return out

    def equal(self, mon, what, A, B, rtol=None, detail=""):
        if rtol is None:  # the layout of the design matrix changes the rounding, which flat likelihoods amplify
            rtol = 1e-4 if self.name in ("StudentT", "JSU") else 1e-6
        for k, (a, b) in enumerate(zip(A, B)):
            for p in a:
                sc = max(1e-9, np.max(np.abs(a[p])))
                if not mon.close(what, b[p], a[p], rtol=rtol, scale=sc, detail=f"{self.name} step {k} param {p} {detail}"):
                    return False
        return True

    # ------------------------------------------------------------------
    def encode(self, c, mon, rng):
        import pandas as pd
        import polars as pl

        J, P = self.J, self.P
        eqs = {p: equation(rng, J, p) for p in range(P)}
        cols = pick(rng, [[f"v{j}" for j in range(J)], ["wind_gust", "wind", "Wind", "wind_"][:J], ["x11", "x1", "x", "X1"][:J], [str(j) for j in range(J)][::-1],
                          ["intercept", "all", "mu", "0"][:J], [f"a b{j}" for j in range(J)]])
        cols = [cols[j] for j in rng.permutation(J)]
        base = dict(max_it_outer=3, max_it_inner=3, scale_inputs=bool(rng.uniform() < 0.7), forget=float(pick(rng, [0.0, 0.01])))

        def variant(style):
            eq = {}
            for p in rng.permutation(P):
                p = int(p)
                k, _, cs = eqs[p]
                s = style if style != "mixed" else pick(rng, ["ints", "mask", "plain"])
                if k == "intercept":
                    if rng.uniform() < 0.5:
                        eq[p] = "intercept"
                    continue  # a missing entry means intercept
                srt = np.array_equal(cs, np.sort(cs))
                if s == "plain" and k == "all":
                    eq[p] = "all"
                elif s == "names":
                    eq[p] = [cols[j] for j in cs]
                elif s == "mask" and srt:
                    eq[p] = np.isin(np.arange(J), cs)
                else:
                    eq[p] = np.array(cs)
            return eq

        ref_eq = {p: (e[1] if e[0] == "intercept" else np.array(e[2])) for p, e in eqs.items()}
        ref = self.history(DR(distribution=sut(self.name), equation=ref_eq, **base), mon)
        for style, wrap in [("mixed", lambda A: A), ("names", lambda A: pd.DataFrame(A, columns=cols)), ("mixed", lambda A: pd.DataFrame(A, columns=cols)),
                            ("names", lambda A: pl.DataFrame(A, schema=cols))]:
            e = DR(distribution=sut(self.name), equation=variant(style), **base)
            with mon.sut(f"equation as {style}"):
                got = self.history(e, mon, wrap=wrap)
                th = e.predict_distribution_parameters(wrap(self.Z))
            if not self.equal(mon, "equivalent encodings of the equations agree", ref, got, detail=f"{style} {e.equation}"):
                return
            mon.true("number of coefficients follows the equation", all(len(got[0][p]) == len(eqs[p][2]) + 1 for p in range(P)))
        # None: everything for the first parameter, intercepts otherwise
        a = self.history(DR(distribution=sut(self.name), equation=None, **base), mon)
        b = self.history(DR(distribution=sut(self.name), equation={0: "all"}, **base), mon)
        d = self.history(DR(distribution=sut(self.name), equation={0: np.arange(J), **{p: "intercept" for p in range(1, P)}}, **base), mon)
        self.equal(mon, "default equation", a, d) and self.equal(mon, "missing entries mean intercept", b, d)
        # the order of integer indices only permutes the coefficients
        perm = rng.permutation(J)
        g = self.history(DR(distribution=sut(self.name), equation={0: perm}, **base), mon)
        g = [{p: (v[np.r_[0, 1 + np.argsort(perm)]] if p == 0 else v) for p, v in s.items()} for s in g]
        self.equal(mon, "order of indices permutes the coefficients", d, g)
        mon.raises("unknown equation refused", ValueError, lambda: DR(distribution=sut(self.name), equation={0: "foo"}).fit(self.X, self.y))
        mon.raises("index beyond the columns refused", (ValueError, IndexError), lambda: DR(distribution=sut(self.name), equation={0: np.array([0, J])}).fit(self.X, self.y))
        mon.raises("unknown column name refused", Exception,
                   lambda: DR(distribution=sut(self.name), equation={0: [cols[0], cols[0] + "?"]}).fit(pd.DataFrame(self.X, columns=cols), self.y))
        mon.raises("mask of wrong length refused", (ValueError, IndexError), lambda: DR(distribution=sut(self.name), equation={0: np.ones(J + 1, bool)}).fit(self.X, self.y))
        mon.sig("encode", self.name, str(sorted((p, e[0]) for p, e in eqs.items())))

    # ------------------------------------------------------------------
    def options(self, c, mon, rng):
        from ondil.methods import ElasticNetPath, LassoPath, Ridge

        P = self.P
        opt = pick(rng, ["forget", "method", "fit_intercept", "regularize_intercept", "ic", "step_size"])
        vals = {"forget": [0.0, 0.01, 0.05], "method": ["ols", Ridge(lambda_reg=0.3), LassoPath(lambda_n=8, lambda_eps=1e-2), "ols"], "fit_intercept": [True, False],
                "regularize_intercept": [True, False], "ic": ["aic", "bic", "hqc"], "step_size": [1.0, 0.7, 0.4]}[opt]
        default = {"forget": 0.0, "method": "ols", "fit_intercept": True, "regularize_intercept": False, "ic": "aic", "step_size": 1.0}[opt]
        meth = pick(rng, ["ols", LassoPath(lambda_n=8, lambda_eps=1e-2), Ridge(lambda_reg=0.3)]) if opt != "regularize_intercept" else pick(rng, [LassoPath(lambda_n=8, lambda_eps=1e-2), Ridge(lambda_reg=0.3)])
        if opt == "ic":
            meth = LassoPath(lambda_n=8, lambda_eps=1e-2)
        base = dict(distribution=sut(self.name), equation={p: "all" for p in range(P)}, method=meth, max_it_outer=2, max_it_inner=3)
        base["forget"] = 0.01
        base.pop(opt, None)

        def go(v):
            return self.history(DR(**base, **{opt: v}), mon)

        v = pick(rng, vals)
        a = go(v)
        b = go({int(p): copy.copy(v) for p in rng.permutation(P)})
        if not self.equal(mon, f"scalar {opt} equals the same value for all parameters", a, b, rtol=0):
            return
        mix = {p: pick(rng, vals) for p in range(P)}
        d1 = go(dict(mix))
        d2 = go({int(p): mix[int(p)] for p in rng.permutation(P)[::-1]})
        if not self.equal(mon, f"order of keys of {opt} is irrelevant", d1, d2, rtol=0):
            return
        drop = int(rng.integers(P))
        full = {p: (default if p == drop else x) for p, x in mix.items()}
        part = {p: x for p, x in mix.items() if p != drop}
        if self.equal(mon, f"missing entry of {opt} means the default", go(full), go(part), rtol=0):
            if opt in ("method", "ic", "fit_intercept", "regularize_intercept", "forget", "step_size"):
                # leaving the option out means the default for all
                x = self.history(DR(**base), mon)
                self.equal(mon, f"default of {opt}", go({p: default for p in range(P)}), x, rtol=0)
        # fitted first and alone in a one-iteration schedule, a parameter only sees its own options
        q = int(rng.integers(P))
        order = np.array([q] + [p for p in range(P) if p != q])
        if opt != "forget" or q == 0:
            e1 = DR(**{**base, "max_it_outer": 1, "max_it_inner": 1, "param_order": order}, **{opt: dict(mix)})
            other = {p: (mix[p] if p == q else pick(rng, vals)) for p in range(P)}
            e2 = DR(**{**base, "max_it_outer": 1, "max_it_inner": 1, "param_order": order}, **{opt: other})
            h1, h2 = self.history(e1, mon, upto=1), self.history(e2, mon, upto=1)
            if opt == "ic":  # the number of parameters of the others enters the criterion as a constant
                pass
            mon.close("options of the other parameters have no direct effect", h2[0][q], h1[0][q], rtol=1e-12, scale=1e-12, detail=f"{opt} {q} {mix} {other}")
        mon.sig("options", self.name, opt, str(meth)[:12], str(v)[:10])

    # ------------------------------------------------------------------
    def irrelevant(self, c, mon, rng):
        """options of parameters that cannot use them change nothing at all, in fits and in updates"""
        from ondil.methods import ElasticNetPath, LassoPath

        P = self.P
        q = int(rng.integers(P))
        path = pick(rng, [LassoPath(lambda_n=10, lambda_eps=1e-2), ElasticNetPath(alpha=0.7, lambda_n=10, lambda_eps=1e-2)])
        base = dict(distribution=sut(self.name), equation={p: "all" if p == q else "intercept" for p in range(P)}, method={p: path if p == q else "ols" for p in range(P)},
                    max_it_outer=2, max_it_inner=3, forget=float(pick(rng, [0.0, 0.01])), model_selection=pick(rng, ["local_rss", "global_ll"]),
                    param_order=pick(rng, [None, rng.permutation(P)]))
        own = pick(rng, ["aic", "bic", "hqc"])
        runs = []
        for k in range(3):
            o = {p: own if p == q else ["aic", "bic", "hqc"][(k + p) % 3] for p in range(P)}
            r = {p: False if p == q else bool((k + p) % 2) for p in range(P)}
            runs.append(self.history(DR(**base, ic=o, regularize_intercept=r), mon))
        for k in (1, 2):
            self.equal(mon, "criteria and penalties of unpenalised parameters have no effect", runs[0], runs[k], rtol=0, detail=f"path for {q} by {own}, {base['model_selection']}")
        # whereas the own criterion counts: a stronger penalty never selects more coefficients in the first step of a fit
        sizes = [np.count_nonzero(self.history(DR(**{**base, "max_it_outer": 1, "max_it_inner": 1}, ic={q: o}), mon, upto=1)[0][q]) for o in ("aic", "bic")]
        if base["param_order"] is None and q == 0 and self.n0 > 8 and base["forget"] == 0:
            mon.true("the parameter's own criterion is used", sizes[0] >= sizes[1], lambda: f"{self.name} {sizes}")
        mon.sig("irrelevant", self.name, q, own, base["model_selection"])

    # ------------------------------------------------------------------
    def trace(self, c, mon, rng):
        from ondil.methods import LassoPath, OrdinaryLeastSquares, Ridge

        J, P = self.J, self.P
        D = recording_dist(self.name)
        eqs = {p: equation(rng, J, p) for p in range(P)}
        forget = {p: float(pick(rng, [0.0, 0.01, 0.02, 0.05])) for p in range(P)}
        step = {p: float(pick(rng, [1.0, 0.9, 0.6])) for p in range(P)}
        icpt = {p: True if eqs[p][0] == "intercept" or p else bool(rng.uniform() < 0.7) for p in range(P)}
        reg = {p: bool(rng.uniform() < 0.5) for p in range(P)}
        kinds = {p: pick(rng, ["ols", "ols", "ridge", "lasso"]) for p in range(P)}
        meth = {p: recording({"ols": OrdinaryLeastSquares, "ridge": Ridge, "lasso": LassoPath}[k], p, **({"lambda_n": 6} if k == "lasso" else {"lambda_reg": 0.1} if k == "ridge" else {}))
                for p, k in kinds.items()}
        perm = [int(p) for p in rng.permutation(P)]
        shuffle = lambda d: {p: d[p] for p in perm}  # noqa
        scale = bool(rng.uniform() < 0.7)
        e = DR(distribution=D, equation=shuffle({p: q[1] for p, q in eqs.items()}), method=shuffle(meth), forget=shuffle(forget), step_size=shuffle(step),
               fit_intercept=shuffle(icpt), regularize_intercept=shuffle(reg), scale_inputs=scale, max_it_outer=2, max_it_inner=4, abs_tol_inner=0.0, rel_tol_inner=0.0,
               abs_tol_outer=0.0, rel_tol_outer=0.0, param_order=pick(rng, [None, rng.permutation(P)]))
        hist = [slice(0, b.stop) for b in self.bs]
        for k, b in enumerate(self.bs):
            LOG.clear()
            try:
                (e.update if k else e.fit)(self.X[b], self.y[b], sample_weight=sl(self.w, b))
            except np.linalg.LinAlgError:
                raise Skip("estimation diverged")
            W = (np.ones(b.stop) if self.w is None else self.w[: b.stop]) * disc(forget[0], b.stop)
            Xs = self.X[b]
            if scale:
                m = (W[:, None] * self.X[: b.stop]).sum(0) / W.sum()
                sd = np.sqrt((W[:, None] * (self.X[: b.stop] - m) ** 2).sum(0) / W.sum())
                Xs = (Xs - m) / sd
            want = {p: np.c_[np.ones(len(Xs)), Xs[:, eqs[p][2]]] if icpt[p] else Xs[:, eqs[p][2]] for p in range(P)}
            current, last, beta = None, {}, {}
            for ev in LOG:
                kind, p = ev[0], ev[1]
                if kind == "deriv":
                    current = p
                    eta = np.asarray(D.link_function(ev[2][:, p], param=p), float)
                    if k == 0 and p in last and beta.get(p) is not None and not np.array_equal(eta, last[p]):
                        # fitted values moved: a fraction step * 2^-h of the way to the solution
                        num, den = eta - last[p], want[p] @ beta[p] - last[p]
                        ok = np.abs(den) > 1e-4 * (1 + np.abs(last[p]) + np.abs(want[p] @ beta[p]))
                        if ok.sum() >= 5 and np.max(np.abs(eta)) < 15 and np.max(np.abs(want[p] @ beta[p])) < 15:
                            r = num[ok] / den[ok]
                            h = np.log2(step[p] / r) if np.all(r > 0) else np.array([np.nan])
                            mon.true("steps are the parameter's step size halved some number of times",
                                     np.all(np.abs(h - np.round(np.median(h))) < 1e-3) and np.median(h) > -0.5,
                                     lambda: f"{self.name} param {p} step {step} fraction {r[:4]}")
                            mon.event("steps measured")
                    last[p] = eta
                    continue
                mon.true("each parameter is estimated by its own method", current == p, lambda: f"derivatives of {current}, method of {p}")
                if kind in ("x", "y"):
                    if not mon.close("each parameter gets exactly the covariates of its equation", ev[2], want[p], rtol=1e-7, scale=1.0, detail=f"{self.name} param {p} {eqs[p][0]} step {k}"):
                        return
                    mon.true("each parameter gets its own forget factor", ev[3] == forget[p], lambda: f"param {p} got {ev[3]}, configured {forget}")
                else:
                    beta[p] = ev[2]
                    msk = np.ones(want[p].shape[1], bool)
                    if icpt[p]:
                        msk[0] = reg[p]
                    mon.same("regularisation mask of the parameter", ev[3].astype(bool), msk, detail=f"{self.name} param {p} {eqs[p][0]} {kinds[p]}")
            for p in range(P):
                mon.true("every parameter is estimated", p in beta)
            mon.event("calls traced")
        mon.sig("trace", self.name, str(sorted(kinds.items())), scale, str(perm))

    # ------------------------------------------------------------------
    def influence(self, c, mon, rng):
        from ondil.methods import LassoPath

        J, P = self.J, self.P
        un = int(rng.integers(J))
        rest = [j for j in range(J) if j != un]
        eq = {}
        for p in range(P):
            k = pick(rng, ["intercept", "ints", "mask"])
            a = np.array(rest)[rng.permutation(len(rest))[: int(rng.integers(1, len(rest) + 1))]]
            eq[p] = "intercept" if k == "intercept" else a if k == "ints" else np.isin(np.arange(J), a)
        meth = pick(rng, ["ols", {0: LassoPath(lambda_n=8, lambda_eps=1e-2)}])
        base = dict(distribution=sut(self.name), equation=eq, method=meth, max_it_outer=3, max_it_inner=3, forget=float(pick(rng, [0.0, 0.01])))
        e1, e2 = DR(**base), DR(**base)
        X2 = self.X.copy()
        X2[:, un] = pick(rng, [rng.normal(size=self.n) * 1e3, np.arange(self.n) * 1.0, rng.permutation(X2[:, un])])
        a, b = self.history(e1, mon), self.history(e2, mon, X=X2)
        if not self.equal(mon, "covariates that no equation selects have no influence", a, b, rtol=1e-12):
            return
        # prediction: only the selected covariates matter
        th = e1.predict_distribution_parameters(self.Z, what="link")
        for j in range(J):
            Z2 = self.Z.copy()
            Z2[:, j] += 0.5
            t2 = e1.predict_distribution_parameters(Z2, what="link")
            for p in range(P):
                sel = eq[p]
                cs = np.arange(0) if isinstance(sel, str) else np.flatnonzero(sel) if sel.dtype == bool else sel
                d = t2[:, p] - th[:, p]
                if j not in cs:
                    mon.true("prediction of a parameter ignores covariates outside its equation", np.all(d == 0), lambda: f"{self.name} param {p} column {j} {d}")
                else:
                    bj = e1.coef_[p][1 + list(cs).index(j)]
                    mon.true("prediction of a parameter moves with its covariates", (bj == 0) == bool(np.all(np.abs(d) < 1e-14 * (1 + np.abs(th[:, p])))) or abs(bj) < 1e-10,
                             lambda: f"{self.name} param {p} column {j} coef {bj} {d}")
                    mon.true("direction of the effect is the sign of the coefficient", abs(bj) < 1e-10 or np.all(np.sign(d) == np.sign(bj)), lambda: f"{bj} {d}")
        mon.sig("influence", self.name, str(meth)[:3], str([str(eq[p])[:4] for p in range(P)]))
