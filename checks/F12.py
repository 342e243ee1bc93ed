import contextlib
import io

import numpy as np

from vlib.core import Skip
from vlib.dists import NAMES, REF, sut
from vlib.gen import DR, TIGHT, dr_data, pick, warm_dr, weights

# milder data than the reference default where the start values of the fit are poor
ETA0 = {"InverseGamma": [0.4, -1.2], "JSU": [1.0, 0.2, 0.3, 0.5]}
# the slow ones get fewer covariates
MODEST = {"JSU": 1, "StudentT": 2, "InverseGamma": 1}


def links(name, rng):
    """alternative links for the scale-type parameter"""
    import ondil.links as L

    if name in ("Normal", "Gumbel", "Logistic", "ReverseGumbel") and rng.uniform() < 0.35:
        k = pick(rng, ["sqrt", "softplus"])
        if k == "softplus" and hasattr(L, "InverseSoftPlus"):
            return k, dict(scale_link=L.InverseSoftPlus()) if name == "Normal" else {}
        if name == "Normal":
            return k, dict(scale_link=L.Sqrt())
    return "default", {}


class Check:
    ID = "F12"
    RULE = ("all distributions x generated data sets x equations, weights, parameter orders, scaling, prefit, step sizes, links; score equations of an "
            "independent log-likelihood at the returned parameters; non-trivial = distinct (distribution, equation shape, options) that converged")
    QUICK, THOROUGH = 510, 12000
    BUDGET = (24, 600)
    MIN_CASES = 60
    ASSUMPTIONS = ["data generated from the fitted distribution family with moderate effects",
                   "runs that change when the iteration limit is doubled are not converged and are not judged"]

    def warmup(self):
        warm_dr()

    def case(self, rng, i):
        name = NAMES[i % len(NAMES)]
        J = int(rng.integers(1, 4))
        n = int(rng.integers(150, 350))
        d = REF[name]
        eq = []
        for p in range(d.p):
            if p >= MODEST.get(name, 2):
                eq.append("intercept")
            else:
                k = pick(rng, ["all", "all", "cols", "mask", "intercept"])
                if k == "cols":
                    k = sorted(rng.choice(J, int(rng.integers(1, J + 1)), replace=False).tolist())
                elif k == "mask":
                    k = [bool(b) for b in rng.uniform(size=J) < 0.6]
                    k = k if any(k) else "intercept"
                eq.append(k)
        return dict(name=name, n=n, J=J, eq=eq, wk=pick(rng, ["none", "unif", "int", "zeros"]),
                    order=[int(x) for x in rng.permutation(d.p)] if rng.uniform() < 0.5 else None,
                    scale=bool(rng.uniform() < 0.6), prefit=int(pick(rng, [0, 0, 1, 3])),
                    step=pick(rng, [1.0, 1.0, 0.7, "dict"]), seed=int(rng.integers(2**31)))

    def run(self, c, mon):
        rng = np.random.default_rng(c["seed"])
        name, n, J = c["name"], c["n"], c["J"]
        d = REF[name]
        lk, kw = links(name, rng)
        D = sut(name, **kw)
        X, y = dr_data(name, rng, n, J, ncov=MODEST.get(name, 2), eta0=ETA0.get(name))
        if rng.uniform() < 0.5:
            X = X * 10 ** rng.uniform(-1, 1, J) + rng.uniform(-1, 1, J)
        _, w = weights(rng, n, c["wk"])
        W = np.ones(n) if w is None else w
        eq, fi = {}, {}
        for p, e in enumerate(c["eq"]):
            eq[p] = e if isinstance(e, str) else np.array(e)
            fi[p] = True
        step = {p: float(rng.uniform(0.5, 1)) for p in range(d.p)} if c["step"] == "dict" else c["step"]
        opts = dict(distribution=D, equation=eq, fit_intercept=fi, scale_inputs=c["scale"], prefit_initial=c["prefit"], step_size=step,
                    param_order=None if c["order"] is None else np.array(c["order"]), max_it_inner=30, **TIGHT)

        out = io.StringIO()

        def fit(m):
            with contextlib.redirect_stdout(out):
                try:
                    return DR(max_it_outer=m, **opts).fit(X, y, sample_weight=w)
                except np.linalg.LinAlgError:
                    raise Skip("diverged: " + name)

        with mon.sut("fit"):
            e = fit(60)
            eta = e.predict_distribution_parameters(X, what="link")
        mon.event("fits")
        if not np.all(np.isfinite(eta)):
            mon.fail("finite predictor", f"{name} {c}")
            return

        inv = lambda E: np.stack([D.link_inverse(E[:, p], param=p) for p in range(d.p)], 1)
        ll = lambda E: float(np.sum(W * d.logpdf(y, inv(E))))
        designs = []
        for p in range(d.p):
            cols = {"all": X, "intercept": X[:, :0]}[c["eq"][p]] if isinstance(c["eq"][p], str) else X[:, eq[p]]
            designs.append(np.hstack([np.ones((n, 1)), cols]) if fi[p] else cols)
        use = W > 0

        def scores(eta):
            out = []
            for p in range(d.p):
                h = 1e-5
                up, dn = eta.copy(), eta.copy()
                up[:, p] += h
                dn[:, p] -= h
                g = np.zeros(n)
                g[use] = W[use] * (d.logpdf(y[use], inv(up)[use]) - d.logpdf(y[use], inv(dn)[use])) / (2 * h)
                A = designs[p]
                out.append(np.max(np.abs(A.T @ g) / np.sqrt(((A * g[:, None]) ** 2).sum(0) + 1e-300)))
            return np.array(out)

        if np.max(np.abs(eta)) > 12 or (name == "StudentT" and eta[0, 2] > 6):
            raise Skip("no interior maximum: " + name)
        r = scores(eta)
        if not (np.max(r) <= 2e-3):
            # decide between "not converged yet" and "converged to something else"
            said = out.getvalue().lower()
            if "deviance increased" in said or "bad state" in said:
                # the algorithm announces that it stopped without converging
                raise Skip("reported non-convergence: " + name)
            with mon.sut("fit"):
                e2 = fit(240)
                eta2 = e2.predict_distribution_parameters(X, what="link")
            if np.max(np.abs(eta2 - eta)) > 1e-9 * (1 + np.max(np.abs(eta))):
                r2 = scores(eta2)
                if np.max(r2) <= 2e-3:
                    eta, r = eta2, r2
                else:
                    raise Skip("not converged: " + name)
        if not (np.max(r) <= 2e-3) and c["prefit"] > 0:
            # single-step iterations without step halving can repeat a rejected step and stop; rare, bounded in summary()
            opts["prefit_initial"] = 0
            with mon.sut("fit"):
                if np.max(scores(fit(240).predict_distribution_parameters(X, what="link"))) <= 2e-3:
                    raise Skip("stalled in prefit: " + name)
        mon.true("weighted likelihood is stationary", np.max(r) <= 2e-3, lambda: f"{name} normalised scores {r} options {c}")
        base = ll(eta)
        for _ in range(4):
            E = eta.copy()
            for p in range(d.p):
                A = designs[p]
                b = rng.normal(size=A.shape[1]) / np.maximum(np.sqrt((A**2).mean(0)), 1e-12)
                E[:, p] += pick(rng, [0.0, 0.01, 0.03]) * (A @ b)
            new = ll(E)
            mon.true("likelihood not improvable nearby", not (new > base + 2e-3 + 1e-6 * abs(base)), lambda: f"{name}: {new} > {base} {c}")
        mon.event("converged fits")
        mon.sig(name, [type(k).__name__ + str(len(k)) for k in c["eq"]], c["wk"], c["order"] is not None, c["scale"], c["prefit"], c["step"], lk)

    def summary(self, results, events):
        """convergence is the rule on this workload (clean tree: about 1 % of the fits other than JSU do not converge)"""
        bad = sum(v for k, v in events.items() if k.startswith("skip:") and "JSU" not in k)
        stalled = sum(v for k, v in events.items() if k.startswith("skip:stalled"))
        if len(results) >= 60 and stalled > max(3, 0.015 * len(results)):
            return [{"what": "prefit keeps fits from converging", "detail": f"{stalled} of {len(results)}", "key": None}]
        if len(results) >= 60 and bad > 0.08 * len(results):
            return [{"what": "fits do not converge", "detail": f"{bad} of {len(results)}: {[(k, v) for k, v in events.items() if k.startswith('skip')]}", "key": None}]
