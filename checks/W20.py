import numpy as np

from vlib import zoo
from vlib.core import Skip
from vlib.dists import NAMES, REF, sut
from vlib.gen import DR, TIGHT, dr_data, pick, sl

KINDS = [k for k in zoo.KINDS]


def plain_start(name):
    """the same distribution with start values that do not depend on the sample"""
    cls = type(sut(name))
    eta = REF[name].eta0()

    class Start(cls):
        def initial_values(self, y, param=None, **kw):
            t = np.stack([np.full(len(y), self.link_inverse(np.array([float(e)]), param=p)[0]) for p, e in enumerate(eta)], 1)
            return t if param is None else t[:, param]

    Start.__name__ = cls.__name__
    return Start()


class Check:
    ID = "W20"
    RULE = ("histories of all estimator kinds without forgetting; integer weights (with zeros) vs. the same history with repeated and removed rows, zero-weight rows "
            "carrying outliers, omitted weights vs. ones; start values of the distributional regression are fixed by a subclass so that whole runs, "
            "not only limits, are comparable; non-trivial = distinct (estimator, mode, weights)")
    QUICK, THOROUGH = 650, 16000
    BUDGET = (18, 400)
    MIN_CASES = 80
    ASSUMPTIONS = ["initial values of the distributional regression are computed from the unweighted sample, hence the fixed start values"]

    def warmup(self):
        zoo.warm()

    # the recorded finding: see known_findings.json
    FINDING = {"kind": "dr-beta", "J": 3, "n0": 52, "n": 61, "forget": 0.0, "sel": [True, False, True], "ic": "hqc", "eq1": "all", "ms": "global_ll", "fdict": False,
               "wk": "none", "cuts": [52, 53, 54, 55, 57, 61], "seed": 2065896718, "mode": "zero"}

    def case(self, rng, i):
        if i == 0:
            return dict(self.FINDING)
        c = zoo.config(rng, KINDS, i=i, nup=(2, 18))
        c["forget"] = 0.0
        c["mode"] = pick(rng, ["int", "int", "zero", "both", "ones", "dist", "dist"])
        return c

    def run(self, c, mon):
        rng = np.random.default_rng(c["seed"] + 3)
        c["wk"] = "none"
        if c["mode"] == "dist":
            return self.dist(c, mon, rng)
        X, y, _, Z = zoo.data(c)
        bs = zoo.batches(c)
        n = c["n"]
        dr = c["kind"].startswith("dr")
        kw = dict(distribution=plain_start(zoo.DIST.get(c["kind"], "Normal"))) if dr and c["mode"] != "ones" else {}
        w = self.weights(c["mode"], rng, n, bs)
        if c["mode"] in ("zero", "both"):
            X, y = self.outliers(rng, X, y, w, c["kind"] not in ("dr-gamma", "dr-beta"))
        a, b = zoo.build(c, **kw), zoo.build(c, **kw)
        for k, s in enumerate(bs):
            with mon.sut("fit/update"):
                zoo.feed(a, c, X, y, w, s, k == 0)
            idx = np.repeat(np.arange(s.start, s.stop), w[s].astype(int))
            with mon.sut("fit/update"):
                f = b.update if k else b.fit
                f(X[idx]) if c["kind"] == "scaler" else f(X[idx], y[idx])
                A, B = zoo.snapshot(a, Z), zoo.snapshot(b, Z)
            tol = 1e-9 if c["mode"] == "ones" else 1e-6
            d = zoo.same_up_to(A, B, tol)
            if d is not None:

                def again(noise):
                    r, Xn, yn = zoo.build(c, **kw), noise(X), noise(y)
                    for q, t in enumerate(bs[: k + 1]):
                        zoo.feed(r, c, Xn, yn, w, t, q == 0)
                    return zoo.snapshot(r, Z)

                if zoo.fragile(again, A, tol):
                    mon.event("tie in the criterion")
                    return
            what = "omitted weights mean ones" if c["mode"] == "ones" else "integer weights are replication, zero weights absence"
            key = "non-finite density at a zero-weight row" if d is not None and dr and self.undefined(a, X[: s.stop], y[: s.stop], w[: s.stop]) else None
            if not mon.true(what, d is None, lambda: f"{c['kind']} {c['mode']} step {k} {d}", key=key):
                return
            mon.event("steps compared")
        mon.sig(c["kind"], c["mode"], len(bs) > 3, c["ms"], c["ic"])

    def undefined(self, e, X, y, w):
        """the fitted density is not finite at a row of weight zero (0 * nan in the deviance)"""
        z = w == 0
        return bool(z.any()) and not np.all(np.isfinite(e.distribution.logpdf(y[z], e.predict_distribution_parameters(X[z]))))

    def weights(self, mode, rng, n, bs):
        if mode == "ones":
            return np.ones(n)
        w = rng.integers(1, 5, n).astype(float)
        if mode == "zero":
            w = (rng.uniform(size=n) < 0.7).astype(float)
        if mode == "both":
            w[rng.uniform(size=n) < 0.3] = 0.0
        for s in bs:
            if w[s].sum() == 0:
                w[s.start] = 1.0
        if w[bs[0]].sum() < 25:
            w[bs[0]] = np.maximum(w[bs[0]], 1.0)
        return w

    def outliers(self, rng, X, y, w, anyy):
        X, y = X.copy(), y.copy()
        z = np.flatnonzero(w == 0)
        X[z] += rng.normal(size=X[z].shape) * 30
        if anyy:
            y[z] += rng.normal(size=len(z)) * 50
        return X, y

    def dist(self, c, mon, rng):
        """all distributions, unpenalised"""
        name = NAMES[int(rng.integers(len(NAMES)))]
        n0, n, J = c["n0"], c["n"], 2
        X, y = dr_data(name, rng, n, J, amp=0.15, eta0=[0.4, -1.2] if name == "InverseGamma" else None)
        bs = zoo.batches(c)
        w = self.weights(pick(rng, ["int", "both", "zero"]), rng, n, bs)
        P = REF[name].p
        opts = dict(equation={0: "all", **{p: pick(rng, ["all", "intercept"]) if p == 1 else "intercept" for p in range(1, P)}}, max_it_outer=int(pick(rng, [1, 2])),
                    max_it_inner=int(pick(rng, [1, 2, 3])), scale_inputs=bool(rng.uniform() < 0.7))
        a, b = DR(distribution=plain_start(name), **opts), DR(distribution=plain_start(name), **opts)
        for k, s in enumerate(bs[:4]):
            idx = np.repeat(np.arange(s.start, s.stop), w[s].astype(int))
            try:
                (a.update if k else a.fit)(X[s], y[s], sample_weight=w[s])
                (b.update if k else b.fit)(X[idx], y[idx])
            except np.linalg.LinAlgError:
                raise Skip("estimation diverged")
            ta, tb = a.predict_distribution_parameters(X[:6], what="link"), b.predict_distribution_parameters(X[:6], what="link")
            if not (np.all(np.abs(ta) < 12) and np.all(np.abs(tb) < 12)):
                raise Skip("estimation diverged")
            mon.close("replication: predictors", ta, tb, rtol=0, atol=2e-5, detail=f"{name} step {k}")
            mon.close("replication: number of observations", a.n_observations_, b.n_observations_, rtol=1e-12)
            mon.event("steps compared")
            if mon.violations:
                return
        mon.sig("dist", name, opts["scale_inputs"], opts["max_it_inner"])
