import copy

import numpy as np

from vlib.dists import NAMES, REF, sut
from vlib.gen import DR, dr_data, pick, warm_dr

POS = [0.0, -0.0, -1e-300, -1e-9, -1.0, -1e6]
OUT = {  # values outside the support, by distribution
    "Gamma": POS, "LogNormal": POS, "LogNormalMedian": POS, "InverseGaussian": POS, "InverseGamma": POS, "Exponential": POS,
    "Beta": [0.0, 1.0, -1e-9, 1 + 1e-9, -3.0, 7.0],
    "BetaInflated": [-1e-12, 1 + 1e-9, -3.0, 7.0],
    "BetaInflatedZero": [-1e-12, 1.0, 1 + 1e-9, 7.0],
    "ZeroAdjustedGamma": [-1e-300, -1e-9, -0.5, -1e6],
}
# values close to or at the boundary that are inside
EDGE = {n: [1e-12, 1e-6, 1e-3, 1e4] for n in OUT if n not in ("Beta", "BetaInflated", "BetaInflatedZero", "ZeroAdjustedGamma")}
EDGE.update(Beta=[1e-9, 1e-4, 1 - 1e-9, 1 - 1e-4], BetaInflated=[0.0, 1.0, 1e-9, 1 - 1e-9], BetaInflatedZero=[0.0, 1e-9, 1 - 1e-9], ZeroAdjustedGamma=[0.0, 1e-12, 1e4])
REAL = [-1e6, 1e6, 0.0, -1e-12]


class Check:
    ID = "T14"
    RULE = ("all distributions; one or several out-of-support responses injected at random positions of a fit or a later update must raise the "
            "out-of-support error, boundary-near responses inside the support must not; initial values on adversarial admissible samples; "
            "non-trivial = distinct (distribution, mode, value, position class)")
    QUICK, THOROUGH = 1700, 40000
    BUDGET = (22, 400)
    MIN_CASES = 150
    ASSUMPTIONS = ["samples for initial values are neither constant nor all at a boundary"]

    def warmup(self):
        warm_dr()

    def case(self, rng, i):
        name = NAMES[i % len(NAMES)]
        mode = pick(rng, ["fit", "update", "update", "edge", "init", "init"])
        if name not in OUT and mode in ("fit", "update"):
            mode = pick(rng, ["edge", "init"])
        return dict(name=name, mode=mode, n=int(rng.integers(25, 60)), k=int(pick(rng, [1, 1, 2, 7])), seed=int(rng.integers(2**31)))

    def run(self, c, mon):
        from ondil.error import OutOfSupportError

        rng = np.random.default_rng(c["seed"])
        name, n = c["name"], c["n"]
        d = REF[name]
        X, y = dr_data(name, rng, n, 1)
        opts = dict(max_it_outer=2, max_it_inner=2)
        if c["mode"] == "init":
            return self.init(c, mon, rng, name, d)

        if c["mode"] == "edge":
            v = pick(rng, EDGE.get(name, REAL))
            pos = int(rng.integers(n))
            y2 = y.copy()
            y2[pos] = v
            e = DR(distribution=sut(name), **opts)
            refused = None
            try:
                e.fit(X, y2)
            except OutOfSupportError as ex:
                refused = f"fit: {ex}"
            except Exception as ex:  # numerical trouble is not this property
                mon.event("fit of an extreme value failed: " + type(ex).__name__)
            mon.true("value inside the support is not refused", refused is None, lambda: f"{name} y={v!r} {refused}")
            e = DR(distribution=sut(name), **opts)
            try:
                e.fit(X, y)
            except np.linalg.LinAlgError:
                mon.event("fit failed")
                return
            refused = None
            k = min(c["k"], 5)
            yb = y[:k].copy()
            yb[int(rng.integers(k))] = v
            try:
                e.update(X[:k], yb)
            except OutOfSupportError as ex:
                refused = f"update: {ex}"
            except Exception as ex:  # noqa
                mon.event("update with an extreme value failed: " + type(ex).__name__)
            mon.true("value inside the support is not refused", refused is None, lambda: f"{name} y={v!r} {refused}")
            mon.sig(name, "edge", v)
            return

        bad = pick(rng, OUT[name])
        if c["mode"] == "fit":
            y2 = y.copy()
            m = int(pick(rng, [1, 1, 3, n]))
            where = pick(rng, ["first", "last", "random"])
            idx = {"first": np.arange(m), "last": np.arange(n - m, n), "random": rng.choice(n, m, replace=False)}[where]
            y2[idx] = bad
            w = None if rng.uniform() < 0.6 else rng.uniform(0.1, 2, n)
            opts["method"] = "ols"
            mon.raises("fit refuses a value outside the support", OutOfSupportError, lambda: DR(distribution=sut(name), **opts).fit(X, y2, sample_weight=w))
            mon.sig(name, "fit", bad, where, m)
            return
        e = DR(distribution=sut(name), **opts)
        try:
            e.fit(X, y)
            for r in range(int(rng.integers(0, 3))):
                e.update(X[r:r + 2], y[r:r + 2])
        except np.linalg.LinAlgError:
            mon.event("fit failed")
            return
        k = c["k"]
        Xb, yb = X[-k:], y[-k:].copy()
        yb[int(rng.integers(k))] = bad
        mon.raises("update refuses a value outside the support", OutOfSupportError, lambda: (e.update if rng.uniform() < 0.7 else e.partial_fit)(Xb, yb))
        mon.sig(name, "update", bad, k)

    def init(self, c, mon, rng, name, d):
        import inspect

        D = sut(name)
        kind = pick(rng, ["sample", "small", "tiny scale", "large scale", "shifted", "two values"])
        n = {"small": int(rng.integers(2, 6)) if not d.mixed else 8}.get(kind, c["n"])
        y = d.rvs(rng, np.repeat(d.theta(rng, 1), n, 0))
        if kind == "tiny scale" and d.upper != 1.0:
            y = y * 1e-6
        elif kind == "large scale" and d.upper != 1.0:
            y = y * 1e5
        elif kind == "shifted" and d.lower == -np.inf:
            y = y + 1e4
        elif kind == "two values":
            y = np.where(np.arange(n) % 2, y[0], y[1] if y[1] != y[0] else y[0] * 0.5 + 0.01)
        if d.lower == 0 and not d.mixed:
            y = np.maximum(y, 1e-12)
        if d.mixed:  # at least one interior value
            y[0] = 0.4 if not np.any((y > 0) & (y < 1)) else y[0]
        if np.ptp(y) < 1e-9 * (1 + np.abs(y).max()) or not np.all(np.isfinite(y)):
            y = np.linspace(0.2, 0.7, n)
        if name in ("JSU", "StudentT") and kind in ("two values", "small"):
            # maximum likelihood of these families does not exist on degenerate samples
            y = d.rvs(rng, np.repeat(d.theta(rng, 1), 40, 0))
            n = 40
        y0 = y.copy()
        with mon.sut("initial values"):
            v = np.asarray(D.initial_values(y=y), float)
        if not mon.true("initial values have one row per observation and one column per parameter", v.shape == (n, D.n_params), lambda: f"{name} {v.shape}"):
            return
        mon.true("initial values finite", np.all(np.isfinite(v)), lambda: f"{name} {kind} {v[:2]} y={y[:6]}")
        for p in range(D.n_params):
            lo, hi = D.parameter_support[p]
            mon.true("initial values in the parameter support", np.all(v[:, p] >= lo) and np.all(v[:, p] <= hi), lambda: f"{name} {kind} param {p}: {v[:2, p]} not in {(lo, hi)}; y={y[:6]}")
        mon.true("density finite at the initial values", np.all(np.isfinite(D.logpdf(y, v))) or name in ("JSU", "StudentT"), lambda: f"{name} {kind} {v[:1]}")
        mon.same("response not modified", y, y0)
        if "param" in inspect.signature(D.initial_values).parameters and inspect.signature(D.initial_values).parameters["param"].default is None:
            for p in range(D.n_params):
                with mon.sut("initial values of one parameter"):
                    u = np.asarray(D.initial_values(y=y, param=p), float)
                mon.close("initial values of one parameter", u, v[:, p], rtol=1e-12, detail=f"{name} {p}")
        mon.sig(name, "init", kind, n)
