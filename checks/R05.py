import numpy as np

from checks.C04 import coord_opt, soft
from vlib.gen import FORGETS, design, disc, nonzero_batches, partition, pick, slices, sl, weights


def lam_max(G, h, reg):
    if not reg.any():
        return None
    if reg.all():
        return np.abs(h).max()
    k = int(np.flatnonzero(~reg)[0])
    return np.abs(h - G[k] * (h[k] / G[k, k]))[reg].max()


def replay_row(G, h, b0, lam, alpha, reg, lo, hi, tol, maxit):
    """documented active-set coordinate descent (cyclic); returns the row and the smallest relative
    distance of a soft-thresholding decision to its threshold"""
    b, margin, k = b0.copy(), np.inf, 0
    dG = np.diag(G)
    J = len(b)
    while True:
        k += 1
        old = b.copy()
        for j in range(J):
            if k == 1 or b[j] != 0:
                u = h[j] - G[j] @ b + dG[j] * b[j]
                if reg[j]:
                    margin = min(margin, abs(abs(u) - alpha * lam) / (abs(u) + alpha * lam + 1e-300))
                    u = soft(u, alpha * lam) / (dG[j] + lam * (1 - alpha))
                else:
                    u = u / dG[j]
                b[j] = min(max(u, lo[j]), hi[j])
        if np.max(np.abs(b - old)) <= tol * np.max(np.abs(b)) or k > maxit:
            return b, margin, k


class Check:
    ID = "R05"
    RULE = ("lasso / elastic-net paths of the online linear model over random histories (weights, forgetting, partitions, bounds, start values, "
            "order, early stopping, intercept options); Gramians and penalty grid rebuilt from the history, every row judged by its optimality "
            "conditions and the documented active-set route replayed from the observed start values; non-trivial = distinct option combinations")
    QUICK, THOROUGH = 1500, 30000
    BUDGET = (35, 540)
    MIN_CASES = 60
    ASSUMPTIONS = ["at most one unregularised coefficient (others are refused as not implemented)", "covariates not constant"]

    def warmup(self):
        from ondil.estimators import OnlineLinearModel
        from ondil.methods import LassoPath

        rng = np.random.default_rng(0)
        X, y = rng.normal(size=(20, 2)), rng.normal(size=20)
        e = OnlineLinearModel(method=LassoPath(lambda_n=5)).fit(X, y)
        e.update(X[:1], y[:1])
        e.update(X[:3], y[:3])

    def case(self, rng, i):
        J = int(rng.integers(1, 7))
        n0 = int(rng.integers(J + 8, J + 50))
        n = n0 + int(rng.integers(0, 14))
        kind, w = weights(rng, n)
        if w is not None:
            w[:n0] = np.maximum(w[:n0], 0.2)
        icpt = bool(rng.uniform() < 0.75)
        K = J + icpt
        X = design(rng, n, J)
        y = (X - X.mean(0)) / X.std(0) @ (rng.normal(size=J) * 3 * (rng.uniform(size=J) < 0.7)) + rng.normal(size=n) + rng.uniform(-4, 4)
        if rng.uniform() < 0.15:
            y = -np.abs(y) - 1  # everything negatively related to the intercept
        bk = pick(rng, ["none", "none", "nonneg", "box", "upper"])
        lo, hi = None, None
        if bk == "nonneg":
            lo = np.zeros(K)
            if icpt:
                lo[0] = -np.inf
        elif bk == "box":
            lo, hi = np.full(K, -0.5), np.full(K, 0.8)
        elif bk == "upper":
            hi = np.full(K, 0.4)
        return dict(J=J, n0=n0, n=n, w=w, wkind=kind, X=X, y=y, icpt=icpt, regint=bool(icpt and rng.uniform() < 0.3),
                    scale=bool(rng.uniform() < 0.8), forget=float(pick(rng, FORGETS[:-2])), cuts=partition(rng, n0, n) if n > n0 else [n0],
                    alpha=float(pick(rng, [1.0, 1.0, 1.0, 0.5, 0.9, 0.2])), ln=int(pick(rng, [2, 5, 12, 25])), eps=float(pick(rng, [1e-4, 1e-3, 0.05])),
                    bk=bk, lo=lo, hi=hi, early=int(pick(rng, [0, 0, 0, 1, 2, 3])), si=pick(rng, ["previous_lambda", "previous_lambda", "previous_fit", "average"]),
                    su=pick(rng, ["previous_lambda", "previous_fit", "previous_fit", "average"]), order=pick(rng, ["cyclic", "cyclic", "cyclic", "random"]),
                    cls=pick(rng, ["lasso", "enet"]), late=bool(i % 9 == 0))

    def run(self, c, mon):
        from ondil.estimators import OnlineLinearModel
        from ondil.methods import ElasticNetPath, LassoPath

        X, y, w, f, J = c["X"], c["y"], nonzero_batches(c["w"], c["cuts"]), c["forget"], c["J"]
        TOL, MAXIT = 1e-11, 20000
        kw = dict(lambda_n=c["ln"], lambda_eps=c["eps"], early_stop=c["early"], start_value_initial=c["si"], start_value_update=c["su"],
                  selection=c["order"], beta_lower_bound=c["lo"], beta_upper_bound=c["hi"], tolerance=TOL, max_iterations=MAXIT)
        alpha = 1.0 if c["cls"] == "lasso" else c["alpha"]
        meth = LassoPath(**kw) if c["cls"] == "lasso" else ElasticNetPath(alpha=alpha, **kw)
        e = OnlineLinearModel(method=meth, forget=f, scale_inputs=c["scale"], fit_intercept=c["icpt"], regularize_intercept=c["regint"])
        K = J + c["icpt"]
        reg = np.ones(K, bool)
        if c["icpt"] and not c["regint"]:
            reg[0] = False
        lo = np.full(K, -np.inf) if c["lo"] is None else c["lo"]
        hi = np.full(K, np.inf) if c["hi"] is None else c["hi"]
        G, h, S = np.zeros((K, K)), np.zeros(K), 0.0
        prev = np.zeros((c["ln"], K))

        def add(b):
            nonlocal G, h, S
            m = b.stop
            W = (np.ones(m) if w is None else w[:m]) * disc(f, m)
            Z = X[b]
            if c["scale"]:
                mu = (W[:, None] * X[:m]).sum(0) / W.sum()
                sd = np.sqrt((W[:, None] * (X[:m] - mu) ** 2).sum(0) / W.sum())
                Z = (Z - mu) / sd
            D = np.c_[np.ones(len(Z)), Z] if c["icpt"] else Z
            wb = W[b.start:]
            g = (1 - f) ** (b.stop - b.start)
            G = g * G + (D * wb[:, None]).T @ D
            h = g * h + D.T @ (wb * y[b])

        def verify(step, start):
            nonlocal prev
            P = e.coef_path_
            if not mon.true("path shape", P.shape == (c["ln"], K), lambda: P.shape):
                return
            if not mon.true("path finite", np.all(np.isfinite(P))):
                return
            mon.true("bounds", np.all(P >= lo) and np.all(P <= hi))
            lm = lam_max(G, h, reg)
            lams = np.geomspace(lm, lm * c["eps"], c["ln"])
            sc = np.abs(P).max() + np.abs(h / np.diag(G)).max() + 1e-12
            if alpha == 1.0 and c["bk"] == "none" and (c["early"] == 0 or (c["early"] > 1 and step == 0)) and (start == "previous_lambda" or step == 0):
                mon.event("empty first row")
                r0 = P[0]
                mon.true("first row: regularised coefficients zero", np.all(np.abs(r0[reg]) <= 1e-9 * sc), lambda: r0)
                if not reg.all():
                    mon.close("first row: unpenalised intercept", r0[0], h[0] / G[0, 0], rtol=1e-7, scale=sc)
                if c["ln"] > 5 and c["eps"] < 1e-2 and lm > 1e-3 * np.abs(h).max():
                    mon.true("second row not empty", np.any(P[1:][:, reg] != 0))
            for i, lam in enumerate(lams):
                s0 = {"previous_lambda": P[max(i - 1, 0)] if i else np.zeros(K), "previous_fit": prev[i],
                      "average": ((P[i - 1] if i else np.zeros(K)) + prev[i]) / 2}[start]
                frozen = c["early"] > 0 and np.count_nonzero(s0) >= c["early"]
                if frozen:
                    mon.event("frozen row")
                    mon.close("early stop keeps the start value", P[i], s0, rtol=1e-12, detail=f"row {i}")
                    continue
                b = P[i]
                opt, d = coord_opt(b, G, h, lam, alpha, reg, lo, hi)
                act = b != 0
                amp = np.max(np.abs(G) / d[:, None]) * K + 1
                mx = np.abs(b).max()
                mon.true("active coefficients optimal for the row's penalty",
                         np.all(np.abs(b - opt)[act] <= 2 * TOL * mx * amp + 1e-7 * sc),
                         lambda: f"step {step} row {i} lam {lam} b={b} opt={opt}")
                mon.event("rows")
                if c["order"] == "cyclic":
                    r, margin, k = replay_row(G, h, s0, lam, alpha, reg, lo, hi, TOL, 3000)
                    if k <= 3000 and margin > 1e-7:
                        mon.event("rows replayed")
                        mon.close("row follows from its start value", b, r, rtol=1e-6, scale=sc, detail=f"step {step} row {i} start {start}")
            prev = P.copy()

        b0 = slice(0, c["n0"])
        with mon.sut("fit"):
            e.fit(X[b0], y[b0], sample_weight=sl(w, b0))
        add(b0)
        verify(0, c["si"])
        for k, b in enumerate(slices(c["cuts"])):
            if np.linalg.cond(G) > 1e7:
                mon.event("stopped: ill-conditioned")
                break
            with mon.sut("update"):
                e.update(X[b], y[b], sample_weight=sl(w, b))
            add(b)
            mon.event("update")
            verify(k + 1, c["su"])
        mon.sig(c["cls"], alpha, c["icpt"], c["regint"], c["bk"], c["early"], c["si"], c["su"], c["order"], c["forget"] > 0, c["wkind"], len(c["cuts"]) > 1)
