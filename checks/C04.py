import numpy as np

from vlib.gen import pick


def soft(v, t):
    return np.sign(v) * np.maximum(np.abs(v) - t, 0)


def objective(b, G, h, lam, alpha, reg):
    return 0.5 * b @ G @ b - h @ b + lam * np.sum(reg * (alpha * np.abs(b) + (1 - alpha) / 2 * b**2))


def coord_opt(b, G, h, lam, alpha, reg, lo, hi):
    """minimiser of every one-dimensional problem given the other coordinates"""
    r = h - G @ b + np.diag(G) * b
    d = np.diag(G) + np.where(reg, lam * (1 - alpha), 0.0)
    u = np.where(reg, soft(r, alpha * lam), r)
    return np.clip(u / d, lo, hi), d


class Check:
    ID = "C04"
    RULE = ("random Gramians (correlated, orthogonal, rank-deficient), starts, penalties, mixing, bounds, order, tolerance and budget; "
            "non-trivial = distinct (Gramian kind, alpha class, bounds kind, regularisation mask kind, order, budget class) combinations")
    QUICK, THOROUGH = 12000, 500000
    BUDGET = (25, 500)
    MIN_CASES = 200

    def warmup(self):
        from ondil.coordinate_descent import online_coordinate_descent as cd, soft_threshold

        soft_threshold(1.0, 0.3)
        for sel in ("cyclic", "random"):
            cd(np.eye(2), np.ones(2), np.zeros(2), 0.1, np.array([True, True]), 0.5, -np.ones(2), np.ones(2), sel, 1e-4, 10)

    def case(self, rng, i):
        J = int(rng.integers(1, 9))
        kind = pick(rng, ["normal", "corr", "orth", "diag1", "scales", "rankdef"])
        n = int(rng.integers(J + 3, 80))
        X = rng.normal(size=(n, J))
        if kind == "corr":
            X += 2 * X[:, :1]
        elif kind == "scales":
            X *= 10 ** rng.uniform(-2, 2, J)
        elif kind == "rankdef" and J > 1:
            X = rng.normal(size=(J - 1, J))
        y = X @ (rng.normal(size=J) * (rng.uniform(size=J) < 0.6)) + rng.normal(size=len(X))
        G, h = X.T @ X, X.T @ y
        if kind in ("orth", "diag1"):
            G = np.diag(rng.uniform(0.5, 50, J)) if kind == "orth" else np.eye(J)
            h = rng.normal(size=J) * 5
        alpha = float(pick(rng, [0.0, 1.0, 1.0, 0.5, 0.05, 0.95, rng.uniform()]))
        lam = float(pick(rng, [0.0, np.abs(h).max() * 10 ** rng.uniform(-4, 0.2), np.abs(h).max(), 10 ** rng.uniform(-3, 2)]))
        if kind == "rankdef":
            lam, alpha = max(lam, 0.05 * np.abs(h).max()), min(alpha, 0.9)
        reg = pick(rng, [np.ones(J, bool), np.r_[False, np.ones(J - 1, bool)], rng.uniform(size=J) < 0.6])
        if kind == "rankdef":
            reg = np.ones(J, bool)
        bk = pick(rng, ["none", "none", "nonneg", "box", "tight", "mixed", "excl0"])
        lo, hi = np.full(J, -np.inf), np.full(J, np.inf)
        if bk == "nonneg":
            lo[:] = 0.0
        elif bk == "box":
            lo[:], hi[:] = -0.5, 0.7
        elif bk == "tight":
            lo[:], hi[:] = -0.01, 0.02
        elif bk == "mixed":
            lo[rng.uniform(size=J) < 0.5] = 0.0
            hi[rng.uniform(size=J) < 0.5] = 0.3
        elif bk == "excl0":
            lo[0] = 0.2
        start = pick(rng, ["zero", "ols", "random", "far"])
        b0 = np.zeros(J)
        if start == "ols":
            b0 = np.linalg.lstsq(G, h, rcond=None)[0]
        elif start == "random":
            b0 = rng.normal(size=J)
        elif start == "far":
            b0 = rng.normal(size=J) * 100
        # units of the response and of the observations
        u, v = float(pick(rng, [1.0, 1.0, 1.0, 1e-9, 1e-4, 1e6])), float(pick(rng, [1.0, 1.0, 1e-6, 1e5]))
        G, h, lam = G * v, h * v * u, lam * v * (u if alpha > 0 else 1.0)
        b0, lo, hi = b0 * u, lo * u, hi * u
        return dict(J=J, u=u, kind=kind, G=G, h=h, alpha=alpha, lam=lam, reg=np.asarray(reg), bk=bk, lo=lo, hi=hi, start=start, b0=b0,
                    order=pick(rng, ["cyclic", "cyclic", "random"]), tol=float(pick(rng, [1e-4, 1e-8, 1e-12])),
                    maxit=int(pick(rng, [1, 2, 5, 1000, 30000, 30000, 30000])))

    def run(self, c, mon):
        from ondil.coordinate_descent import online_coordinate_descent as cd, soft_threshold

        G, h, b0, lo, hi, reg = c["G"], c["h"], c["b0"], c["lo"], c["hi"], c["reg"]
        lam, alpha = c["lam"], c["alpha"]
        for v, t in [(h[0], lam), (-h[0], abs(h[0])), (0.0, 1.0), (h[-1], 0.0)]:
            mon.close("soft threshold", soft_threshold(float(v), float(t)), soft(v, t), rtol=1e-12, atol=1e-300)
        args = (G.copy(), h.copy(), b0.copy())
        keep = (G.copy(), h.copy(), b0.copy(), reg.copy(), lo.copy(), hi.copy())
        with mon.sut("descent"):
            b, it = cd(x_gram=args[0], y_gram=args[1], beta=args[2], regularization=lam, is_regularized=reg, alpha=alpha,
                       beta_lower_bound=lo, beta_upper_bound=hi, selection=c["order"], tolerance=c["tol"], max_iterations=c["maxit"])
        mon.same("inputs unchanged", (*args, reg, lo, hi), keep)
        if not mon.true("finite", np.all(np.isfinite(b)), lambda: b):
            return
        mon.true("not an alias of the start", b is not args[2])
        mon.true("lower bound", np.all(b >= lo), lambda: (b, lo))
        mon.true("upper bound", np.all(b <= hi), lambda: (b, hi))
        mon.true("sweeps within budget", 1 <= it <= c["maxit"] + 1, lambda: it)
        f = lambda x: objective(x, G, h, lam, alpha, reg)
        s0 = np.clip(b0, lo, hi)
        scale = abs(f(s0)) + abs(f(b)) + 1e-300 + 0.5 * np.abs(b0) @ np.abs(G) @ np.abs(b0)
        if np.all(s0 == b0):  # feasible start
            mon.event("descent from feasible start")
            mon.true("objective not increased", f(b) <= f(b0) + 1e-10 * scale, lambda: (f(b), f(b0)))
        conv = it <= c["maxit"]
        if conv and c["tol"] <= 1e-8:
            mon.event("converged")
            opt, d = coord_opt(b, G, h, lam, alpha, reg, lo, hi)
            mx = np.max(np.abs(b)) + 1e-300
            # after a sweep with changes below tol*max|b|, a coordinate is off by at most J*max ratio * that
            amp = np.max(np.abs(G) / d[:, None]) * c["J"] + 1
            act = b != 0
            mon.event("zero coordinates", int((~act).sum()))
            mon.true("active coordinates stationary", np.all(np.abs(b - opt)[act] <= 2 * c["tol"] * mx * amp + 1e-9 * mx),
                     lambda: f"b={b} opt={opt} it={it}")
            mon.event("active coordinates", int(act.sum()))
            if c["kind"] in ("orth", "diag1"):
                mon.event("orthogonal exact")
                mon.close("orthogonal solution", b, opt, rtol=1e-9, atol=1e-12 * c["u"])
            free = np.all((b > lo) & (b < hi)) and c["bk"] != "excl0"
            if alpha == 0.0 and free and not (b == 0).any():
                A = G + np.diag(np.where(reg, lam, 0.0))
                sc = 1 / np.sqrt(np.diag(A))
                if np.linalg.cond(A * np.outer(sc, sc)) < 1e4 and c["tol"] == 1e-12:
                    mon.event("ridge closed form")
                    want = np.linalg.solve(A, h)
                    mon.close("ridge closed form", b, want, rtol=1e-6, scale=np.max(np.abs(want)))
            if lam == 0.0 and free and c["tol"] == 1e-12 and np.linalg.cond(G) < 1e4 and not (b == 0).any():
                mon.event("least squares")
                mon.close("no penalty: least squares", b, np.linalg.solve(G, h), rtol=1e-6, scale=np.max(np.abs(b)))
            un = ~reg & act & (b > lo) & (b < hi)
            if un.any():
                g = (h - G @ b)[un] / np.diag(G)[un]
                mon.event("unregularised free coordinates", int(un.sum()))
                mon.true("unregularised coefficients not shrunk", np.all(np.abs(g) <= 2 * c["tol"] * mx * amp + 1e-9 * mx), lambda: g)
        if c["order"] == "cyclic" and it <= 300:
            # documented route: one full sweep over all coordinates, then sweeps over the non-zero ones
            r, margin = b0.copy(), np.inf
            dG = np.diag(G)
            for k in range(it):
                for j in range(c["J"]):
                    if k == 0 or r[j] != 0:
                        u = h[j] - G[j] @ r + dG[j] * r[j]
                        if reg[j]:
                            margin = min(margin, abs(abs(u) - alpha * lam) / (abs(h[j]) + abs(u) + lam + 1e-300))
                            u = soft(u, alpha * lam) / (dG[j] + lam * (1 - alpha))
                        else:
                            u = u / dG[j]
                        r[j] = min(max(u, lo[j]), hi[j])
            if margin > 1e-9:
                mon.event("route replayed")
                mon.close("documented sweeps", b, r, rtol=1e-8, scale=np.max(np.abs(r)) + 1e-6 * np.max(np.abs(b0)))
        mon.sig(c["kind"], alpha in (0.0, 1.0) and alpha, c["bk"], int(reg.sum()) == c["J"], c["order"], min(c["maxit"], 1001), c["start"], conv)
