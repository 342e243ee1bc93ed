import copy

import numpy as np

from vlib.core import Skip
from vlib.dists import NAMES, REF, sut
from vlib.gen import DR, disc, dr_data, nonzero_batches, partition, pick, sl, slices, warm_dr, weights

ETA0 = {"InverseGamma": [0.4, -1.2], "JSU": [1.0, 0.2, 0.3, 0.5]}
PLAIN = [n for n in NAMES if n != "JSU"]
TOL = dict(abs_tol_outer=1e-11, abs_tol_inner=1e-11, rel_tol_outer=1e-16, rel_tol_inner=1e-16)


TRACE, LAST = [], {}


def recorder(cls, **kw):
    """the estimation method, noting every set of working observations it is handed"""

    class Rec(cls):
        def _note(self, X, weights, y=None):
            TRACE.append(dict(p=LAST.get("param"), theta=LAST.get("theta"), X=np.array(X), W=np.array(weights, float), z=None if y is None else np.array(y, float).ravel()))

        def init_x_gram(self, X, weights, forget):
            return cls.init_x_gram(X, weights=weights, forget=forget)

        def update_x_gram(self, gram, X, weights, forget):
            return cls.update_x_gram(gram, X, weights=weights, forget=forget)

        def init_y_gram(self, X, y, weights, forget):
            self._note(X, weights, y)
            return cls.init_y_gram(X, y, weights=weights, forget=forget)

        def update_y_gram(self, gram, X, y, weights, forget):
            self._note(X, weights, y)
            return cls.update_y_gram(gram, X, y, weights=weights, forget=forget)

    Rec.__name__ = cls.__name__
    return Rec(**kw)


def recording_dist(name):
    cls = type(sut(name))

    class RecD(cls):
        def dl1_dp1(self, y, theta, param=0):
            LAST["theta"], LAST["param"] = np.array(theta), param
            return super().dl1_dp1(y, theta, param=param)

    RecD.__name__ = cls.__name__
    return RecD()


class Ref:
    """information of all batches, each with its working observations as they stood when it was processed"""

    def __init__(self, c, D, X, y, w, designs):
        self.__dict__.update(locals())
        P = D.n_params
        self.A, self.b = [None] * P, [None] * P

    def scaled(self, stop, rows):
        X, c = self.X, self.c
        if not c["scale"]:
            return X[rows]
        d = self.w[:stop] * disc(c["forget"][0], stop)
        mu = (d[:, None] * X[:stop]).sum(0) / d.sum()
        sd = np.sqrt((d[:, None] * (X[:stop] - mu) ** 2).sum(0) / d.sum())
        return (X[rows] - mu) / sd

    def design(self, s, p):
        Z = self.scaled(s.stop, s)
        e = self.c["eq"][p]
        Z = Z[:, :0] if isinstance(e, str) and e == "intercept" else Z if isinstance(e, str) else Z[:, e]
        return np.hstack([np.ones((len(Z), 1)), Z]) if self.c["fi"][p] else Z

    def predictor(self, s, coef):
        return np.stack([self.design(s, p) @ coef[p] for p in range(self.D.n_params)], 1)

    def info(self, s, coef):
        """Gramians including the batch s with working observations at coef"""
        E = self.predictor(s, coef)
        return self.accumulate(s, E)

    def working(self, s, E, p):
        D = self.D
        th = np.stack([D.link_inverse(E[:, p], param=p) for p in range(D.n_params)], 1)
        g = D.link_inverse_derivative(E[:, p], param=p)
        u = D.dl1_dp1(self.y[s], th, param=p)
        W = np.clip(-D.dl2_dp2(self.y[s], th, param=p) * g**2, 1e-10, 1e10)
        return W, E[:, p] + u * g / W

    def gram(self, s, p, v, z, past=None):
        """accumulated Gramians for working weights v (including sample weights) and working response z"""
        n, f = s.stop - s.start, self.c["forget"][p]
        v = v * disc(f, n)
        Xp = self.design(s, p)
        A, b = (Xp * v[:, None]).T @ Xp, Xp.T @ (v * z)
        past = past or (None if self.A[p] is None else (self.A[p], self.b[p]))
        if past:
            A, b = A + (1 - f) ** n * past[0], b + (1 - f) ** n * past[1]
        return A, b

    def accumulate(self, s, E):
        out = []
        for p in range(self.D.n_params):
            W, z = self.working(s, E, p)
            out.append(self.gram(s, p, self.w[s] * W, z))
        return out

    def solve(self, p, A, b):
        R = np.zeros(len(A))
        if self.c["lam"][p] is not None:
            R[:] = self.c["lam"][p]
            if self.c["fi"][p]:
                R[0] = 0.0
        A = A + np.diag(R)
        sc = 1 / np.sqrt(np.diag(A))
        M = A * np.outer(sc, sc)
        return sc * np.linalg.solve(M, sc * b), np.linalg.cond(M)

    def commit(self, s, coef):
        for p, (A, b) in enumerate(self.info(s, coef)):
            self.A[p], self.b[p] = A, b


class Check:
    ID = "F13"
    RULE = ("all distributions x streams cut into random batches, forget factor per parameter, weights, scaling, OLS or ridge per parameter; after every "
            "converged update the coefficients vs. the solution of the accumulated working least squares problem; non-trivial = distinct "
            "(distribution, methods, forgets, weights, scaling, batch sizes) with a judged update")
    QUICK, THOROUGH = 480, 12000
    BUDGET = (20, 600)
    MIN_CASES = 60
    ASSUMPTIONS = ["updates that change when the iteration limit is doubled are not converged and end the judged history",
                   "the working observations follow the documented iteratively reweighted least squares with the distribution's own derivatives (D09, D10)"]

    def warmup(self):
        warm_dr(ridge=True)

    def case(self, rng, i):
        name = PLAIN[i % len(PLAIN)] if i % 50 else "JSU"
        d = REF[name]
        J = int(rng.integers(1, 4))
        n0 = int(rng.integers(70, 180))
        n = n0 + int(rng.integers(1, 14)) * int(pick(rng, [1, 3]))
        fk = pick(rng, ["zero", "zero", "same", "per", "per"])
        base = float(pick(rng, [1e-4, 0.002, 0.01, 0.02]))
        forget = [0.0 if fk == "zero" else base if fk == "same" else float(pick(rng, [0.0, 0.001, 0.005, 0.02])) for _ in range(d.p)]
        eq = []
        for p in range(d.p):
            k = pick(rng, ["all", "all", "cols", "intercept"]) if p < 2 else "intercept"
            eq.append([int(v) for v in rng.choice(J, int(rng.integers(1, J + 1)), replace=False)] if k == "cols" else k)
        # steps of the shape parameters may be refused for good by the deviance rule: no fixed point is reached
        mode = "fixed point" if i % 3 == 2 and name not in ("StudentT", "JSU") else "trace"
        if mode == "fixed point":
            forget = [0.0] * d.p
        lam = [float(10 ** rng.uniform(-1, 1)) if mode == "trace" and rng.uniform() < 0.25 else None for _ in range(d.p)]
        return dict(mode=mode, name=name, J=J, n0=n0, n=n, forget=forget, eq=eq, lam=lam, wk=pick(rng, ["none", "unif", "int", "zeros"]),
                    scale=bool(rng.uniform() < 0.6), cuts=partition(rng, n0, n), order=[int(v) for v in rng.permutation(d.p)] if rng.uniform() < 0.4 else None,
                    dict_opts=bool(rng.uniform() < 0.5), prefit=int(pick(rng, [0, 0, 2])), seed=int(rng.integers(2**31)))

    def run(self, c, mon):
        from ondil.methods import OrdinaryLeastSquares, Ridge

        rng = np.random.default_rng(c["seed"])
        name, n, J = c["name"], c["n"], c["J"]
        d, D = REF[name], sut(name)
        X, y = dr_data(name, rng, n, J, eta0=ETA0.get(name))
        X = X * 10 ** rng.uniform(-0.5, 0.5, J) + rng.uniform(-1, 1, J)
        _, w = weights(rng, n, c["wk"])
        w = nonzero_batches(w, [0] + c["cuts"])
        W = np.ones(n) if w is None else w
        eq = {p: e if isinstance(e, str) else np.array(e) for p, e in enumerate(c["eq"])}
        c = dict(c, eq=eq, fi=[True] * d.p)
        meth = {p: "ols" if l is None else Ridge(lambda_reg=l, tolerance=1e-13, max_iterations=20000) for p, l in enumerate(c["lam"])}
        if all(l is None for l in c["lam"]):
            meth = pick(rng, ["ols", OrdinaryLeastSquares()])
        forget = {p: c["forget"][p] for p in reversed(range(d.p))}
        if len(set(c["forget"])) == 1 and not c["dict_opts"]:
            forget = c["forget"][0]
        opts = dict(distribution=sut(name), equation=eq, forget=forget, method=meth, scale_inputs=c["scale"], prefit_update=c["prefit"],
                    param_order=None if c["order"] is None else np.array(c["order"]), max_it_outer=50, max_it_inner=30, **TOL)
        trace = c["mode"] == "trace"
        ref = Ref(c, D, X, y, W, None)
        s0 = slice(0, c["n0"])
        if trace:
            opts.update(distribution=recording_dist(name), max_it_outer=int(pick(rng, [1, 2, 5, 30])), max_it_inner=int(pick(rng, [1, 3, 30])))
            opts.update({k: 10 * v for k, v in dict(abs_tol_outer=1e-4, abs_tol_inner=1e-4, rel_tol_outer=1e-6, rel_tol_inner=1e-6).items()})
            opts["prefit_update"] = min(c["prefit"], opts["max_it_outer"])
            opts["method"] = {p: recorder(OrdinaryLeastSquares) if l is None else recorder(Ridge, lambda_reg=l, tolerance=1e-13, max_iterations=20000)
                              for p, l in enumerate(c["lam"])}
        e = DR(**opts)
        TRACE.clear()
        with mon.sut("fit"):
            try:
                e.fit(X[s0], y[s0], sample_weight=sl(w, s0))
            except np.linalg.LinAlgError:
                raise Skip("fit diverged: " + name)
        if trace:
            return self.traced(c, mon, e, ref, d, w, s0)

        def gap(s):
            """worst scaled distance of the coefficients from the solution"""
            r = []
            for p, (A, b) in enumerate(ref.info(s, e.coef_)):
                beta, cond = ref.solve(p, A, b)
                if not cond < 1e6:
                    raise Skip("ill-conditioned")
                r.append(self.dist(A, beta, e.coef_[p]))
            return np.array(r)

        g = gap(s0)
        if not np.max(g) < 1e-7:
            mon.event("fit not at a fixed point" + ("" if max(c["forget"]) else " without forgetting"))
            raise Skip("fit not converged: " + name)
        ref.commit(s0, e.coef_)
        mon.event("fits at the fixed point")
        judged = 0
        for k, s in enumerate(slices(c["cuts"])):
            old = copy.deepcopy(e)
            with mon.sut("update"):
                try:
                    (e.update if k % 3 else e.partial_fit)(X[s], y[s], sample_weight=sl(w, s))
                except np.linalg.LinAlgError:
                    raise Skip("update diverged: " + name)
            if not all(np.all(np.isfinite(b)) for b in e.coef_.values()):
                mon.event("update diverged")
                break
            g = gap(s)
            tol = 1e-5
            if not np.max(g) < tol:
                old.set_params(max_it_outer=200, max_it_inner=60)
                old.update(X[s], y[s], sample_weight=sl(w, s))
                moved = max(np.max(np.abs(old.coef_[p] - e.coef_[p])) for p in range(d.p))
                if moved > 1e-8:
                    mon.event("update not converged: " + name)
                    break
            mon.true("coefficients balance new and discounted past information", np.max(g) < tol,
                     lambda: f"{name} batch {k} rows {s.start}:{s.stop} gaps {g} forget {c['forget']} lam {c['lam']} weights {c['wk']} scale {c['scale']}")
            judged += 1
            mon.event("updates judged")
            ref.commit(s, e.coef_)
        if not judged:
            raise Skip("no converged update: " + name)
        mon.sig(name, [l is not None for l in c["lam"]], np.array(c["forget"]) > 0, c["wk"], c["scale"], len(c["cuts"]))

    @staticmethod
    def dist(A, beta, coef):
        """distance on the predictor scale"""
        sc = np.sqrt(np.maximum(np.diag(A), 0) / max(A[0, 0], 1e-300))
        return np.max(np.abs((beta - coef) * sc)) / (1 + np.max(np.abs(beta * sc)))

    def traced(self, c, mon, e, ref, d, w, s0):
        D = ref.D
        tag = f"{c['name']} forget {c['forget']} lam {c['lam']} weights {c['wk']} scale {c['scale']}"
        judged, stop = 0, False
        states = [[None]] * d.p
        for k, s in enumerate([s0] + slices(c["cuts"])):
            if k:
                TRACE.clear()
                with mon.sut("update"):
                    try:
                        (e.update if k % 3 else e.partial_fit)(ref.X[s], ref.y[s], sample_weight=sl(w, s))
                    except np.linalg.LinAlgError:
                        mon.event("update diverged")
                        break
            if not all(np.all(np.isfinite(b)) for b in e.coef_.values()):
                mon.event("diverged")
                break
            if c["name"] == "StudentT" and any(np.any((t["theta"][:, 2] < 2.02) | (t["theta"][:, 2] > 40)) for t in TRACE):
                mon.event("shape parameter at its limits: numerically meaningless derivatives")
                break
            new = []
            for p in range(d.p):
                log = [t for t in TRACE if t["p"] == p]
                if not mon.true("every parameter is estimated in every batch", log, tag):
                    return
                # several iterations of the fit may have led to the same coefficients: keep all candidates
                best, found = np.inf, []
                for t in reversed(log):
                    E = np.stack([D.link_function(t["theta"][:, q], param=q) for q in range(d.p)], 1)
                    W, z = ref.working(s, E, p)
                    if t["W"].shape != W.shape or t["z"].shape != z.shape:
                        mon.fail("one working observation per row", f"{t['W'].shape} {t['z'].shape} {W.shape}")
                        return
                    hit = False
                    for past in states[p]:
                        A, b = ref.gram(s, p, ref.w[s] * W, z, past)
                        beta, cond = ref.solve(p, A, b)
                        if not (cond < 1e6 and np.all(np.isfinite(beta))):
                            mon.event("ill-conditioned")
                            stop = True
                            break
                        g = self.dist(A, beta, e.coef_[p])
                        best = min(best, g)
                        if g < 1e-6:
                            hit = True
                            if not any(np.allclose(A, q[0], rtol=1e-9) and np.allclose(b, q[1], rtol=1e-9) for q in found):
                                found.append((A, b))
                    if stop:
                        break
                    if hit:
                        mon.close("working weights", t["W"], ref.w[s] * W, rtol=1e-6, atol=1e-12, detail=tag)
                        mon.close("working responses", np.where(ref.w[s] > 0, t["z"], 0), np.where(ref.w[s] > 0, z, 0), rtol=1e-6, scale=np.max(np.abs(E[:, p])) + 1e-3, detail=tag)
                    if k or len(found) >= 12:  # an update always keeps its last step
                        break
                if stop:
                    break
                if not mon.true("coefficients balance new and discounted past information", found,
                                lambda: f"batch {k} rows {s.start}:{s.stop} parameter {p}: distance {best} {tag}"):
                    return
                new.append(found)
            if stop:
                break
            states = new
            if k:
                judged += 1
                mon.event("updates judged (trace)")
        if not judged:
            raise Skip("no update judged (trace)")
        mon.sig("trace", c["name"], [l is not None for l in c["lam"]], np.array(c["forget"]) > 0, c["wk"], c["scale"], len(c["cuts"]))

    def summary(self, results, events):
        bad = sum(r["status"] == "skip" for r in results)
        if len(results) >= 60 and bad > 0.5 * len(results):
            return [{"what": "updates do not converge", "detail": f"{bad} of {len(results)} histories without a converged update", "key": None}]
