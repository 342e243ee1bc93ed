import numpy as np

from vlib import zoo
from vlib.core import Skip
from vlib.gen import design, pick
from vlib.interp import Partner, history

PARTNER = []
KINDS = ["gram", "cd", "path", "ufunc", "estimator"]


def source(f):
    """the interpreted source of a compiled kernel"""
    for g in (f, getattr(f, "_dispatcher", None)):
        if g is not None and hasattr(g, "py_func"):
            return g.py_func
    return f


class Check:
    ID = "N26"
    RULE = ("kernels compiled with bounds checking run on random admissible inputs (sizes 1.., memory layouts, weights with zeros, boxes, single-row batches, "
            "one-point paths) and compared with the interpreted execution of their source; whole estimator histories are compared with a partner process that runs "
            "with the compiler disabled; non-trivial = distinct (kernel, sizes, layout, options)")
    QUICK, THOROUGH = 4000, 120000
    BUDGET = (16, 420)
    MIN_CASES = 200
    ASSUMPTIONS = ["NUMBA_BOUNDSCHECK=1 is set by check.sh; the compiled code is otherwise the production code"]

    def warmup(self):
        import os

        from numba.core import config

        assert config.BOUNDSCHECK or os.environ.get("NUMBA_BOUNDSCHECK"), "bounds checking is off"
        zoo.warm(["ols", "lasso", "dr-ols"])
        rng = np.random.default_rng(3)
        from vlib.core import Monitor

        for k in ("gram", "cd", "path", "ufunc"):
            for lay in ("C", "F"):
                for n in (1, 5):
                    c = self.case(rng, KINDS.index(k))
                    c.update(layout=lay, n=n)
                    try:
                        self.run(c, Monitor("N26"))
                    except Exception:
                        pass

    def case(self, rng, i):
        k = KINDS[i % 5]
        c = dict(kind=k, seed=int(rng.integers(2**31)), J=int(pick(rng, [1, 1, 2, 3, 5, 9])), n=int(pick(rng, [1, 1, 2, 3, 7, 20])), layout=pick(rng, ["C", "C", "F"]))
        if k == "estimator":
            c["cfg"] = zoo.config(rng, nup=(1, 9))
        return c

    def call(self, mon, what, f, args, kw, tol=1e-10, scale=None):
        """run compiled and interpreted, check inputs, finiteness and agreement"""
        import copy

        keep = copy.deepcopy((args, kw))
        with mon.sut(what):
            got = f(*args, **kw)
        mon.same(what + ": inputs are not modified", (args, kw), keep)
        want = source(f)(*copy.deepcopy(keep[0]), **copy.deepcopy(keep[1]))
        g, w = (got, want) if isinstance(got, tuple) else ((got,), (want,))
        for a, b in zip(g, w):
            a, b = np.asarray(a, float), np.asarray(b, float)
            mon.true(what + ": finite", bool(np.all(np.isfinite(a))), lambda: f"{a} for {args} {kw}")
            mon.close(what + ": compiled equals interpreted", a, b, rtol=tol, scale=max(np.max(np.abs(b), initial=0), 1e-300))
            break  # iteration counts may differ by rounding
        return got

    def run(self, c, mon):
        rng = np.random.default_rng(c["seed"])
        mon.sig(c["kind"], c["J"], c["n"], c["layout"])
        getattr(self, c["kind"])(c, mon, rng)

    def mat(self, c, A):
        return np.asfortranarray(A) if c["layout"] == "F" else np.ascontiguousarray(A)

    def gram(self, c, mon, rng):
        from ondil import gram as g

        J, n = c["J"], c["n"]
        n0 = J + int(rng.integers(2, 30))
        X0, X1 = self.mat(c, design(rng, n0, J)), self.mat(c, rng.normal(size=(n, J)))
        f = float(pick(rng, [0.0, 0.0, 1e-4, 0.05, 0.5]))
        w0, w1 = rng.uniform(0.2, 2, n0), rng.uniform(0.2, 2, n)
        if rng.uniform() < 0.3:
            w1[rng.uniform(size=n) < 0.5] = 0.0
        y0, y1 = rng.normal(size=n0), rng.normal(size=n)
        self.call(mon, "init_forget_vector", g.init_forget_vector, (f, int(pick(rng, [1, 2, n0]))), {})
        A = self.call(mon, "init_gram", g.init_gram, (X0,), dict(w=w0, forget=f))
        b = self.call(mon, "init_y_gram", g.init_y_gram, (X0, y0), dict(w=w0, forget=f))
        cond = np.linalg.cond(A)
        self.call(mon, "update_gram", g.update_gram, (A, X1), dict(w=w1, forget=f))
        self.call(mon, "update_y_gram", g.update_y_gram, (b, X1, y1), dict(w=w1, forget=f))
        if cond < 1e8:
            Ai = self.call(mon, "init_inverted_gram", g.init_inverted_gram, (X0,), dict(w=w0, forget=f), tol=1e-13 * cond + 1e-10)
            self.call(mon, "update_inverted_gram", g.update_inverted_gram, (Ai, X1), dict(w=w1, forget=f), tol=1e-12 * cond + 1e-10)
            if hasattr(g, "_update_inverted_gram"):
                try:
                    source(g._update_inverted_gram)(Ai, X1[:1], f, w1[:1])
                except Exception:
                    return
                self.call(mon, "single inverted update", g._update_inverted_gram, (Ai, X1[:1].copy(), f, w1[:1]), {}, tol=1e-12 * cond + 1e-10)

    def problem(self, c, rng):
        J = c["J"]
        X = design(rng, 3 * J + 10, J)
        X = X / np.sqrt(np.mean(X**2, axis=0))
        A = np.ascontiguousarray(X.T @ X)
        if np.linalg.cond(A) > 1e4:
            raise Skip("ill conditioned")
        b = X.T @ (X @ (rng.normal(size=J) * (rng.uniform(size=J) < 0.6)) + rng.normal(size=len(X)))
        lo = np.where(rng.uniform(size=J) < 0.3, rng.uniform(-0.5, 0.0, J), -np.inf)
        hi = np.where(rng.uniform(size=J) < 0.3, rng.uniform(0.1, 0.6, J), np.inf)
        reg = np.ones(J, bool)
        if J > 1 and rng.uniform() < 0.6:
            reg[0] = False
        return A, b, lo, hi, reg

    def cd(self, c, mon, rng):
        from ondil import coordinate_descent as cd

        A, b, lo, hi, reg = self.problem(c, rng)
        lam = float(np.max(np.abs(b)) * 10 ** rng.uniform(-4, 0.3))
        self.call(mon, "soft_threshold", cd.soft_threshold, (float(rng.normal()), float(pick(rng, [0.0, abs(rng.normal())]))), {})
        tol, it = pick(rng, [(1e-12, 50000), (1e-4, 1000), (1e-4, 0), (1e-12, 2)])
        beta = np.clip(rng.normal(size=c["J"]) * (rng.uniform() < 0.5), lo, hi)
        self.call(mon, "online_coordinate_descent", cd.online_coordinate_descent,
                  (A, b, beta, lam, reg, float(pick(rng, [0.0, 0.3, 1.0])), lo, hi, "cyclic", tol, it), {}, tol=1e-9 if tol < 1e-8 else 30 * tol)
        with mon.sut("random selection"):
            got, _ = cd.online_coordinate_descent(A, b, beta, lam, reg, 1.0, lo, hi, "random", 1e-10, 20000)
        mon.true("random selection: finite", bool(np.all(np.isfinite(got))))
        mon.true("random selection: inside the box", bool(np.all(got >= lo) and np.all(got <= hi)), lambda: f"{got} {lo} {hi}")

    def path(self, c, mon, rng):
        from ondil import coordinate_descent as cd

        A, b, lo, hi, reg = self.problem(c, rng)
        L = int(pick(rng, [1, 2, 7, 20]))
        lam = np.max(np.abs(b)) * np.geomspace(1.0, 1e-3, L)
        start = pick(rng, ["previous_lambda", "previous_fit", "average"])
        es = int(pick(rng, [0, 0, 1, c["J"], c["J"] + 2]))
        bp = np.clip(rng.normal(size=(L, c["J"])) * (rng.uniform() < 0.7), lo, hi)
        tol = pick(rng, [1e-12, 1e-4])
        got = self.call(mon, "online_coordinate_descent_path", cd.online_coordinate_descent_path,
                        (A, b, bp, lam, reg, float(pick(rng, [0.4, 1.0])), es, lo, hi, start, "cyclic", tol, 20000), {}, tol=1e-8 if tol < 1e-8 else 1e-2)
        mon.true("path: shape", got[0].shape == bp.shape and got[1].shape == lam.shape)
        mon.sig("path", L, start, es > 0)

    def ufunc(self, c, mon, rng):
        import math

        from ondil.links import robust_math as rm

        x = np.r_[rng.normal(size=6) * 10 ** rng.uniform(-3, 3), rng.uniform(-60, 60, 6), 10 ** rng.uniform(-300, 15, 3), -(10 ** rng.uniform(-300, 15, 3)), 0.0, 39.999, 40.001, 1e-10]
        for name in ("robust_log", "robust_exp", "robust_softplus", "robust_softplus_inverse"):
            f = getattr(rm, name, None)
            if f is None:
                continue
            keep = x.copy()
            with mon.sut(name):
                got = f(x)
            mon.same(name + ": inputs are not modified", x, keep)
            mon.true(name + ": finite", bool(np.all(np.isfinite(got))), lambda: f"{x} -> {got}")
            one = np.array([f(float(v)) for v in x])
            mon.close(name + ": element by element", got, one, rtol=1e-13)
            g = source(f)
            if g is not f:
                mon.close(name + ": compiled equals interpreted", got, [float(g(np.float64(v))) for v in x], rtol=1e-12, atol=1e-15)

    def estimator(self, c, mon, rng):
        cfg = c["cfg"]
        if not PARTNER:
            PARTNER.append(Partner())
        with mon.sut("estimator history"):
            got = history(cfg)
        status, want = PARTNER[0].ask(cfg)
        mon.true("interpreted history runs", status == "ok", want)
        if status == "ok":
            for k, (a, b) in enumerate(zip(got, want)):
                bad = zoo.same_up_to(b, a, 1e-6)
                if bad is not None and zoo.fragile(lambda noise: history(cfg, noise)[k], a, 1e-6):
                    mon.event("tie in the criterion")
                    break
                mon.true("estimator: compiled equals interpreted", bad is None, lambda: f"call {k} {cfg['kind']}: {bad}")
            mon.sig("estimator", cfg["kind"], len(got), cfg["forget"] > 0, cfg["wk"])
