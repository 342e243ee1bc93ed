import numpy as np

from checks.T14 import OUT
from vlib import zoo
from vlib.dists import NAMES
from vlib.gen import pick, sl

BAD = ["nan X", "inf X", "nan y", "inf y", "too few columns", "too many columns", "X longer", "y longer", "weights too long", "weights too short", "nan weights", "inf weights", "X 1-D",
       "X 3-D", "empty", "strings", "out of support", "names"]
BAD_PREDICT = ["nan X", "inf X", "too few columns", "too many columns", "X 1-D", "empty"]


def spoil(kind, rng, X, y, w, out):
    """an invalid version of a valid batch"""
    X, y = X.copy(), y.copy()
    w = None if w is None else w.copy()
    n, J = X.shape
    i, j = int(rng.integers(n)), int(rng.integers(J))
    if kind == "nan X":
        X[i, j] = np.nan
    elif kind == "inf X":
        X[i, j] = pick(rng, [np.inf, -np.inf])
    elif kind == "nan y":
        y[i] = np.nan
    elif kind == "inf y":
        y[i] = np.inf
    elif kind == "too few columns":
        X = X[:, :-1]
    elif kind == "too many columns":
        X = np.c_[X, X[:, :1]]
    elif kind == "X longer":
        X = np.vstack([X, X[:1]])
    elif kind == "y longer":
        y = np.r_[y, y[:1]]
    elif kind == "weights too long":
        w = np.ones(n + 1)
    elif kind == "weights too short":
        w = np.ones(n - 1) if n > 2 else np.ones(n + 2)
    elif kind == "inf weights":
        w = np.ones(n)
        w[i] = np.inf
    elif kind == "nan weights":
        w = np.ones(n)
        w[i] = np.nan
    elif kind == "X 1-D":
        X = X[:, 0]
    elif kind == "X 3-D":
        X = X[:, :, None]
    elif kind == "empty":
        X, y, w = X[:0], y[:0], None
    elif kind == "strings":
        X = X.astype(object)
        X[i, j] = "a"
    elif kind == "out of support":
        y[i] = pick(rng, out)
    return X, y, w


class Check:
    ID = "A15"
    RULE = ("histories of all estimator kinds with invalid calls injected between valid ones; the call has to be refused, every observable stays "
            "bit-identical, and the history continues bit-identically to the history without the call; non-trivial = distinct (estimator, fault, position)")
    QUICK, THOROUGH = 700, 20000
    BUDGET = (18, 400)
    MIN_CASES = 80
    ASSUMPTIONS = ["faults are invalid inputs; numerical failures inside an accepted update are not part of the property"]

    def warmup(self):
        zoo.warm()

    def case(self, rng, i):
        c = zoo.config(rng, i=i, nup=(2, 14))
        c["faults"] = [pick(rng, BAD) for _ in range(40)]
        if c["kind"] in ("dr-ols", "dr-lasso"):
            c["dist"] = NAMES[i // 11 % len(NAMES)]
        c["names"] = bool(rng.uniform() < 0.3)
        return c

    def run(self, c, mon):
        import pandas as pd

        X, y, w, Z = zoo.data(c)
        rng = np.random.default_rng(c["seed"] + 1)
        e, clean = zoo.build(c), zoo.build(c)
        cols = [f"c{j}" for j in range(c["J"])]
        F = (lambda A: pd.DataFrame(A, columns=cols)) if c["names"] else (lambda A: A)
        Zf = F(Z)
        faults = iter(c["faults"])
        bs = zoo.batches(c)
        scaler = c["kind"] == "scaler"

        def call(est, s, first):
            Xf = F(X[s])
            a = (Xf,) if scaler else (Xf, y[s])
            (est.fit if first else est.update)(*a, sample_weight=sl(w, s))

        with mon.sut("valid calls"):
            call(e, bs[0], True)
            call(clean, bs[0], True)
        for k, s in enumerate(bs[1:]):
            for _ in range(int(rng.integers(0, 3))):
                kind = next(faults)
                if scaler and kind in ("nan y", "inf y", "y longer", "X longer", "out of support"):
                    continue
                out = OUT.get(zoo.dist_of(c)) if c["kind"].startswith("dr") else None
                if kind == "out of support" and not out:
                    continue
                if kind == "names" and not c["names"]:
                    continue
                before = zoo.snapshot(e, Zf)
                Xb, yb, wb = spoil(kind, rng, X[s], y[s], sl(w, s), out)
                if kind == "names":
                    Xb = pd.DataFrame(Xb, columns=pick(rng, [["z"] + cols[1:], cols[::-1]]))
                elif c["names"] and Xb.ndim == 2 and Xb.shape[1] == c["J"]:
                    Xb = pd.DataFrame(Xb, columns=cols)
                target = "update"
                if kind in BAD_PREDICT + ["names"] and rng.uniform() < 0.4:
                    target = pick(rng, ["transform", "inverse_transform"] if scaler else ["predict"] + (["predict_quantile", "predict_distribution_parameters", "predict_median"] if c["kind"].startswith("dr") else ["score"]))
                elif hasattr(e, "partial_fit") and not scaler and rng.uniform() < 0.2:
                    target = "partial_fit"
                f = getattr(e, target)
                args = dict(partial_fit=(Xb, yb), update=((Xb,) if scaler else (Xb, yb)), score=(Xb, yb), predict_quantile=(Xb, 0.3)).get(target, (Xb,))
                kw = dict(sample_weight=wb) if target in ("update", "partial_fit") else {}
                mon.raises(f"{target}: invalid input is refused", (ValueError, TypeError), lambda: f(*args, **kw), key=None)
                mon.event(f"refused {target}: {kind}")
                mon.same(f"refused {target} changes nothing", zoo.snapshot(e, Zf), before, detail=f"{c['kind']} {kind}")
                mon.sig(c["kind"], target, kind, min(k, 3))
            with mon.sut("valid calls"):
                call(e, s, False)
                call(clean, s, False)
            mon.same("history continues as without the refused calls", zoo.snapshot(e, Zf), zoo.snapshot(clean, Zf), detail=f"{c['kind']} batch {k}")
