import numpy as np

from vlib import zoo
from vlib.gen import pick, sl

KINDS = ["scaler", "ols", "ridge", "lasso", "OnlineLasso", "dr-ols", "dr-mixed", "dr-gamma"]
ARR = ["C", "F", "strided", "reversed", "readonly", "slice of a wider array"]
FORMS = ARR + ["pandas", "polars", "list"]


def mat(X, form, rng):
    import pandas as pd
    import polars as pl

    X = np.array(X)
    n, J = X.shape
    if form == "F":
        return np.asfortranarray(X)
    if form == "strided":
        B = np.full((2 * n, 2 * J), np.nan, X.dtype)
        B[::2, ::2] = X
        return B[::2, ::2]
    if form == "reversed":
        return np.ascontiguousarray(X[::-1, ::-1])[::-1, ::-1]
    if form == "readonly":
        X.setflags(write=False)
        return X
    if form == "slice of a wider array":
        return np.hstack([np.full((n, 2), np.nan), X, np.full((n, 1), np.nan)]).astype(X.dtype)[:, 2:-1]
    if form == "pandas":
        idx = pick(rng, [rng.permutation(n), [f"r{k % 3}" for k in range(n)], pd.date_range("2024-01-01", periods=n)[::-1]])
        return pd.DataFrame(X, columns=[f"x{j}" for j in range(J)], index=idx)
    if form == "polars":
        return pl.DataFrame({f"x{j}": X[:, j] for j in range(J)})
    if form == "list":
        return X.tolist()
    return X


def vec(v, form, rng):
    import pandas as pd
    import polars as pl

    if v is None:
        return None
    v = np.array(v)
    if form == "strided":
        return np.repeat(v, 3)[::3]
    if form == "reversed":
        return np.ascontiguousarray(v[::-1])[::-1]
    if form == "readonly":
        v.setflags(write=False)
        return v
    if form == "F":
        return np.asfortranarray(np.stack([v, v], 1))[:, 1]
    if form == "slice of a wider array":
        return np.stack([v, v], 1)[:, 0]
    if form == "pandas":
        return pd.Series(v, index=rng.permutation(len(v)))
    if form == "polars":
        return pl.Series("y", v)
    if form == "list":
        return v.tolist()
    return v


class Check:
    ID = "Y23"
    RULE = ("the same history fed once as C-ordered float64 arrays and once with a random container / layout / index per argument and call (covariates, response, "
            "weights, prediction inputs independently), plus integer and single precision data; results compared after every call; names mismatched on later calls "
            "are refused; non-trivial = distinct (estimator kind, forms of X, y and weights, dtype, call)")
    QUICK, THOROUGH = 400, 9000
    BUDGET = (20, 400)
    MIN_CASES = 60
    ASSUMPTIONS = ["numerical agreement up to 1e-8 for the same numbers (floating point summation order may depend on the layout), 2e-3 for single precision",
                   "penalised paths are compared in double precision only"]

    def warmup(self):
        zoo.warm(KINDS)
        rng = np.random.default_rng(0)
        for k in ("ols", "lasso", "dr-ols"):
            for form in ("F", "strided"):
                for sel in (True, False):
                    c = dict(zoo.config(rng, [k]), sel=sel, eq1="all")
                    X, y, w, Z = zoo.data(c)
                    e = zoo.build(c)
                    e.fit(mat(X, form, rng), y)
                    e.update(mat(X[:4], form, rng), y[:4])
                    e.update(mat(X[:1], form, rng), y[:1])

    def case(self, rng, i):
        c = zoo.config(rng, KINDS, i=i, nup=(2, 12))
        c["dtype"] = pick(rng, ["float64"] * 14 + ["int", "int32", "bigint", "bigint", "float32", "float32"])
        if c["dtype"] == "float32" and c["kind"] in ("lasso", "OnlineLasso", "dr-mixed"):
            c["dtype"] = "float64"
        if c["dtype"] == "bigint":
            c["sel"] = True
        if "int" in c["dtype"] and c["kind"] in ("dr-gamma",):
            c["dtype"] = "float64"
        c["noint"] = bool(c["kind"] in ("ols", "dr-ols") and (i < 9 or rng.uniform() < 0.2))
        if c["noint"] and i < 9:
            c.update(dtype="float32", named="free", sel=False)
        c["named"] = "free" if c["noint"] else pick(rng, ["free", "pandas", "polars"])
        return c

    def run(self, c, mon):
        rng = np.random.default_rng(c["seed"] + 4)
        scaler = c["kind"] == "scaler"
        X, y, w, Z = zoo.data(c)
        rtol = 1e-8
        if c["dtype"] == "int":
            X, Z, y = np.round(3 * X), np.round(3 * Z), np.round(4 * y)
        if c["dtype"] == "int32":
            X, Z, y = np.round(3 * X), np.round(3 * Z), np.round(4 * y)
        if c["dtype"] == "bigint":  # not representable in single precision
            X, Z, y = np.round(1e8 * X), np.round(1e8 * Z), np.round(400 * y) if c["kind"].startswith("dr") else np.round(1e9 * y)
        if c["dtype"] == "float32":
            X, y, Z = (a.astype(np.float32).astype(float) for a in (X, y, Z))
            rtol = 2e-3
        dt = {"float64": np.float64, "int": np.int64, "int32": np.int32, "bigint": np.int64, "float32": np.float32}[c["dtype"]]
        over = {} if not c["noint"] else dict(fit_intercept=False if c["kind"] == "ols" else {0: False, 1: True})
        ref, e = zoo.build(c, **over), zoo.build(c, **over)
        if "int" in c["dtype"] and np.any(np.std(X[: c["n0"]], axis=0) == 0):
            X[0] += 1
        for k, s in enumerate(zoo.batches(c)):
            forms = [pick(rng, FORMS) for _ in range(3)]
            forms[1:] = ["strided" if f == "readonly" and k % 7 else f for f in forms[1:]]  # every new combination is compiled separately
            if c["named"] != "free":
                forms[0] = c["named"]
            if c["dtype"] == "float32" and forms[0] != c["named"]:
                forms[0] = "C"
            cast = (lambda a: None if a is None else a.astype(dt))
            a = dict(X=mat(cast(X[s]), forms[0], rng))
            r = dict(X=X[s])
            if not scaler:
                a["y"], r["y"] = vec(cast(y[s]), forms[1], rng), y[s]
            if w is not None:
                a["sample_weight"], r["sample_weight"] = vec(w[s], forms[2], rng), w[s]
            with mon.sut("reference"):
                (ref.fit if k == 0 else ref.update)(**r)
            with mon.sut("fit" if k == 0 else "update", key=None):
                (e.fit if k == 0 else e.update)(**a)
            zf = pick(rng, FORMS) if c["named"] == "free" else c["named"]
            if c["dtype"] == "float32":
                zf = "C"
            Zf = mat(Z.astype(dt), zf, rng)
            with mon.sut("predict"):
                want = zoo.snapshot(ref, Z)
                got = zoo.snapshot(e, Zf)
            bad = zoo.same_up_to(want, got, rtol)
            if bad is not None and set(want) == set(got):

                def again(noise):
                    r, Xn, yn = zoo.build(c, **over), noise(X), noise(y)
                    for q, t in enumerate(zoo.batches(c)[: k + 1]):
                        zoo.feed(r, c, Xn, yn, w, t, q == 0)
                    return zoo.snapshot(r, Z)

                if zoo.fragile(again, want, rtol):
                    mon.event("tie in the criterion")
                    return
            mon.true("results do not depend on the container", bad is None and set(want) == set(got),
                     lambda: f"{c['kind']} {c['dtype']} X={forms[0]} y={forms[1]} w={forms[2]} predict={zf} call {k}: {bad}")
            mon.sig(c["kind"], c["dtype"], *forms, "fit" if k == 0 else "update")
        if c["named"] != "free":
            import pandas as pd
            import polars as pl

            cols = [f"x{j}" for j in range(c["J"])]
            calls = {"update": lambda A: e.update(A(X[:3]), *([] if scaler else [y[:3]]))}
            for m in ("predict", "predict_median", "predict_distribution_parameters", "predict_path", "transform", "inverse_transform"):
                if hasattr(e, m) and not (m == "predict_path" and getattr(e, "coef_path_", None) is None):
                    calls[m] = lambda A, m=m: getattr(e, m)(A(Z))
            if hasattr(e, "predict_quantile"):
                calls["predict_quantile"] = lambda A: e.predict_quantile(A(Z), 0.3)
                calls["predict_quantile levels"] = lambda A: e.predict_quantile(A(Z), np.array([0.3, 0.4]))
            if hasattr(e, "score"):
                calls["score"] = lambda A: e.score(A(X[:5]), y[:5])
            for what, names in (("permuted", cols[::-1]), ("renamed", ["z0"] + cols[1:]), ("missing", cols[1:]), ("additional", cols + ["z"])):
                if what == "missing" and c["J"] == 1:
                    continue

                def frame(B):
                    B = np.c_[B, B[:, :1]][:, : len(names)]
                    return pd.DataFrame(B, columns=names) if c["named"] == "pandas" else pl.DataFrame({n: B[:, j] for j, n in enumerate(names)})

                for m, g in calls.items():
                    mon.raises(f"{m} with {what} column names is refused", ValueError, lambda: g(frame))
