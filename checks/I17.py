import copy
import pickle

import numpy as np

from vlib import zoo
from vlib.core import Skip
from vlib.dists import NAMES
from vlib.gen import pick, sl


class Check:
    ID = "I17"
    RULE = ("random interleavings of fit / update / partial_fit / predict / deepcopy / pickle / clone / refit over up to six estimators that share one "
            "distribution and one method object, partly with different columns and options; after every operation all other estimators are bit-identical to before, at the end every estimator equals the "
            "replay of its own history on an isolated fresh estimator; non-trivial = distinct (estimator kind, operation, number of live estimators)")
    QUICK, THOROUGH = 300, 8000
    BUDGET = (20, 420)
    MIN_CASES = 40
    ASSUMPTIONS = ["sharing one estimator between threads is not part of the property"]

    def warmup(self):
        zoo.warm()

    def case(self, rng, i):
        c = zoo.config(rng, i=i, nup=(20, 40))
        if c["kind"] in ("dr-ols", "dr-lasso"):
            c["dist"] = NAMES[i // 11 % len(NAMES)]
        c["ops"] = int(rng.integers(8, 18))
        c["share"] = bool(rng.uniform() < 0.8)
        # half of the histories mix estimators of different shapes around the shared objects
        c["shapes"] = bool(rng.uniform() < 0.5)
        if c["kind"] == "scaler":
            c["ops"] += 10
            c["shapes"] = bool(rng.uniform() < 0.75)
            if rng.uniform() < 0.6:
                c["sel"] = True
        c["seleq2"] = [pick(rng, [True, False]), pick(rng, ["all", "intercept", "cols"])]
        return c

    def run(self, c, mon):
        from sklearn.base import clone
        from sklearn.exceptions import NotFittedError
        from vlib.dists import sut

        rng = np.random.default_rng(c["seed"] + 9)
        scaler = c["kind"] == "scaler"
        X, y, w, Z = zoo.data(c)
        n, n0 = c["n"], c["n0"]
        shared = {}
        if c["kind"].startswith("dr") and c["share"]:
            shared["distribution"] = sut(zoo.dist_of(c))
        if c["share"]:
            m = {"lasso": "lasso", "enet": "enet", "ridge": "ridge", "dr-lasso": "lasso"}.get(c["kind"])
            if m:
                shared["method"] = zoo.make_method(m)
            elif c["kind"] == "dr-beta":
                shared["method"] = zoo.make_method("ridge")

        variants = [(c, np.arange(c["J"]))]
        if c["shapes"]:
            q = int(rng.integers(1, c["J"]))
            variants.append((dict(c, J=q, sel=c["seleq2"][0], eq1=c["seleq2"][1], forget=0.01 if c["forget"] == 0 else 0.0), np.sort(rng.permutation(c["J"])[:q])))

        def fresh(isolated=False, v=0):
            c = variants[v][0]
            if isolated and shared:
                kw = {}
                if "distribution" in shared:
                    kw["distribution"] = sut(zoo.dist_of(c))
                if "method" in shared:
                    kw["method"] = zoo.make_method({"lasso": "lasso", "enet": "enet", "ridge": "ridge", "dr-lasso": "lasso", "dr-beta": "ridge"}[c["kind"]])
                return zoo.build(c, **kw)
            return zoo.build(c, **shared)

        def call(e, op, idx, cols):
            a = dict(X=X[np.ix_(idx, cols)])
            if not scaler:
                a["y"] = y[idx]
            elif op == "partial":
                a["y"] = None
            if w is not None:
                a["sample_weight"] = w[idx]
            f = {"fit": e.fit, "update": e.update, "partial": getattr(e, "partial_fit", None)}[op]
            out = f(**a)
            mon.true("fit and update return the estimator", out is e)

        def fit_rows():
            return np.sort(rng.choice(n, size=n0 if rng.uniform() < 0.6 else int(rng.integers(n0 - 5, n0 + 10)), replace=False))

        def up_rows():
            idx = np.sort(rng.choice(n, size=int(pick(rng, [1, 1, 2, 3, 7])), replace=False))
            if w is not None and not np.any(w[idx] > 0):
                idx = np.r_[idx, np.argmax(w)]
            return idx

        live = []  # [estimator, history, snapshot]
        has_partial = hasattr(fresh(), "partial_fit")

        def add(e, hist, v):
            live.append([e, list(hist), None, v])

        def snap(e, cols):
            return zoo.snapshot(e, Z[:, cols])

        def refit_cols(v, cols):
            """a refit may use data of another shape where the options allow it"""
            cc = variants[v][0]
            if c["shapes"] and isinstance(cc["sel"], bool) and (not c["kind"].startswith("dr") or cc["eq1"] != "cols") and rng.uniform() < 0.7:
                return np.sort(rng.permutation(c["J"])[: int(rng.integers(1, c["J"] + 1))])
            return cols

        for k in range(c["ops"]):
            op = pick(rng, ["fit", "update", "update", "update", "update", "copy", "pickle", "clone", "refit", "refit", "partial", "predict", "setparams"])
            if len(live) == 0 or (op == "fit" and len(live) < 6):
                v = int(rng.integers(len(variants)))
                e = fresh(v=v)
                cols = variants[v][1]
                idx = fit_rows()
                if has_partial and rng.uniform() < 0.4:
                    with mon.sut("partial_fit"):
                        call(e, "partial", idx, cols)
                else:
                    with mon.sut("fit"):
                        call(e, "fit", idx, cols)
                add(e, [("fit", idx, cols)], v)
                t = len(live) - 1
                op = "fit"
            else:
                t = int(rng.integers(len(live)))
                e, hist, _, v = live[t]
                cols = hist[-1][2]
                if op in ("copy", "pickle", "clone") and len(live) >= 6:
                    op = "update"
                if op in ("update", "partial") or (op == "fit"):
                    idx = up_rows()
                    how = "partial" if op == "partial" and has_partial else "update"
                    with mon.sut(how):
                        call(e, how, idx, cols)
                    hist.append(("update", idx, cols))
                elif op in ("copy", "pickle"):
                    with mon.sut(op):
                        e2 = copy.deepcopy(e) if op == "copy" else pickle.loads(pickle.dumps(e))
                    add(e2, hist, v)
                    t = len(live) - 1
                    mon.same(f"{op}: restored estimator equals the original", snap(e2, cols), snap(e, cols), detail=c["kind"])
                elif op == "clone":
                    with mon.sut("clone"):
                        e2 = clone(e)
                        idx = fit_rows()
                    mon.true("clone: unfitted", not hasattr(e2, "n_observations_"))
                    try:
                        (e2.transform if scaler else e2.predict)(Z[:, cols])
                        mon.true("clone: predicting needs a fit first", False, detail=c["kind"])
                    except NotFittedError:
                        mon.event("unfitted clone refuses to predict")
                    with mon.sut("fit"):
                        call(e2, "fit", idx, cols)
                    add(e2, [("fit", idx, cols)], v)
                    t = len(live) - 1
                elif op == "refit":
                    idx = fit_rows()
                    cols = refit_cols(v, cols)
                    with mon.sut("refit"):
                        call(e, "fit", idx, cols)
                    hist[:] = [("fit", idx, cols)]
                elif op == "setparams":
                    # changing a hyperparameter and refitting is the same as a new estimator; restore it afterwards
                    idx = fit_rows()
                    g = 0.05
                    with mon.sut("set_params and refit"):
                        old = e.get_params(deep=False)["forget"]
                        e.set_params(forget=g)
                        call(e, "fit", idx, cols)
                        a = snap(e, cols)
                        e3 = fresh(True, v)
                        e3.set_params(forget=g)
                        call(e3, "fit", idx, cols)
                    mon.same("set_params and refit equals a new estimator", a, snap(e3, cols), detail=c["kind"])
                    idx = fit_rows()
                    with mon.sut("set_params and refit"):
                        e.set_params(forget=old)
                        call(e, "fit", idx, cols)
                    hist[:] = [("fit", idx, cols)]
            mon.event("op " + op)
            mon.sig(c["kind"], op, len(live), c["share"], c["shapes"])
            with mon.sut("predict"):
                live[t][2] = snap(live[t][0], live[t][1][-1][2])
                for q, (e, h, s, v) in enumerate(live):
                    if q != t and s is not None:
                        mon.same("operations on one estimator leave the others alone", snap(e, h[-1][2]), s, detail=f"{c['kind']} op {op}")
        for e, hist, s, v in live:
            r = fresh(True, v)
            with mon.sut("isolated replay"):
                for op, idx, cols in hist:
                    call(r, op, idx, cols)
                want = snap(r, cols)
            mon.same("every estimator follows its own history", s, want, detail=f"{c['kind']} history {[(o, len(i)) for o, i, _ in hist]}")
            mon.event("histories replayed")
