import copy

import numpy as np

from vlib.core import Skip
from vlib.dists import REF, sut
from vlib.gen import DR, dr_data, partition, pick, slices, warm_dr, weights

NAMES = ["Normal", "Gamma", "LogNormal", "Logistic", "StudentT", "JSU", "Beta", "InverseGaussian", "BetaInflatedZero", "Gumbel", "Exponential"]
LOG = []  # ("solve", parameter) and ("theta", parameter, theta) in the order in which they happened


def recorder(cls, tag, **kw):
    class Rec(cls):
        def __deepcopy__(self, memo):
            new = Rec.__new__(Rec)
            new.__dict__.update(copy.deepcopy(self.__dict__, memo))
            return new

    def wrap(name):
        base = getattr(cls, name)

        def f(self, *a, **k):
            LOG.append(("solve", tag))
            return base(self, *a, **k)

        return f

    for name in ("fit_beta", "update_beta", "fit_beta_path", "update_beta_path"):
        setattr(Rec, name, wrap(name))
    Rec.__name__ = cls.__name__
    return Rec(**kw)


def recording_dist(name):
    cls = type(sut(name))

    class RecD(cls):
        def dl1_dp1(self, y, theta, param=0):
            LOG.append(("theta", int(param), np.array(theta)))
            return super().dl1_dp1(y, theta, param=param)

        def logpdf(self, y, theta):
            LOG.append(("logpdf", None, np.array(theta)))
            return super().logpdf(y, theta)

    RecD.__name__ = cls.__name__
    return RecD()


class Check:
    ID = "B24"
    RULE = ("event log of coefficient solves and score evaluations (recording estimation methods and distributions) of fits and updates with random budgets, "
            "prefits, minima, orders, step sizes and tolerances on ordinary and hostile data, checked against the schedule; non-trivial = distinct "
            "(distribution, order, budgets, prefit, number of outer iterations, longest inner run)")
    QUICK, THOROUGH = 900, 20000
    BUDGET = (16, 420)
    WATCHDOG = 60
    HANG_IS_VIOLATION = True
    MIN_CASES = 80
    ASSUMPTIONS = ["an outer iteration is one pass over the parameters, an inner iteration is one coefficient solve",
                   "the convergence decision is judged only where the change of the deviance is clearly (factor 3) on one side of the tolerance and every step was accepted"]

    def warmup(self):
        warm_dr(lasso=True, ridge=True)

    def case(self, rng, i):
        name = NAMES[i % len(NAMES)] if i % 2 else "Normal"
        P = REF[name].p
        J = int(rng.integers(1, 4))
        n0 = int(rng.integers(40, 120))
        n = n0 + int(rng.integers(1, 12))
        mo = int(pick(rng, [1, 2, 3, 5, 10, 30]))
        return dict(name=name, J=J, n0=n0, n=n, cuts=partition(rng, n0, n), mo=mo, mi=int(pick(rng, [1, 2, 3, 5, 10, 30])),
                    mino=int(pick(rng, [1, 1, 1, 1, 2, 4, 12])), pi=int(pick(rng, [0, 0, 0, 1, 2, 7])), pu=int(pick(rng, [0, 0, 0, 1, 2, 7])),
                    order=[int(p) for p in rng.permutation(P)] if rng.uniform() < 0.7 else None,
                    step=float(pick(rng, [1.0, 1.0, 1.0, 0.7, 0.3])), meth=[pick(rng, ["ols", "ols", "ridge", "lasso"]) for _ in range(P)],
                    tol=pick(rng, ["default", "default", "tight", "zero", "loose"]), wk=pick(rng, ["none", "unif", "int"]),
                    hostile=bool(rng.uniform() < 0.25), forget=float(pick(rng, [0.0, 0.0, 0.01, 0.2])), seed=int(rng.integers(2**31)))

    def tols(self, c):
        a, r = {"default": (1e-3, 1e-5), "tight": (1e-8, 1e-12), "zero": (0.0, 0.0), "loose": (1.0, 1e-3)}[c["tol"]]
        return dict(abs_tol_outer=a, abs_tol_inner=a, rel_tol_outer=r, rel_tol_inner=r)

    def run(self, c, mon):
        from ondil.methods import LassoPath, OrdinaryLeastSquares, Ridge

        rng = np.random.default_rng(c["seed"])
        name, P = c["name"], REF[c["name"]].p
        X, y = dr_data(name, rng, c["n"], c["J"], eta0=[0.4, -1.2] if name == "InverseGamma" else None)
        if c["hostile"]:
            if rng.uniform() < 0.5:
                X = X * np.where(rng.uniform(size=X.shape) < 0.05, 20.0, 1.0)
            else:  # heavy repetition of a few responses
                y = y[rng.integers(0, 5, c["n"])]
        _, w = weights(rng, c["n"], c["wk"])
        ww = np.ones(c["n"]) if w is None else w
        M = {p: {"ols": lambda: recorder(OrdinaryLeastSquares, p), "ridge": lambda: recorder(Ridge, p, lambda_reg=0.3),
                 "lasso": lambda: recorder(LassoPath, p, lambda_n=6, lambda_eps=1e-2)}[m]() for p, m in enumerate(c["meth"])}
        D = recording_dist(name)
        tol = self.tols(c)
        order = list(range(P)) if c["order"] is None else c["order"]
        e = DR(distribution=D, equation={p: "all" if p < 2 else "intercept" for p in range(P)}, method=M, forget=c["forget"], max_it_outer=c["mo"],
               max_it_inner=c["mi"], min_it_outer=c["mino"], prefit_initial=c["pi"], prefit_update=c["pu"], step_size=c["step"],
               param_order=None if c["order"] is None else np.array(c["order"]), **tol)
        past = None
        for k, s in enumerate([slice(0, c["n0"])] + slices(c["cuts"])):
            LOG.clear()
            a = dict(X=X[s], y=y[s])
            if w is not None:
                a["sample_weight"] = w[s]
            what = "fit" if k == 0 else "update"
            try:
                (e.fit if k == 0 else e.update)(**a)
            except Exception as ex:
                if c["hostile"] or not isinstance(ex, TypeError):
                    raise Skip("numerical failure: " + type(ex).__name__)
                raise
            log = list(LOG)
            solves = [x[1] for x in log if x[0] == "solve"]
            mon.event("solves", len(solves))
            mon.true(what + ": at most max_it_outer * max_it_inner solves per parameter", all(solves.count(p) <= c["mo"] * c["mi"] for p in range(P)),
                     lambda: f"{[solves.count(p) for p in range(P)]} for budgets {c['mo']} x {c['mi']}")
            if not np.all(np.isfinite(np.concatenate([e.coef_[p].ravel() for p in range(P)]))):
                raise Skip("diverged")
            prefit = c["pi"] if k == 0 else c["pu"]
            if P == 1:
                mon.true(what + ": at least the minimum of outer iterations", len(solves) >= min(max(c["mino"], 1), c["mo"]), f"{len(solves)} solves")
                mon.sig(name, what, c["mo"], c["mi"], prefit, len(solves))
                continue
            # group into runs of one parameter; an outer iteration is one pass over all parameters
            runs = []
            for p in solves:
                if runs and runs[-1][0] == p:
                    runs[-1][1] += 1
                else:
                    runs.append([p, 1])
            K = -(-len(runs) // P)
            desc = lambda: f"{what} {name} order={order} budgets={c['mo']}x{c['mi']} min={c['mino']} prefit={prefit} runs={runs[:24]}"  # noqa
            ok = mon.true(what + ": parameters are estimated in the configured order", [r[0] for r in runs] == order * K, desc)
            mon.true(what + ": no more than max_it_outer outer iterations", K <= c["mo"], desc)
            mon.true(what + ": no more than max_it_inner inner iterations", all(r[1] <= c["mi"] for r in runs), desc)
            mon.true(what + ": prefit iterations take a single inner step", all(r[1] == 1 for r in runs[: P * prefit]), desc)
            mon.true(what + ": the minimum of outer iterations is respected", K >= min(max(c["mino"], 1), c["mo"]), desc)
            mon.sig(name, what, tuple(order), c["mo"], c["mi"], prefit, K, max([r[1] for r in runs] or [0]))
            mon.event(f"outer iterations {min(K, 10)}{'+' if K >= 10 else ''}")
            # deviance at the start of every outer iteration, from the parameters handed to the scores
            begin, seen, i = [], 0, 0
            marks = np.cumsum([0] + [r[1] for r in runs])  # solves before each run
            for x in log:
                if x[0] == "theta" and i < len(runs) and seen == marks[i]:
                    begin.append(x[2])
                    i += 1
                seen += x[0] == "solve"
            starts = begin[::P]
            fin = e.predict_distribution_parameters(X[s])
            dev = [float(np.sum(-2 * ww[s] * D.logpdf(y[s], t))) for t in starts + [fin]]
            n = s.stop - s.start
            base = 0.0 if k == 0 else None if past is None else (1 - c["forget"]) ** n * past
            past = None if base is None or (k == 0 and c["step"] != 1.0) else base + dev[-1]
            last = [x[2] for x in log if x[0] == "logpdf" and x[2].shape == fin.shape][-1:]
            known = k > 0 or (last and np.allclose(last[0], fin, rtol=1e-9))  # halved steps: the coefficients are ahead of the fitted values
            if not ok or not known or len(starts) != K or not np.all(np.isfinite(dev)):
                past = None
                continue
            # a run whose parameter comes out exactly as it went in was rejected: the estimator then looks at the rejected deviance
            after = begin[1:] + [fin]
            if k == 0 and any(np.array_equal(t0[:, r[0]], t1[:, r[0]]) or (q == len(runs) - 1 and np.allclose(t0[:, r[0]], t1[:, r[0]], rtol=1e-10))
                              for q, (r, t0, t1) in enumerate(zip(runs, begin, after))):
                mon.event("rejected steps")
                past = None
                continue
            rel = 0.0 if base is None else tol["rel_tol_outer"]  # the past deviance is not known: only the absolute tolerance can be judged
            tot = [d + (base or 0.0) for d in dev]
            lo = max(2, c["mino"] + 1, prefit + 1)
            for j in range(lo, K + 1):  # outer iteration j was made although the deviance had changed from tot[j-2] to tot[j-1]
                ch, thr = abs(tot[j - 1] - tot[j - 2]), max(tol["abs_tol_outer"], rel * abs(tot[j - 2]))
                mon.true(what + ": no further outer iteration once the deviance has stopped changing", not ch < thr / 3 - 1e-9 * abs(tot[j - 2]),
                         lambda: f"iteration {j} made after a change of {ch} (tolerance {thr}) {tot} {desc()}")
                mon.event("judged outer continuations")
            if c["step"] == 1.0 and K < c["mo"] and base is not None:
                ch, thr = abs(tot[K] - tot[K - 1]), max(tol["abs_tol_outer"], tol["rel_tol_outer"] * abs(tot[K - 1]))
                rose = k == 0 and tot[K] > tot[K - 1] - 1e-9 * abs(tot[K])
                mon.true(what + ": stops before the budget only when the deviance has stopped changing", rose or not ch > 3 * thr + 1e-9 * abs(tot[K]),
                         lambda: f"stopped after {K} with a change of {ch} (tolerance {thr}) {tot} {desc()}")
                mon.event("judged stops")
