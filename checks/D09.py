import numpy as np

from vlib.dists import NAMES, REF, interior, reach, spread, sut
from vlib.gen import pick


def numderiv(f, t, p, hs, size):
    """five-point derivative of f(theta) in column p, for several relative steps; returns values and noise"""
    out = []
    for h in hs:
        step = h * size
        v = []
        for k in (-2, -1, 1, 2):
            tt = t.copy()
            tt[:, p] = t[:, p] + k * step
            v.append(f(tt))
        out.append((v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * step))
    return np.array(out)


class Check:
    ID = "D09"
    RULE = ("all distributions x parameters x random rows (bulk, tails, point masses); reported score vs. five-point numerical derivative of "
            "both the reported and the independent reference log-density; non-trivial = distinct (distribution, parameter, size, region)")
    QUICK, THOROUGH = 5100, 200000
    BUDGET = (25, 500)
    MIN_CASES = 150
    ASSUMPTIONS = ["observations in the support, parameters in the ranges of vlib/dists.py (units from 1e-5 to 1e5, point masses down to 1e-5, up to 1500 degrees of freedom)"]

    def case(self, rng, i):
        return dict(name=NAMES[i % len(NAMES)], n=int(pick(rng, [1, 2, 9, 40])), seed=int(rng.integers(2**31)))

    def run(self, c, mon):
        name, n = c["name"], c["n"]
        rng = np.random.default_rng(c["seed"])
        d, D = REF[name], sut(name)
        t = spread(name, rng, n)
        y = interior(name, rng, t)
        if d.mixed and rng.uniform() < 0.7:
            at = rng.uniform(size=n) < 0.4
            y = np.where(at, rng.choice(d.mixed, n), y)
        keep = (y.copy(), t.copy())
        for p in range(D.n_params):
            with mon.sut("score"):
                s = np.asarray(D.dl1_dp1(y, t, param=p), float)
            if not mon.true("shape of the score", s.shape == (n,), lambda: s.shape):
                return
            mon.true("score finite", np.all(np.isfinite(s)), lambda: f"{name} param {p} y={y} theta={t} s={s}")
            ref = reach(name, t, p)
            hs = (1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 3e-5)
            for who, f in (("reported", lambda tt: D.logpdf(y, tt)), ("reference", lambda tt: d.logpdf(y, tt))):
                v = numderiv(f, t, p, hs, ref)
                lp = np.abs(f(t))
                noise = 2e-14 * (lp + 1)[None] / (np.array(hs)[:, None] * ref[None])
                err = np.min(np.where(np.isfinite(v), np.abs(v - s[None]) - noise, np.inf), axis=0)
                size = np.abs(s) + 1e-3 / ref
                mon.true(f"score = derivative of the {who} log-density", np.all(err <= 1e-5 * size),
                         lambda: f"{name} param {p} theta={t[np.argmax(err / size)]} y={y[np.argmax(err / size)]} s={s[np.argmax(err / size)]} num={v[:, np.argmax(err / size)]}")
            if n > 1:
                q = rng.permutation(n)[: max(1, n // 2)]
                mon.close("rows independent", np.asarray(D.dl1_dp1(y[q], t[q], param=p), float), s[q], rtol=1e-12, atol=1e-300)
            mon.event("scores", n)
            mon.sig(name, p, n, bool(d.mixed) and bool(np.isin(y, d.mixed).any()))
        mon.same("arguments unchanged", (y, t), keep)
        # unknown parameter index
        mon.raises("parameter index out of range refused", ValueError, lambda: D.dl1_dp1(y, t, param=D.n_params))
