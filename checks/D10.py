import numpy as np

from checks.D09 import numderiv
from vlib.dists import NAMES, REF, reach, spread, sut, _be
from vlib.gen import pick
import scipy.special as sp


def nodes(m=301):
    """tanh-sinh nodes on (0,1) given as q and 1-q to stay accurate in both tails"""
    x = np.linspace(-3.2, 3.2, m)
    u = np.pi / 2 * np.sinh(x)
    q = 1 / (1 + np.exp(-2 * u))
    w = np.pi * np.cosh(x) * q * (1 - q)
    w = w / w.sum()
    return q, w


Q, W = nodes()


def quad(name, t):
    """points and probability weights representing the distribution with parameters t (1 x p)"""
    d = REF[name]
    k = (Q > 1e-13) & (Q < 1 - 1e-13)
    q, w = Q[k], W[k] / W[k].sum()
    T = np.repeat(t, len(q), 0)
    if name == "InverseGaussian":
        m, s = t[0]
        # integrate on a log grid
        z = np.linspace(np.log(m) - 12, np.log(m) + 12, 6001)
        y = np.exp(z)
        T = np.repeat(t, len(y), 0)
        w = np.exp(d.logpdf(y, T)) * y * (z[1] - z[0])
        k = w > 1e-14
        return y[k], w[k] / w.sum()
    if name in ("BetaInflated", "BetaInflatedZero"):
        y = np.clip(sp.betaincinv(*_be(T[:, 0], T[:, 1]), q), 1e-150, 1 - 1e-15)
    elif name == "ZeroAdjustedGamma":
        y = REF["Gamma"].ppf(q, T[:, :2])
    else:
        y = d.ppf(q, T)
    if d.mixed:
        ms = {m0: v[0] for m0, v in d.mass(t).items()}
        w = w * (1 - sum(ms.values()))
        y = np.r_[y, list(ms)]
        w = np.r_[w, list(ms.values())]
    return y, w


class Check:
    ID = "D10"
    RULE = ("all distributions x random parameter rows; reported second/cross derivatives averaged over the distribution by quadrature vs. minus the "
            "expected product of numerically differentiated reference scores; non-trivial = distinct (distribution, parameter pair, parameter region)")
    QUICK, THOROUGH = 3400, 120000
    BUDGET = (30, 500)
    MIN_CASES = 150
    ASSUMPTIONS = ["parameters in the ranges of vlib/dists.py (units from 1e-5 to 1e5, point masses down to 1e-5, up to 1500 degrees of freedom)", "quadrature accurate to 1e-3, convergence checked against the total mass and zero mean scores"]

    def case(self, rng, i):
        return dict(name=NAMES[i % len(NAMES)], seed=int(rng.integers(2**31)))

    def run(self, c, mon):
        name = c["name"]
        rng = np.random.default_rng(c["seed"])
        d, D = REF[name], sut(name)
        t = spread(name, rng, 1)
        y, w = quad(name, t)
        ok = np.isfinite(y) & np.isfinite(d.logpdf(y, np.repeat(t, len(y), 0)))
        y, w = y[ok], w[ok]
        T = np.repeat(t, len(y), 0)
        S = []
        for p in range(D.n_params):
            v = numderiv(lambda tt: d.logpdf(y, tt), T, p, (1e-3,), reach(name, T, p))
            S.append(v[0])
        S = np.array(S)
        I = (S * w) @ S.T
        m = S @ w
        se = np.sqrt(np.diag(I))
        # decidable only where the quadrature integrates the score to zero
        good = np.abs(m) <= 2e-5 * se
        for p in range(D.n_params):
            with mon.sut("second derivative"):
                h = np.asarray(D.dl2_dp2(y, T, param=p), float)
            if not mon.true("shape of the second derivative", h.shape == y.shape, lambda: h.shape):
                return
            mon.true("second derivative finite", np.all(np.isfinite(h)), lambda: f"{name} {p} {t}")
            E = (w * h).sum()
            mon.true("expected curvature negative", E < 0, lambda: f"{name} param {p} theta {t} E={E}")
            if not good[p]:
                mon.event(f"quadrature not accurate: {name}")
                continue
            mon.close("curvature = -E[score^2]", E, -I[p, p], rtol=5e-3, detail=f"{name} param {p} theta={t}", key=f"{name}:{p}")
            mon.event("informations")
            mon.sig(name, p, np.round(np.log10(np.abs(t[0]) + 1e-3), 0).tolist())
            for r in range(p + 1, D.n_params):
                if not good[r]:
                    continue
                with mon.sut("cross derivative"):
                    a = D.dl2_dpp(y, T, params=(p, r))
                    b = D.dl2_dpp(y, T, params=(r, p))
                if a is None:
                    mon.fail("cross derivative missing", f"{name} {(p, r)}")
                    continue
                a = np.broadcast_to(np.asarray(a, float), y.shape)
                mon.close("cross derivative symmetric", np.broadcast_to(np.asarray(b, float), y.shape), a, rtol=1e-10, atol=1e-300)
                got, want = (w * a).sum() / (se[p] * se[r]), -I[p, r] / (se[p] * se[r])
                # a known finding is identified by the pair and the exact way in which it is wrong
                key = f"{name}:{p},{r}:opposite sign" if abs(got + want) < 5e-3 else None
                mon.close("cross curvature = -E[score score']", got, want, rtol=0, atol=5e-3, detail=f"{name} params {(p, r)} theta={t}", key=key)
                mon.event("cross informations")
                mon.sig(name, p, r)
        mon.raises("parameter index out of range refused", ValueError, lambda: D.dl2_dp2(y, T, param=D.n_params))
