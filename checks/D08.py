import numpy as np

from vlib.dists import NAMES, REF, interior, spread, sut, unit
from vlib.gen import pick


class Check:
    ID = "D08"
    RULE = ("all distributions x random parameter rows over wide ranges x points spread over bulk, tails and point masses; "
            "non-trivial = distinct (distribution, block size, region) blocks with at least one interior point")
    QUICK, THOROUGH = 3400, 170000
    BUDGET = (25, 500)
    MIN_CASES = 150
    ASSUMPTIONS = ["observations lie in the support of the distribution", "parameters in the ranges of vlib/dists.py (units from 1e-5 to 1e5, point masses down to 1e-5, up to 1500 degrees of freedom)"]

    def case(self, rng, i):
        return dict(name=NAMES[i % len(NAMES)], n=int(pick(rng, [1, 2, 9, 30])), seed=int(rng.integers(2**31)))

    def run(self, c, mon):
        name, n = c["name"], c["n"]
        rng = np.random.default_rng(c["seed"])
        d, D = REF[name], sut(name)
        t = spread(name, rng, n)
        un = unit(name, t)
        y = interior(name, rng, t)
        keep = (y.copy(), t.copy())
        with mon.sut("evaluate"):
            pdf, lpdf, cdf, lcdf = D.pdf(y, t), D.logpdf(y, t), D.cdf(y, t), D.logcdf(y, t)
        for k, v in dict(pdf=pdf, logpdf=lpdf, cdf=cdf, logcdf=lcdf).items():
            if not mon.true("shape of " + k, np.shape(v) == (n,), lambda: np.shape(v)):
                return
        mon.true("finite log-density in the support", np.all(np.isfinite(lpdf)), lambda: (y, t, lpdf))
        mon.close("density = exp(log-density)", pdf, np.exp(lpdf), rtol=1e-8, atol=1e-300, scale=None)
        mon.true("density non-negative", np.all(pdf >= 0))
        mon.true("cdf in [0,1]", np.all((cdf >= 0) & (cdf <= 1 + 1e-12)), lambda: cdf)
        ok = cdf > 1e-280
        mon.close("log-cdf = log(cdf)", lcdf[ok], np.log(cdf[ok]), rtol=1e-8, atol=1e-9)
        # the density is the slope of the cdf (three step sizes; best agreement counts)
        best = np.full(n, np.inf)
        wid = np.minimum(np.abs(y - d.lower) if np.isfinite(d.lower) else np.inf, np.abs(d.upper - y) if np.isfinite(d.upper) else np.inf)
        base = np.minimum(wid, 1.0 / np.maximum(pdf, 1e-300))
        for r in (3e-3, 1e-3, 3e-4, 1e-4, 3e-5):
            h = r * np.minimum(base, 10 * un + np.abs(y))
            F = [D.cdf(y + k * h, t) for k in (-2, -1, 1, 2)]
            num = (F[0] - 8 * F[1] + 8 * F[2] - F[3]) / (12 * h)
            noise = 1e-15 * np.maximum(cdf, 1e-300) / h * 20
            best = np.minimum(best, np.abs(num - pdf) - noise)
        mon.true("density is the derivative of the cdf", np.all(best <= 2e-5 * pdf + 1e-12 / un), lambda: f"{name} y={y} theta={t} pdf={pdf} err={best}")
        # monotone, ends
        k = int(rng.integers(n))
        tk = np.repeat(t[k:k + 1], 40, 0)
        g = np.sort(interior(name, rng, tk))
        if d.mixed:
            g = np.sort(np.r_[g[:-len(d.mixed)], d.mixed])
        F = D.cdf(g, tk)
        mon.true("cdf non-decreasing", np.all(np.diff(F) >= -1e-12), lambda: (g, F))
        mon.true("cdf increases where there is density", F[-1] - F[0] > 1e-6)
        lo = np.array([d.lower + 1e-12 if np.isfinite(d.lower) else -1e30])
        hi = np.array([d.upper if np.isfinite(d.upper) else 1e30])
        mass = d.mass(t[k:k + 1]) if d.mixed else {}
        Fhi = D.cdf(hi, t[k:k + 1])[0]
        slack = 1e-6 if name not in ("StudentT",) else 1e-4
        mon.close("cdf reaches one", Fhi, 1.0, rtol=0, atol=slack if np.isinf(d.upper) else 1e-9)
        if np.isinf(d.lower):
            mon.close("cdf starts at zero", D.cdf(lo, t[k:k + 1])[0], 0.0, rtol=0, atol=slack)
        for m0, mk in mass.items():
            pm = D.pdf(np.array([m0]), t[k:k + 1])[0]
            mon.close("point mass", pm, mk[0], rtol=1e-8)
            mon.close("log of the point mass", D.logpdf(np.array([m0]), t[k:k + 1])[0], np.log(mk[0]), rtol=1e-8, atol=1e-10)
            if m0 == d.lower:
                mon.close("jump of the cdf", D.cdf(np.array([m0]), t[k:k + 1])[0], mk[0], rtol=1e-8)
            else:
                eps = D.cdf(np.array([m0 - 1e-13]), t[k:k + 1])[0]
                mon.true("jump of the cdf", D.cdf(np.array([m0]), t[k:k + 1])[0] - eps >= mk[0] - 1e-9, lambda: (eps, mk))
            mon.event("point masses")
        # quantiles
        q = np.where(rng.uniform(size=n) < 0.3, 10 ** rng.uniform(-3, -1, n), rng.uniform(0.02, 0.98, n))
        q = np.where(rng.uniform(size=n) < 0.15, 1 - q * 0.05, q)
        if rng.uniform() < 0.3:
            q = 10 ** rng.uniform(-6, -1, n)
        with mon.sut("ppf"):
            x = np.asarray(D.ppf(q, t), float)
            mon.close("quantile is ppf", D.quantile(q, t), D.ppf(q, t), rtol=1e-12, atol=1e-300)
        if mon.true("shape of ppf", x.shape == (n,), lambda: x.shape):
            Fx = D.cdf(x, t)
            cont = np.ones(n, bool)
            for m0, mk in (d.mass(t).items() if d.mixed else []):
                cont &= x != m0
            # up to the resolution of floating point numbers around x
            dn, up = x - 4e-16 * np.abs(x), x + 4e-16 * np.abs(x)
            if np.isfinite(d.upper):
                up = np.minimum(up, d.upper)
            tolq = 1e-6 * q + 1e-10
            mon.true("cdf(ppf(q)) = q", np.all(((D.cdf(dn, t) <= q + tolq) & (D.cdf(up, t) >= q - tolq))[cont]),
                     lambda: f"{name} q={q[cont]} F={Fx[cont]} theta={t[cont]}")
            mon.event("quantiles", int(cont.sum()))
            if d.mixed and (~cont).any():
                for m0, mk in d.mass(t).items():
                    at = x == m0
                    below = D.cdf(np.full(n, m0 - 1e-13), t) if m0 > 0 else np.zeros(n)
                    mon.true("quantile at a point mass", np.all((q[at] <= Fx[at] + 1e-12) & (q[at] >= below[at] - 1e-9)), lambda: (q, x))
            back = (cdf > 1e-9) & (cdf < 1 - 1e-6) & (pdf > 0)
            xb = np.asarray(D.ppf(np.clip(cdf, 0, 1), t), float)
            tolx = 1e-6 * (un + np.abs(y)) + 1e-9 / np.maximum(pdf, 1e-300)
            mon.true("ppf(cdf(y)) = y", np.all((np.abs(xb - y) <= tolx)[back]), lambda: f"{name} {y[back]} {xb[back]}")
            qs = np.sort(rng.uniform(0.001, 0.999, 12))
            xs = np.asarray(D.ppf(qs, np.repeat(t[k:k + 1], 12, 0)), float)
            mon.true("ppf non-decreasing", np.all(np.diff(xs) >= -1e-9 * (un[k] + np.abs(xs[1:]))), lambda: (qs, xs))
            s = np.asarray(D.ppf(0.37, t), float)
            mon.close("scalar level", s, np.asarray(D.ppf(np.full(n, 0.37), t), float), rtol=1e-12)
        # rows do not influence each other
        if n > 1:
            p = rng.permutation(n)[: max(1, n // 2)]
            for what, fn in dict(pdf=D.pdf, logpdf=D.logpdf, cdf=D.cdf, logcdf=D.logcdf).items():
                full = dict(pdf=pdf, logpdf=lpdf, cdf=cdf, logcdf=lcdf)[what]
                mon.close("rows independent", fn(y[p], t[p]), full[p], rtol=1e-12, atol=1e-300, detail=what)
            if d.mixed:  # the same with point masses among the other rows
                z = y.copy()
                z[int(rng.integers(n))] = d.mixed[int(rng.integers(len(d.mixed)))]
                for what, fn in dict(pdf=D.pdf, logpdf=D.logpdf, cdf=D.cdf).items():
                    one = np.array([fn(z[j:j + 1], t[j:j + 1])[0] for j in range(n)])
                    mon.close("rows independent (point masses)", fn(z, t), one, rtol=1e-12, atol=1e-300, detail=what)
            if np.asarray(x).shape == (n,):
                mon.close("rows independent", np.asarray(D.ppf(q[p], t[p]), float), x[p], rtol=1e-9, detail="ppf")
        mon.same("arguments unchanged", (y, t), keep)
        mon.event("points", n)
        mon.sig(name, n, np.round(np.log10(t[0]), 0).tolist() if np.all(t[0] > 0) else "neg")
