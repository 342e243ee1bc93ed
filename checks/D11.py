import numpy as np
import scipy.stats as st

from vlib.dists import NAMES, REF, interior, spread, sut, unit
from vlib.gen import pick

P_MIN = 1e-11


def ks_p(u):
    """p-value of uniformity"""
    return st.kstest(u, "uniform").pvalue


class Check:
    ID = "D11"
    RULE = ("all distributions x random parameter matrices; density/CDF/mean/median vs. independent formulas, variates per row vs. the CDF of that row "
            "(KS and binomial tests at p=1e-11), metadata; non-trivial = distinct (distribution, monitor, rows, size, parameter magnitudes)")
    QUICK, THOROUGH = 3400, 60000
    BUDGET = (25, 500)
    MIN_CASES = 150
    ASSUMPTIONS = ["parameters in the ranges of vlib/dists.py (units from 1e-5 to 1e5, point masses down to 1e-5, up to 1500 degrees of freedom)", "goodness-of-fit alarms only at p < 1e-11"]

    def case(self, rng, i):
        return dict(name=NAMES[i % len(NAMES)], rows=int(pick(rng, [1, 2, 3, 5, 40])), size=int(pick(rng, [1, 2, 3, 5, 200, 1500])),
                    seed=int(rng.integers(2**31)))

    def run(self, c, mon):
        name, rows = c["name"], c["rows"]
        rng = np.random.default_rng(c["seed"])
        d, D = REF[name], sut(name)
        t = spread(name, rng, rows)
        un = unit(name, t)
        t0 = t.copy()
        y = interior(name, rng, t)
        mags = np.round(np.log10(np.abs(t[0]) + 1e-3)).tolist()

        with mon.sut("pdf, cdf"):
            pdf, lp, cdf = (np.asarray(f(y, t), float) for f in (D.pdf, D.logpdf, D.cdf))
        ref = d.logpdf(y, t)
        mon.close("log-density is the documented one", lp, ref, rtol=1e-8, atol=1e-7, detail=f"{name} y={y[:3]} theta={t[:3]}")
        mon.close("density is the documented one", pdf, np.exp(ref), rtol=2e-7, atol=1e-290, detail=f"{name} y={y[:3]} theta={t[:3]}")
        mon.close("CDF is the documented one", cdf, d.cdf(y, t), rtol=1e-7, atol=1e-12, detail=f"{name} y={y[:3]} theta={t[:3]}")
        for m in d.mixed:
            ym = np.full(rows, m)
            with mon.sut("pdf, cdf at a point mass"):
                a, b = np.asarray(D.pdf(ym, t), float), np.asarray(D.cdf(ym, t), float)
            mon.close("point mass", a, np.broadcast_to(d.mass(t)[m], rows), rtol=1e-10, detail=f"{name} at {m} theta={t[:3]}")
            mon.close("CDF at a point mass", b, d.cdf(ym, t), rtol=1e-9, detail=f"{name} at {m} theta={t[:3]}")
        mon.sig(name, "densities", rows, mags)

        with mon.sut("mean, median"):
            mean, med = np.asarray(D.mean(t), float), np.asarray(D.median(t), float)
        mon.close("mean", mean.reshape(-1) / un, np.asarray(d.mean(t), float) / un, rtol=1e-6, atol=1e-9, scale=None, detail=f"{name} theta={t[:3]}")
        mon.true("one mean per row", mean.shape == (rows,), lambda: f"{name} {mean.shape}")
        mon.true("one median per row", med.shape == (rows,), lambda: f"{name} {med.shape}")
        if d.ppf is not None:
            mon.close("median", med.reshape(-1) / un, d.ppf(np.full(rows, 0.5), t) / un, rtol=1e-6, atol=1e-9, scale=None, detail=f"{name} theta={t[:3]}")
        else:
            mon.close("median", d.cdf(med.reshape(-1), t), np.full(rows, 0.5), atol=1e-6, detail=f"{name} theta={t[:3]}")

        # --- random variates --------------------------------------------------
        size = c["size"]
        with mon.sut("rvs"):
            x = np.asarray(D.rvs(size, t))
        if not mon.true("shape of the variates is (rows, size)", x.shape == (rows, size), lambda: f"{name}: {x.shape} for rows={rows} size={size}"):
            return
        lo, hi = d.lower, d.upper
        mon.true("variates finite and in the support", np.all(np.isfinite(x)) and np.all(x >= lo) and np.all(x <= hi), lambda: f"{name} {t[:3]}")
        U = np.stack([d.cdf(x[r], np.repeat(t[r:r + 1], size, 0)) for r in range(rows)])
        cont = np.ones_like(x, bool)
        # mass closer to a boundary than floating point resolves
        res = np.zeros(rows)
        if hi == 1.0:
            k = (1 - t[:, 1] ** 2) / t[:, 1] ** 2
            a, b = t[:, 0] * k, (1 - t[:, 0]) * k
            res = np.maximum(st.beta.sf(1 - 1e-14, a, b), st.beta.cdf(1e-290, a, b))
        for m in d.mixed:
            at = x == m
            cont &= ~at
            p = d.mass(t)[m]
            if size >= 200:
                for r in np.flatnonzero(res <= 1e-3):
                    pv = st.binomtest(int(at[r].sum()), size, float(p[r])).pvalue
                    mon.true("frequency of the point mass", pv > P_MIN, lambda: f"{name} row {r} theta={t[r]} mass {m}: {at[r].mean()} vs {p[r]}")
        if d.mixed:
            m0 = sum((d.mass(t)[m] for m in d.mixed if m == 0.0), np.zeros(rows))
            m1 = sum((d.mass(t)[m] for m in d.mixed if m == 1.0), np.zeros(rows))
            U = (U - m0[:, None]) / (1 - m0 - m1)[:, None]
        if size >= 200:
            for r in range(rows):
                u = np.clip(U[r][cont[r]], 0, 1)
                if res[r] > 1e-3:
                    mon.event("row not resolvable")
                elif len(u) >= 50:
                    pv = ks_p(u)
                    mon.event("rows tested", 1)
                    mon.true("variates follow the row's distribution", pv > P_MIN, lambda: f"{name} row {r} of {rows} theta={t[r]} KS p={pv}")
            if rows > 1:
                k = min(rows, 3)
                for r in range(1, k):
                    both = cont[0] & cont[r]
                    if both.sum() >= 100:
                        rho, pv = st.spearmanr(U[0][both], U[r][both])
                        mon.true("rows are independent draws", pv > P_MIN, lambda: f"{name} rho={rho}")
        else:
            if cont.sum() >= 40:
                mon.true("pooled variates follow their rows' distributions", ks_p(np.clip(U[cont], 0, 1)) > P_MIN, lambda: f"{name} {t[:3]}")
        if size > 2:
            mon.true("variates are not constant", d.mixed or len(np.unique(x[0])) > 1, name)
        mon.same("theta not modified", t, t0)
        mon.event("variates", x.size)
        mon.sig(name, "rvs", rows, size)

        # --- metadata ------------------------------------------------------------
        n = D.n_params
        mon.true("number of parameters", n == d.p, lambda: f"{name} {n}")
        mon.true("names, supports and links cover the parameters",
                 sorted(D.parameter_names) == sorted(D.parameter_support) == sorted(D.links) == list(range(n)), name)
        mon.true("parameter names distinct", len(set(D.parameter_names.values())) == n, name)
        s = D.distribution_support
        mon.true("support of the distribution", abs(s[0] - lo) < 1e-300 if np.isfinite(lo) else s[0] == lo, lambda: f"{name} {s}")
        mon.true("support of the distribution", abs(s[1] - hi) < 1e-15 if np.isfinite(hi) else s[1] == hi, lambda: f"{name} {s}")
        for p in range(n):
            eta = rng.uniform(-6, 6, 20)
            th = np.asarray(D.link_inverse(eta, param=p), float)
            ps = D.parameter_support[p]
            mon.true("link maps into the parameter support", np.all(th >= ps[0]) and np.all(th <= ps[1]), lambda: f"{name} {p} {ps}")
            mon.close("distribution links invert each other", D.link_function(th, param=p), eta, rtol=1e-6, atol=1e-6, detail=f"{name} {p}")
            mon.close("link methods use the link of the parameter", th, D.links[p].inverse(eta), rtol=1e-12)
            col = t[:, p]
            mon.true("valid parameters are in the parameter support", np.all(col >= ps[0]) and np.all(col <= ps[1]), lambda: f"{name} {p} {ps} {col[:3]}")
        # links that can leave the support of their parameter are announced, all others are silent
        import inspect
        import warnings

        import ondil.links as L

        kws = list(inspect.signature(type(D).__init__).parameters)[1:1 + n]
        kw, exp = {}, False
        for p, k in enumerate(kws):
            if rng.uniform() < 0.7:
                cls = getattr(L, pick(rng, ["Identity", "Log", "Logit", "InverseSoftPlus", "Sqrt", "LogShiftValue", "SqrtShiftValue", "InverseSoftPlusShiftValue"]))
                link = cls(float(pick(rng, [-3.0, 0.5, 2.0]))) if "Shift" in cls.__name__ else cls()
                kw[k] = link
            else:
                link = D.links[p]
            a, b = link.link_support, D.parameter_support[p]
            exp |= bool(a[0] < b[0] or a[1] > b[1])
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            with mon.sut("custom links"):
                D2 = type(D)(**kw)
        from ondil.warnings import OutOfSupportWarning

        got = any(issubclass(x.category, OutOfSupportWarning) for x in log)
        mon.true("a link leaving the support of its parameter causes a warning, others do not", got == exp, lambda: f"{name} {kw} warned {got} expected {exp}")
        mon.true("custom links are used for their parameter", all(D2.links[p] is kw[k] for p, k in enumerate(kws) if k in kw), lambda: f"{name} {kw}")
        mon.event("links announced" if got else "links accepted silently")
