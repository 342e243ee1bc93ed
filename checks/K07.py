import numpy as np

from vlib.gen import pick

KINDS = ["Identity", "Log", "LogIdent", "Logit", "Sqrt", "SqrtShiftTwo", "SqrtShiftValue", "LogShiftTwo", "LogShiftValue",
         "InverseSoftPlus", "InverseSoftPlusShiftTwo", "InverseSoftPlusShiftValue"]


def make(name, v):
    import ondil.links as L

    return getattr(L, name)(v) if name.endswith("ShiftValue") else getattr(L, name)()


def ref_inverse(name, eta, v):
    if "SoftPlus" in name:
        return v + np.logaddexp(0, eta)
    if "Sqrt" in name:
        return v + eta**2
    if name == "LogIdent":
        return np.where(eta <= 0, np.exp(np.minimum(eta, 0)), eta + 1)
    if "Log" == name or "LogShift" in name:
        return v + np.exp(eta)
    if name == "Logit":
        return 1 / (1 + np.exp(-eta))
    return eta


def d_inverse(name, eta):
    if "SoftPlus" in name:
        return 1 / (1 + np.exp(-eta))
    if "Sqrt" in name:
        return 2 * eta
    if name == "LogIdent":
        return np.where(eta <= 0, np.exp(np.minimum(eta, 0)), 1.0)
    if name == "Logit":
        s = 1 / (1 + np.exp(-eta))
        return s * (1 - s)
    if name == "Identity":
        return np.ones_like(eta)
    return np.exp(eta)


def d_link(name, z):
    """first and second derivative at z = theta - shift"""
    if "SoftPlus" in name:
        return 1 / -np.expm1(-z), -np.exp(-z) / np.expm1(-z) ** 2
    if "Sqrt" in name:
        return 0.5 / np.sqrt(z), -0.25 * z**-1.5
    if name == "Logit":
        return 1 / (z * (1 - z)), (2 * z - 1) / (z * (1 - z)) ** 2
    if name == "Identity":
        return np.ones_like(z), np.zeros_like(z)
    return 1 / z, -1 / z**2


class Check:
    ID = "K07"
    RULE = ("all link classes with random shifts on random predictors/parameters (bulk, tails, branch points, float32/float64, 0-d to 2-d); "
            "non-trivial = distinct (link, shift class, region, dtype, ndim)")
    QUICK, THOROUGH = 12000, 500000
    BUDGET = (20, 400)
    MIN_CASES = 200
    ASSUMPTIONS = ["the log-identity link declares its link derivatives as not implemented; they are not claimed",
                   "square-root links: predictors are non-negative; shifted links are exact up to their documented guard of 1e-10"]

    def case(self, rng, i):
        name = KINDS[i % len(KINDS)]
        v = {"ShiftTwo": 2.0}.get(name[-8:], 0.0)
        if name.endswith("ShiftValue"):
            v = float(pick(rng, [0.0, 1.0, -3.0, 2.0, rng.uniform(-10, 10), 100.0]))
        region = pick(rng, ["bulk", "bulk", "wide", "branch", "pos", "neg"])
        n = int(pick(rng, [1, 7, 40]))
        if region == "bulk":
            eta = rng.normal(size=n) * 2
        elif region == "wide":
            eta = rng.uniform(-20, 30, n)
        elif region == "branch":
            eta = pick(rng, [0.0, 1.0, 40.0, -1.0, 34.5]) + rng.normal(size=n) * 10 ** rng.uniform(-6, 0)
        elif region == "pos":
            eta = 10 ** rng.uniform(-3, 1.4, n)
        else:
            eta = -(10 ** rng.uniform(-3, 1.3, n))
        if "Sqrt" in name:
            eta = np.abs(eta) + 1e-3
        elif name == "Logit":
            eta = np.clip(eta, -20, 20)
        elif name in ("Log", "LogShiftTwo", "LogShiftValue"):
            eta = np.clip(eta, -20, 34)
        nd = int(pick(rng, [1, 1, 1, 2]))
        if nd == 2:
            eta = eta.reshape(-1, 1)
        return dict(name=name, v=v, region=region, eta=eta, f32=bool(rng.uniform() < 0.15), nd=nd)

    def run(self, c, mon):
        name, v, eta = c["name"], c["v"], c["eta"]
        L = make(name, v)
        if c["f32"]:
            return self.single(c, mon, L)
        keep = eta.copy()
        with mon.sut("inverse"):
            th = np.asarray(L.inverse(eta), float)
            dth = np.asarray(L.inverse_derivative(eta), float)
        mon.same("predictor unchanged", eta, keep)
        want = ref_inverse(name, eta, v)
        sh = abs(v)
        mon.close("inverse link value", th, want, rtol=1e-9, scale=sh if sh else None, atol=1e-14)
        lo, hi = L.link_support
        e30 = np.abs(eta) <= 30
        mon.true("inverse maps into the declared range", np.all((th[e30] >= lo) & (th[e30] <= hi)), lambda: (eta[e30], th[e30], lo, hi))
        if v == 0.0 or name == "Identity":
            mon.close("declared range", [np.sign(lo) * (abs(lo) > 1e-300), np.isinf(hi) or hi], [-1.0 if name == "Identity" else 0.0, True if name != "Logit" else hi])
            if name == "Logit":
                mon.close("declared range upper", hi, 1.0, rtol=1e-12)
        else:
            mon.close("declared lower end", lo, v, rtol=1e-12)
        mon.close("inverse derivative", dth, d_inverse(name, eta), rtol=1e-7, atol=1e-13)
        # numerical derivative of the very function that is evaluated
        h = 1e-5 * (1 + np.abs(eta))
        if "Sqrt" in name:
            h = np.minimum(h, eta / 4)
        ok = np.ones(eta.shape, bool)
        if name == "LogIdent":
            ok = np.abs(eta) > 3 * h
        if "SoftPlus" in name:
            ok &= np.abs(eta - 40) > 3 * h
        num = (np.asarray(L.inverse(eta + h)) - np.asarray(L.inverse(eta - h))) / (2 * h)
        noise = 1e-9 + 4e-16 * (np.abs(th) + sh + ("SoftPlus" in name)) / h / np.maximum(np.abs(dth), 1e-300)
        ok &= (noise < 1e-3)
        mon.true("inverse derivative is the slope of the inverse", np.all((np.abs(num - dth) <= (1e-5 + 4 * noise) * np.abs(dth))[ok]), lambda: (eta[ok], num[ok], dth[ok]))
        # strictly increasing wherever neighbouring values are representably different
        o = np.sort(eta.ravel())
        t = np.asarray(L.inverse(o), float)
        gap = np.diff(o) * d_inverse(name, o)[:-1].clip(0) > 1e-12 * (np.abs(t[1:]) + sh)
        mon.true("inverse non-decreasing", np.all(np.diff(t) >= -1e-14 * (np.abs(t[1:]) + sh)), lambda: (o, t))
        gap &= np.minimum(d_inverse(name, o)[:-1], d_inverse(name, o)[1:]) * np.diff(o) > 1e-12 * (np.abs(t[1:]) + sh)
        mon.true("inverse strictly increasing", np.all(np.diff(t)[gap] > 0), lambda: (o, t))
        # round trips, link derivatives; stay clear of the guard near the lower end
        z = want - v
        good = z > 1e-6 * (1 + sh) if name != "Identity" else np.ones(eta.shape, bool)
        if name == "Logit":
            good &= z < 1 - 1e-6
        good &= want < 1e14
        if good.any():
            x, ee = want[good], eta[good]
            with mon.sut("link"):
                g = np.asarray(L.link(x), float)
            dz = d_link(name, z[good])[0] if name != "LogIdent" else np.where(z[good] <= 1, 1 / z[good], 1.0)
            gd = 1.1e-10 if "Shift" in name and "SoftPlus" not in name else 0.0
            err = dz * (4e-16 * (np.abs(x) + sh + 1) + gd) * 4 + 1e-12 * np.abs(ee) + 1e-12
            mon.true("link undoes the inverse", np.all(np.abs(g - ee) <= err), lambda: (ee, g, err))
            mon.close("inverse undoes the link", np.asarray(L.inverse(g), float), x, rtol=1e-9, atol=2e-10 + 1e-15 * sh)
            mon.event("round trips", int(good.sum()))
            if name != "LogIdent":
                with mon.sut("link derivatives"):
                    d1 = np.asarray(L.link_derivative(x), float)
                    d2 = np.asarray(L.link_second_derivative(x), float)
                w1, w2 = d_link(name, z[good])
                guard = 3 * gd / z[good] if name != "Identity" else 0.0
                rel = 1e-7 + guard + 1e-15 * (1 + sh) / np.abs(z[good] + 1e-300)
                if name != "Logit":
                    big = ("SoftPlus" in name) & (z[good] > 8)  # flushed to the guard beyond
                else:
                    rel = rel + 1e-15 / (1 - z[good])
                    big = np.zeros(len(x), bool)
                mon.true("link derivative", np.all(np.abs(d1 - w1) <= rel * np.abs(w1)), lambda: (x, d1, w1))
                mon.true("link second derivative", np.all((np.abs(d2 - w2) <= 10 * rel * np.abs(w2) + 1e-12)[~big & ((z[good] > 3e-4 * (1 + sh)) | (name in ("Identity", "Log", "Logit", "Sqrt")))]), lambda: (x, d2, w2))
                mon.event("derivatives", int(good.sum()))
        # extremes
        big = np.array([-1e6, -800.0, -100.0, 100.0, 800.0, 1e6]) if "Sqrt" not in name else np.array([0.0, 1e6])
        with mon.sut("extreme predictors"):
            tb = np.asarray(L.inverse(big), float)
            db = np.asarray(L.inverse_derivative(big), float)
        mon.true("no NaN or infinity at extreme predictors", np.all(np.isfinite(tb)) and np.all(np.isfinite(db)), lambda: (tb, db))
        mon.sig(name, v == 0, v > 0, c["region"], eta.size, c["nd"])

    def single(self, c, mon, L):
        name, v = c["name"], c["v"]
        eta = c["eta"].astype(np.float32)
        if name not in ("Sqrt", "SqrtShiftTwo", "SqrtShiftValue"):
            eta = np.clip(eta, -8, 20)
        with mon.sut("inverse (single precision)"):
            th = np.asarray(L.inverse(eta))
        want = ref_inverse(name, eta.astype(float), v)
        mon.close("inverse in single precision", th, want, rtol=2e-5, scale=abs(v) + 1e-3)
        mon.sig(name, "f32", c["region"])
