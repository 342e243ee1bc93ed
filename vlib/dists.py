"""Independent models of the distributions: densities, CDFs, moments and samplers written
from the documented GAMLSS parameterisations, not from the code under test."""
import numpy as np
import scipy.special as sp

L2PI = np.log(2 * np.pi)


def _be(mu, s):
    k = (1 - s**2) / s**2
    return mu * k, (1 - mu) * k


def _lp_beta(y, a, b):
    return (a - 1) * np.log(y) + (b - 1) * np.log1p(-y) - sp.betaln(a, b)


def _lp_gamma(y, mu, s):
    k = 1 / s**2
    return (k - 1) * np.log(y) - y / (mu * s**2) - k * np.log(mu * s**2) - sp.gammaln(k)


class D:
    name = None
    p = 2
    mixed = ()  # point masses
    locscale = False
    lower, upper = -np.inf, np.inf  # open support

    # theta region used in workloads: list of samplers
    def theta(self, rng, n):
        raise NotImplementedError


def U(rng, a, b, n):
    return rng.uniform(a, b, n)


def LU(rng, a, b, n):
    return np.exp(rng.uniform(np.log(a), np.log(b), n))


class Normal(D):
    name, locscale = "Normal", True

    def theta(self, rng, n):
        return np.c_[U(rng, -20, 20, n), LU(rng, 0.05, 20, n)]

    def logpdf(self, y, t):
        m, s = t.T
        return -0.5 * L2PI - np.log(s) - 0.5 * ((y - m) / s) ** 2

    def cdf(self, y, t):
        m, s = t.T
        return sp.ndtr((y - m) / s)

    def ppf(self, q, t):
        m, s = t.T
        return m + s * sp.ndtri(q)

    def mean(self, t):
        return t[:, 0]

    def rvs(self, rng, t):
        return rng.normal(t[:, 0], t[:, 1])

    def eta0(self):
        return [1.0, 0.2]


class NormalMeanVariance(Normal):
    name, locscale = "NormalMeanVariance", False

    def _t(self, t):
        return np.c_[t[:, 0], np.sqrt(t[:, 1])]

    def logpdf(self, y, t):
        return Normal.logpdf(self, y, self._t(t))

    def cdf(self, y, t):
        return Normal.cdf(self, y, self._t(t))

    def ppf(self, q, t):
        return Normal.ppf(self, q, self._t(t))

    def rvs(self, rng, t):
        return Normal.rvs(self, rng, self._t(t))


class StudentT(D):
    name, p, locscale = "StudentT", 3, True

    def theta(self, rng, n):
        return np.c_[U(rng, -20, 20, n), LU(rng, 0.05, 20, n), LU(rng, 2.1, 40, n)]

    def logpdf(self, y, t):
        m, s, v = t.T
        z = (y - m) / s
        return sp.gammaln((v + 1) / 2) - sp.gammaln(v / 2) - 0.5 * np.log(np.pi * v) - np.log(s) - (v + 1) / 2 * np.log1p(z * z / v)

    def cdf(self, y, t):
        m, s, v = t.T
        return sp.stdtr(v, (y - m) / s)

    def ppf(self, q, t):
        m, s, v = t.T
        return m + s * sp.stdtrit(v, q)

    def mean(self, t):
        return t[:, 0]

    def rvs(self, rng, t):
        return t[:, 0] + t[:, 1] * rng.standard_t(t[:, 2])

    def eta0(self):
        return [1.0, 0.2, 1.2]


class JSU(D):
    name, p, locscale = "JSU", 4, True

    def theta(self, rng, n):
        return np.c_[U(rng, -20, 20, n), LU(rng, 0.1, 20, n), U(rng, -2, 2, n), LU(rng, 0.7, 4, n)]

    def logpdf(self, y, t):
        m, s, a, b = t.T
        z = (y - m) / s
        return np.log(b) - np.log(s) - 0.5 * np.log1p(z * z) - 0.5 * L2PI - 0.5 * (a + b * np.arcsinh(z)) ** 2

    def cdf(self, y, t):
        m, s, a, b = t.T
        return sp.ndtr(a + b * np.arcsinh((y - m) / s))

    def ppf(self, q, t):
        m, s, a, b = t.T
        return m + s * np.sinh((sp.ndtri(q) - a) / b)

    def mean(self, t):
        m, s, a, b = t.T
        return m - s * np.exp(0.5 / b**2) * np.sinh(a / b)

    def rvs(self, rng, t):
        m, s, a, b = t.T
        return m + s * np.sinh((rng.normal(size=len(t)) - a) / b)

    def eta0(self):
        return [1.0, 0.2, 0.3, 0.6]


class Gamma(D):
    name, lower = "Gamma", 0.0

    def theta(self, rng, n):
        return np.c_[LU(rng, 0.05, 50, n), LU(rng, 0.08, 1.6, n)]

    def logpdf(self, y, t):
        return _lp_gamma(y, *t.T)

    def cdf(self, y, t):
        m, s = t.T
        return sp.gammainc(1 / s**2, np.maximum(y, 0) / (m * s**2))

    def ppf(self, q, t):
        m, s = t.T
        return sp.gammaincinv(1 / s**2, q) * m * s**2

    def mean(self, t):
        return t[:, 0]

    def rvs(self, rng, t):
        m, s = t.T
        return np.maximum(rng.gamma(1 / s**2, m * s**2), 1e-12)

    def eta0(self):
        return [0.5, -0.4]


class Beta(D):
    name, lower, upper = "Beta", 0.0, 1.0

    def theta(self, rng, n):
        return np.c_[U(rng, 0.05, 0.95, n), U(rng, 0.05, 0.75, n)]

    def logpdf(self, y, t):
        return _lp_beta(y, *_be(*t.T))

    def cdf(self, y, t):
        return sp.betainc(*_be(*t.T), np.clip(y, 0, 1))

    def ppf(self, q, t):
        return sp.betaincinv(*_be(*t.T), q)

    def mean(self, t):
        return t[:, 0]

    def rvs(self, rng, t):
        return np.clip(rng.beta(*_be(*t.T)), 1e-6, 1 - 1e-6)

    def eta0(self):
        return [0.2, -0.6]


class LogNormal(D):
    name, lower = "LogNormal", 0.0

    def theta(self, rng, n):
        return np.c_[U(rng, -3, 4, n), LU(rng, 0.05, 2, n)]

    def logpdf(self, y, t):
        m, s = t.T
        return -0.5 * L2PI - np.log(s) - np.log(y) - 0.5 * ((np.log(y) - m) / s) ** 2

    def cdf(self, y, t):
        m, s = t.T
        return sp.ndtr((np.log(y) - m) / s)

    def ppf(self, q, t):
        m, s = t.T
        return np.exp(m + s * sp.ndtri(q))

    def mean(self, t):
        m, s = t.T
        return np.exp(m + 0.5 * s**2)

    def rvs(self, rng, t):
        return np.exp(rng.normal(t[:, 0], t[:, 1]))

    def eta0(self):
        return [0.5, -0.4]


class LogNormalMedian(LogNormal):
    name = "LogNormalMedian"

    def _t(self, t):
        return np.c_[np.log(t[:, 0]), t[:, 1]]

    def theta(self, rng, n):
        return np.c_[LU(rng, 0.05, 50, n), LU(rng, 0.05, 2, n)]

    def logpdf(self, y, t):
        return super().logpdf(y, self._t(t))

    def cdf(self, y, t):
        return super().cdf(y, self._t(t))

    def ppf(self, q, t):
        return super().ppf(q, self._t(t))

    def mean(self, t):
        return super().mean(self._t(t))

    def rvs(self, rng, t):
        return super().rvs(rng, self._t(t))


class Logistic(D):
    name, locscale = "Logistic", True

    def theta(self, rng, n):
        return np.c_[U(rng, -20, 20, n), LU(rng, 0.05, 20, n)]

    def logpdf(self, y, t):
        m, s = t.T
        z = np.abs((y - m) / s)
        return -z - np.log(s) - 2 * np.log1p(np.exp(-z))

    def cdf(self, y, t):
        m, s = t.T
        return sp.expit((y - m) / s)

    def ppf(self, q, t):
        m, s = t.T
        return m + s * sp.logit(q)

    def mean(self, t):
        return t[:, 0]

    def rvs(self, rng, t):
        return rng.logistic(t[:, 0], t[:, 1])

    def eta0(self):
        return [1.0, 0.2]


class Exponential(D):
    name, p, lower = "Exponential", 1, 0.0

    def theta(self, rng, n):
        return np.c_[LU(rng, 0.02, 50, n)]

    def logpdf(self, y, t):
        return -np.log(t[:, 0]) - y / t[:, 0]

    def cdf(self, y, t):
        return -np.expm1(-y / t[:, 0])

    def ppf(self, q, t):
        return -t[:, 0] * np.log1p(-np.asarray(q))

    def mean(self, t):
        return t[:, 0]

    def rvs(self, rng, t):
        return np.maximum(rng.exponential(t[:, 0]), 1e-12)

    def eta0(self):
        return [0.5]


class Gumbel(D):
    """GU: minimum extreme value (left skewed)"""

    name, locscale = "Gumbel", True

    def theta(self, rng, n):
        return np.c_[U(rng, -20, 20, n), LU(rng, 0.05, 20, n)]

    def logpdf(self, y, t):
        m, s = t.T
        z = (y - m) / s
        return z - np.exp(z) - np.log(s)

    def cdf(self, y, t):
        m, s = t.T
        return -np.expm1(-np.exp((y - m) / s))

    def ppf(self, q, t):
        m, s = t.T
        return m + s * np.log(-np.log1p(-np.asarray(q)))

    def mean(self, t):
        return t[:, 0] - np.euler_gamma * t[:, 1]

    def rvs(self, rng, t):
        return t[:, 0] - rng.gumbel(size=len(t)) * t[:, 1]

    def eta0(self):
        return [1.0, 0.2]


class ReverseGumbel(Gumbel):
    """RG: maximum extreme value (right skewed)"""

    name = "ReverseGumbel"

    def logpdf(self, y, t):
        m, s = t.T
        z = (y - m) / s
        return -z - np.exp(-z) - np.log(s)

    def cdf(self, y, t):
        m, s = t.T
        return np.exp(-np.exp(-(y - m) / s))

    def ppf(self, q, t):
        m, s = t.T
        return m - s * np.log(-np.log(np.asarray(q)))

    def mean(self, t):
        return t[:, 0] + np.euler_gamma * t[:, 1]

    def rvs(self, rng, t):
        return t[:, 0] + rng.gumbel(size=len(t)) * t[:, 1]


class InverseGaussian(D):
    name, lower = "InverseGaussian", 0.0

    def theta(self, rng, n):
        m = LU(rng, 0.1, 10, n)
        # keep the dispersion mu*sigma^2 moderate
        return np.c_[m, np.sqrt(LU(rng, 0.02, 3, n) / m)]

    def logpdf(self, y, t):
        m, s = t.T
        return -0.5 * L2PI - np.log(s) - 1.5 * np.log(y) - (y - m) ** 2 / (2 * s**2 * m**2 * y)

    def cdf(self, y, t):
        m, s = t.T
        lam = 1 / s**2
        r = np.sqrt(lam / y)
        a = sp.ndtr(r * (y / m - 1))
        b = np.exp(2 * lam / m + sp.log_ndtr(-r * (y / m + 1)))
        return a + b

    ppf = None

    def mean(self, t):
        return t[:, 0]

    def rvs(self, rng, t):
        return rng.wald(t[:, 0], 1 / t[:, 1] ** 2)

    def eta0(self):
        return [0.3, -0.6]


class InverseGamma(D):
    name, lower = "InverseGamma", 0.0

    def _ab(self, t):
        m, s = t.T
        a = 1 / s**2
        return a, m * (a + 1)

    def theta(self, rng, n):
        return np.c_[LU(rng, 0.1, 20, n), LU(rng, 0.15, 0.9, n)]

    def logpdf(self, y, t):
        a, b = self._ab(t)
        return a * np.log(b) - sp.gammaln(a) - (a + 1) * np.log(y) - b / y

    def cdf(self, y, t):
        a, b = self._ab(t)
        return sp.gammaincc(a, b / y)

    def ppf(self, q, t):
        a, b = self._ab(t)
        return b / sp.gammainccinv(a, q)

    def mean(self, t):
        a, b = self._ab(t)
        return np.where(a > 1, b / (a - 1), np.inf)

    def rvs(self, rng, t):
        a, b = self._ab(t)
        return b / rng.gamma(a)

    def eta0(self):
        return [0.4, -0.8]


class BetaInflated(D):
    name, p, lower, upper, mixed = "BetaInflated", 4, 0.0, 1.0, (0.0, 1.0)

    def theta(self, rng, n):
        return np.c_[U(rng, 0.05, 0.95, n), U(rng, 0.08, 0.75, n), LU(rng, 0.03, 4, n), LU(rng, 0.03, 4, n)]

    def logpdf(self, y, t):
        m, s, v, u = t.T
        yy = np.clip(y, 1e-12, 1 - 1e-12)
        c = np.log1p(v + u)
        return np.where(y == 0, np.log(v) - c, np.where(y == 1, np.log(u) - c, _lp_beta(yy, *_be(m, s)) - c))

    def cdf(self, y, t):
        m, s, v, u = t.T
        f = v + sp.betainc(*_be(m, s), np.clip(y, 0, 1))
        return np.where(y < 0, 0, np.where(y >= 1, 1.0, f / (1 + v + u)))

    def ppf(self, q, t):
        m, s, v, u = t.T
        d = 1 + v + u
        z = np.clip(np.asarray(q) * d - v, 0, 1)
        return np.where(q <= v / d, 0.0, np.where(q >= (1 + v) / d, 1.0, sp.betaincinv(*_be(m, s), z)))

    def mass(self, t):
        m, s, v, u = t.T
        return {0.0: v / (1 + v + u), 1.0: u / (1 + v + u)}

    def mean(self, t):
        m, s, v, u = t.T
        return (m + u) / (1 + v + u)

    def rvs(self, rng, t):
        m, s, v, u = t.T
        w = rng.uniform(size=len(t)) * (1 + v + u)
        b = np.clip(rng.beta(*_be(m, s)), 1e-6, 1 - 1e-6)
        return np.where(w < v, 0.0, np.where(w < v + u, 1.0, b))

    def eta0(self):
        return [0.2, -0.6, -1.0, -1.2]


class BetaInflatedZero(D):
    name, p, lower, upper, mixed = "BetaInflatedZero", 3, 0.0, 1.0, (0.0,)

    def theta(self, rng, n):
        return np.c_[U(rng, 0.05, 0.95, n), U(rng, 0.08, 0.75, n), LU(rng, 0.03, 4, n)]

    def logpdf(self, y, t):
        m, s, v = t.T
        yy = np.clip(y, 1e-12, 1 - 1e-12)
        c = np.log1p(v)
        return np.where(y == 0, np.log(v) - c, _lp_beta(yy, *_be(m, s)) - c)

    def cdf(self, y, t):
        m, s, v = t.T
        f = v + sp.betainc(*_be(m, s), np.clip(y, 0, 1))
        return np.where(y < 0, 0, f / (1 + v))

    def ppf(self, q, t):
        m, s, v = t.T
        z = np.clip(np.asarray(q) * (1 + v) - v, 0, 1)
        return np.where(q <= v / (1 + v), 0.0, sp.betaincinv(*_be(m, s), z))

    def mass(self, t):
        return {0.0: t[:, 2] / (1 + t[:, 2])}

    def mean(self, t):
        return t[:, 0] / (1 + t[:, 2])

    def rvs(self, rng, t):
        m, s, v = t.T
        w = rng.uniform(size=len(t)) * (1 + v)
        b = np.clip(rng.beta(*_be(m, s)), 1e-6, 1 - 1e-6)
        return np.where(w < v, 0.0, b)

    def eta0(self):
        return [0.2, -0.6, -1.0]


class ZeroAdjustedGamma(D):
    name, p, lower, mixed = "ZeroAdjustedGamma", 3, 0.0, (0.0,)

    def theta(self, rng, n):
        return np.c_[LU(rng, 0.05, 50, n), LU(rng, 0.08, 1.6, n), U(rng, 0.03, 0.9, n)]

    def logpdf(self, y, t):
        m, s, v = t.T
        yy = np.maximum(y, 1e-300)
        return np.where(y == 0, np.log(v), np.log1p(-v) + _lp_gamma(yy, m, s))

    def cdf(self, y, t):
        m, s, v = t.T
        f = sp.gammainc(1 / s**2, np.maximum(y, 0) / (m * s**2))
        return np.where(y < 0, 0, v + (1 - v) * f)

    def ppf(self, q, t):
        m, s, v = t.T
        z = np.clip((np.asarray(q) - v) / (1 - v), 0, 1)
        return np.where(q <= v, 0.0, sp.gammaincinv(1 / s**2, z) * m * s**2)

    def mass(self, t):
        return {0.0: t[:, 2]}

    def mean(self, t):
        return (1 - t[:, 2]) * t[:, 0]

    def rvs(self, rng, t):
        m, s, v = t.T
        g = np.maximum(rng.gamma(1 / s**2, m * s**2), 1e-9)
        return np.where(rng.uniform(size=len(t)) < v, 0.0, g)

    def eta0(self):
        return [0.5, -0.4, -1.0]


REF = {
    c.name: c()
    for c in [
        Normal, NormalMeanVariance, StudentT, JSU, Gamma, Beta, LogNormal, LogNormalMedian, Logistic,
        Exponential, Gumbel, ReverseGumbel, InverseGaussian, InverseGamma, BetaInflated, BetaInflatedZero,
        ZeroAdjustedGamma,
    ]
}
NAMES = list(REF)


def sut(name, **kw):
    """a fresh instance of the real distribution"""
    import ondil.distributions as od

    return getattr(od, name)(**kw)


def unknown_distributions():
    import ondil.distributions as od

    return [n for n in od.__all__ if n not in REF]


# interior evaluation points of a mixed/continuous distribution
def interior(name, rng, t, qlo=1e-4, qhi=None):
    """random interior points of the continuous part, via the reference quantile function of the
    continuous component (so that they are spread over the bulk and the tails)"""
    d = REF[name]
    qhi = 1 - qlo if qhi is None else qhi
    q = rng.uniform(qlo, qhi, len(t))
    tail = rng.uniform(size=len(t))
    q = np.where(tail < 0.15, 10 ** rng.uniform(np.log10(qlo), -1, len(t)), q)
    q = np.where(tail > 0.85, 1 - 10 ** rng.uniform(np.log10(1 - qhi), -1, len(t)), q)
    if name == "InverseGaussian":
        return np.exp(rng.uniform(np.log(t[:, 0]) - 1.5, np.log(t[:, 0]) + 1.5))
    if name == "BetaInflated":
        y = sp.betaincinv(*_be(t[:, 0], t[:, 1]), q)
    elif name == "BetaInflatedZero":
        y = sp.betaincinv(*_be(t[:, 0], t[:, 1]), q)
    elif name == "ZeroAdjustedGamma":
        y = REF["Gamma"].ppf(q, t[:, :2])
    else:
        y = d.ppf(q, t)
    if d.lower == 0.0:
        y = np.maximum(y, 1e-9 * unit(name, t))
    if d.upper == 1.0:
        y = np.clip(y, 1e-9, 1 - 1e-7)
    return y


def spread(name, rng, n, share=0.35):
    """parameter rows; a share of the blocks covers unusual units and near-degenerate shapes (location and
    scale multiplied by a power of ten, many degrees of freedom, tiny point masses)"""
    d = REF[name]
    t = d.theta(rng, n)
    if rng.uniform() >= share:
        return t
    c = 10 ** rng.uniform(-5, 5, n)
    if d.locscale:
        t[:, :2] *= c[:, None]
    elif name == "NormalMeanVariance":
        t[:, 0] *= c
        t[:, 1] *= c**2
    elif name == "LogNormal":
        t[:, 0] += np.log(c)
    elif name == "InverseGaussian":
        t[:, 0] *= c
        t[:, 1] /= np.sqrt(c)
    elif d.lower == 0.0 and np.isinf(d.upper):
        t[:, 0] *= np.maximum(c, 1e-4)
    if name == "StudentT":
        w = rng.uniform(size=n) < 0.6
        t[:, 2] = np.where(w, LU(rng, 40, 1500, n), t[:, 2])
    for m0 in d.mixed:
        j = {0.0: 2, 1.0: 3}[m0]
        w = rng.uniform(size=n) < 0.7
        t[:, j] = np.where(w, 10 ** rng.uniform(-5, -1.5, n), t[:, j])
    return t


def unit(name, t):
    """size of the response under t: the yardstick of absolute tolerances"""
    d = REF[name]
    if name in ("LogNormal",):
        return np.exp(t[:, 0])
    if name == "NormalMeanVariance":
        return np.sqrt(t[:, 1])
    if d.locscale:
        return t[:, 1]
    if d.upper == 1.0:
        return np.ones(len(t))
    return t[:, 0]


def reach(name, t, p):
    """natural size of parameter p around t: the yardstick of finite differences"""
    a = np.abs(t[:, p])
    if p == 0 and (REF[name].locscale or name == "NormalMeanVariance"):
        return np.maximum(a, 1e-3 * unit(name, t))
    if (name, p) in (("JSU", 2), ("LogNormal", 0)):
        return np.maximum(a, 1e-3)
    return a
