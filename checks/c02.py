"""Exponential families: densities, variance functions, deviances, canonical structure, sampling and quantiles."""
import numpy as np
from symx.harness import harness
from .fam import NAMES, ADAPT, YDOM, MUDOM, draw, npx, stat

HARNESSES = []
FUNCTIONS = ["pystatsm.%s.families.%s.{_loglike,_full_loglike,loglike,full_loglike,deviance,var_func,variance,dvar_dmu..d4var_dmu4,"
             "var_derivs,llscale,dllscale,d2llscale,pearson_resid,signed_resid,deviance_resid,pearson_chi2,rvs,ppf}" % (p, n)
             for p in ("pyglm2", "pyglm") for n in NAMES]
BOUNDS = ("every real response/mean in the family's open domain plus the boundary responses 0 (counts) and 0, 1 (proportions), every "
          "positive weight vector, scale and dispersion; vectors of length 1 to 3")


def density(S, name, y, mu, w, phi, k):
    """negative log density written from the textbook definition"""
    X = npx(S)
    if name == "Gaussian":
        v = phi / w
        return X.log(2 * X.pi * v) / 2 + (y - mu)**2 / (2 * v)
    if name == "InverseGaussian":
        lam = w / phi
        return X.log(2 * X.pi * y**3 / lam) / 2 + lam * (y - mu)**2 / (2 * mu**2 * y)
    if name == "Gamma":
        a = w / phi
        b = a / mu
        return -(a * X.log(b) + (a - 1) * X.log(y) - b * y - X.gammaln(a))
    if name == "NegativeBinomial":
        r = 1 / k
        p = r / (r + mu)
        return -w * (X.gammaln(y + r) - X.gammaln(r) - X.gammaln(y + 1) + r * X.log(p) + y * X.log(1 - p))
    if name == "Poisson":
        return -w / phi * (y * X.log(mu) - mu - X.gammaln(y + 1))
    n, c = w, w * y
    return -(X.gammaln(n + 1) - X.gammaln(c + 1) - X.gammaln(n - c + 1) + c * X.log(mu) + (n - c) * X.log(1 - mu))


def vref(name, mu, k):
    return {"Gaussian": lambda: mu * 0 + 1, "InverseGaussian": lambda: mu**3, "Gamma": lambda: mu**2,
            "NegativeBinomial": lambda: mu + k * mu**2, "Poisson": lambda: mu, "Binomial": lambda: mu * (1 - mu)}[name]()


def _mk(pk, name):
    A = ADAPT[pk]
    pre = "%s.%s." % (pk, name)

    @harness(HARNESSES, pre + "density", points=3)
    def h(S):
        y, mu, w, phi, k = draw(S, name, 2)
        a = A(S, name, link=None)
        ph = 1.0 if name == "Binomial" else phi
        S.eq("full log-likelihood is the log density", a.full(y, mu, w, ph, k), density(S, name, y, mu, w, ph, k))
        S.eq("summed full log-likelihood", a.f.full_loglike(y, mu=mu, weights=w, phi=ph, dispersion=k),
             a.full(y, mu, w, ph, k)[0] + a.full(y, mu, w, ph, k)[1])
        S.eq("summed log-likelihood", a.f.loglike(y, mu=mu, weights=w, phi=ph, dispersion=k),
             a.ll(y, mu, w, ph, k)[0] + a.ll(y, mu, w, ph, k)[1])

    @harness(HARNESSES, pre + "defaults", points=3)
    def h(S):
        # weights default to one
        y, mu, w, phi, k = draw(S, name, 2)
        a = A(S, name, link=None)
        one = S.const(np.ones(2))
        ph = 1.0 if name == "Binomial" else phi
        S.eq("log-likelihood with default weights", a.f.full_loglike(y, mu=mu, phi=ph, dispersion=k),
             a.f.full_loglike(y, mu=mu, weights=one, phi=ph, dispersion=k))
        S.eq("per-observation likelihood with default weights", a.f._full_loglike(y, mu=mu, phi=ph, dispersion=k),
             a.full(y, mu, one, ph, k))
        S.eq("deviance with default weights", a.f.deviance(y, mu=mu, phi=ph, dispersion=k), a.dev(y, mu, one, ph, k))

    @harness(HARNESSES, pre + "kernel", points=3)
    def h(S):
        # the reduced log-likelihood differs from the full one by a term free of the mean and (except for terms in y) the same scale
        y, mu, w, phi, k = draw(S, name, 1)
        m2 = S.array("mb", 1, *MUDOM[name])
        a = A(S, name, link=None)
        ph = 1.0 if name == "Binomial" else phi
        S.eq("kernel differs from the log density by a term free of the mean", a.full(y, mu, w, ph, k) - a.ll(y, mu, w, ph, k),
             a.full(y, m2, w, ph, k) - a.ll(y, m2, w, ph, k))
        if name not in ("Poisson", "Binomial"):
            k2, p2 = S.real("k2", 0, None, (0.3, 2)), S.real("p2", 0, None, (0.3, 2))
            S.eq("kernel differs from the log density by a term free of scale and dispersion",
                 a.full(y, mu, w, phi, k) - a.ll(y, mu, w, phi, k), a.full(y, mu, w, p2, k2) - a.ll(y, mu, w, p2, k2))

    @harness(HARNESSES, pre + "variance", points=3)
    def h(S):
        y, mu, w, phi, k = draw(S, name, 2)
        a = A(S, name, link=None)
        S.eq("variance function", a.V(mu, k), vref(name, mu, k))
        S.eq("variance of the response", a.variance(mu, w, phi, k), phi * vref(name, mu, k) / w)
        mu1 = mu[:1]
        f = a.f
        ds = [a.V(mu1, k), f.dvar_dmu(mu1, dispersion=k), f.d2var_dmu2(mu1, dispersion=k), f.d3var_dmu3(mu1, dispersion=k),
              f.d4var_dmu4(mu1, dispersion=k)]
        ds = [d + 0 * mu1 for d in ds]
        for i in range(4):
            S.deriv("derivative %d of the variance function" % (i + 1), ds[i + 1], ds[i], "mu_0")
        if pk == "pyglm2":
            for order in range(1, 5):
                vs = f.var_derivs(mu1, k, order)
                S.true("var_derivs returns order + 1 functions", len(vs) == order + 1)
                S.eq("variance derivatives up to order %d" % order, [v + 0 * mu1 for v in vs], ds[:order + 1])
            S.eq("variance derivatives order 0", f.var_derivs(mu1, k, 0), ds[0])

    @harness(HARNESSES, pre + "deviance", points=3)
    def h(S):
        y, mu, w, phi, k = draw(S, name, 2)
        a = A(S, name, link=None)
        ph = 1.0 if name == "NegativeBinomial" else phi
        S.eq("deviance is twice the scaled log-likelihood ratio to the saturated model", a.dev(y, mu, w, ph, k),
             2 * ph * (a.ll(y, mu, w, ph, k) - a.ll(y, y, w, ph, k)))

    @harness(HARNESSES, pre + "residuals", points=3)
    def h(S):
        y, mu, w, phi, k = draw(S, name, 2)
        a = A(S, name, link=None)
        S.eq("squared Pearson residual", a.call("pearson_resid", y, mu, w, phi, k)**2, w * (y - mu)**2 / vref(name, mu, k))
        S.eq("Pearson chi-square", a.call("pearson_chi2", y, mu, w, phi, k), sum(w * (y - mu)**2 / vref(name, mu, k)))
        d = a.call("deviance_resid", y, mu, w, phi, k)
        S.eq("squared deviance residual", d**2, a.dev(y, mu, w, phi, k))
        r = a.call("signed_resid", y, mu, w, phi, k)
        S.eq("squared signed residual", r**2, a.dev(y, mu, w, phi, k))

    @harness(HARNESSES, pre + "residual_sign", points=3)
    def h(S):
        y, mu, w, phi, k = draw(S, name, 1)
        a = A(S, name, link=None)
        p = a.call("pearson_resid", y, mu, w, phi, k)
        if name in ("Gaussian", "InverseGaussian"):
            d = a.call("deviance_resid", y, mu, w, phi, k)
            S.le("deviance residual has the sign of the raw residual", -d * (y - mu), 0 * y)
        S.le("Pearson residual has the sign of the raw residual", -p * (y - mu), 0 * y)

    if name in ("NegativeBinomial", "Poisson", "Binomial"):
        @harness(HARNESSES, pre + "boundary", points=3)
        def h(S):
            X = npx(S)
            n = 3
            mu = S.array("mu", n, *MUDOM[name])
            w = S.array("w", n, 0, None, (0.5, 3))
            k = S.real("kappa", 0, None, (0.3, 2))
            yi = S.real("yi", *YDOM[name])
            last = 1 if name == "Binomial" else 0
            y = S.const(np.array([0.0, 0.5, float(last)])) + S.const(np.array([0.0, 1.0, 0.0])) * (yi - S.num(0.5))
            a = A(S, name, link=None)
            d = a.dev(y, mu, w, 1.0, k)
            # at the boundary the saturated log-likelihood is zero
            S.eq("deviance at a zero response", d[0], 2 * a.ll(y[:1], mu[:1], w[:1], 1.0, k)[0])
            S.eq("deviance of an interior response next to boundary responses", d[1],
                 2 * (a.ll(y[1:2], mu[1:2], w[1:2], 1.0, k)[0] - a.ll(y[1:2], y[1:2], w[1:2], 1.0, k)[0]))
            S.eq("deviance at the other boundary response", d[2], 2 * a.ll(y[2:], mu[2:], w[2:], 1.0, k)[0])

    if name in ("Gaussian", "InverseGaussian", "Gamma"):
        @harness(HARNESSES, pre + "llscale", points=3)
        def h(S):
            X = npx(S)
            y = S.array("y", 2, *YDOM[name])
            phi = S.real("phi", 0, None, (0.3, 2))
            a = A(S, name, link=None)
            f = a.f
            one = S.const(np.ones(2))
            # saturated negative log-likelihood
            S.eq("scale term is the saturated negative log-likelihood", f.llscale(phi, y), f.full_loglike(y, mu=y, weights=one, phi=phi))
            S.deriv("first derivative of the scale term", f.dllscale(phi, y), f.llscale(phi, y), "phi")
            S.deriv("second derivative of the scale term", f.d2llscale(phi, y), f.dllscale(phi, y), "phi")

    @harness(HARNESSES, pre + "sampling", points=2)
    def h(S):
        mu = S.array("mu", 1, *MUDOM[name])
        phi = S.real("phi", 0, None, (0.3, 2))
        k = S.real("kappa", 0, None, (0.3, 2))
        a = A(S, name, link=None)
        if name == "NegativeBinomial":
            m, v = a.f.rvs(mu, dispersion=k, rng=Rng())
            ph = 1
        elif name in ("Poisson", "Binomial"):
            m, v = a.f.rvs(mu, rng=Rng())
            ph = 1
        else:
            m, v = a.f.rvs(mu, phi, rng=Rng())
            ph = phi
        S.eq("mean of the simulated response", m, mu)
        S.eq("variance of the simulated response", v, ph * vref(name, mu, k))

    @harness(HARNESSES, pre + "quantile", points=3)
    def h(S):
        mu = S.array("mu", 1, *MUDOM[name])
        phi = S.real("phi", 0, None, (0.3, 2))
        k = S.real("kappa", 0, None, (0.3, 2))
        q = S.real("q", 0, 1)
        f = A(S, name, link=None).f
        if name == "Gaussian":
            S.eq("quantile function", f.ppf(q, mu, phi), npx(S).ndtri(q) * npx(S).sqrt(phi) + mu)
        elif name == "Gamma":
            S.eq("quantile function", f.ppf(q, mu, phi), stat(S, "gamma", "ppf", q, 1 / phi) * mu * phi)
        elif name == "InverseGaussian":
            # X ~ IG(mean mu, shape 1/phi)  =  (1/phi) * IG(mean mu*phi, shape 1)
            S.eq("quantile function", f.ppf(q, mu, phi), stat(S, "invgauss", "ppf", q, mu * phi) / phi)
        elif name == "NegativeBinomial":
            S.eq("quantile function", f.ppf(q, mu, dispersion=k), stat(S, "nbinom", "ppf", q, 1 / k, 1 / (1 + k * mu)))
        elif name == "Poisson":
            S.eq("quantile function", f.ppf(q, mu), stat(S, "poisson", "ppf", q, mu))
        else:
            S.eq("quantile function", f.ppf(q, mu), stat(S, "binom", "ppf", q, S.num(1), mu))


class Rng:
    """records the generator call as (mean, variance) of the requested distribution"""
    class Mv(tuple):
        def __truediv__(self, c):
            return Rng.Mv((self[0] / c, self[1] / c**2))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return Rng.Mv((loc, scale**2))

    def wald(self, mean, scale, size=None):
        return Rng.Mv((mean, mean**3 / scale))

    def gamma(self, shape, scale=1.0, size=None):
        return Rng.Mv((shape * scale, shape * scale**2))

    def negative_binomial(self, n, p, size=None):
        return Rng.Mv((n * (1 - p) / p, n * (1 - p) / p**2))

    def poisson(self, lam=1.0, size=None):
        return Rng.Mv((lam, lam))

    def binomial(self, n, p, size=None):
        return Rng.Mv((n * p, n * p * (1 - p)))


for _p in ("pyglm2", "pyglm"):
    for _n in NAMES:
        _mk(_p, _n)


def _mkcanon(name):
    A = ADAPT["pyglm"]

    @harness(HARNESSES, "pyglm.%s.canonical" % name, points=3)
    def h(S):
        mu = S.array("mu", 1, *MUDOM[name])
        k = S.real("kappa", 0, None, (0.3, 2))
        f = A(S, name, link=None).f
        T = f.canonical_parameter(mu, dispersion=k)
        S.eq("the mean of the canonical parameter of a mean is that mean", f.mean_func(T, dispersion=k), mu)
        S.eq("variance function through the canonical parameter", f.var_func(mu=f.mean_func(T, dispersion=k), dispersion=k), vref(name, mu, k))
        # d theta / d mu = 1 / V
        S.deriv("derivative of the canonical parameter is the inverse variance", 1 / vref(name, mu, k), T, "mu")
        S.deriv("second derivative of the canonical parameter", f.d2canonical(mu, dispersion=k), 1 / vref(name, mu, k), "mu")
        S.deriv("cumulant's derivative along the mean is mean over variance", mu / vref(name, mu, k), f.cumulant(T, dispersion=k), "mu")


for _n in NAMES:
    _mkcanon(_n)
