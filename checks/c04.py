"""Generalized linear models: objective, gradient, Hessian and everything reported after the optimiser returns."""
import numpy as np
import scipy as sp
from types import SimpleNamespace
from symx.harness import harness
from pystatsm.pyglm2.glm import GLM
from pystatsm.pyglm2 import families as F, links as L
from .fam import npx, stat, YDOM, rec, stub

HARNESSES = []
FUNCTIONS = ["pystatsm.pyglm2.glm.GLM.{_unpack_params,_unpack_params_data,_loglike,_full_loglike,_gradient,_gradient_i,_hessian,"
             "loglike,full_loglike,gradient,gradient_i,hessian,fit,get_robust_res,_predict,_jacknife,_one_step_approx,get_start_values}",
             "pystatsm.pyglm2.regression_model.RegressionMixin.{_compute_leverage_qr,_rsquared}",
             "pystatsm.pyglm2.families.*"]
BOUNDS = ("3 observations, 2 coefficients, arbitrary real design, response, prior weights, coefficients and log scale; families with canonical "
          "and log links; scale estimator NR, M and fixed; the optimiser is replaced by an arbitrary parameter vector")
ASSUMPTIONS = ["the linear predictor is restricted to the domain of the link where the link requires it (reciprocal link)",
               "design columns are linearly independent (asserted through the inverse)"]

CASES = [("Gaussian", "IdentityLink"), ("Gaussian", "LogLink"), ("InverseGaussian", "LogLink"), ("Gamma", "LogLink"),
         ("Gamma", "ReciprocalLink"), ("NegativeBinomial", "LogLink"), ("Poisson", "LogLink"), ("Binomial", "LogitLink"),
         ("Binomial", "CloglogLink")]


class Data(tuple):
    weights = None


XC = np.array([[1.0, 1], [1, -1], [1, 2], [1, 0], [0, 1]])


def model(S, fam, link, scale, n=3, p=2, Xc=False, wsample=(0.5, 3)):
    f = getattr(F, fam)(link=getattr(L, link)())
    X = S.const(XC[:n]) if Xc else S.array("X", (n, p), sample=(-1, 1))
    y = S.array("y", n, *YDOM[fam])
    w = S.array("w", n, 0, None, wsample)
    if link == "ReciprocalLink":
        X = S.array("Xp", (n, p), 0, None, (0.2, 1))
        b = S.array("b", p, 0, None, (0.3, 1))
    else:
        b = S.array("b", p, sample=(-1, 1))
    m = object.__new__(GLM)
    m.f, m.scale_estimator = f, scale
    m.X, m.y, m.weights = X, y, w
    m.n = m.n_obs = n
    m.p = m.n_var = p
    d = Data((X, y, w))
    d.weights = w
    m.model_data = d
    m.param_labels = ["x%d" % i for i in range(p)]
    m.xinds = np.arange(n)
    params = b
    if scale == "NR":
        t = S.real("t", None, None, (-0.7, 0.7))
        params = np.concatenate([b, S.const(np.zeros(1)) + t])
        m.param_labels = m.param_labels + ["log_scale"]
    return m, X, y, w, b, params


def params_names(scale, p=2):
    return ["b_%d" % i for i in range(p)] + (["t"] if scale == "NR" else [])


def parts(S, m, params, fam, scale):
    """independent reading of the model: mean, scale and dispersion"""
    E = npx(S)
    p = m.X.shape[1]
    b = params[:p]
    eta = [sum(m.X[i, j] * b[j] for j in range(p)) for i in range(m.n)]
    mu = np.concatenate([S.const(np.zeros(1)) + m.f.inv_link(e) for e in eta])
    phi, k = 1.0, 1.0
    if scale == "NR":
        if fam == "NegativeBinomial":
            k = E.exp(params[p])
        else:
            phi = E.exp(params[p])
    return eta, mu, phi, k


def var(S, fam, mu, k):
    return dict(Gaussian=lambda: mu * 0 + 1, InverseGaussian=lambda: mu**3, Gamma=lambda: mu**2, Poisson=lambda: mu,
                NegativeBinomial=lambda: mu + k * mu**2, Binomial=lambda: mu * (1 - mu))[fam]()


def scales(fam):
    return ["fixed"] if fam in ("Poisson", "Binomial") else ["NR", "fixed"]


def _obj(fam, link, scale):
    pre = "%s.%s.%s." % (fam, link, scale)

    @harness(HARNESSES, pre + "objective", points=2)
    def h(S):
        m, X, y, w, b, params = model(S, fam, link, scale)
        eta, mu, phi, k = parts(S, m, params, fam, scale)
        ll = m.loglike(params)
        full = m.full_loglike(params)
        S.eq("log-likelihood kernel sums the family kernels at the model mean", ll, sum(m.f._loglike(y, mu, w, phi, k)))
        S.eq("full log-likelihood sums the family densities at the model mean", full, sum(m.f._full_loglike(y, mu, w, phi, k)))
        args = ((X, y, w), scale, m.f)
        S.eq("explicit data gives the same kernel", m._loglike(params, *args), ll)
        S.eq("explicit data gives the same log-likelihood", m._full_loglike(params, *args), full)

    @harness(HARNESSES, pre + "gradient", points=2)
    def h(S):
        m, X, y, w, b, params = model(S, fam, link, scale)
        g = m.gradient(params)
        full = m.full_loglike(params)
        ll = m.loglike(params)
        for i, nm in enumerate(params_names(scale)):
            S.deriv("gradient of the full log-likelihood", g[i], full, nm)
            S.deriv("gradient of the log-likelihood kernel", g[i], ll, nm)
        gi = m.gradient_i(params)
        S.eq("observation gradients add up", gi.sum(axis=0), g)
        for i in range(3):
            gd = m._gradient(params, (X[[i]], y[[i]], w[[i]]), scale, m.f)
            S.eq("observation gradient is the gradient of that observation", gi[i], gd)

    @harness(HARNESSES, pre + "hessian", points=2)
    def h(S):
        m, X, y, w, b, params = model(S, fam, link, scale)
        g = m.gradient(params)
        H = m.hessian(params)
        nms = params_names(scale)
        for i in range(len(nms)):
            for j in range(len(nms)):
                S.deriv("Hessian is the derivative of the gradient", H[i, j], g[i], nms[j])


for _f, _l in CASES:
    for _s in scales(_f):
        _obj(_f, _l, _s)


def _mscale(fam, link):
    @harness(HARNESSES, "%s.%s.M.scale" % (fam, link), points=2)
    def h(S):
        m, X, y, w, b, params = model(S, fam, link, "M")
        eta, mu, _, _ = parts(S, m, params, fam, "M")
        phi = sum(w * (y - mu)**2 / var(S, fam, mu, 1.0)) / (3 - 2)
        S.eq("full log-likelihood at the moment estimate of the scale", m.full_loglike(params), sum(m.f._full_loglike(y, mu, w, phi, 1.0)))
        S.eq("Hessian scales with the moment estimate", m.hessian(params) * phi, m.hessian(params, scale_estimator="fixed"))
        S.eq("gradient scales with the moment estimate", m.gradient(params) * phi, m.gradient(params, scale_estimator="fixed"))


for _f, _l in [("Gaussian", "IdentityLink"), ("InverseGaussian", "LogLink"), ("Gamma", "LogLink"), ("Gamma", "ReciprocalLink")]:
    _mscale(_f, _l)


def _post(fam, link, scale):
    @harness(HARNESSES, "%s.%s.%s.fit" % (fam, link, scale), points=2)
    def h(S):
        E = npx(S)
        p = 2
        n = 5 if scale == "NR" else 4
        m, X, y, w, b, params = model(S, fam, link, scale, n=n, Xc=True)
        null = S.array("null", 2, sample=(-0.5, 0.5)) if fam == "NegativeBinomial" else None
        S.cut_method(m, "hessian", "H")
        C0 = np.linalg.inv(m.hessian(params))
        for i in range(len(params)):
            S.assume_lt(0, C0[i, i])
        seen = []

        def _optimize(t_init=None, opt_kws=None, data=None, s=None, f=None):
            seen.append(data)
            return SimpleNamespace(x=params if data is None else null)
        m._optimize = _optimize
        tab = []
        m._parameter_inference = rec(m._parameter_inference, tab)
        eta, mu, phi, k = parts(S, m, params, fam, scale)
        for i in range(n):      # one sign pattern of the residuals (the families' residual functions are covered for all in C02)
            S.assume_lt(*((mu[i], y[i]) if i % 2 else (y[i], mu[i])))
        lev = S.cut_method(m, "_compute_leverage_qr", "h", True)
        chi = S.cut_method(m.f, "pearson_chi2", "chi2", True)
        m.fit()
        V = var(S, fam, mu, k)
        chi2 = sum(w * (y - mu)**2 / V)
        for c in chi:
            S.eq("chi-square", c[2], chi2)
            chi2 = c[3]
        if scale == "M":
            phi = chi2 / (n - p)
        S.eq("estimates are the optimiser's", m.params, params)
        S.eq("coefficients", m.beta, b)
        S.eq("Hessian at the estimates", m.params_hess, m.hessian(params))
        S.eq("covariance inverts the Hessian", m.params_cov @ m.params_hess, np.eye(len(params)))
        S.eq("standard errors squared", m.params_se**2, [m.params_cov[i, i] for i in range(len(params))])
        S.eq("coefficient covariance", m.beta_cov, m.params_cov[:p, :p])
        S.eq("coefficient standard errors", m.beta_se, m.params_se[:p])
        S.eq("linear predictor", m.eta, eta)
        S.eq("fitted mean", m.mu, mu)
        S.eq("chi-square", m.chi2, chi2)
        S.eq("scale", m.phi, phi)
        S.eq("dispersion", m.dispersion, k)
        # leverage: diagonal of the weighted hat matrix
        W = m.f.get_ehw(y, mu, w, phi, k)
        G = np.linalg.inv((X * W.reshape(-1, 1)).T @ X)
        hat = [W[i] * (X[i] @ G @ X[i]) for i in range(n)]
        for c in lev:
            S.eq("leverage", c[2], hat)
            hat = c[3]
        S.eq("leverage", m.h, hat)
        S.eq("raw residuals", m.resid_raw, y - mu)
        S.eq("Pearson residuals", m.resid_pearson, [E.sqrt(w[i] / V[i]) * (y[i] - mu[i]) for i in range(n)])
        S.eq("squared deviance residuals", m.resid_deviance**2, m.f.deviance(y, mu, w, 1.0, k))
        S.eq("scaled Pearson residuals", m.resid_pearson_s * E.sqrt(phi), m.resid_pearson)
        S.eq("standardised Pearson residuals", m.resid_pearson_sst**2 * (1 - m.h) * phi, m.resid_pearson**2)
        S.eq("standardised deviance residuals", m.resid_deviance_sst**2 * (1 - m.h) * phi, m.resid_deviance**2)
        S.eq("scaled deviance residuals", m.resid_deviance_s**2 * phi, m.resid_deviance**2)
        S.eq("likelihood residuals", m.resid_likelihood**2, m.h * m.resid_pearson_sst**2 + (1 - m.h) * m.resid_deviance_sst**2)
        S.eq("Cook distances", m.cooks_distance * p * (1 - m.h), m.h * m.resid_pearson_sst**2)
        S.eq("residual table", np.asarray(m.resids["Cooks"]), m.cooks_distance)
        S.eq("residual table", np.asarray(m.resids["Deviance"]), m.resid_deviance)
        S.eq("residual table", np.asarray(m.resids["PearsonSS"]), m.resid_pearson_sst)
        S.eq("log-likelihood", m.llf, sum(m.f._full_loglike(y, mu, w, phi, k)))
        if fam == "NegativeBinomial":
            d = seen[-1]
            S.eq("null log-likelihood is evaluated at the null fit", m.lln, m.full_loglike(null, data=(np.ones((n, 1)), y, w)))
            S.eq("null model is fitted to the same response", d[1], y)
            S.eq("null model is fitted with the same weights", np.broadcast_to(d[2], (n,)), w)
            S.eq("null design is an intercept", d[0], np.ones((n, 1)))
        else:
            mb = sum(w * y) / sum(w)
            S.eq("null log-likelihood is attained by the weighted mean", m.lln, sum(m.f._full_loglike(y, np.repeat(mb, n), w, phi, k)))
        kk = len(params)
        st = m.sumstats["Statistic"]
        S.eq("AIC", st["AIC"], 2 * m.llf + 2 * kk)
        S.eq("BIC", st["BIC"], 2 * m.llf + kk * float(np.log(n)), tol=1e-6)
        S.eq("likelihood ratio", st["LLR"], 2 * (m.lln - m.llf))
        S.eq("total deviance", st["Deviance"], sum(m.f.deviance(y, mu, w, 1.0, k)))
        S.eq("reported chi-square", st["Chi2"], chi2)
        S.eq("R squared", (1 - st["R2_SS"]) * sum((y - sum(y) / n)**2), sum((y - mu)**2))
        S.eq("table estimates", tab[0][0], params)
        S.eq("table standard errors", tab[0][1], m.params_se)
        S.eq("residual degrees of freedom", tab[0][2], n - len(params))
        S.true("table labels", list(tab[0][3]) == list(m.param_labels))


for _f, _l in [("Gaussian", "IdentityLink"), ("Gamma", "LogLink"), ("NegativeBinomial", "LogLink"), ("Poisson", "LogLink"), ("Binomial", "LogitLink"),
               ("InverseGaussian", "LogLink")]:
    for _s in (["fixed"] if _f in ("Poisson", "Binomial") else ["NR"] if _f == "NegativeBinomial" else ["NR", "M"]):
        _post(_f, _l, _s)


def _robust(fam, link, scale):
    @harness(HARNESSES, "%s.%s.%s.robust" % (fam, link, scale), points=2)
    def h(S):
        m, X, y, w, b, params = model(S, fam, link, scale)
        q = len(params)
        m.params = params
        m.params_cov = S.symm("A", q)
        tab = []
        m._parameter_inference = rec(m._parameter_inference, tab)
        m.get_robust_res()
        gi = m._gradient_i(params, (X, y, w), scale, m.f)
        V = m.params_cov @ (gi.T @ gi) @ m.params_cov
        S.eq("robust standard errors squared", tab[0][1]**2, [V[i, i] for i in range(q)])
        S.eq("estimates", tab[0][0], params)
        S.eq("residual degrees of freedom", tab[0][2], m.n - q)


for _f, _l, _s in [("Gaussian", "IdentityLink", "NR"), ("Poisson", "LogLink", "fixed"), ("Gamma", "LogLink", "M")]:
    _robust(_f, _l, _s)


def _pred(fam, link):
    @harness(HARNESSES, "%s.%s.predict" % (fam, link), points=2)
    def h(S):
        E = npx(S)
        p = 2
        f = getattr(F, fam)(link=getattr(L, link)())
        X = S.array("X", (1, p), sample=(-1, 1))
        b = S.array("b", p, sample=(-1, 1))
        C, _ = S.posdef("C", p)
        phi = S.real("phi", 0, None, (0.3, 2)) if fam in ("Gaussian", "InverseGaussian", "Gamma") else 1.0
        k = S.real("k", 0, None, (0.3, 2)) if fam == "NegativeBinomial" else 1.0
        r = GLM._predict(b, X, f, phi=phi, dispersion=k, coefs_cov=C, mean_ci_level=0.9, predicted_ci_level=0.8)
        eta = sum(X[0, j] * b[j] for j in range(p))
        se2 = X[0] @ C @ X[0]
        mu = f.inv_link(eta)
        z = float(sp.special.ndtri(0.95))
        S.eq("linear predictor", r["eta"], [eta])
        S.eq("standard error squared", r["eta_se"]**2, [se2])
        S.eq("mean", r["mu"], [mu])
        S.eq("lower limit", r["eta_lower_ci"], [eta - z * E.sqrt(se2)], tol=1e-6)
        S.eq("upper limit", r["eta_upper_ci"], [eta + z * E.sqrt(se2)], tol=1e-6)
        S.eq("lower mean limit", r["mu_lower_ci"], f.inv_link(r["eta_lower_ci"]))
        S.eq("upper mean limit", r["mu_upper_ci"], f.inv_link(r["eta_upper_ci"]))
        if fam != "InverseGaussian":
            kw = dict(dispersion=k) if fam == "NegativeBinomial" else dict(phi=phi) if fam in ("Gaussian", "Gamma") else {}
            hi = 0.5 + 0.8 / 2
            S.eq("lower prediction limit is the family quantile", r["predicted_lower_ci"], f.ppf(1 - hi, mu=r["mu"], **kw))
            S.eq("upper prediction limit is the family quantile", r["predicted_upper_ci"], f.ppf(hi, mu=r["mu"], **kw))


for _f, _l in [("Gaussian", "IdentityLink"), ("Gamma", "LogLink"), ("NegativeBinomial", "LogLink"), ("Poisson", "LogLink"), ("Binomial", "LogitLink"),
               ("InverseGaussian", "LogLink")]:
    _pred(_f, _l)


def _jack(fam, link, scale):
    @harness(HARNESSES, "%s.%s.%s.onestep" % (fam, link, scale), points=2)
    def h(S):
        n, p = 3, 2
        m, X, y, w, b, params = model(S, fam, link, scale)
        m.params = params
        eta, mu, phi, k = parts(S, m, params, fam, scale)
        if scale == "M":
            phi = S.real("phi", 0, None, (0.5, 2))
        m.mu, m.phi, m.dispersion = mu, phi, k
        V = var(S, fam, mu, k)
        E = npx(S)
        m.resid_pearson_s = S.const(np.zeros(n)) + [E.sqrt(w[i] / (V[i] * phi)) * (y[i] - mu[i]) for i in range(n)]
        r = m._jacknife(method="one-step")
        # one Fisher-scoring step from the full-data estimate towards the estimate without observation i
        W = m.f.get_ehw(y, mu, w, phi, k)
        g = m._gradient_i(params, (X, y, w), "fixed", m.f) / phi
        A = (X * W.reshape(-1, 1)).T @ X
        for i in range(n):
            Ai = A - W[i] * np.outer(X[i], X[i])
            # expected information without i times the step equals the score contribution of i removed (sum of scores is zero at the fit)
            step = np.asarray(r.iloc[i]) - params
            S.eq("delete-one step", Ai @ step, g[i])


_jack("Gaussian", "IdentityLink", "fixed")
_jack("Poisson", "LogLink", "fixed")
_jack("Binomial", "LogitLink", "fixed")
_jack("Gamma", "LogLink", "M")
