"""Zero-inflated count models."""
import math
import numpy as np
import scipy as sp
from types import SimpleNamespace
from symx import harness as HM
from symx.harness import harness
from pystatsm.pyglm2 import zinf as Z0
from pystatsm.pyglm2.zinf import ZeroInflatedPoisson as ZIP, ZeroInflatedNBinom as ZNB, ZeroInflatedModel as ZM
from pystatsm.pyglm2.families import NegativeBinomial
from pystatsm.pyglm2 import links as L
from .fam import npx, stat, rec, stub
from .c05 import _F

HARNESSES = []
FUNCTIONS = ["pystatsm.pyglm2.zinf.ZeroInflatedPoisson.{_loglike,_loglike_i,_gradient,_gradient_i,_hessian_weights,_hessian,fit,_predict}",
             "pystatsm.pyglm2.zinf.ZeroInflatedModel._generic_loglike_i",
             "pystatsm.pyglm2.zinf.ZeroInflatedNBinom.{_loglike,_loglike_i,_gradient,_gradient_i,_hessian,_hessian_i,fit,_predict,predict,__init__}"]
BOUNDS = ("3 observations covering zero and positive counts, 1 to 2 coefficients per component, arbitrary positive prior weights, uninterpreted "
          "inverse links (positive for the count mean, in (0,1) for the inflation) with uninterpreted derivatives")


class Mock(L.Link):
    def __init__(self, S, nm, impl):
        self.F = S.func(nm, impl, sign={0: 1, 1: 1})

    def _a(self, k, x):
        if isinstance(x, np.ndarray) and not hasattr(x, "values"):
            return np.vectorize(lambda v: self.F(k, v), otypes=[object if x.dtype == object else float])(x) if x.size else x
        return self.F(k, x)

    def inv_link(self, x):
        return self._a(0, x)

    def dinv_link(self, x):
        return self._a(1, x)

    def d2inv_link(self, x):
        return self._a(2, x)

    def link(self, x):
        raise NotImplementedError

    dlink = d2link = d3link = d4link = link


def _G(k, x):
    v = math.exp(x / 3) / 3**k
    return v


def setup(S, ypos, p, q, nb):
    n = len(ypos)
    X = S.array("X", (n, p), sample=(-1, 1))
    Z = S.array("Z", (n, q), sample=(-1, 1))
    w = S.array("w", n, 0, None, (0.5, 2))
    y = S.const(np.zeros(n))
    for i, c in enumerate(ypos):
        if c:
            y[i] = S.real("y%d" % i, 0, None, (1, 4))
    b = S.array("b", p, sample=(-0.7, 0.7))
    c = S.array("c", q, sample=(-0.7, 0.7))
    link, zl = Mock(S, "Gz", _G), Mock(S, "Fz", _F)
    for i in range(n):
        S.assume_lt(zl.F(0, sum(Z[i, j] * c[j] for j in range(q))), 1)
    th = [b, c]
    nm = ["b_%d" % i for i in range(p)] + ["c_%d" % i for i in range(q)]
    if nb:
        t = S.real("t", None, None, (-0.7, 0.7))
        th.append(S.const(np.zeros(1)) + t)
        nm.append("t")
    return n, X, Z, y, w, b, c, link, zl, np.concatenate(th), nm


def ref(S, nb, X, Z, y, w, b, c, link, zl, th):
    E = npx(S)
    out = []
    for i in range(len(w)):
        mu = link.F(0, sum(X[i, j] * b[j] for j in range(len(b))))
        om = zl.F(0, sum(Z[i, j] * c[j] for j in range(len(c))))
        zero = bool(y[i] == 0)
        if nb:
            k = E.exp(th[-1])
            p0 = E.exp(-E.log(1 + k * mu) / k)
            lp = (E.gammaln(y[i] + 1 / k) - E.gammaln(1 / k) - E.gammaln(y[i] + 1) + y[i] * E.log(k * mu)
                  - (y[i] + 1 / k) * E.log(1 + k * mu)) if not zero else None
        else:
            p0 = E.exp(-mu)
            lp = y[i] * E.log(mu) - mu - E.gammaln(y[i] + 1) if not zero else None
        v = E.log(om + (1 - om) * p0) if zero else E.log(1 - om) + lp
        out.append(-w[i] * v)
    return out


def _mk(nb, ypos, p, q):
    M = ZNB if nb else ZIP
    pre = "%s.p%d.q%d." % ("nb" if nb else "poisson", p, q)

    def args(S):
        n, X, Z, y, w, b, c, link, zl, th, nm = setup(S, ypos, p, q, nb)
        dt = (X, Z, y, w)
        a = (zl, NegativeBinomial(link=link)) if nb else (link, zl)
        return n, dt, b, c, link, zl, th, nm, a

    @harness(HARNESSES, pre + "likelihood", points=2)
    def h(S):
        n, dt, b, c, link, zl, th, nm, a = args(S)
        r = ref(S, nb, *dt, b, c, link, zl, th)
        S.eq("observation log-likelihood", M._loglike_i(th, dt, *a), r)
        S.eq("log-likelihood", M._loglike(th, dt, *a), sum(r))
        if nb:
            S.eq("generic observation log-likelihood", ZM._generic_loglike_i(th, dt, p, q, True, a[1], zl), r)

    @harness(HARNESSES, pre + "gradient", points=2)
    def h(S):
        n, dt, b, c, link, zl, th, nm, a = args(S)
        r = ref(S, nb, *dt, b, c, link, zl, th)
        g = M._gradient(th, dt, *a)
        gi = M._gradient_i(th, dt, *a)
        S.eq("shape", np.array(gi.shape), np.array([n, len(nm)]))
        for j, v in enumerate(nm):
            S.deriv("gradient", g[j], sum(r), v)
            for i in range(n):
                S.deriv("observation gradient", gi[i, j], r[i], v)

    @harness(HARNESSES, pre + "hessian", points=2)
    def h(S):
        n, dt, b, c, link, zl, th, nm, a = args(S)
        gi = M._gradient_i(th, dt, *a)
        H = M._hessian(th, dt, *a)
        for k, v in enumerate(nm):
            for j in range(len(nm)):
                S.deriv("Hessian", H[j, k], sum(gi[:, j]), v)
        if nb:
            Hi = M._hessian_i(th, dt, *a)
            S.eq("observation Hessians add up", Hi.sum(axis=0), H)
            for i in range(n):
                for k, v in enumerate(nm):
                    for j in range(len(nm)):
                        S.deriv("observation Hessian", Hi[i, j, k], gi[i, j], v)


_mk(False, (0, 1, 1), 1, 2)
_mk(False, (1, 0, 0), 2, 1)
_mk(True, (0, 1, 1), 1, 2)
_mk(True, (1, 0, 0), 2, 1)


def _fit(nb):
    @harness(HARNESSES, "fit.%s" % ("nb" if nb else "poisson"), points=2)
    def h(S):
        M = ZNB if nb else ZIP
        n, X, Z, y, w, b, c, link, zl, th, nm = setup(S, (0, 1, 1, 0, 1, 0), 1, 1, nb)
        m = object.__new__(M)
        m.X, m.Z, m.y, m.weights = X, Z, y, w
        m.model_data = (X, Z, y, w)
        m.n = m.n_obs = n
        m.p = m.q = 1
        m.param_labels = nm
        k = len(nm)
        if nb:
            m.f, m.link = NegativeBinomial(link=link), zl
        else:
            m.link, m.zero_link = link, zl
        z = S.array("z", k, sample=(-0.5, 0.5))
        for v in z[1:2]:
            S.assume_lt(zl.F(0, v), 1)
        seen = []

        def fake(params=None, data=None, opt_kws=None, **kw):
            seen.append((params, data, opt_kws))
            return (th if data is None else z), None
        m._fit = fake
        tab = []
        m._parameter_inference = rec(m._parameter_inference, tab)
        S.cut_method(m, "hessian", "H")
        m.params_hess = m.hessian(th)
        C = np.linalg.inv(m.params_hess)
        for i in range(k):
            S.assume_lt(0, C[i, i])
        m.fit(opt_kws=dict(a=1))
        S.true("optimiser options reach the optimiser", seen[0][2] == dict(a=1))
        S.eq("estimates", m.params, th)
        S.eq("covariance inverts the Hessian", m.params_cov @ m.params_hess, np.eye(k))
        S.eq("standard errors squared", m.params_se**2, [m.params_cov[i, i] for i in range(k)])
        S.eq("table estimates", tab[0][0], th)
        S.eq("table standard errors", tab[0][1], m.params_se)
        S.eq("residual degrees of freedom", tab[0][2], n - k)
        S.eq("coefficients", m.beta, th[:2])
        S.eq("coefficient standard errors", m.beta_se, m.params_se[:2])
        one = S.const(np.ones((n, 1)))
        S.eq("log-likelihood", m.llf, sum(ref(S, nb, X, Z, y, w, b, c, link, zl, th)))
        S.eq("null log-likelihood", m.lln, sum(ref(S, nb, one, one, y, w, z[:1], z[1:2], link, zl, z)))
        S.eq("null parameters", len(seen[1][0]), k)
        S.eq("AIC", m.aic, 2 * m.llf + 2 * k)
        S.eq("likelihood ratio", m.llr, 2 * (m.lln - m.llf))


_fit(False)
_fit(True)


def _pred(nb):
    @harness(HARNESSES, "predict.%s" % ("nb" if nb else "poisson"), points=2)
    def h(S):
        n, X, Z, y, w, b, c, link, zl, th, nm = setup(S, (0, 1), 2, 1, nb)
        C, _ = S.posdef("C", len(nm))
        E = npx(S)
        zc = float(sp.special.ndtri(0.95))
        if nb:
            m = object.__new__(ZNB)
            m.X, m.Z, m.params, m.params_cov, m.f, m.link = X, Z, th, C, NegativeBinomial(link=link), zl
            r = m.predict(mean_ci_level=0.9, predicted_ci_level=0.8)
            k = E.exp(th[-1])
        else:
            r = ZIP._predict(th, (X, Z, y, w), link, zl, coefs_cov=C, mean_ci_level=0.9)
        for i in range(n):
            for j, (A, v, o, lk) in enumerate(((X, b, 0, link), (Z, c, 2, zl))):
                e = sum(A[i, s] * v[s] for s in range(len(v)))
                V = C[o:o + len(v), o:o + len(v)]
                se2 = A[i] @ V @ A[i]
                S.eq("linear predictor", r["lp"][i, j], e)
                S.eq("standard error squared", r["lp_se"][i, j]**2, se2)
                S.eq("mean", r["mean"][i, j], lk.F(0, e))
                S.eq("lower limit", r["lp_lower_ci"][i, j], e - zc * E.sqrt(se2), tol=1e-6)
                S.eq("upper limit", r["lp_upper_ci"][i, j], e + zc * E.sqrt(se2), tol=1e-6)
                S.eq("lower mean limit", r["mu_lower_ci"][i, j], lk.F(0, r["lp_lower_ci"][i, j]))
                S.eq("upper mean limit", r["mu_upper_ci"][i, j], lk.F(0, r["lp_upper_ci"][i, j]))
            if nb:
                mu = link.F(0, sum(X[i, s] * b[s] for s in range(2)))
                for key, lev in (("predicted_lower_ci", 0.1), ("predicted_upper_ci", 0.9)):
                    S.eq("count quantile", r[key][i], stat(S, "nbinom", "ppf", lev if lev == 0.9 else 1 - 0.9, 1 / k, 1 / (1 + k * mu)), tol=1e-6)


_pred(False)
_pred(True)


@harness(HARNESSES, "construct", points=1)
def h_con(S):
    import pandas as pd
    d = pd.DataFrame(dict(y=[0.0, 1, 2, 0, 3], x=[1.0, 2, 0, 1, 1], z=[0.0, 1, 1, 2, 1]))
    m = ZNB("y~x", "~z-1", d)
    S.eq("count design", m.X, np.c_[np.ones(5), d["x"]])
    S.eq("inflation design", m.Z, d[["z"]].to_numpy())
    S.eq("response", np.asarray(m.y).ravel(), d["y"])
    S.eq("number of parameters", len(m.params_init), 4)
    S.eq("weights default to one", np.asarray(m.weights).ravel(), np.ones(5))
    m = ZIP("y~x", "~z-1", d)
    S.eq("Poisson count design", m.X, np.c_[np.ones(5), d["x"]])
    S.eq("Poisson inflation design", m.Z, d[["z"]].to_numpy())
    S.eq("Poisson parameters", len(m.params_init), 3)
