"""Cumulative-link (ordinal) models."""
import math
import numpy as np
import scipy as sp
from types import SimpleNamespace
from symx import harness as HM, expr as EX
from symx.harness import harness
from pystatsm.pyglm2.clm import CLM, OrderedTransform as OT
from pystatsm.pyglm2.regression_model import OrdinalModelData
from pystatsm.pyglm2 import links as L
from .fam import npx, rec, stub

HARNESSES = []
FUNCTIONS = ["pystatsm.pyglm2.clm.OrderedTransform.*", "pystatsm.pyglm2.clm.CLM.{_loglike,_loglike_unconstrained,_gradient,_gradient_i,"
             "_gradient_unconstrained,_gradient_unconstrained_i,_hessian,_hessian_unconstrained,fit,predict,_jacknife}",
             "pystatsm.pyglm2.regression_model.OrdinalModelData.{compute_ordinal_matrices,_get_initial_thresholds}"]
BOUNDS = ("arbitrary smooth cumulative distribution as inverse link (uninterpreted with its derivatives), 1 to 3 thresholds, 3 observations "
          "covering all category patterns, 1 to 2 regressors, arbitrary positive weights; data encoding for every response pattern of length 3 over 3 values")
ASSUMPTIONS = ["the saturating offsets (+300 for the last category, -10^6 for the first) stand for plus and minus infinity: |x'beta| < 200"]


def _F(k, x):
    x = min(max(x, -700.0), 700.0)
    p = 1 / (1 + math.exp(-x)) if x > 0 else math.exp(x) / (1 + math.exp(x))
    q = p * (1 - p)
    return (p, q, q * (1 - 2 * p), q * (1 - 6 * p + 6 * p * p))[k]


HM.UF_INF["Fcl"] = (0, 1)


class Mock(L.Link):
    def __init__(self, S):
        self.F = S.func("Fcl", _F, sign={1: 1})

    def _a(self, k, x):
        if isinstance(x, np.ndarray) and not hasattr(x, "values"):
            return np.vectorize(lambda v: self.F(k, v))(x)
        return self.F(k, x)

    def inv_link(self, x):
        return self._a(0, x)

    def dinv_link(self, x):
        return self._a(1, x)

    def d2inv_link(self, x):
        return self._a(2, x)

    def link(self, x):
        raise NotImplementedError

    dlink = d2link = d3link = d4link = link


def setup(S, q, p, cats, ordered=True):
    """data matrices for the given observed categories (0..q)"""
    n = len(cats)
    X = S.array("X", (n, p), sample=(-1, 1))
    w = S.array("w", n, 0, None, (0.5, 2))
    A1 = np.array([[1.0 if c == j else 0.0 for j in range(q)] for c in cats])
    A2 = np.array([[1.0 if c == j + 1 else 0.0 for j in range(q)] for c in cats])
    B1 = np.concatenate([S.const(A1), -X], axis=1)
    B2 = np.concatenate([S.const(A2), -X], axis=1)
    big = EX.PINF() if S.sym else 300.0
    o1 = S.const(np.zeros(n))
    o2 = S.const(np.zeros(n))
    for i, c in enumerate(cats):
        if c == q:
            o1[i] = big
        if c == 0:
            o2[i] = -big if S.sym else -1e6
    ix = np.array([c == q for c in cats])
    a = S.array("a", q, sample=(-0.7, 0.7))        # unconstrained thresholds
    b = S.array("b", p, sample=(-0.7, 0.7))
    return X, w, (B1, B2, o1, o2, ix, w), a, b


def ref(S, link, X, w, tau, b, cats, q):
    X_ = npx(S)
    out = []
    for i, c in enumerate(cats):
        xb = sum(X[i, j] * b[j] for j in range(len(b)))
        hi = link.F(0, tau[c] - xb) if c < q else 1
        lo = link.F(0, tau[c - 1] - xb) if c > 0 else 0
        out.append(-w[i] * X_.log(hi - lo))
    return out


PATTERNS = [(1, 1, (0, 1, 1)), (2, 1, (0, 1, 2)), (3, 2, (0, 2, 3)), (3, 1, (1, 2, 3)), (2, 2, (2, 0, 1))]


def _mk(q, p, cats):
    pre = "q%d.p%d.%s." % (q, p, "".join(map(str, cats)))
    tn = ["a_%d" % i for i in range(q)]
    nm = tn + ["b_%d" % i for i in range(p)]

    @harness(HARNESSES, pre + "constrained", points=2)
    def h(S):
        link = Mock(S)
        X, w, data, tau, b = setup(S, q, p, cats)
        for i in range(q - 1):
            S.assume_lt(tau[i], tau[i + 1])
        th = np.concatenate([tau, b])
        ll = CLM._loglike(th, data, link, q)
        S.eq("log-likelihood", ll, sum(ref(S, link, X, w, tau, b, cats, q)))
        g = CLM._gradient(th, data, link, q)
        gi = CLM._gradient_i(th, data, link, q)
        H = CLM._hessian(th, data, link, q)
        S.eq("observation gradients add up", gi.sum(axis=0), g)
        rl = ref(S, link, X, w, tau, b, cats, q)
        for j, v in enumerate(nm):
            S.deriv("gradient", g[j], ll, v)
            for i in range(len(cats)):
                S.deriv("observation gradient", gi[i, j], rl[i], v)
            for k in range(len(nm)):
                S.deriv("Hessian", H[k, j], g[k], v)

    @harness(HARNESSES, pre + "unconstrained", points=2)
    def h(S):
        link = Mock(S)
        X, w, data, a, b = setup(S, q, p, cats)
        th = np.concatenate([a, b])
        X_ = npx(S)
        tau = [a[0]]
        for i in range(1, q):
            tau.append(tau[-1] + X_.exp(a[i]))
        ll = CLM._loglike_unconstrained(th, data, link, q)
        S.eq("log-likelihood", ll, sum(ref(S, link, X, w, tau, b, cats, q)))
        g = CLM._gradient_unconstrained(th, data, link, q)
        gi = CLM._gradient_unconstrained_i(th, data, link, q)
        H = CLM._hessian_unconstrained(th, data, link, q)
        S.eq("observation gradients add up", gi.sum(axis=0), g)
        rl = ref(S, link, X, w, tau, b, cats, q)
        for j, v in enumerate(nm):
            S.deriv("gradient", g[j], ll, v)
            for i in range(len(cats)):
                S.deriv("observation gradient", gi[i, j], rl[i], v)
            for k in range(len(nm)):
                S.deriv("Hessian", H[k, j], g[k], v)


for _a in PATTERNS:
    _mk(*_a)


def _ot(q, extra):
    @harness(HARNESSES, "thresholds.q%d.%d" % (q, extra), points=3)
    def h(S):
        a = S.array("a", q + extra, sample=(-1, 1))
        t = OT._rvs(a, q)
        for i in range(1, q):
            S.lt("thresholds increase", t[i - 1], t[i])
        S.eq("transform round trip", OT._fwd(t, q), a)
        S.eq("remaining coordinates unchanged", t[q:], a[q:])
        J = OT._jac_rvs(a[:q], q)
        Hs = OT._hess_rvs(a[:q], q)
        S.eq("shape", np.array(J.shape), np.array([q, q]))
        for j in range(q):
            for i in range(q):
                S.deriv("Jacobian of the reverse transform", J[i, j], t[i], "a_%d" % j)
                for k in range(q):
                    S.deriv("second derivative of the reverse transform", Hs[i, k, j], J[i, k], "a_%d" % j)

    @harness(HARNESSES, "thresholds.forward.q%d" % q, points=3)
    def h(S):
        x = S.array("x", q, sample=(-1, 1))
        for i in range(q - 1):
            S.assume_lt(x[i], x[i + 1])
        y = OT._fwd(x, q)
        S.eq("forward round trip", OT._rvs(y, q), x)
        J = OT._jac_fwd(x, q)
        Hs = OT._hess_fwd(x, q)
        for j in range(q):
            for i in range(q):
                S.deriv("Jacobian of the forward transform", J[i, j], y[i], "x_%d" % j)
                for k in range(q):
                    S.deriv("second derivative of the forward transform", Hs[i, k, j], J[i, k], "x_%d" % j)


for _q in (1, 2, 3, 4):
    _ot(_q, 2)


def _data(n, m, lo):
    @harness(HARNESSES, "encoding.n%d.m%d" % (n, m), paths=100, points=1)
    def h(S):
        y = np.array([float(int(S.integer("y%d" % i, 0, m - 1))) for i in range(n)]) + lo
        if len(set(y)) < 2:
            return
        X = S.array("X", (n, 2), sample=(-1, 1))
        d = OrdinalModelData(X, y)
        u = sorted(set(y))
        q = len(u) - 1
        B1, B2, o1, o2, ix = d.data
        S.eq("number of thresholds", d.q, q)
        S.eq("category labels", np.asarray(d.unique), np.array(u))
        S.eq("category counts", np.asarray(d.counts), np.array([list(y).count(v) for v in u]))
        k = [u.index(v) for v in y]
        S.eq("upper threshold selection", B1[:, :q], [[1 if c == j else 0 for j in range(q)] for c in k])
        S.eq("lower threshold selection", B2[:, :q], [[1 if c == j + 1 else 0 for j in range(q)] for c in k])
        S.eq("upper regression part", B1[:, q:], -X)
        S.eq("lower regression part", B2[:, q:], -X)
        S.eq("upper saturation", np.asarray(o1) >= 100, [c == q for c in k])
        S.eq("upper offset elsewhere", np.where(np.asarray(o1) >= 100, 0, o1), np.zeros(n))
        S.eq("lower saturation", np.asarray(o2) <= -100, [c == 0 for c in k])
        S.eq("lower offset elsewhere", np.where(np.asarray(o2) <= -100, 0, o2), np.zeros(n))
        S.eq("saturation mask", np.asarray(ix), [c == q for c in k])
        t = np.asarray(d.tau_init, dtype=float)
        S.true("initial thresholds increase", bool(np.all(np.diff(t) > 0)))
        cum = [sum(1 for v in y if v <= u[j]) / n for j in range(q)]
        S.eq("initial thresholds are the marginal quantiles", sp.special.ndtr(t), np.array(cum), tol=1e-9)


_data(3, 3, 0)
_data(4, 2, 1)


def _fit(q, p, cats):
    @harness(HARNESSES, "fit.q%d.p%d" % (q, p), points=2)
    def h(S):
        link = Mock(S)
        X, w, data, a, b = setup(S, q, p, cats)
        n = len(cats)
        m = object.__new__(CLM)
        u = list(range(q + 1))
        md = type("MD", (tuple,), {})(data)
        md.unique = np.array(u)
        m.model_data, m.X, m.weights, m.link, m.q = md, X, w, link, q
        m.n = m.n_obs = n
        m.p = p
        A1 = np.array([[1.0 if c == j else 0.0 for j in range(q)] for c in cats])
        A2 = np.array([[1.0 if c == j + 1 else 0.0 for j in range(q)] for c in cats])
        m.A1, m.A2 = sp.sparse.csc_matrix(A1), sp.sparse.csc_matrix(A2)
        m.o1, m.o2, m.o1ix = data[2], data[3], data[4]
        m.xinds = np.arange(n)
        m.tau_labels = ["t%d" % i for i in range(q)]
        m.beta_labels = ["x%d" % i for i in range(p)]
        m.param_labels = m.tau_labels + m.beta_labels
        a0 = S.array("a0", q + p, sample=(-0.5, 0.5))
        m.params_init = a0
        z = S.array("z", q + 1, sample=(-0.5, 0.5))
        seen = []

        def fake_fit(params=None, opt_kws=None, data=None, **k):
            seen.append((params, data))
            if data is None:
                return np.concatenate([a, b]), None
            return z, None
        m._fit = fake_fit
        tab = []
        m._parameter_inference = rec(m._parameter_inference, tab)
        S.cut_method(m, "hessian", "H")
        for i in range(q - 1):
            S.assume_lt(a[i], a[i + 1])
        th = np.concatenate([a, b])
        m.params_hess = m.hessian(th)
        C = np.linalg.inv(m.params_hess)
        for i in range(q + p):
            S.assume_lt(0, C[i, i])
        m.fit()
        S.eq("estimates", m.params, th)
        S.eq("covariance inverts the Hessian", m.params_cov @ m.params_hess, np.eye(q + p))
        S.eq("standard errors squared", m.params_se**2, [m.params_cov[i, i] for i in range(q + p)])
        S.eq("table standard errors", tab[0][1], m.params_se)
        S.eq("residual degrees of freedom", tab[0][2], n - q - p)
        S.eq("coefficients", m.beta, b)
        S.eq("coefficient standard errors", m.beta_se, m.params_se[q:])
        S.eq("log-likelihood", m.llf, CLM._loglike(th, data, link, q))
        # null model: thresholds only (shifted by a common constant)
        X_ = npx(S)
        ones = S.const(np.ones((n, 1)))
        S.eq("null log-likelihood", m.lln, sum(ref(S, link, ones, w, z[:q], z[q:], cats, q)))
        S.eq("null data", tuple(seen[1][1])[0], np.concatenate([S.const(A1), -ones], axis=1))
        S.eq("null weights", tuple(seen[1][1])[5], w)
        S.eq("AIC", m.aic, 2 * m.llf + 2 * (q + p))
        S.eq("likelihood ratio", m.llr, 2 * (m.lln - m.llf))


_fit(2, 1, (0, 1, 2, 1, 0))
_fit(1, 1, (0, 1, 1, 0))


def _pred(q, p):
    @harness(HARNESSES, "predict.q%d.p%d" % (q, p), points=2)
    def h(S):
        link = Mock(S)
        X = S.array("X", (2, p), sample=(-1, 1))
        a = S.array("a", q, sample=(-1, 1))
        b = S.array("b", p, sample=(-1, 1))
        C, _ = S.posdef("C", q + p)
        m = object.__new__(CLM)
        m.q, m.link, m.X = q, link, X
        m.params, m.params_cov = np.concatenate([a, b]), C
        m.xinds = np.arange(2)
        m.model_data = SimpleNamespace(unique=np.arange(q + 1))
        lp, pr, cp = m.predict(ci_level=0.9)
        zc = float(sp.special.ndtri(0.95))
        X_ = npx(S)
        for i in range(2):
            xb = sum(X[i, j] * b[j] for j in range(p))
            tot = 0
            for c in range(q + 1):
                hi = link.F(0, a[c] - xb) if c < q else 1
                lo = link.F(0, a[c - 1] - xb) if c > 0 else 0
                v = np.asarray(pr["mean"])[i, c]
                S.eq("category probability", v, hi - lo)
                tot = tot + v
            S.eq("category probabilities add to one", tot, 1)
            for c in range(q):
                S.eq("linear predictor", np.asarray(lp["mean"])[i, c], a[c] - xb)
                S.eq("cumulative probability", np.asarray(cp["mean"])[i, c], link.F(0, a[c] - xb))
                # variance of tau_c - x'beta
                d = np.concatenate([S.const(np.eye(q)[c]), -X[i]])
                v = d @ C @ d
                S.eq("standard error squared", np.asarray(lp["se"])[i, c]**2, v)
                S.eq("lower limit", np.asarray(lp["lower"])[i, c], a[c] - xb - zc * X_.sqrt(v), tol=1e-6)
                S.eq("upper limit", np.asarray(lp["upper"])[i, c], a[c] - xb + zc * X_.sqrt(v), tol=1e-6)
                S.eq("lower cumulative limit", np.asarray(cp["lower"])[i, c], link.F(0, np.asarray(lp["lower"])[i, c]))


_pred(2, 2)
_pred(3, 1)


def _jack(q, p, cats):
    @harness(HARNESSES, "deletion.q%d.p%d" % (q, p), points=2)
    def h(S):
        link = Mock(S)
        X, w, data, tau, b = setup(S, q, p, cats)
        n = len(cats)
        for i in range(q - 1):
            S.assume_lt(tau[i], tau[i + 1])
        C, _ = S.posdef("C", q + p)
        m = object.__new__(CLM)
        m.q, m.link, m.model_data, m.X = q, link, data, X
        m.n_obs, m.n_params, m.xinds = n, q + p, np.arange(n)
        m.param_labels = ["t%d" % i for i in range(q + p)]
        th = np.concatenate([tau, b])
        m.params, m.params_cov = th, C
        J = np.asarray(m._jacknife(method="one-step", verbose=False))
        gi = CLM._gradient_i(th, data, link, q)
        for i in range(n):
            S.eq("one-step deletion estimate", J[i], th + C @ gi[i])
        calls = []

        def fake(params=None, data=None, **k):
            calls.append((params, data))
            return params + len(calls), None
        m._fit = fake
        J = np.asarray(m._jacknife(method="optimize", verbose=False))
        un = OT._fwd(th.copy(), q)
        for i in range(n):
            k = [j for j in range(n) if j != i]
            S.eq("deletion refit starts at the estimate", calls[i][0], un)
            for a, c in zip(calls[i][1], data):
                S.eq("deletion refit drops one observation", a, np.asarray(c)[k])
            S.eq("deletion refit stored", J[i], un + (i + 1))


_jack(2, 1, (0, 1, 2, 1))


@harness(HARNESSES, "fit.options", points=1)
def h_opts(S):
    m = object.__new__(CLM)
    got = []

    class Stop(BaseException):
        pass

    def fake(*a, **k):
        got.append((a, k))
        raise Stop
    m._fit = fake
    for a, k in (((), {}), ((), dict(opt_kws=dict(method="bfgs"))), (("bfgs",), {})):
        try:
            m.fit(*a, **k)
        except Stop:
            pass
    want = [{}, {"method": "bfgs"}, {"method": "bfgs"}]
    for (a, k), v in zip(got, want):
        S.true("optimiser options reach the optimiser", (not a) and (k.get("opt_kws") or {}) == v and not [x for x in k if x != "opt_kws"])
