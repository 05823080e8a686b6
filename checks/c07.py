"""Ordinary least squares."""
import numpy as np
import scipy as sp
from types import SimpleNamespace
from symx.harness import harness
from pystatsm.pyglm2 import ols as O
from pystatsm.pyglm2.ols import OLS
from pystatsm.pyglm import linear_model as LG
from pystatsm.pyglm.linear_model import LinearModel
from .fam import npx, stat, rec, stub

HARNESSES = []
FUNCTIONS = ["pystatsm.pyglm2.ols.OLS.{_loglike,_gradient,_hessian,_fit1,_fit2,_fit,fit,_get_coef_constrained,_bootstrap,bootstrap_chol,_permutation_test,predict}",
             "pystatsm.pyglm.linear_model.LinearModel.{_loglike,_gradient,_hessian,_fit1,_fit2,_fit,_get_coef_constrained,_bootstrap,bootstrap_chol,_permutation_test}",
             "pystatsm.utilities.output.get_param_table"]
KINDS = [("", OLS, O), ("legacy.", LinearModel, LG)]
BOUNDS = ("arbitrary real responses and coefficients, arbitrary real 3x2 designs of full column rank (5x2 constant designs for the post-fit statistics), one or two "
          "linear constraints, every resample and permutation of 3 or 4 observations")
XC = np.array([[1.0, 1], [1, -1], [1, 2], [1, 0], [1, -3]])


def model(S, n=5, X=None, K=OLS):
    X = S.const(XC[:n]) if X is None else X
    y = S.array("y", n, sample=(-2, 2))
    m = object.__new__(K)
    m.X, m.y = X, y
    m.n = m.n_obs = n
    m.p = m.n_var = X.shape[1]
    m.xcols = ["x%d" % i for i in range(m.p)]
    return m, X, y


def _lik(reml, pre, K):
    @harness(HARNESSES, pre + "likelihood.reml%d" % reml, points=2)
    def h(S):
        X = S.array("X", (3, 2), sample=(-1, 1))
        m, X, y = model(S, 3, X, K)
        b = S.array("b", 2, sample=(-1, 1))
        t = S.real("t", None, None, (-1, 1))
        th = np.concatenate([b, S.const(np.zeros(1)) + t])
        E = npx(S)
        N = 1 if reml else 3
        r = [y[i] - X[i, 0] * b[0] - X[i, 1] * b[1] for i in range(3)]
        ll = m.loglike(th, reml=bool(reml))
        S.eq("negative log-likelihood", ll, N * (E.log(2 * E.pi) + t) / 2 + sum(v * v for v in r) * E.exp(-t) / 2)
        g = m.gradient(th, reml=bool(reml))
        H = m.hessian(th, reml=bool(reml))
        for j, v in enumerate(["b_0", "b_1", "t"]):
            S.deriv("gradient", g[j], ll, v)
            for k in range(3):
                S.deriv("Hessian", H[k, j], g[k], v)


for _p, _K, _M in KINDS:
    _lik(0, _p, _K)
    _lik(1, _p, _K)


def _fitters(which, reml, pre, K):
    @harness(HARNESSES, pre + "%s.reml%d" % (which, reml), points=2)
    def h(S):
        X = S.array("X", (3, 2), sample=(-1, 1))
        m, X, y = model(S, 3, X)
        S.assume_lt(0, (X[:, 0] @ X[:, 0]) * (X[:, 1] @ X[:, 1]) - (X[:, 0] @ X[:, 1])**2)
        S.assume_lt(0, X[:, 0] @ X[:, 0])
        G, Gi, L, Li, sse, beta, params = getattr(K, which)(None, (X, y), reml=bool(reml))
        E = npx(S)
        S.eq("Gram matrix", G, X.T @ X)
        S.eq("Gram inverse", Gi @ G, np.eye(2))
        S.eq("Cholesky factor", L @ L.T, G)
        S.eq("factor inverse", Li @ L, np.eye(2))
        r = y - X @ beta
        S.eq("normal equations", X.T @ r, np.zeros(2))
        S.eq("residual sum of squares", sse, r @ r)
        S.eq("stored coefficients", params[:2], beta)
        S.assume_lt(0, sse)
        S.eq("log scale", E.exp(params[2]) * (1 if reml else 3), sse)


for _w in ("_fit1", "_fit2"):
    for _r in (0, 1):
        for _p, _K, _M in KINDS:
            _fitters(_w, _r, _p, _K)


def _post(reml, pre, K, M):
    @harness(HARNESSES, pre + "fit.reml%d" % reml, points=2)
    def h(S):
        m, X, y = model(S, K=K)
        r = y - X @ K._fit2(None, (X, y))[5]
        S.assume_lt(0, r @ r)
        tab = []
        with stub(M.output, "get_param_table", rec(M.output.get_param_table, tab)):
            (m.fit if K is OLS else m._fit)(reml=bool(reml))
        E = npx(S)
        n, p = 5, 2
        N = n - p if reml else n
        r = y - X @ m.beta
        rss = r @ r
        S.eq("normal equations", X.T @ r, np.zeros(2))
        S.eq("scale squared", m.scale**2, rss / N)
        S.eq("ML scale squared", m.scale_ml**2, rss / n)
        S.eq("unbiased scale squared", m.scale_unbiased**2, rss / (n - p))
        S.eq("the estimate is a stationary point", m.gradient(m.params, reml=bool(reml)), np.zeros(3))
        s2 = rss / N
        S.eq("coefficient covariance", m.params_cov[:2, :2] @ (XC.T @ XC), np.eye(2) * s2)
        S.eq("standard errors squared", m.params_se**2, [m.params_cov[i, i] for i in range(3)])
        S.eq("table estimates", tab[0][0], m.params)
        S.eq("table standard errors", tab[0][1], m.params_se)
        S.eq("table degrees of freedom", tab[0][2], n - p)
        if K is not OLS:
            return
        S.eq("fitted values", m.yhat, X @ m.beta)
        yb = sum(y) / n
        sst = sum((v - yb)**2 for v in y)
        S.assume_lt(0, sst)
        f = X @ m.beta
        ssm = sum((v - yb)**2 for v in f)
        S.eq("sum of squares decomposition", rss + ssm, sst)
        q = m.ssq
        a = np.asarray(q)
        S.eq("sums of squares", a[:, 0], [rss, ssm, sst])
        S.eq("degrees of freedom", a[:, 1], [n - p, p - 1, n - 1])
        S.eq("mean squares", a[:, 2], [rss / (n - p), ssm / (p - 1), sst / (n - 1)])
        st = np.asarray(m.sumstats)
        S.eq("R squared", st[0, 0], ssm / sst)
        S.eq("adjusted R squared", st[1, 0], 1 - (1 - ssm / sst) * (n - 1) / (n - p))
        F = (ssm / (p - 1)) / (rss / (n - p))
        S.eq("F statistic", st[2, 0], F)
        S.eq("F p-value", st[2, 1], stat(S, "f", "sf", F, p - 1, n - p), tol=1e-7)
        Xn = S.array("N", (2, 2), sample=(-1, 1))
        S.eq("prediction", m.predict(Xn), Xn @ m.beta)


for _p, _K, _M in KINDS:
    _post(0, _p, _K, _M)
    _post(1, _p, _K, _M)


def _constr(k, how, pre, K):
    @harness(HARNESSES, pre + "constrained.k%d.%s" % (k, how), points=2)
    def h(S):
        p = 3
        Xc = np.array([[1.0, 1, 0], [1, -1, 1], [1, 2, 0], [1, 0, 2]])
        X = S.const(Xc)
        y = S.array("y", 4, sample=(-2, 2))
        if k == 1:
            C = S.array("C", (1, p), sample=(-1, 1))
            S.assume_lt(0, C[0] @ C[0])
        else:
            C = S.const(np.array([[1.0, 0, 0], [0, 1, 0]])) * 1
            if how == "zero":
                C[0, 2] = S.real("c0", None, None, (-1, 1))
            else:
                C[0, 2] = S.const(2.0)
            C[1, 2] = S.const(-1.0)
        d = None if how == "zero" else S.array("d", k, sample=(-1, 1))
        G, Gi, L, Li, sse, beta, params = K._fit2(None, (X, y))
        kw = {} if how == "zero" else dict(Linv=Li) if how == "Linv" else dict(L=L)
        bc, sc = K._get_coef_constrained(params, sse, (X, y), C, d, **kw)
        S.eq("constraint holds", C @ bc, np.zeros(k) if d is None else d)
        r = y - X @ bc
        S.eq("constrained residual sum of squares", sc, r @ r)
        g = X.T @ r
        # optimality: X'r lies in the row space of C
        if k == 1:
            S.eq("optimal among coefficients satisfying the constraint", [g[0] * C[0, 1] - g[1] * C[0, 0], g[0] * C[0, 2] - g[2] * C[0, 0],
                                                                        g[1] * C[0, 2] - g[2] * C[0, 1]], np.zeros(3))
        else:
            S.eq("optimal among coefficients satisfying the constraint", g[2] - C[0, 2] * g[0] - C[1, 2] * g[1], 0)


for _k, _h in ((1, "zero"), (1, "Linv"), (1, "L"), (2, "Linv"), (2, "zero")):
    for _p, _K, _M in KINDS:
        _constr(_k, _h, _p, _K)


def _boot(pre, K):
    @harness(HARNESSES, pre + "bootstrap", paths=100, points=1)
    def h_boot(S):
        m, X, y = model(S, 4, K=K)
        ix = np.array([S.integer("i%d" % i, 0, 3) for i in range(3)] + [0]).astype(int)
        ix[3] = (ix[0] + 1) % 4
        calls = []

        def choice(a, size=None, replace=True, p=None):
            calls.append((a, size, replace))
            return ix
        Xb = XC[ix]
        full = np.linalg.matrix_rank(Xb) == 2
        if not full:
            return
        with stub(np.random, "choice", choice):
            P = m._bootstrap(1, verbose=False)
            P2 = m._bootstrap_jitted(1)
        S.true("resamples with replacement", all(c[0] == 4 and c[1] == 4 and c[2] for c in calls))
        for nm, Q in (("bootstrap", P), ("compiled bootstrap", P2)):
            b = Q[0, :2]
            r = y[ix] - Xb @ b
            S.eq(nm + ": least squares on the resample", Xb.T @ r, np.zeros(2))
            S.eq(nm + ": residual sum of squares of the resample", Q[0, 2], r @ r)


for _p, _K, _M in KINDS:
    _boot(_p, _K)


class _Perm:
    def __init__(self, ps):
        self.ps = list(ps)

    def permutation(self, n):
        return np.array(self.ps.pop(0))


def _perm(perms, y0, tier, pre, K):
    @harness(HARNESSES, pre + "permutation." + "_".join("".join(map(str, p)) for p in perms), paths=80, points=2, tier=tier)
    def h(S):
        m, X, y = model(S, 4, K=K)
        for i, v in enumerate(y0):
            if v is not None:
                y[i] = S.const(np.array([float(v)]))[0]
        n, p = 4, 2
        xc = S.const(XC[:4, 1]) - sum(XC[:4, 1]) / 4
        sxx = xc @ xc

        def t2(z):
            b1 = xc @ z / sxx
            zc = z - sum(z) / 4
            return b1 * b1, (zc @ zc - b1 * b1 * sxx) / (n - p) / sxx
        # reference: refit the permuted response under the model without the tested column
        a0, v0 = t2(y)
        S.assume_lt(0.001, v0)
        u = sum(y) / 4
        m.beta, m.sse = None, None
        G, Gi, L, Li, m.sse, m.beta, m.params = K._fit2(None, (X, y))
        more = []
        for q in perms:
            a, v = t2(u + (y - u)[np.array(q)])
            S.assume_lt(0.001, v)
            d = a * v0 - a0 * v
            if q != (0, 1, 2, 3):
                S.assume_lt(0.0001, d * d)      # no ties: rounding decides those
                more.append(d)
        pf, pu = m._permutation_test([1], n_perms=len(perms), verbose=False, rng=_Perm(perms))
        cnt = sum(1 if bool(d > 0) else 0 for d in more)
        S.eq("p-value is the share of more extreme permutations", pu[0], cnt / len(perms), tol=1e-9)
        S.eq("family-wise p-value with one coefficient", pf[0], cnt / len(perms), tol=1e-9)


for _p, _K, _M in KINDS:
    _perm([(1, 0, 2, 3)], (None, 0, 1, 3), "quick", _p, _K)
    _perm([(3, 2, 1, 0)], (2, None, 0, -1), "quick", _p, _K)
    _perm([(2, 0, 3, 1), (0, 3, 1, 2)], (1, 4, None, 2), "thorough", _p, _K)
