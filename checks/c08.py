"""Multivariate least squares (MVOLS)."""
import numpy as np
import scipy.linalg
import scipy as sp
from types import SimpleNamespace
from symx.harness import harness
from pystatsm.pyglm2 import mvols as MV
from pystatsm.pyglm2.mvols import MVOLS, MMRParameterPacker as PK
from .fam import npx, stat, rec, stub

HARNESSES = []
FUNCTIONS = ["pystatsm.pyglm2.mvols.MMRParameterPacker.*", "pystatsm.pyglm2.mvols.{_omega_first_stack,_precision_chol_from_sigma,_manova_stats,"
             "_wilks_ftest,_pillai_ftest,_hotelling_ftest,_roy_ftest,_canonical_eigenvalues}",
             "pystatsm.pyglm2.mvols.MVOLS.{_closed_form_theta,_loglike,_gradient,_gradient_i,_hessian,_store_estimates,_store_sscp,_hypothesis_sscp,"
             "test_hypothesis,_term_contrasts,multivariate_tests,_measures_of_association,_response_rsquared,_store_association,_store_summary,predict}"]
BOUNDS = ("1 to 3 responses, 1 to 2 regressors, 2 to 4 observations, arbitrary positive weights; canonical eigenvalues are arbitrary numbers in (0,1); "
          "MANOVA F approximations for the degrees of freedom listed in the harness names (error degrees of freedom large enough for n_par > 1)")
ASSUMPTIONS = ["the generalized symmetric eigenvalue routine is trusted: the check verifies the matrices it is given and everything computed from its result"]


def lik(S, n, p, q):
    X = S.array("X", (n, p), sample=(-1, 1))
    Y = S.array("Y", (n, q), sample=(-1, 1))
    w = S.array("w", n, 0, None, (0.5, 2))
    pk = PK(p, q)
    th = S.array("t", pk.n_params, sample=(-0.7, 0.7))
    E = npx(S)
    B = [[th[j * p + i] for j in range(q)] for i in range(p)]
    L = [[0] * q for _ in range(q)]
    k = p * q
    for r in range(q):
        for c in range(r + 1):
            L[r][c] = E.exp(th[k]) if r == c else th[k]
            k += 1
    out = []
    for i in range(n):
        e = [Y[i, j] - sum(X[i, a] * B[a][j] for a in range(p)) for j in range(q)]
        u = [sum(e[r] * L[r][c] for r in range(q)) for c in range(q)]
        out.append(w[i] * (sum(v * v for v in u) / 2 - sum(E.log(L[r][r]) for r in range(q)) + q * E.log(2 * E.pi) / 2))
    return X, Y, w, pk, th, B, L, out


def _mk(n, p, q, tier="quick"):
    pre = "n%d.p%d.q%d." % (n, p, q)

    @harness(HARNESSES, pre + "likelihood", points=2, tier=tier)
    def h(S):
        X, Y, w, pk, th, B, L, r = lik(S, n, p, q)
        d = (X, Y, w)
        Bc, Lc = pk.unpack(th)
        S.eq("coefficients unpack", Bc, B)
        S.eq("precision factor unpacks", Lc, L)
        S.eq("pack round trip", pk.pack(Bc, Lc), th)
        ll = MVOLS._loglike(th, d, pk)
        S.eq("negative log-likelihood", ll, sum(r), tol=1e-9)
        g = MVOLS._gradient(th, d, pk)
        gi = MVOLS._gradient_i(th, d, pk)
        S.eq("shape", np.array(gi.shape), np.array([n, pk.n_params]))
        for j in range(pk.n_params):
            S.deriv("gradient", g[j], sum(r), "t_%d" % j)
            for i in range(n):
                S.deriv("observation gradient", gi[i, j], r[i], "t_%d" % j)

    @harness(HARNESSES, pre + "hessian", points=2, tier=tier)
    def h(S):
        X, Y, w, pk, th, B, L, r = lik(S, n, p, q)
        d = (X, Y, w)
        g = MVOLS._gradient(th, d, pk)
        H = MVOLS._hessian(th, d, pk)
        S.eq("shape", np.array(H.shape), np.array([pk.n_params] * 2))
        for j in range(pk.n_params):
            for k in range(pk.n_params):
                S.deriv("Hessian", H[k, j], g[k], "t_%d" % j)


_mk(2, 1, 1)
_mk(2, 2, 2)
_mk(1, 1, 3)
_mk(2, 2, 3, "thorough")


@harness(HARNESSES, "labels", points=1)
def h_lab(S):
    pk = PK(2, 2, ["a", "b"], ["u", "v"])
    S.true("coefficient labels follow the packing order", pk.beta_labels() == ["u~a", "u~b", "v~a", "v~b"])
    S.true("covariance labels follow the packing order", pk.cov_labels() == ["log_chol_prec[u,u]", "chol_prec[v,u]", "log_chol_prec[v,v]"])
    S.true("labels cover the parameter vector", len(pk.theta_labels()) == pk.n_params == 7)


XC = np.array([[1.0, 1], [1, -1], [1, 2], [1, 0]])


def model(S, n, q, wconst=None):
    m = object.__new__(MVOLS)
    m.X = S.const(XC[:n])
    m.Y = S.array("Y", (n, q), sample=(-2, 2))
    m.weights = S.array("w", n, 0, None, (0.5, 2)) if wconst is None else S.const(np.array(wconst, dtype=float))
    m.model_data = (m.X, m.Y, m.weights)
    m.n = m.n_obs = n
    m.p, m.q = 2, q
    m.term_names, m.response_names = ["c", "x"], ["y%d" % i for i in range(q)]
    m.packer = PK(2, q, m.term_names, m.response_names)
    m.param_labels = m.packer.theta_labels()
    m.x_design_info = None
    return m


def _closed(n, q, wc):
    @harness(HARNESSES, "closed-form.n%d.q%d.%s" % (n, q, "w" if wc is None else "c"), points=2)
    def h(S):
        m = model(S, n, q, wc)
        w = m.weights
        # residual sums of squares and products must be positive definite
        W = [[sum(w[i] * XC[i, a] * XC[i, b] for i in range(n)) for b in range(2)] for a in range(2)]
        det = W[0][0] * W[1][1] - W[0][1] * W[1][0]
        WY = [[sum(w[i] * XC[i, a] * m.Y[i, j] for i in range(n)) for j in range(q)] for a in range(2)]
        B = [[(W[1][1] * WY[0][j] - W[0][1] * WY[1][j]) / det for j in range(q)], [(W[0][0] * WY[1][j] - W[1][0] * WY[0][j]) / det for j in range(q)]]
        R = [[m.Y[i, j] - XC[i, 0] * B[0][j] - XC[i, 1] * B[1][j] for j in range(q)] for i in range(n)]
        Sg = [[sum(w[i] * R[i][a] * R[i][b] for i in range(n)) / sum(w) for b in range(q)] for a in range(q)]
        S.assume_lt(0, Sg[0][0])
        if q == 2:
            S.assume_lt(0, Sg[0][0] * Sg[1][1] - Sg[0][1] * Sg[0][1])
        th = m._closed_form_theta()
        Bc, L = m.packer.unpack(th)
        S.eq("weighted least squares coefficients", Bc, B)
        Om = L @ L.T
        S.eq("precision inverts the weighted residual covariance", Om @ np.array(Sg, dtype=object if S.sym else float), np.eye(q), tol=1e-6)
        if q == 1 and n == 3:
            S.eq("closed form is a stationary point", MVOLS._gradient(th, m.model_data, m.packer), np.zeros(m.packer.n_params), tol=1e-6)


_closed(3, 1, None)
_closed(4, 1, None)
_closed(4, 2, (1, 2, 1, 3))


@harness(HARNESSES, "stationary.q2", points=2)
def h_stat(S):
    # if X'W(Y - XB) = 0 and Omega^-1 = E'WE/sum(w) the gradient vanishes
    m = model(S, 3, 2)
    w = m.weights
    pk = m.packer
    th = S.array("t", pk.n_params, sample=(-0.7, 0.7))
    B, L = pk.unpack(th)
    g = MVOLS._gradient(th, m.model_data, pk)
    E = m.Y - m.X @ B
    M = E.T @ (E * w[:, None])
    Om = L @ L.T
    gb = -(m.X * w[:, None]).T @ E @ Om
    S.eq("coefficient score", g[:4], np.asarray(gb).ravel(order="F"))
    # score of the precision factor: -(sum(w) L^-T - M L) on the lower triangle
    D = M @ L
    S.eq("factor score (0,0)", g[4], (D[0, 0] - sum(w) / L[0, 0]) * L[0, 0])
    S.eq("factor score (1,0)", g[5], D[1, 0])
    S.eq("factor score (1,1)", g[6], (D[1, 1] - sum(w) / L[1, 1]) * L[1, 1])


def _sscp(q, n):
    @harness(HARNESSES, "sscp.q%d" % q, points=2)
    def h(S):
        m = model(S, n, q, None if q == 1 else (1, 2, 1, 3))
        w = m.weights
        pk = m.packer
        th = m.params = m._closed_form_theta() if q == 1 else None
        if q == 1:
            B, L = pk.unpack(th)
        else:
            W = XC[:n] * np.array([1, 2, 1, 3.0])[:n, None]
            B = S.const(np.array([[4.0, 1], [1, 7]])[::-1, ::-1] * 0) if False else np.linalg.solve(S.const(W.T @ XC[:n]), S.const(W.T) @ m.Y)
        m.beta = B
        m.fitted_values = m.X @ B
        m.residuals = m.Y - m.fitted_values
        m._store_sscp()
        R = m.residuals
        S.eq("Gram matrix", m.gram, (m.X * w[:, None]).T @ m.X)
        S.eq("Gram inverse", m.gram_inv @ m.gram, np.eye(2))
        S.eq("residual products", m.resid_sscp, (R * w[:, None]).T @ R)
        S.eq("unbiased covariance", m.sigma_unbiased * (n - 2), m.resid_sscp)
        yb = [sum(w[i] * m.Y[i, j] for i in range(n)) / sum(w) for j in range(q)]
        T = [[sum(w[i] * (m.Y[i, a] - yb[a]) * (m.Y[i, b] - yb[b]) for i in range(n)) for b in range(q)] for a in range(q)]
        S.eq("total products", m.total_sscp, T)
        # extra sum of squares: dropping the slope leaves the intercept-only fit, whose residual products are the total
        H, Er = m._hypothesis_sscp(m.beta, m.gram_inv, m.resid_sscp, np.array([[0.0, 1.0]]))
        S.eq("error products", Er, m.resid_sscp)
        S.eq("hypothesis products are the loss of fit", H + m.resid_sscp, T)
        M = S.array("M", (q, 1), sample=(-1, 1))
        H2, E2 = m._hypothesis_sscp(m.beta, m.gram_inv, m.resid_sscp, np.array([[0.0, 1.0]]), M)
        S.eq("transformed hypothesis products", H2, M.T @ H @ M)
        S.eq("transformed error products", E2, M.T @ m.resid_sscp @ M)
        for j in range(q):
            S.assume_lt(0, T[j][j])
        r2 = np.asarray(m._response_rsquared())
        for j in range(q):
            v = m.resid_sscp[j, j] / T[j][j]
            S.eq("R squared", r2[j, 0], 1 - v)
            S.eq("adjusted R squared", r2[j, 1], 1 - v * (n - 1) / (n - 2))
        m._measures_of_association = lambda: (None, None, 0.25)
        m._store_association()
        S.eq("trace R squared", m.r2_trace, 1 - sum(m.resid_sscp[j, j] for j in range(q)) / sum(T[j][j] for j in range(q)))


_sscp(1, 3)
_sscp(2, 4)


@harness(HARNESSES, "estimates", points=2)
def h_est(S):
    m = model(S, 4, 2)
    m.params = th = S.array("t", m.packer.n_params, sample=(-0.7, 0.7))
    k = len(th)
    tab = []
    m._parameter_inference = rec(m._parameter_inference, tab)
    S.cut_method(m, "hessian", "H")
    m.params_hess = m.hessian(th)
    C = np.linalg.inv(m.params_hess) if not S.sym else None
    m._store_sscp = lambda: None
    # pinv of a generalised Hessian: only its defining product is used
    Cs, _ = S.posdef("C", k)
    got = []
    with stub(np.linalg, "pinv", lambda a, *k, **kw: got.append(a) or Cs):
        m._store_estimates()
    S.eq("covariance is the inverse of the Hessian at the estimate", got[0], m.hessian(th))
    S.eq("covariance", m.params_cov, Cs)
    S.eq("standard errors squared", m.params_se**2, [Cs[i, i] for i in range(k)])
    S.eq("table degrees of freedom", tab[0][2], 4 - k)
    S.eq("table standard errors", tab[0][1], m.params_se)
    B, L = m.packer.unpack(th)
    S.eq("coefficients", m.beta, B)
    S.eq("coefficient covariance", m.beta_cov, Cs[:4, :4])
    S.eq("coefficient standard errors", m.beta_se, m.params_se[:4])
    S.eq("precision", m.precision, L @ L.T)
    S.eq("covariance inverts the precision", m.sigma_mle @ (L @ L.T), np.eye(2))
    S.eq("fitted values", m.fitted_values, m.X @ B)
    S.eq("residuals", m.residuals, m.Y - m.X @ B)
    S.eq("log-likelihood", m.llf, -MVOLS._loglike(th, m.model_data, m.packer))
    S.eq("prediction", m.predict(np.array([[1.0, 3.0]])), np.array([[1.0, 3.0]]) @ np.asarray(B))
    m.n = 20
    m.r2_trace, m.r2_det = 0.5, 0.25
    m._store_summary()
    S.eq("AIC", m.aic, -2 * m.llf + 2 * k)
    S.eq("BIC", m.bic, -2 * m.llf + k * np.log(20))
    S.eq("AICC", m.aicc, -2 * m.llf + 2 * k * 20 / (20 - k - 1))
    S.eq("reported", np.asarray(m.sumstats).ravel()[4:], np.array([m.llf, 0.5, 0.25], dtype=object))


def _man(ny, dh, de):
    @harness(HARNESSES, "manova.y%d.h%d.e%d" % (ny, dh, de), points=2)
    def h(S):
        s = min(ny, dh)
        r = S.array("r", ny, 0.001, 0.99, (0.05, 0.9))
        for i in range(ny - 1):
            S.assume_lt(r[i + 1], r[i])
        if s < ny:
            r = np.concatenate([r[:s], S.const(np.zeros(ny - s))])
        t = MV._manova_stats(r, ny, dh, de)
        a = np.asarray(t[["Value", "Num DF", "Den DF", "F Value", "P Value"]])
        E = npx(S)
        v = [r[i] for i in range(s)]
        wl = 1
        for x in v:
            wl = wl * (1 - x)
        th = [x / (1 - x) for x in v]
        pil, hl, roy = sum(v), sum(th), th[0]
        S.eq("Wilks lambda", a[0, 0], wl)
        S.eq("Pillai trace", a[1, 0], pil)
        S.eq("Hotelling-Lawley trace", a[2, 0], hl)
        S.eq("Roy root", a[3, 0], roy)
        p, q, m, n = ny, dh, (abs(ny - dh) - 1) / 2, (de - ny - 1) / 2
        tt = ((p * p * q * q - 4) / (p * p + q * q - 5))**0.5 if p * p + q * q > 5 else 1.0
        d1, d2 = p * q, (de - (p - q + 1) / 2) * tt - 2 * (p * q - 2) / 4
        lt = wl if tt == 1 else E.exp(E.log(wl) / tt)
        S.eq("Wilks F", a[0, 3] * lt * d1, (1 - lt) * d2, tol=1e-6)
        S.eq("Wilks degrees of freedom", a[0, 1:3], [d1, d2], tol=1e-9)
        S.eq("Pillai F", a[1, 3] * (2 * m + s + 1) * (s - pil), (2 * n + s + 1) * pil, tol=1e-9)
        S.eq("Pillai degrees of freedom", a[1, 1:3], [s * (2 * m + s + 1), s * (2 * n + s + 1)], tol=1e-9)
        b = (p + 2 * n) * (q + 2 * n) / (2 * (2 * n + 1) * (n - 1))
        df = 4 + (p * q + 2) / (b - 1)
        c = (2 + (p * q + 2) / (b - 1)) / (2 * n)
        den = 1
        for x in v:
            den = den * (1 - x)
        S.eq("Hotelling-Lawley F", a[2, 3] * den, hl * den / c * df / (p * q), tol=1e-7)
        S.eq("Hotelling-Lawley degrees of freedom", a[2, 1:3], [p * q, df], tol=1e-9)
        rr = max(p, q)
        S.eq("Roy F", a[3, 3], roy * (de - rr + q) / rr, tol=1e-9)
        S.eq("Roy degrees of freedom", a[3, 1:3], [rr, de - rr + q])
        for k in range(4):
            S.eq("p-value", a[k, 4], stat(S, "f", "sf", a[k, 3], a[k, 1], a[k, 2]), tol=1e-7)


for _a in ((1, 1, 8), (2, 1, 9), (2, 2, 10), (2, 3, 12), (3, 2, 12)):
    _man(*_a)


@harness(HARNESSES, "eigenvalues", points=2, paths=60)
def h_eig(S):
    A = S.array("A", (2, 2), sample=(-1, 1))
    B = S.array("B", (2, 2), sample=(-1, 1))
    e = S.array("e", 2, 0.01, 0.9, (0.1, 0.8))
    got = []
    with stub(scipy.linalg, "eigh", lambda a, b, **k: got.append((a, b, k)) or e):
        r = MV._canonical_eigenvalues(A, B)
    S.eq("eigenproblem of H", got[0][0], A)
    S.eq("relative to H + E", got[0][1], A + B)
    S.true("only eigenvalues", got[0][2].get("eigvals_only") is True)
    S.le("descending", r[1], r[0])
    S.eq("same values (sum)", r[0] + r[1], e[0] + e[1])
    S.eq("same values (product)", r[0] * r[1], e[0] * e[1])


@harness(HARNESSES, "tests", points=2, paths=40)
def h_tests(S):
    m = model(S, 4, 2)
    m.beta = S.array("B", (2, 2), sample=(-1, 1))
    m.gram_inv, _ = S.posdef("G", 2)
    m.resid_sscp, _ = S.posdef("E", 2)
    m.df_resid = 11
    r = S.array("r", 2, 0.01, 0.9, (0.1, 0.8))
    S.assume_lt(r[1], r[0])
    got, man = [], []
    oe, om = MV._canonical_eigenvalues, MV._manova_stats
    MV._canonical_eigenvalues = lambda H, E: got.append((H, E)) or r
    MV._manova_stats = lambda *a: man.append(a) or __import__("pandas").DataFrame({"Value": [1.0]})
    try:
        t = m.multivariate_tests()
        C = m._term_contrasts()
        tab, cc, d = m._measures_of_association()
    finally:
        MV._canonical_eigenvalues, MV._manova_stats = oe, om
    S.true("one contrast per non-constant regressor", list(C) == ["x"])
    S.eq("contrast selects the regressor", C["x"], np.array([[0.0, 1.0]]))
    S.true("one table per contrast", len(got) == 2 and len(man) == 1)
    b = m.beta[1]
    for H, E in got:
        S.eq("hypothesis products", H, [[b[i] * b[j] / m.gram_inv[1, 1] for j in range(2)] for i in range(2)])
        S.eq("error products", E, m.resid_sscp)
    S.eq("test dimensions", list(man[0][1:]), [2, 1, 11])
    S.eq("test eigenvalues", man[0][0], r)
    v = np.asarray(tab["Value"])
    wl, pi = (1 - r[0]) * (1 - r[1]), r[0] + r[1]
    ht = r[0] / (1 - r[0]) + r[1] / (1 - r[1])
    ro = r[0] / (1 - r[0])
    S.eq("association measures", v, [wl, pi, ht, ro, 1 - wl, 1 - wl, pi, ht / (1 + ht), ro / (1 + ro), pi / 2])
    S.eq("canonical correlations squared", cc**2, r)
    S.eq("generalized R squared", d, 1 - wl)
