"""Structural equation models: implied moments, fit function and its derivatives."""
import copy
import numpy as np
import pandas as pd
from symx.harness import harness
from pystatsm.pysem2 import derivatives as D, sem as SM
from pystatsm.pysem2.sem import SEM
from .fam import npx

HARNESSES = []
FUNCTIONS = ["pystatsm.pysem2.derivatives.{_dsigma_mu,_d2sigma_mu,_dloglike_mu,_dloglike_mu_alt,_d2loglike_mu}",
             "pystatsm.pysem2.sem.SEM.{fit_func,gradient,hessian,dsigma_mu,d2sigma_mu,_implied_cov_mean,implied_cov_mean,implied_sample_stats,gradient_obs,loglike,get_standard_errors}",
             "pystatsm.pysem2.model_specification.ModelSpecification.{transform_theta_to_free,transform_free_to_group_free,group_free_to_par,par_to_model_mats,jac_group_free_to_free,jac_free_to_theta,get_constants,make_derivative_matrices}"]
BOUNDS = ("kernels: every pair of free parameters of 2 to 3 observed and 2 to 3 latent variables, arbitrary real parameter matrices; fit function: the models listed in "
          "the harness names (1 to 2 groups, up to 4 observed variables), arbitrary parameters, arbitrary positive definite sample covariance, arbitrary means")
ASSUMPTIONS = ["model objects are built once from concrete data; their sample moments, data and starting values are then replaced by symbolic ones"]


class Sp:
    """dense stand-in for the library's sparse selection matrices"""

    def __init__(self, M):
        self.M = M

    def dot(self, o):
        return np.dot(self.M, o)

    __matmul__ = dot

    @property
    def T(self):
        return Sp(self.M.T)

    def toarray(self):
        return self.M


rng = np.random.default_rng(0)
# quarters and group sizes that are powers of two: the sample moments are exact in floating point
X = pd.DataFrame(np.round(4 * rng.normal(size=(16, 4)) @ np.array([[1, .3, .2, .4], [0, 1, .5, .1], [0, 0, 1, .6], [0, 0, 0, 1]])) / 4,
                 columns=["x1", "x2", "x3", "x4"])
XG = X.iloc[:12].assign(g=[3, 5, 5, 3, 5, 5, 5, 3, 5, 3, 5, 5])


def build(formula, groups=False, cols=("x1", "x2", "x3", "x4"), **kw):
    try:
        d = (XG if groups else X)[list(cols) + (["g"] if groups else [])]
        return SEM(formula, d, dict(group_col="g", **kw) if groups else kw)
    except Exception as e:      # re-raised inside the harness, where it is judged
        return e


def sym(S, m, data=False, mom=True):
    """a copy of model m whose numbers are symbolic"""
    if isinstance(m, Exception):
        raise m
    m = copy.copy(m)
    md = m.model_data = copy.copy(m.model_data)
    if S.sym:
        m.parameter_templates = {i: S.const(np.asarray(t, dtype=float)) for i, t in m.parameter_templates.items()}
        m.dfree_dtheta = Sp(S.const(m.dfree_dtheta.toarray()))
        m.dfree_dgroup = {i: Sp(S.const(t.toarray())) for i, t in m.dfree_dgroup.items()}
        m.dSm, m.d2Sm, m.dA = S.const(m.dSm), S.const(m.d2Sm), S.const(m.dA)
        for n in ("_grad_kws", "_grad_kws1", "_hess_kws"):
            setattr(m, n, {k: S.const(v) if isinstance(v, np.ndarray) and v.dtype == float else v for k, v in getattr(m, n).items()})
        m.gweights = S.const(m.gweights)
    return m


# ---------------------------------------------------------------- kernels
def _free(p, q):
    """every free parameter of the six matrices, in the library's order: (kind, row, column)"""
    out = []
    for kind, (nr, nc, sy) in enumerate([(p, q, 0), (q, q, 0), (q, q, 1), (p, p, 1), (1, p, 0), (1, q, 0)]):
        out += [(kind, i, j) for j in range(nc) for i in range(nr) if not sy or i >= j]
    return out


PAIRS = {(0, 0): 1, (1, 0): 2, (2, 0): 3, (1, 1): 4, (2, 1): 5, (5, 0): 6, (5, 1): 7}


def _setup(S, p, q, free):
    L = S.array("L", (p, q), sample=(-1, 1))
    B = S.array("B", (q, q), sample=(-1, 1))
    F = S.symm("F", q)
    a, b = S.array("a", p, sample=(-1, 1)), S.array("b", q, sample=(-1, 1))
    sh = [(p, q), (q, q), (q, q), (p, p), (1, p), (1, q)]
    mr, mc = max(s[0] for s in sh), max(s[1] for s in sh)
    dA = np.zeros((len(free), mr, mc))
    for i, (k, r, c) in enumerate(free):
        dA[i, r, c] = 1.0
        if k in (2, 3):
            dA[i, c, r] = 1.0
    size = np.array([sh[k] for k, _, _ in free])
    kind = np.array([k for k, _, _ in free])
    return L, B, F, a, b, S.const(dA), size, kind


def _J(i, free, p, q):
    k, r, c = free[i]
    sh = [(p, q), (q, q), (q, q), (p, p), (1, p), (1, q)][k]
    J = np.zeros(sh)
    J[r, c] = 1
    if k in (2, 3):
        J[c, r] = 1
    return k, J


def _first(S, L, B, F, b, k, J):
    """dSigma, dmu for parameter matrix k moving in direction J; B is the inverse of I minus the coefficient matrix"""
    J = S.const(J)
    Z = S.const(np.zeros((len(L), len(L))))
    zm = S.const(np.zeros(len(L)))
    if k == 0:
        M = J @ B @ F @ B.T @ L.T
        return M + M.T, J @ B @ b
    if k == 1:
        dB = B @ J @ B
        M = L @ dB @ F @ B.T @ L.T
        return M + M.T, L @ dB @ b
    if k == 2:
        return L @ B @ J @ B.T @ L.T, zm
    if k == 3:
        return J + Z, zm
    if k == 4:
        return Z, J[0] + zm
    return Z, L @ B @ J[0]


def _second(S, L, B, F, b, k1, J1, k2, J2):
    """second derivative in directions J1 (matrix k1) and J2 (matrix k2), by differentiating Sigma = G F G', mu = a + G b with G = L B"""
    J1, J2 = S.const(J1), S.const(J2)
    n = len(L)
    Z, zm = S.const(np.zeros((n, n))), S.const(np.zeros(n))
    zG = S.const(np.zeros((n, len(B))))

    def dG(k, J):
        return J @ B if k == 0 else L @ B @ J @ B if k == 1 else zG

    def d2G():
        if k1 == 0 and k2 == 1:
            return J1 @ B @ J2 @ B
        if k1 == 1 and k2 == 0:
            return J2 @ B @ J1 @ B
        if k1 == 1 and k2 == 1:
            return L @ (B @ J1 @ B @ J2 @ B + B @ J2 @ B @ J1 @ B)
        return zG
    G, G1, G2, G12 = L @ B, dG(k1, J1), dG(k2, J2), d2G()
    F1, F2 = (J1 if k1 == 2 else None), (J2 if k2 == 2 else None)
    s = G12 @ F @ G.T + G1 @ F @ G2.T
    s = s + s.T
    if F1 is not None:
        M = G2 @ F1 @ G.T
        s = s + M + M.T
    if F2 is not None:
        M = G1 @ F2 @ G.T
        s = s + M + M.T
    m = G12 @ b + zm
    if k1 == 5:
        m = m + G2 @ J1[0]
    if k2 == 5:
        m = m + G1 @ J2[0]
    return s + Z, m


def _vind(p):
    s, r = np.triu_indices(p, k=0)
    return r + s * p


def _vech(M):
    return [M[i, j] for j in range(len(M)) for i in range(j, len(M))]


def _kern(p, q, tier="quick"):
    free = _free(p, q)
    n = len(free)
    p2 = p * (p + 1) // 2
    pre = "kernel.p%d.q%d." % (p, q)

    @harness(HARNESSES, pre + "first", points=2, tier=tier)
    def h(S):
        L, B, F, a, b, dA, size, kind = _setup(S, p, q, free)
        d = D._dsigma_mu(S.const(np.zeros((p2 + p, n))), L, B, F, b, dA, size, kind, _vind(p), n, p2)
        W = S.symm("W", p)
        v = S.array("v", p, sample=(-1, 1))
        g = D._dloglike_mu(S.const(np.zeros(n)), L, B, F, b, W, v, dA, size, kind, n)
        z = lambda *s: S.const(np.zeros(s))
        g2 = D._dloglike_mu_alt(S.const(np.zeros(n)), L, B, F, b, W, v, z(p, q), z(q, q), z(q, q), z(p, p), z(p), z(q),
                                np.array([f[1] for f in free]), np.array([f[2] for f in free]), kind, n)
        for i in range(n):
            dS, dm = _first(S, L, B, F, b, *_J(i, free, p, q))
            S.eq("derivative of the implied covariance", d[:p2, i], np.array(_vech(dS)))
            S.eq("derivative of the implied mean", d[p2:, i], dm)
            ref = -np.sum(W * dS) - 2 * (v @ dm) - v @ dS @ v
            S.eq("gradient", g[i], ref)
            S.eq("gradient (second method)", g2[i], ref)

    @harness(HARNESSES, pre + "second", points=1, tier=tier)
    def h2(S):
        L, B, F, a, b, dA, size, kind = _setup(S, p, q, free)
        ii, jj = np.array([(i, j) for j in range(n) for i in range(j, n)]).T
        inds = np.vstack([ii, jj]).T
        k2 = np.array([PAIRS.get((free[i][0], free[j][0]), 0) for i, j in inds])
        d2 = D._d2sigma_mu(S.const(np.zeros((p2 + p, n, n))), L, B, F, b, dA, size, k2, inds, _vind(p), len(inds), p2)
        W, V = S.symm("W", p), S.symm("V", p)
        v = S.array("v", p, sample=(-1, 1))
        H = D._d2loglike_mu(S.const(np.zeros((n, n))), S.const(np.zeros((n, p, p + 1))), L, B, F, a, b, W, v, V, dA, size, inds, kind, k2, n)
        one = [_first(S, L, B, F, b, *_J(i, free, p, q)) for i in range(n)]
        M = V + W + W
        for i, j in inds:
            s, m = _second(S, L, B, F, b, *_J(i, free, p, q), *_J(j, free, p, q))
            S.eq("second derivative of the implied covariance", d2[:p2, i, j], np.array(_vech(s)))
            S.eq("second derivative of the implied mean", d2[p2:, i, j], m)
            S.eq("symmetric second derivatives", d2[:, j, i], d2[:, i, j])
            (si, mi), (sj, mj) = one[i], one[j]
            ref = (np.sum((si @ V @ sj) * M) - np.sum(W * s) - 2 * (v @ m) - v @ s @ v
                   + 2 * (mi @ V @ mj) + 2 * (v @ si @ V @ mj) + 2 * (v @ sj @ V @ mi) + 2 * (v @ si @ V @ sj @ v))
            S.eq("hessian", H[i, j], ref)
            S.eq("hessian is symmetric", H[j, i], H[i, j])


_kern(2, 2)
_kern(3, 2)


# ---------------------------------------------------------------- whole models
def theta(S, m):
    out = []
    var = {i for i, (l, r, rel) in enumerate(m.free_df.iloc[m._first_locs][["lhs", "rhs", "rel"]].values) if l == r and rel == "~~"}
    for i in range(len(m.theta)):
        out.append(S.real("t_%d" % i, 0, None, (1, 2)) if i in var else S.real("t_%d" % i, None, None, (-0.5, 0.5)))
    return S._arr(np.array(out, dtype=object))


def minors(A):
    n = len(A)
    out = [A[0, 0]]
    if n > 1:
        out.append(A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0])
    if n > 2:
        out.append(det(A[:3, :3]))
    if n > 3:
        out.append(det(A))
    return out


def det(A):
    n = len(A)
    if n == 1:
        return A[0, 0]
    return sum((-1) ** j * A[0, j] * det(np.delete(np.delete(A, 0, 0), j, 1)) for j in range(n) if not zero(A[0, j]))


def zero(x):
    return isinstance(x, (int, float)) and x == 0


def adj(A):
    n = len(A)
    o = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            o[j, i] = (-1) ** (i + j) * det(np.delete(np.delete(A, i, 0), j, 1)) if n > 1 else 1
    return o


def moments(S, m, p, mean=True):
    """arbitrary sample moments for every group"""
    md = m.model_data
    md.sample_cov, md.sample_mean, md.const = {}, {}, {}
    for i in range(m.n_groups):
        md.sample_cov[i] = S.posdef("C%d" % i, p)[0]
        md.sample_mean[i] = S.array("m%d" % i, p, sample=(-1, 1)).reshape(1, -1)
        md.const[i] = S.real("k%d" % i, None, None, (9, 12))


def implied(m, th):
    out = []
    free = m.transform_theta_to_free(th)
    for i in range(m.n_groups):
        mats = m.group_free_to_model_mats(m.transform_free_to_group_free(free, i), i)
        out.append(mats)
    return out


def _model(name, m, hess=True, obs=None, tier="quick", fit=True):
    pre = "model.%s." % name

    @harness(HARNESSES, pre + "moments", points=2, tier=tier)
    def hm(S):
        mm = sym(S, m)
        th = theta(S, mm)
        Sg, mu = mm.implied_cov_mean(th)
        st = mm.implied_sample_stats(th)
        ds = mm.dsigma_mu(th)
        q = mm.q
        for i, (L, B, F, P, a, b) in enumerate(implied(mm, th)):
            I = S.const(np.eye(q)) - B
            S.assume_ne(det(I), 0)
            Bi = adj(I) / det(I)
            G = L @ Bi
            S.eq("implied covariance", Sg[i], G @ F @ G.T + P)
            S.eq("implied mean", mu[i], (a + (G @ b.T).T).reshape(-1))
            S.eq("stacked moments", st[i], np.array(_vech(Sg[i]) + list(mu[i])))
            if mm.n_groups == 1 and len(th) == mm.nf:
                for k in range(len(st[i])):
                    for j in range(len(th)):
                        S.deriv("derivative of the moments", ds[i][k, j], st[i][k], "t_%d" % j)

    if fit:
        @harness(HARNESSES, pre + "fit", points=2, tier=tier)
        def hf(S):
            mm = sym(S, m)
            p = mm.p
            E = npx(S)
            th = theta(S, mm)
            moments(S, mm, p)
            Sg, mu = mm.implied_cov_mean(th)
            ref = 0
            parts = []
            for i in range(mm.n_groups):
                A = S.cut("Sg%d" % i, Sg[i])
                A = S._arr(np.array([[A[max(r, c), min(r, c)] for c in range(p)] for r in range(p)], dtype=object))
                M = S.cut("mu%d" % i, mu[i])
                for d in minors(A):
                    S.assume_lt(0, d)
                parts.append((A, M))
            real = mm._implied_cov_mean
            it = iter(parts * 5)
            mm._implied_cov_mean = lambda *a, **k: (real(*a, **k), next(it))[1]
            f = []
            for i, (A, M) in enumerate(parts):
                d = det(A)
                V = adj(A) / d
                r = mm.model_data.sample_mean[i].flatten() - M
                fi = (r @ V @ r + E.log(d) + np.sum(V * mm.model_data.sample_cov[i]) + mm.model_data.const[i]) * mm.gweights[i]
                S.assume_le(-1, fi)
                f.append(fi)
            S.eq("fit function", mm.fit_func(th), mm.n / 2 * sum(f))
            S.eq("fit function per group", mm.fit_func(th, per_group=True), np.array([mm.n / 2 * x for x in f], dtype=object))

        @harness(HARNESSES, pre + "gradient", points=1, tier=tier)
        def hg(S):
            mm = sym(S, m)
            p = mm.p
            th = theta(S, mm)
            moments(S, mm, p)
            Sg, mu = mm.implied_cov_mean(th)
            for i in range(mm.n_groups):
                for d in minors(Sg[i]):
                    S.assume_lt(0.01, d)
            ref = fitref(S, mm, th)
            for method in (0, 1):
                g = mm.gradient(th, method=method)
                S.eq("length", len(g), len(th))
                for j in range(len(th)):
                    S.deriv("gradient of the fit function", g[j], ref, "t_%d" % j)
            if mm.n_groups > 1:
                S.eq("per-group gradients", sum(mm.gradient(th, per_group=True)), g)

    if hess:
        @harness(HARNESSES, pre + "hessian", points=1, tier=tier)
        def hh(S):
            mm = sym(S, m)
            th = theta(S, mm)
            moments(S, mm, mm.p)
            Sg, mu = mm.implied_cov_mean(th)
            for i in range(mm.n_groups):
                for d in minors(Sg[i]):
                    S.assume_lt(0.01, d)
            H = mm.hessian(th)
            g = mm.gradient(th)
            S.eq("shape", np.array(H.shape), np.array([len(th)] * 2))
            for i in range(len(th)):
                for j in range(len(th)):
                    S.deriv("hessian is the derivative of the gradient", H[i, j], g[i], "t_%d" % j)
            if mm.n_groups > 1:
                S.eq("per-group hessians", sum(mm.hessian(th, per_group=True)), H)

    if obs:
        @harness(HARNESSES, pre + "observations", points=1, tier=tier)
        def ho(S):
            mm = sym(S, m)
            p = mm.p
            E = npx(S)
            th = theta(S, mm)
            md = mm.model_data
            md.data = S.array("Y", (sum(obs), p), sample=(-1, 1))
            n0 = np.cumsum((0,) + tuple(obs))
            # groups interleaved: the rows of a group need not be contiguous
            order = np.argsort(np.concatenate([np.arange(k) for k in obs]), kind="stable")
            md.group_indices = {i: np.sort(order[n0[i]:n0[i + 1]]) for i in range(len(obs))}
            mm.n = sum(obs)
            Sg, mu = mm.implied_cov_mean(th)
            for i in range(mm.n_groups):
                for d in minors(Sg[i]):
                    S.assume_lt(0.01, d)
            ref = [None] * mm.n
            for i in range(mm.n_groups):
                d = det(Sg[i])
                V = adj(Sg[i]) / d
                for k in md.group_indices[i]:
                    e = md.data[k] - mu[i]
                    ref[k] = (e @ V @ e + E.log(d) + p * E.log(2 * E.pi)) / 2
            S.eq("observation log-likelihood", mm.loglike(th, level="observation"), S._arr(np.array(ref, dtype=object)), tol=1e-8)
            S.eq("sample log-likelihood", mm.loglike(th), sum(ref), tol=1e-8)
            S.eq("group log-likelihood", mm.loglike(th, level="group"),
                 S._arr(np.array([sum(ref[k] for k in md.group_indices[i]) for i in range(mm.n_groups)], dtype=object)), tol=1e-8)
            G = mm.gradient_obs(th)
            S.eq("shape", np.array(G.shape), np.array([mm.n, len(th)]))
            for k in range(mm.n):
                for j in range(len(th)):
                    S.deriv("gradient of each observation", G[k, j], ref[k], "t_%d" % j)


def fitref(S, mm, th):
    """the fit function with its out-of-range guard resolved (the fit harness establishes the formula)"""
    E = npx(S)
    Sg, mu = mm.implied_cov_mean(th)
    tot = 0
    for i in range(mm.n_groups):
        A = Sg[i]
        d = det(A)
        V = adj(A) / d
        r = mm.model_data.sample_mean[i].flatten() - mu[i]
        tot = tot + (r @ V @ r + E.log(d) + np.sum(V * mm.model_data.sample_cov[i]) + mm.model_data.const[i]) * mm.gweights[i]
    return mm.n / 2 * tot


C2, C3 = ("x1", "x2"), ("x1", "x2", "x3")
C4 = C3 + ("x4",)
_model("onefactor", build("f =~ x1 + x2 + x3", cols=C3))
_model("equal-loadings", build("f =~ x1 + a*x2 + a*x3\nx2 ~ i*1\nx3 ~ i*1\nx1 ~~ x2", cols=C3))
_model("mediation", build("x2 ~ x1\nx3 ~ x2 + x1", cols=C3))
_model("regression", build("x2 ~ x1", cols=C2), obs=(3,))
_model("latent-mean", build("f =~ x1 + 2*x2\nf ~ 1\nx1 ~ 0*1", cols=C2), obs=(2,))
_model("latent-regression", build("f =~ x1 + 0.5*x2\nf ~ x3", cols=C3))
_model("two-groups", build("x2 ~ x1", groups=True, cols=C2, shared=[True, True, True, True, True, False]), obs=(1, 2))
_model("two-groups-shared", build("f =~ x1 + x2\nx1 ~~ 1*x1\nx2 ~~ 2*x2", groups=True, cols=C2, shared=[True] * 6), obs=(2, 1))
_model("two-groups-free", build("x2 ~ x1", groups=True, cols=C2, shared=[False] * 6))
_model("two-factors", build("f =~ x1 + a*x2\ng =~ x3 + a*x4\ng ~ f"), hess=False)
_model("path4", build("x3 ~ x1 + x2\nx4 ~ x3 + x1"), hess=False)
_model("indicator-regression", build("f =~ x1 + x2\nx2 ~ x3", cols=C3))


@harness(HARNESSES, "standard-errors", points=2)
def h_se(S):
    mm = sym(S, M_REG)
    th = theta(S, mm)
    k = len(th)
    H, _ = S.posdef("H", k)
    G = S.array("G", (2, k), sample=(-1, 1))
    mm.hessian = lambda *a, **kw: H
    mm.gradient_obs = lambda *a, **kw: G
    V = adj(H) / det(H)
    se = mm.get_standard_errors(th)
    S.eq("standard errors", se ** 2, np.array([V[i, i] for i in range(k)], dtype=object))
    W = V @ (G.T @ G) @ V
    for d in range(k):
        S.assume_lt(0, W[d, d])
    se = mm.get_standard_errors(th, robust=True)
    S.eq("robust standard errors", se ** 2, np.array([W[i, i] for i in range(k)], dtype=object))


M_REG = build("x2 ~ x1", cols=C2)


def _const(name, cols, groups):
    m = build("x2 ~ x1", groups=groups, cols=cols, **(dict(shared=[False] * 6) if groups else {}))

    @harness(HARNESSES, "saturated." + name, points=1)
    def h(S):
        """at moments equal to the sample's the fit function is zero, whatever else the data frame contains"""
        if isinstance(m, Exception):
            raise m
        for i in range(m.n_groups):
            rows = (XG if groups else X)
            rows = rows[rows.g == (3, 5)[i]] if groups else rows
            y = rows[list(m.obs_order)].values
            c = np.cov(y.T, ddof=0)
            S.eq("group sample mean", S.const(np.asarray(m.model_data.sample_mean[i], dtype=float).ravel()), S.const(y.mean(0)), tol=1e-12)
            S.true("group sample covariance", bool(np.allclose(np.asarray(m.model_data.sample_cov[i], dtype=float), c, atol=1e-12)))
            S.true("saturation constant", bool(abs(m.model_data.const[i] + np.linalg.slogdet(c)[1] + len(c)) < 1e-9))
            S.true("group size", int(m.gsizes[i]) == len(rows))
        S.eq("weights add to one", S.const(np.asarray(m.gweights, dtype=float)).sum(), 1, tol=1e-12)


_const("exact", C2, False)
_const("extra-columns", C4, False)
_const("reordered-columns", ("x4", "x2", "x3", "x1"), False)
_const("groups", C2, True)
