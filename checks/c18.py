"""Random generators and simulation helpers: what every draw satisfies. Each random number is a symbolic variable."""
import contextlib
import itertools
import math
import numpy as np
import scipy as sp
import scipy.linalg
from symx.harness import harness
from symx import expr as E
from pystatsm.utilities import random as R
from pystatsm.utilities import cov_utils as CU
from pystatsm.utilities import func_utils as FU
from .fam import npx, stub

HARNESSES = []
FUNCTIONS = ["pystatsm.utilities.random.{vine_corr,onion_corr,exact_rmvnorm,wishart,invwishart,r_invwishart,scalar_truncnorm,r_lkj_cholesky,r_lkj,_special_ortho,_ortho_norm,"
             "multivariate_t,students_t,cauchy}", "pystatsm.utilities.tf_utils.{spherical_uniform,clockwise_spiral_fill_triangular}",
             "pystatsm.utilities.cov_utils.{_whiten,_exact_cov,_svd_cov_transform,project_psd,get_ar1_corr,get_exchangeable_corr,get_mdependent_corr,get_antedependence1_corr,"
             "get_factor_cov,get_spatialpower_corr,get_spatialexp_corr,get_toeplitz_corr,get_canvar_corr}",
             "pystatsm.utilities.func_utils.{sum_preserving_round,sum_preserving_min,allocate_from_proportions,sizes_to_slice_vals,sizes_to_ind_arrs,partition_set,triangular_number}"]
BOUNDS = ("correlation matrices of order 2 to 5 (vine) and 2 to 3 (onion), LKJ factors of dimension 2 to 5, orthogonal matrices of order 2 and 3, at most two rejected draws; "
          "every value a random number can take is symbolic")
ASSUMPTIONS = ["random number generators return arbitrary values of their support", "eigen- and singular value decompositions are exact"]


class Draws:
    """a generator whose k-th number is the k-th symbolic variable"""
    def __init__(self, S, name="u"):
        self.S, self.k, self.name, self.args = S, 0, name, []

    def _one(self, lo, hi, sample):
        self.k += 1
        return self.S.real(f"{self.name}{self.k}", lo, hi, sample)

    def _many(self, size, lo, hi, sample):
        if size is None:
            return self._one(lo, hi, sample)
        shape = (int(size),) if np.ndim(size) == 0 else tuple(int(i) for i in size)
        n = int(np.prod(shape))
        vals = np.empty(n, dtype=object if self.S.sym else float)
        for i in range(n):
            vals[i] = self._one(lo, hi, sample)
        return self.S._arr(vals.reshape(shape))

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.args.append(("normal", loc, scale))
        return loc + scale * self._many(size, None, None, (-2, 2))

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._many(size, 0, 1, (0, 1))
        return low + (high - low) * u

    def beta(self, a, b, size=None):
        self.args.append(("beta", a, b))
        return self._many(size, 0, 1, (.05, .95))

    def chisquare(self, df, size=None):
        self.args.append(("chisquare", df))
        return self._many(size, 0, None, (.5, 5))

    def exponential(self, scale=1.0, size=None):
        self.args.append(("exponential", scale))
        return scale * self._many(size, 0, None, (.1, 3))

    def binomial(self, n, p, size=None):
        shape = tuple(int(i) for i in size)
        v = np.empty(shape, dtype=float)
        for ii in np.ndindex(*shape):
            self.k += 1
            v[ii] = 1.0 if bool(self.S.real(f"coin{self.k}", 0, 1, (0, 1)) < .5) else 0.0
        return v

    def standard_t(self, df, size=None):
        self.args.append(("t", df))
        return self._many(size, None, None, (-2, 2))

    standard_cauchy = lambda self, size=None: self._many(size, None, None, (-2, 2))


@contextlib.contextmanager
def draws(S, *names, name="u"):
    D = Draws(S, name)
    with contextlib.ExitStack() as st:
        for n in names:
            st.enter_context(stub(np.random, n, getattr(D, n)))
        yield D


@contextlib.contextmanager
def decomposed(S, fn, *vals):
    if S.sym:
        with stub(np.linalg, fn, lambda A, *k, **kw: tuple(v.copy() for v in vals)):
            yield
    else:
        yield


def orth2(S, name):
    t = S.real(name, -1, 1, (-.9, .9))
    c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    return S._arr(np.array([[c, -s], [s, c]], dtype=object if S.sym else float))


def det(M):
    n = len(M)
    if n == 1:
        return M[0, 0]
    return sum((-1) ** j * M[0, j] * det(np.delete(np.delete(M, 0, 0), j, 1)) for j in range(n))


def proper(S, Q, tag=""):
    n = len(Q)
    S.eq(tag + "unit diagonal", np.diag(Q), np.ones(n))
    S.eq(tag + "symmetric", Q, Q.T)


# ---- correlation matrices -----------------------------------------------------------------
for d in (2, 3, 4, 5):
    @harness(HARNESSES, f"vine correlation[{d}]", points=2, timeout=120)
    def _vc(S, d=d):
        eta = S.real("eta", .5, 5)
        with draws(S, "beta") as D:
            Q = R.vine_corr(d, eta)
        proper(S, Q)
        P, pc = {}, iter(range(1, D.k + 1))
        for k in range(d - 1):
            for i in range(k + 1, d):
                P[k, i] = 2 * S.real(f"u{next(pc)}", 0, 1, (.05, .95)) - 1
        want, m = 1, min(d, 4)
        for (k, i), p in P.items():
            if i < m:
                want = want * (1 - p * p)
        S.eq("determinant", det(Q[:m, :m]), want, tol=1e-6)
        # known finding: the recursion stops before the first two variables.  Entry by entry it may only be that or the right one.
        for (k, i), p in P.items():
            right = wrong = p
            for l in range(k - 1, -1, -1):
                f = npx(S).sqrt((1 - P[l, i] ** 2) * (1 - P[l, k] ** 2))
                right = right * f + P[l, i] * P[l, k]
                if l > 1:
                    wrong = wrong * f + P[l, i] * P[l, k]
            S.eq(f"correlation[{k};{i}]", (Q[k, i] - right) * (Q[k, i] - wrong), 0)
        # the partial correlations are the draws
        for j in range(1, d):
            S.eq(f"correlation with the first variable[{j}]", Q[0, j], P[0, j])
        for k, (nm, a, b) in enumerate(D.args):
            S.eq("the beta draws are symmetric", a, b)
        kk = [k for k in range(d - 1) for _ in range(k + 1, d)]
        S.eq("shapes of the draws", S._arr(np.array([a for _, a, _ in D.args], dtype=object if S.sym else float)),
             S._arr(np.array([eta + (d - 2 - k) / 2.0 for k in kk], dtype=object if S.sym else float)))

for d in (2, 3):
    @harness(HARNESSES, f"onion correlation[{d}]", points=2, timeout=120)
    def _oc(S, d=d):
        eta = S.real("eta", 1, 5)
        r = 2 * S.real("u1", 0, 1, (.05, .95)) - 1
        h = 1 / npx(S).sqrt(2 + 0 * r)
        V = S._arr(np.array([[h, -h], [h, h]], dtype=object if S.sym else float))
        c = S._arr(np.array([1 + r, 1 - r], dtype=object if S.sym else float))
        with draws(S, "beta", "normal"), decomposed(S, "eig", c, V):
            if d == 3:
                S.assume_lt(0, S.real("u3", None, None, (-2, 2)) ** 2)
            Q = R.onion_corr(d, eta)
        proper(S, Q)
        S.eq("correlation of the first pair", Q[0, 1], r)
        if d == 3:
            S.eq("determinant", det(Q), (1 - r * r) * (1 - S.real("u2", 0, 1, (.05, .95))), tol=1e-7)

for dim in (2, 3, 4, 5):
    @harness(HARNESSES, f"LKJ[{dim}]", points=2, timeout=180)
    def _lk(S, dim=dim):
        D = Draws(S)
        eta = S.real("eta", 1, 5)
        L = R.r_lkj_cholesky(eta=eta, n=1, dim=dim, rng=D)
        M = L[0, 0]
        for i in range(dim):
            S.eq(f"unit row[{i}]", sum(M[i, j] ** 2 for j in range(dim)), 1)
            S.le(f"diagonal[{i}]", 0, M[i, i])
            for j in range(i + 1, dim):
                S.eq("lower triangular", M[i, j], 0)
        nm, a, b = D.args[0]
        S.eq("first shape", a, np.arange(1., dim) / 2)
        S.eq("second shape", b[0], eta + (dim - 2) / 2.0 - np.arange(dim - 1.) / 2)
        for i in range(1, dim):
            S.eq(f"residual variance[{i}]", M[i, i] ** 2, 1 - S.real(f"u{i}", 0, 1, (.05, .95)))
        D = Draws(S)
        Q = R.r_lkj(eta=eta, n=1, dim=dim, rng=D)[0, 0]
        proper(S, Q, "correlation: ")
        S.eq("correlation from its factor", Q, M @ M.T)


def rot3(S, name):
    """the first two columns of a rotation, up to the angle the last factor would add"""
    def cs(k):
        t = S.real(f"{name}{k}", -1, 1, (-.9, .9))
        return (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    (c, s), (d, u), (e, v) = cs(1), cs(2), cs(3)
    o = object if S.sym else float
    A = S._arr(np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]], dtype=o))
    B = S._arr(np.array([[1, 0, 0], [0, d, -u], [0, u, d]], dtype=o))
    C = S._arr(np.array([[e, -v, 0], [v, e, 0], [0, 0, 1]], dtype=o))
    return (A @ B @ C)[:, :2]


def full_sample(S):
    """any 4 observations of 2 variables: mean plus centred orthogonal rows, rotation, triangular factor of the covariance"""
    H = np.array([[1., 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]])
    U = S.lower("U", 2).T
    return S.array("m", 2, sample=(-1, 1)) + S.const(H) @ rot3(S, "a") @ U


def pair(S):
    m, t = S.real("m", sample=(-1, 1)), S.real("t", .1, None)
    return S._arr(np.array([[m + t], [m - t]], dtype=object if S.sym else float))


# ---- normal and Wishart -------------------------------------------------------------------
for p, n, mean in ((1, 2, True), (2, 4, False), (2, 4, True)):
    @harness(HARNESSES, f"exact normal sample[{p};{n};{mean}]", points=2, timeout=120, eager=True)
    def _en(S, p=p, n=n, mean=mean):
        if p == 1:
            s = S.real("s", .2, 3)
            Sg = S._arr(np.array([[s]], dtype=object if S.sym else float))
            U, d = S.const(np.eye(1)), Sg[0]
        else:
            U = orth2(S, "t")
            b = S.real("b", .1, 2)
            d = S._arr(np.array([b + S.real("a", .1, 2), b], dtype=object if S.sym else float))
            Sg = (U * d) @ U.T
        mu = S.array("mu", p, sample=(-1, 1)) if mean else None
        with draws(S, "normal"), decomposed(S, "svd", U, d, U.T), stub(np.random, "normal", lambda *a, **k: full_sample(S) if p == 2 else pair(S)):
            X = R.exact_rmvnorm(Sg, n=n, mu=mu)
        S.eq("mean", X.sum(axis=0) / n, mu if mean else np.zeros(p), tol=1e-6)
        Z = X - (mu if mean else 0)
        S.eq("covariance", Z.T @ Z / n, Sg, tol=1e-6)

for p in (1, 2, 3):
    @harness(HARNESSES, f"Wishart[{p}]", points=2, timeout=120)
    def _wi(S, p=p):
        df = S.real("df", p + .5, 20)
        V, C = S.posdef("V", p)
        m = p * (p - 1) // 2
        acc, chi = 0, None
        for signs in itertools.product((1.0, -1.0), repeat=m):
            it, D, args = iter(signs), Draws(S, "c"), []
            with stub(np.random, "chisquare", D.chisquare), stub(np.random, "normal", lambda a, b, it=it, args=args: args.append((a, b)) or next(it)):
                W = R.wishart(df, V)
            acc = acc + W
            chi = [a for _, a in D.args]
            S.true("standard normal draws", all(a == (0.0, 1.0) for a in args))
        S.eq("degrees of freedom of the diagonal", S._arr(np.array(chi, dtype=object if S.sym else float)),
             S._arr(np.array([df - i for i in range(p)], dtype=object if S.sym else float)))
        c = [S.real(f"c{i + 1}", 0, None, (.5, 5)) for i in range(p)]
        T = S._arr(np.diag(np.array([c[i] + i for i in range(p)], dtype=object if S.sym else float)))
        S.eq("mean over the signs of the normal draws", acc / 2.0 ** m, C @ T @ C.T)

    @harness(HARNESSES, f"inverse Wishart[{p}]", points=2, timeout=180, eager=True)
    def _iw(S, p=p):
        df = S.real("df", p + .5, 20)
        V, C = S.posdef("V", p)
        with draws(S, "chisquare", "normal"):
            for i in range(p):
                pass
            W = R.wishart(df, V)
        with draws(S, "chisquare", "normal"):
            Q = R.invwishart(df, V)
        S.eq("inverse of the Wishart draw", W @ Q, np.eye(p), tol=1e-6)
        if p < 3:
            with draws(S, "chisquare", "normal"):
                Q = R.r_invwishart(df, V)
            with draws(S, "chisquare", "normal"):
                W = R.wishart(df, np.linalg.inv(V))
            S.eq("inverse of a Wishart draw of the inverse scale", W @ Q, np.eye(p), tol=1e-6)


@harness(HARNESSES, "location and scale", points=2)
def _ls(S):
    loc, sc, nu = S.real("loc", sample=(-1, 1)), S.real("sc", 0, None), S.real("nu", 1, 9)
    D = Draws(S)
    S.eq("Student", R.students_t(loc, sc, nu=nu, rng=D), loc + S.real("u1", None, None, (-2, 2)) * sc)
    S.eq("degrees of freedom", D.args[0][1], nu)
    S.eq("Cauchy", R.cauchy(loc, sc, rng=Draws(S)), loc + S.real("u1", None, None, (-2, 2)) * sc)
    if True:
        m, Y = S.array("m", 2, sample=(-1, 1)), S.array("Y", (3, 2), sample=(-1, 1))
        D = Draws(S)
        D.multivariate_normal = lambda mean, cov, size: Y + mean
        X = R.multivariate_t(np.zeros(2) + 0 * m, np.eye(2), nu=nu, size=3, rng=D)
        for i in range(3):
            S.eq("normal over root of a chi square", X[i] * npx(S).sqrt(S.real(f"u{i + 1}", 0, None, (.5, 5)) / nu), Y[i])


def erf(S):
    real = math.erf
    return (lambda z: sp.special.erf(S._arr(np.array([z], dtype=object)))[0]) if S.sym else real


# ---- truncated normal ---------------------------------------------------------------------
BIG = 1e20


def attempts(S, D, name, n, lim):
    """after lim draws the run is outside the bound"""
    f = getattr(D, name)

    def draw(*a, **k):
        if D.k >= lim:
            if S.sym:
                raise E.PathAbort("draw bound")
            from symx.harness import SkipClaims
            raise SkipClaims("draw bound")
        return f(*a, **k)
    return draw


@contextlib.contextmanager
def bounded(S, lim):
    D = Draws(S)
    with contextlib.ExitStack() as st:
        for n in ("normal", "exponential", "uniform"):
            st.enter_context(stub(np.random, n, attempts(S, D, n, n, lim)))
        yield D


for kind in ("none", "below", "above", "both"):
    for lim in ((1,) if kind == "none" else (2, 3)):
        @harness(HARNESSES, f"truncated normal[{kind};{lim}]", points=3, paths=64)
        def _tn(S, kind=kind, lim=lim):
            mu, sd = S.real("mu", sample=(-1, 1)), S.real("sd", 0, None)
            lb = S.real("lb", None, None, (-2, 0)) if kind in ("below", "both") else -BIG
            ub = S.real("ub", None, None, (.5, 2)) if kind in ("above", "both") else BIG
            for x, s in ((lb, 1), (ub, 1)):
                if not isinstance(x, float) or abs(x) < BIG:
                    S.assume_lt(-1e15, x)
                    S.assume_lt(x, 1e15)
            if kind == "both":
                S.assume_lt(lb, ub)
            with bounded(S, lim) as D, stub(math, "erf", erf(S)):
                z = R.scalar_truncnorm(mu, sd, lb, ub)
            if kind in ("below", "both"):
                S.le("not below the lower bound", lb, z, tol=1e-7)
            if kind in ("above", "both"):
                S.le("not above the upper bound", z, ub, tol=1e-7)
            S.real("u1", None, None, (-2, 2))
            if kind == "none":
                S.eq("untruncated draw", (z - mu) ** 2, (sd * S.real("u1", None, None, (-2, 2))) ** 2)


# ---- orthogonal matrices ------------------------------------------------------------------
for dim in (2, 3):
    @harness(HARNESSES, f"random rotation[{dim}]", points=3, paths=64, timeout=120)
    def _so(S, dim=dim):
        D = Draws(S)
        k = 0
        for n in range(1, dim):
            m = dim - n + 1
            u = [S.real(f"u{k + i + 1}", None, None, (-2, 2)) for i in range(m)]
            k += m
            S.assume_ne(u[0], 0)
            S.assume_lt(0, u[1] * u[1])
            S.assume_ne(u[1], 0)
        Q = R._special_ortho(dim, rng=D)
        S.eq("orthogonal", Q @ Q.T, np.eye(dim))
        S.eq("determinant", det(Q), 1)

for n, p in ((2, 1), (3, 2), (2, 2)):
    @harness(HARNESSES, f"orthonormal columns[{n};{p}]", points=2)
    def _on(S, n=n, p=p):
        Q = R._ortho_norm(n, p, rng=Draws(S))
        S.true("shape", Q.shape == (n, p))
        S.eq("orthonormal", Q.T @ Q, np.eye(p))


# ---- samples with a given covariance, structured correlations ------------------------------
for n, p in ((2, 1), (4, 2)):
    @harness(HARNESSES, f"exact covariance[{n};{p}]", points=2, timeout=120, eager=True)
    def _ec(S, n=n, p=p):
        X = S.array("X", (n, p), sample=(-2, 2)) if p == 1 else full_sample(S)
        mid = X.sum(axis=0) / n
        Y = CU._whiten(X)
        Z = Y - Y.sum(axis=0) / n
        S.eq("whitened", Z.T @ Z / n, np.eye(p), tol=1e-6)
        if p == 1:
            s = S.real("s", .2, 3)
            U, d = S.const(np.eye(1)), S._arr(np.array([s], dtype=object if S.sym else float))
        else:
            U = orth2(S, "t")
            b = S.real("b", .1, 2)
            d = S._arr(np.array([b + S.real("a", .1, 2), b], dtype=object if S.sym else float))
        G = (U * d) @ U.T
        with decomposed(S, "svd", U, d, U.T):
            W = CU._exact_cov(X, cov=G)
            W2 = CU._exact_cov(X - mid, mean=S.array("mu", p, sample=(-1, 1)), cov=G)
        Z = W - W.sum(axis=0) / n
        S.eq("covariance", Z.T @ Z / n, G, tol=1e-6)
        S.eq("mean of a centred sample", W2.sum(axis=0) / n, S.array("mu", p, sample=(-1, 1)), tol=1e-6)
        Z = W2 - W2.sum(axis=0) / n
        S.eq("covariance of a centred sample", Z.T @ Z / n, G, tol=1e-6)


@harness(HARNESSES, "nearest positive semidefinite matrix", points=3)
def _pp(S):
    U = orth2(S, "t")
    a, b = S.real("a", sample=(-1, 1)), S.real("b", sample=(-1, 1))
    S.assume_lt(a, b)
    u = S._arr(np.array([a, b], dtype=object if S.sym else float))
    A = (U * u) @ U.T
    e = S.real("e", 0, 1)
    with decomposed(S, "eigh", u, U):
        P, P2 = CU.project_psd(A, tol_e=e), CU.project_psd(A, tol_e=e, use_transpose=False)
    m = S._arr(np.array([x if x > e else e for x in u], dtype=object if S.sym else float))
    S.eq("eigenvalues raised to the tolerance", P, (U * m) @ U.T)
    S.eq("same by the inverse", P2, P)


for n in (2, 3, 4, 5):
    @harness(HARNESSES, f"structured correlations[{n}]", points=1)
    def _sc(S, n=n):
        r = S.real("r", .1, .9)
        Q = CU.get_ar1_corr(n, r)
        C = CU.get_toeplitz_corr(S.array("v", n - 1, -.9, .9))
        v = S.array("v", n - 1, -.9, .9)
        c = S.real("c", 0, .9)
        X = CU.get_exchangeable_corr(n, c)
        offs = [S.array(f"o{k}", n - k, -.9, .9) for k in range(1, min(n, 3))]
        M = CU.get_mdependent_corr(offs)
        A = CU.get_antedependence1_corr(v)
        for i in range(n):
            for j in range(n):
                k = abs(i - j)
                S.eq("autoregressive", Q[i, j], r ** k)
                S.eq("Toeplitz", C[i, j], 1 if k == 0 else v[k - 1])
                S.eq("exchangeable", X[i, j], 1 if k == 0 else c)
                S.eq("m dependent", M[i, j], 1 if k == 0 else offs[k - 1][min(i, j)] if k <= len(offs) else 0)
                w = 1
                for t in range(min(i, j), max(i, j)):
                    w = w * v[t]
                S.eq("antedependence", A[i, j], w)

    @harness(HARNESSES, f"distance based correlations[{n}]", points=1)
    def _sd(S, n=n):
        if n > 4:
            return
        m = n * (n - 1) // 2
        d = S.array("d", m, 0, 4)
        i, j = np.triu_indices(n, 1)
        Dm = S._arr(np.zeros((n, n), dtype=object if S.sym else float))
        Dm[i, j] = d
        Dm[j, i] = d
        r, th = S.real("r", .1, .9), S.real("th", .5, 3)
        with stub(sp.spatial.distance, "squareform", lambda v: _sq(S, n, v)):
            P, Ex = CU.get_spatialpower_corr(r, d), CU.get_spatialexp_corr(th, d)
        S.eq("power, both forms", P, CU.get_spatialpower_corr(r, Dm))
        S.eq("exponential, both forms", Ex, CU.get_spatialexp_corr(th, Dm))
        S.eq("power", P[i, j], S._arr(np.array([r ** x for x in d], dtype=object if S.sym else float)))
        S.eq("exponential", npx(S).log(Ex[i, j]) * th, -d)
        proper(S, P)


def _sq(S, n, v):
    i, j = np.triu_indices(n, 1)
    M = S._arr(np.zeros((n, n), dtype=object if S.sym else float))
    M[i, j] = v
    M[j, i] = v
    return M


@harness(HARNESSES, "factor covariance", points=1)
def _fc(S):
    A, P, F = S.array("A", (3, 2), sample=(-1, 1)), S.array("P", 3, 0, 2), S.symm("F", 2)
    want = A @ F @ A.T + np.diag(P)
    S.eq("A Phi A' + Psi", CU.get_factor_cov(A, P, F), want)
    S.eq("Psi as a matrix", CU.get_factor_cov(A, np.diag(P), F), want)
    S.eq("uncorrelated factors", CU.get_factor_cov(A, P), A @ A.T + np.diag(P))


@harness(HARNESSES, "given canonical correlations", points=2, timeout=120)
def _cc(S):
    Ux, Uy = orth2(S, "tx"), orth2(S, "ty")
    ex, ey = (S._arr(np.array([S.real(n + "1", .2, 2), S.real(n + "2", .2, 2)], dtype=object if S.sym else float)) for n in ("ex", "ey"))
    Sx, Sy = (Ux * ex) @ Ux.T, (Uy * ey) @ Uy.T
    r = S.array("r", 2, 0, .9)
    M = CU.get_canvar_corr(Sx, Sy, r, Vx=Ux / npx(S).sqrt(ex), Vy=Uy / npx(S).sqrt(ey))
    Sxy = M[:2, 2:]
    S.eq("blocks", M[:2, :2], Sx)
    S.eq("other block", M[2:, 2:], Sy)
    S.eq("symmetric", M[2:, :2], Sxy.T)
    K = Ux.T @ Sxy @ Uy / npx(S).sqrt(ex)[:, None] / npx(S).sqrt(ey)
    S.eq("canonical correlations", K, np.diag(r))


# ---- allocation ---------------------------------------------------------------------------
for n in (1, 2, 3):
    for total in range(0, n):
        @harness(HARNESSES, f"rounding that keeps the sum[{n};{total}]", points=2, paths=64)
        def _sr(S, n=n, total=total):
            ks = [int(x) for x in (3, 1, 5)[:n]]
            f = [S.real(f"f{i}", 0, .999, (.01, .9 / n)) for i in range(n - 1)]
            last = total - sum(f)
            if n == 1:
                last = 0 * S.real("f0", 0, 1)
            S.assume_le(0, last)
            S.assume_lt(last, 1)
            f.append(last)
            for i in range(n):
                for j in range(i):
                    S.assume_ne(f[i], f[j])
            a = S._arr(np.array([k + x for k, x in zip(ks, f)], dtype=object if S.sym else float))
            if S.sym:
                with stub(np, "floor", lambda x: S.const(np.array(ks, dtype=float))):
                    r = FU.sum_preserving_round(a)
            else:
                r = FU.sum_preserving_round(a)
            S.eq("sum", sum(r), sum(ks) + total)
            for i in range(n):
                S.lt("moved by less than one, up", r[i] - a[i], 1 + 1e-9)
                S.lt("moved by less than one, down", -1 - 1e-9, r[i] - a[i])

for n in (2, 3):
    @harness(HARNESSES, f"raising to a minimum[{n}]", points=3, paths=64)
    def _sm(S, n=n):
        a = S.array("a", n, 0, 4)
        t = sum(a)
        r = FU.sum_preserving_min(a.copy(), 1)
        S.eq("sum", sum(r), t)


def _splits(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in _splits(n - i, k - 1):
            yield (i,) + r


@harness(HARNESSES, "allocation and index bookkeeping", points=1)
def _al(S):
    x = S.real("x", 0, 1)
    for k in (1, 2, 3, 4):
        for parts in _splits(12, k):
            if min(parts) < 1:
                continue
            ks, sl = FU.allocate_from_proportions(12, np.array(parts) / 12.0)
            S.true(f"allocation{parts}", [int(i) for i in ks] == list(parts))
            S.true(f"slices{parts}", sl[0][0] == 0 and sl[-1][1] == 12 and all(a[1] == b[0] for a, b in zip(sl, sl[1:]))
                   and all(b - a == s for (a, b), s in zip(sl, parts)))
            ia = FU.sizes_to_ind_arrs(parts)
            S.true("index arrays", [int(i) for key in ia for i in ia[key]] == list(range(12)) and [len(ia[i]) for i in ia] == list(parts))
    for n, bell in ((1, 1), (2, 2), (3, 5), (4, 15), (5, 52)):
        P = FU.partition_set(n)
        canon = {tuple(sorted(tuple(i for i in range(n) if p[i] == c) for c in set(p.tolist()))) for p in P}
        S.true(f"set partitions[{n}]", len(P) == len(canon) == bell)
    for n in range(12):
        S.true("triangular number", FU.triangular_number(n) == sum(range(n + 1)))
    S.eq("nothing else", x, x)
