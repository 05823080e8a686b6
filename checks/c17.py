"""Linear algebra helpers: weighted least squares solvers, factor updates, structured factors, matrix roots, factor proxies."""
import contextlib
import numpy as np
import scipy as sp
import scipy.sparse
from symx.harness import harness
from symx import sparse as SPX
from symx.sparse import SSp
from pystatsm.utilities import linalg_operations as L
from .fam import npx, stub

HARNESSES = []
FUNCTIONS = ["pystatsm.utilities.linalg_operations.{wcrossp,wdcrossp,add_chol_row,chol_downdate,toeplitz_cholesky_lower_nb,ar1_chol,wls_chol,wls_qr,nwls,lsqr,diag_outer_prod,"
             "wdiag_outer_prod,cproject,eighs,inv_sqrt,mat_sqrt,solve_vander,_inv_vander,_sparse_post_mult,LHV.*,_DenseCholFactor.*,_FactorProxy.*,cholesky,cholesky_AAt,analyze}"]
BOUNDS = ("matrices of order 1 to 4 (roots: 2), up to 4 observations and 2 columns; every real entry, weight of either sign where the solver allows it; "
          "fill-reducing permutations: identity, reversal, rotation")
ASSUMPTIONS = ["designs of full column rank", "CHOLMOD is modelled as an exact Cholesky factorisation of the permuted matrix",
               "eigen- and singular value decompositions return exact factors; in the solver for negative weights with two columns at most one weight is negative or zero"]


def X_(S, n, p):
    return S.array("X", (n, p), sample=(-2, 2))


for n, p in ((2, 1), (3, 2), (4, 2)):
    @harness(HARNESSES, f"crossproducts[{n};{p}]", points=2)
    def _cp(S, n=n, p=p):
        X, Y, w = X_(S, n, p), S.array("Y", (n, 2), sample=(-1, 1)), S.array("w", n, sample=(-1, 2))
        D = np.diag(w)
        S.eq("X'WX", L.wcrossp(X, w), X.T @ D @ X)
        S.eq("X'WY", L.wdcrossp(X, w, Y), X.T @ D @ Y)
        B = S.array("B", (n, p), sample=(-1, 1))
        S.eq("diagonal of A B'", L.diag_outer_prod(X, B), np.diag(X @ B.T))
        W = S.array("W", (p, 2), sample=(-1, 1))
        S.eq("diagonal of A W Y'", L.wdiag_outer_prod(X, W, Y), np.diag(X @ W @ Y.T))

    @harness(HARNESSES, f"least squares[{n};{p}]", points=2, eager=True)
    def _ls(S, n=n, p=p):
        X, y, w = X_(S, n, p), S.array("y", n, sample=(-2, 2)), S.array("w", n, 0, None)
        D = np.diag(w)
        for nm in ("wls_chol", "wls_qr"):
            b = getattr(L, nm)(X, y, w)
            S.eq(nm + ": normal equations", X.T @ D @ X @ b, X.T @ D @ y)
        b = L.lsqr(X, y)
        S.eq("lsqr: normal equations", X.T @ X @ b, X.T @ y)
        P = L.cproject(X)
        S.eq("projection keeps the column space", P @ X, X)
        S.eq("projection is symmetric", P, P.T)
        S.eq("projection is idempotent", P @ P, P)


@contextlib.contextmanager
def svd_rows(S, rows):
    """np.linalg.svd of a matrix whose only nonzero rows are the given ones (one row, or one column)"""
    if not S.sym:
        yield
        return
    from symx import shim, expr as E

    def svd(M, full_matrices=True, compute_uv=True, **k):
        M = shim.obj(M)
        n, p = M.shape
        if p == 1:
            s = shim.unary("sqrt", shim.sarr(M[:, 0]) @ shim.sarr(M[:, 0]))
            return None, shim.sarr(np.array([s], dtype=object)), shim.sarr(np.eye(1))
        q = M[rows[0]] if rows else None
        if q is None:
            return None, shim.sarr(np.zeros(p)), shim.sarr(np.eye(p))
        r = shim.unary("sqrt", shim.sarr(q) @ shim.sarr(q))
        V = np.array([[q[0] / r, q[1] / r], [-q[1] / r, q[0] / r]], dtype=object)
        return None, shim.sarr(np.array([r, E.ZERO], dtype=object)), shim.sarr(V)
    with stub(np.linalg, "svd", svd):
        yield


for n, p, neg in ((2, 1, (0,)), (3, 1, (0, 2)), (3, 1, ()), (3, 2, ())):
    @harness(HARNESSES, f"least squares with negative weights[{n};{p};{','.join(map(str, neg))}]", points=2, eager=True)
    def _nw(S, n=n, p=p, neg=neg):
        X, y, a = X_(S, n, p), S.array("y", n, sample=(-2, 2)), S.array("a", n, 0, None, sample=(.2, 2))
        w = a * S.const(np.array([-.25 if i in neg else 1.0 for i in range(n)]))
        D = np.diag(w)
        if p == 1:
            S.assume_ne((X[:, 0] * X[:, 0] * w).sum(), 0)
        with svd_rows(S, neg):
            b = L.nwls(X, y, w)
        S.eq("normal equations", X.T @ D @ X @ b, X.T @ D @ y)

for neg in (0, 1, 2):
    for zero in (False, True):
        @harness(HARNESSES, f"least squares with a {'zero' if zero else 'negative'} weight[3;2;{neg}]", points=2, eager=True)
        def _nz(S, neg=neg, zero=zero):
            Q = np.array([[2, 2], [-1, 2], [2, -1]]) / 3
            U = S.lower("r", 2)
            s = np.array([1., .5, 2])
            X = (S.const(Q) @ U.T) / s[:, None]
            w = np.array([1., .25, 4])
            X[neg] = X[neg] * (0 if zero else 1)
            w[neg] *= -1
            w = S.const(w)
            if zero:        # the weight is zero; the design row is whatever it is
                x0 = S.array("x", 2, sample=(-2, 2))
                X[neg] = x0
                w[neg] = w[neg] * 0
            y = S.array("y", 3, sample=(-2, 2))
            D = np.diag(w)
            with svd_rows(S, (neg,)) if not zero else svd_rows(S, ()):
                b = L.nwls(X, y, w)
            S.eq("normal equations", X.T @ D @ X @ b, X.T @ D @ y)

# ---- factors ----------------------------------------------------------------------------
for n in (1, 2, 3):
    @harness(HARNESSES, f"bordered factor[{n}]", points=2)
    def _ac(S, n=n):
        A, C = S.posdef("A", n)
        F = S.const(np.zeros((n, n)))
        for i in range(n):
            r = L.add_chol_row(A, F, i)
            S.eq(f"factor of the leading block {i + 1}", F[:i + 1, :i + 1] @ F[:i + 1, :i + 1].T, A[:i + 1, :i + 1])
            S.true("works in place", r is F)

for n, k in ((2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 3), (4, 2), (4, 1)):
    @harness(HARNESSES, f"factor without a row[{n};{k}]", points=2, timeout=120)
    def _cd(S, n=n, k=k):
        F = S.lower("l", n)
        A = F @ F.T
        ix = [i for i in range(n) if i != k]
        G = L.chol_downdate(F.copy(), k)[:n - 1, :n - 1]
        S.eq("factor of the matrix without the row", G @ G.T, A[np.ix_(ix, ix)])
        for i in range(n - 1):
            S.lt("positive diagonal", 0, G[i, i])
            for j in range(i + 1, n - 1):
                S.eq("lower triangular", G[i, j], 0)

for n in (1, 2, 3):
    @harness(HARNESSES, f"Toeplitz factor[{n}]", points=2, timeout=120)
    def _tc(S, n=n):
        v = S.real("v", 0, None)
        p = [S.real(f"p{i}", -1, 1) for i in range(n - 1)]
        r = [1, p[0] if n > 1 else None, p[0] ** 2 + p[1] * (1 - p[0] ** 2) if n > 2 else None][:n]
        A = S._arr(np.array([[v * r[abs(i - j)] for j in range(n)] for i in range(n)], dtype=object if S.sym else float))
        F = L.toeplitz_cholesky_lower_nb(n, A)
        S.eq("factor", F @ F.T, A)
        for i in range(n):
            for j in range(i + 1, n):
                S.eq("lower triangular", F[i, j], 0)

for n in (2, 3, 4):
    @harness(HARNESSES, f"first order autoregressive factor[{n}]", points=2)
    def _a1(S, n=n):
        r = S.real("rho", -.95, .95)
        F = L.ar1_chol(n, r)
        S.eq("factor", F @ F.T, S._arr(np.array([[r ** abs(i - j) for j in range(n)] for i in range(n)], dtype=object if S.sym else float)))


def rotation(S, name):
    t = S.real(name, sample=(-1, 1))
    d = 1 + t * t
    return S._arr(np.array([[(1 - t * t) / d, -2 * t / d], [2 * t / d, (1 - t * t) / d]], dtype=object if S.sym else float))


@contextlib.contextmanager
def eigen(S, u, V):
    """np.linalg.eigh of V diag(u) V' (ascending)"""
    if S.sym:
        from symx import shim
        with stub(np.linalg, "eigh", lambda a, *k, **kw: (u.copy(), V.copy())):
            yield
    else:
        yield


@harness(HARNESSES, "matrix roots", points=3)
def _mr(S):
    V = rotation(S, "t")
    a, b = S.real("a", .1, None), S.real("b", .1, None)
    u = S._arr(np.array([a, a + b], dtype=object if S.sym else float))
    A = (V * u) @ V.T
    with eigen(S, u, V):
        R, Q = L.mat_sqrt(A), L.inv_sqrt(A)
        d, W = L.eighs(A)
    S.eq("square of the root", R @ R, A)
    S.eq("the root is symmetric", R, R.T)
    S.eq("inverse root", Q @ A @ Q, np.eye(2))
    S.eq("inverse root is symmetric", Q, Q.T)
    S.eq("eigenvalues descend", d, u[::-1])
    S.eq("eigenvectors follow", (W * d) @ W.T, A)


@harness(HARNESSES, "matrix roots of a singular matrix", points=3)
def _ms(S):
    V = rotation(S, "t")
    b = S.real("b", .1, None)
    u = S._arr(np.array([0 * b, b], dtype=object if S.sym else float))
    A = (V * u) @ V.T
    with eigen(S, u, V):
        R, Q = L.mat_sqrt(A), L.inv_sqrt(A)
    S.eq("square of the root", R @ R, A, tol=1e-7)
    S.eq("generalised inverse root", Q @ A @ Q, V[:, 1:] @ V[:, 1:].T, tol=1e-5)


for n in (1, 2, 3, 4):
    @harness(HARNESSES, f"Vandermonde systems[{n}]", points=2)
    def _va(S, n=n):
        a, b = S.array("a", n, sample=(-2, 2)), S.array("b", n, sample=(-2, 2))
        for i in range(n):
            for j in range(i):
                S.assume_ne(a[i], a[j])
                S.assume_ne(a[i] - a[j], 0)
        b0 = b.copy()
        x = L.solve_vander(a, b)
        for i in range(n):
            S.eq("power sums of the solution", sum(a[j] ** i * x[j] for j in range(n)), b0[i], tol=1e-5)
        S.eq("right hand side kept", b, b0)
        if n < 4:
            B = L._inv_vander(a)
            V = S._arr(np.array([[a[i] ** (n - 1 - j) for j in range(n)] for i in range(n)], dtype=object if S.sym else float))
            S.eq("inverse", B @ V, np.eye(n), tol=1e-4)


@harness(HARNESSES, "sparse post multiplication", points=1)
def _sp(S):
    A, B = S.array("A", (2, 3)), S.array("B", (3, 2))
    M = B * S.const(np.array([[1., 0], [0, 1], [1, 1]]))
    T = SSp.of_dict({(0, 0): B[0, 0], (1, 1): B[1, 1], (2, 0): B[2, 0], (2, 1): B[2, 1]}, (3, 2)) if S.sym else sp.sparse.csc_array(np.asarray(M))
    S.eq("A S", L._sparse_post_mult(A, T), A @ M)


for n in (2, 3):
    @harness(HARNESSES, f"unit row norm transform[{n}]", points=2)
    def _lh(S, n=n):
        T = L.LHV(n)
        k = T.lhv_size
        x = S.array("x", k, sample=(-1, 1))
        y = T._fwd(x)
        S.eq("reverse of forward", T._rvs(y), x)
        names = [f"x_{i}" for i in range(k)]
        J, H = T._jac_fwd(x), T._hess_fwd(x)
        S.deriv("Jacobian", J, y, names)
        S.deriv("second derivatives", H, J, names)
        M = S._arr(np.zeros((n, n), dtype=object)) if S.sym else np.zeros((n, n))
        M[L.lhv_indices((n, n))[0], L.lhv_indices((n, n))[1]] = x
        for i in range(n):
            M[i, i] = 1.0
        N = M / npx(S).sqrt((M * M).sum(axis=1))[:, None]
        S.eq("rows scaled to unit length", y, N[T.row_inds, T.col_inds])

    @harness(HARNESSES, f"unit row norm transform reversed[{n}]", points=2)
    def _lr(S, n=n):
        T = L.LHV(n)
        k = T.lhv_size
        y = S.array("y", k, -.55, .55)
        x = T._rvs(y)
        names = [f"y_{i}" for i in range(k)]
        J, H = T._jac_rvs(y), T._hess_rvs(y)
        S.deriv("Jacobian", J, x, names)
        S.deriv("second derivatives", H, J, names)


# ---- Cholesky factor objects -------------------------------------------------------------
def sparsed(S, A):
    n, m = A.shape
    if S.sym:
        return SSp.of_dict({(i, j): A[i, j] for i in range(n) for j in range(m)}, (n, m))
    return sp.sparse.csc_matrix(np.asarray(A, dtype=float))


def dn(x):
    return x.toarray() if sp.sparse.issparse(x) or isinstance(x, SSp) else x


def judge(S, f, A, tag, sparse_rhs=True, proxy=False):
    n = A.shape[0]
    P = np.asarray(f.P())
    F = dn(f.L())
    up = np.argsort(P)
    S.true(tag + "permutation", sorted(int(i) for i in P) == list(range(n)))
    # (stated in the order of A: the order of the factor is CHOLMOD's choice)
    S.eq(tag + "factor of the permuted matrix", (F @ F.T)[up][:, up], A)
    S.eq(tag + "product of D", npx(S).log(f.D()).sum(), 2 * npx(S).log(np.diag(F)).sum())
    b = S.array("b", (n, 2), sample=(-1, 1))
    S.eq(tag + "permutation undone", f.apply_Pt(f.apply_P(b)), b)
    S.true(tag + "permutation applied", all(x is y or x == y for x, y in zip(f.apply_P(b)[:, 0], b[P][:, 0])))
    S.eq(tag + "A x = b", A @ f.solve_A(b), b)
    S.eq(tag + "A x = b, one vector", A @ f.solve_A(b[:, 0]), b[:, 0])
    S.eq(tag + "L x = b", F @ f.solve_L(b, use_LDLt_decomposition=False), b)
    S.eq(tag + "L' x = b", F.T @ f.solve_Lt(b, use_LDLt_decomposition=False), b)
    if proxy:
        D = f.D()
        U = F / np.diag(F)
        S.eq(tag + "unit factor", ((U * D) @ U.T)[up][:, up], A)
        S.eq(tag + "unit L x = b", U @ f.solve_L(b), b)
        S.eq(tag + "unit L' x = b", U.T @ f.solve_Lt(b), b)
        G = dn(f.L())
        S.eq(tag + "factor after the unit factor", (G @ G.T)[up][:, up], A)
    bs = sparsed(S, b)
    S.eq(tag + "sparse right hand side", A @ dn(f.solve_A(bs)), b)
    S.eq(tag + "log determinant", f.slogdet()[1], 2 * npx(S).log(np.diag(F)).sum())
    S.eq(tag + "inverse", A @ dn(f.inv()), np.eye(n))


for n in (1, 2, 3):
    @harness(HARNESSES, f"dense factor object[{n}]", points=2, eager=True)
    def _df(S, n=n):
        A, C = S.posdef("A", n)
        judge(S, L._DenseCholFactor(A), A, "dense: ")
        be = S.real("beta", .1, 2)
        f = L._DenseCholFactor(A, beta=1)
        F = dn(f.L())
        S.eq("with beta", F @ F.T, A + np.eye(n))
        B = S.lower("B", n)
        f = L._DenseCholFactor(B, AAt=True)
        S.eq("of A A'", dn(f.L()) @ dn(f.L()).T, B @ B.T)
        f = L._DenseCholFactor()
        S.true("factorises in place", f.cholesky_inplace(A) is f)
        S.eq("in place", dn(f.L()) @ dn(f.L()).T, A)

for n, perm in ((2, "rev"), (3, "roll"), (2, "id")):
    @harness(HARNESSES, f"CHOLMOD factor object[{n};{perm}]", points=2, eager=True)
    def _cf(S, n=n, perm=perm):
        SPX.PERM[0] = perm
        A, C = S.posdef("A", n)
        f = L.cholesky(sparsed(S, A))
        judge(S, f, A, "", proxy=True)
        B, _ = S.posdef("B", n)
        S.true("factorises in place", f.cholesky_inplace(sparsed(S, B)) is f)
        judge(S, f, B, "again: ", proxy=True)
        g = L.analyze(sparsed(S, A))
        g.cholesky_inplace(sparsed(S, A))
        S.eq("after analysis", A @ g.solve_A(A), A)
        T = S.lower("T", n)
        h = L.cholesky_AAt(sparsed(S, T))
        v = S.array("v", n, sample=(-1, 1))
        S.eq("A A' x = b", T @ (T.T @ h.solve_A(v)), v)
        k = L.cholesky(sparsed(S, A), beta=1)
        S.eq("with beta", A @ k.solve_A(v) + k.solve_A(v), v)
        S.eq("log determinant with beta", k.slogdet()[1], npx(S).log(np.diag(dn(k.L()))).sum() * 2)
