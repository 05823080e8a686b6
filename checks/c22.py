"""Spline bases, penalties and smooth terms."""
import contextlib
import numpy as np
import pandas as pd
import scipy as sp
import scipy.interpolate
import scipy.linalg
from symx.harness import harness
from checks.fam import stub
from pystatsm.utilities import splines as SP
from pystatsm.pygam import smooth_setup as SS, transforms as TR

HARNESSES = []
FUNCTIONS = ["pystatsm.utilities.splines.{_cr_mats,_cc_mats,crspline_penalty,ccspline_penalty,crspline_basis,ccspline_basis,bspline_basis,bspline_penalty,bspline_knots,ccspline_knots,absorb_constraints,"
             "get_penalty_scale,_get_crsplines,_get_ccsplines,_get_bsplines,gcv,double_gcv,grad_gcv,grad_double_gcv,difference_mat}",
             "pystatsm.pygam.smooth_setup.{get_smooth,get_smooth_terms,get_smooth_matrices}", "pystatsm.pygam.transforms.diagonalize_smooth"]
BOUNDS = "3 to 6 knots, points in every knot interval and on every knot, up to 2 smooth terms of up to 3 coefficients"
ASSUMPTIONS = ["FITPACK's splev is modelled by the Cox-de Boor recursion, banded and tridiagonal solvers by exact elimination", "eigenvalue and QR decompositions return exact factors"]


def obj(S):
    return object if S.sym else float


def arr(S, x):
    return S._arr(np.array(x, dtype=obj(S)))


def knots_(S, n):
    k, out = S.real("k0", sample=(-1, 1)), []
    for i in range(n):
        out.append(k)
        k = k + S.real(f"h{i}", .01, None, (.3, 1.5))
    return arr(S, out)


def ptsv(S):
    def solve(d, e, b):
        """solution of a symmetric tridiagonal system"""
        n = len(d)
        A = [[0 * d[0]] * n for _ in range(n)]
        for i in range(n):
            A[i][i] = d[i]
        for i in range(n - 1):
            A[i][i + 1] = A[i + 1][i] = e[i]
        return d, e, np.linalg.inv(arr(S, A)) @ b, 0
    return solve


@contextlib.contextmanager
def lapack(S):
    if S.sym:
        with stub(sp.linalg, "get_lapack_funcs", lambda *a, **k: ptsv(S)):
            yield
    else:
        yield


def curvature(h, a, b):
    """integral of the product of two piecewise linear functions"""
    return sum(h[i] / 6 * (2 * a[i] * b[i] + 2 * a[i + 1] * b[i + 1] + a[i] * b[i + 1] + a[i + 1] * b[i]) for i in range(len(h)))


# ---- cubic regression splines -----------------------------------------------------------------
for n in (4, 5):
    @harness(HARNESSES, f"natural cubic spline[{n}]", points=2, timeout=120, eager=True)
    def _nc(S, n=n):
        k = knots_(S, n)
        h = np.diff(k)
        with lapack(S):
            P, F = SP.crspline_penalty(k)
        S.eq("no curvature at the ends", F[[0, -1]], np.zeros((2, n)))
        b = S.array("b", n, sample=(-1, 1))
        d = F @ b
        for i in range(1, n - 1):
            S.eq(f"slope continuous at knot {i}", h[i - 1] / 6 * d[i - 1] + (h[i - 1] + h[i]) / 3 * d[i] + h[i] / 6 * d[i + 1], (b[i + 1] - b[i]) / h[i] - (b[i] - b[i - 1]) / h[i - 1])
        S.eq("penalty is the integrated squared curvature", b @ P @ b, curvature(h, d, d))
        S.eq("penalty symmetric", P, P.T)
        S.eq("constants and lines are not penalised", P @ np.stack([k * 0 + 1, k], axis=1), np.zeros((n, 2)))

    for j in range(n - 1):
        @harness(HARNESSES, f"natural cubic basis[{n};{j}]", points=2, timeout=120)
        def _nb(S, n=n, j=j):
            k = knots_(S, n)
            h = np.diff(k)
            t = S.real("t", 0, 1)
            x = k[j] + t * h[j]
            F = S.array("F", (n, n), sample=(-1, 1))
            X = SP.crspline_basis(arr(S, [x]), k, F)
            a, b = t * h[j], (1 - t) * h[j]
            e = np.eye(n)
            want = (1 - t) * e[j] + t * e[j + 1] + (b ** 3 / h[j] - h[j] * b) / 6 * F[j] + (a ** 3 / h[j] - h[j] * a) / 6 * F[j + 1]
            S.eq("cubic with the given curvatures", X[0], want)
            at = SP.crspline_basis(k, k, F)
            S.eq("interpolates", at, e)
            S.deriv("slope", h[j] * (e[j + 1] - e[j]) / h[j] + h[j] * ((-3 * b ** 2 / h[j] + h[j]) * F[j] + (3 * a ** 2 / h[j] - h[j]) * F[j + 1]) / 6, X[0], "t")

# ---- cyclic splines -----------------------------------------------------------------------------
for n in (4, 5, 6):
    @harness(HARNESSES, f"cyclic cubic spline[{n}]", points=2, timeout=200, eager=True, tier="quick" if n < 6 else "thorough")
    def _cc(S, n=n):
        k = knots_(S, n)
        h = np.diff(k)
        m = n - 1
        P, F = SP.ccspline_penalty(k)
        b = S.array("b", m, sample=(-1, 1))
        d = F @ b
        for i in range(m):
            l, r = (i - 1) % m, (i + 1) % m
            S.eq(f"slope continuous at knot {i}", h[l] / 6 * d[l] + (h[l] + h[i]) / 3 * d[i] + h[i] / 6 * d[r], (b[r] - b[i]) / h[i] - (b[i] - b[l]) / h[l])
        if n < 6:
            dd = np.concatenate([d, d[:1]])
            S.eq("penalty is the integrated squared curvature", b @ P @ b, curvature(h, dd, dd))
        S.eq("penalty symmetric", P, P.T)
        S.eq("constants are not penalised", P.sum(axis=1), np.zeros(m))

    for j in range(n - 1):
        @harness(HARNESSES, f"cyclic cubic basis[{n};{j}]", points=2, timeout=120)
        def _cb(S, n=n, j=j):
            k = knots_(S, n)
            h, m = np.diff(k), n - 1
            t = S.real("t", 0, 1)
            F = S.array("F", (m, m), sample=(-1, 1))
            X = SP.ccspline_basis(arr(S, [k[j] + t * h[j]]), k, F)
            a, b = t * h[j], (1 - t) * h[j]
            e, r = np.eye(m), (j + 1) % m
            want = (1 - t) * e[j] + t * e[r] + (b ** 3 / h[j] - h[j] * b) / 6 * F[j] + (a ** 3 / h[j] - h[j] * a) / 6 * F[r]
            S.eq("cubic with the given curvatures", X[0], want)
            S.eq("interpolates and closes", SP.ccspline_basis(k, k, F), np.vstack([e, e[:1]]))


@harness(HARNESSES, "cyclic knots", points=2)
def _ck(S):
    for n, nk in ((6, 4), (7, 5), (5, 5), (9, 4)):
        x = [S.real(f"a{n}{nk}", -1000, 1000, (-1, 1))]
        for i in range(n - 1):
            x.append(x[-1] + S.real(f"d{n}{nk}{i}", .01, 1000, (.3, 1)))
        k = SP.ccspline_knots(arr(S, x), nk)
        S.eq(f"ends {n};{nk}", k[[0, -1]], arr(S, [x[0], x[-1]]))
        for i in range(nk - 1):
            S.lt(f"ascending {n};{nk};{i}", k[i], k[i + 1])
        if n == nk:
            S.eq("all values", k, arr(S, x))


# ---- B-splines ----------------------------------------------------------------------------------
def bspl(knots, c, p, x, der):
    """Cox-de Boor: value of the der-th derivative at one point (right-continuous, closed at the last interior knot)"""
    t = [v for v in knots.tolist()] if hasattr(knots, "tolist") else list(knots)
    c = [v for v in np.asarray(c).tolist()]
    n = len(t) - p - 1
    ell = p
    while ell < n - 1 and bool(x >= t[ell + 1]):
        ell += 1

    def B(i, d, der):
        if der:
            return d * ((B(i, d - 1, der - 1) / (t[i + d] - t[i])) - (B(i + 1, d - 1, der - 1) / (t[i + d + 1] - t[i + 1])))
        if d == 0:
            return 1 if i == ell else 0
        r = 0
        a, b = B(i, d - 1, 0), B(i + 1, d - 1, 0)
        if not (isinstance(a, int) and a == 0):
            r = r + (x - t[i]) / (t[i + d] - t[i]) * a
        if not (isinstance(b, int) and b == 0):
            r = r + (t[i + d + 1] - x) / (t[i + d + 1] - t[i + 1]) * b
        return r
    return sum(c[i] * B(i, p, der) for i in range(max(0, ell - p), min(n, ell + 1)) if not (isinstance(c[i], float) and c[i] == 0))


def splev(S):
    def f(x, tck, der=0, ext=0):
        t, c, p = tck
        return arr(S, [bspl(t, c, p, v, der) for v in x.tolist()])
    return f


def chol_banded(S):
    def f(ab, lower=True, **kw):
        q, n = ab.shape
        A = [[0 * ab[0, 0]] * n for _ in range(n)]
        for i in range(q):
            for j in range(n - i):
                A[j + i][j] = A[j][j + i] = ab[i, j]
        L = np.linalg.cholesky(arr(S, A))
        out = [[0 * ab[0, 0]] * n for _ in range(q)]
        for i in range(q):
            for j in range(n - i):
                out[i][j] = L[j + i, j]
        return arr(S, out)
    return f


@contextlib.contextmanager
def fitpack(S):
    if S.sym:
        with stub(sp.interpolate, "splev", splev(S)), stub(sp.linalg, "cholesky_banded", chol_banded(S)):
            yield
    else:
        yield


for df in (4, 5, 6):
    @harness(HARNESSES, f"B-splines[{df}]", points=2, timeout=200)
    def _bs(S, df=df):
        lo, w = S.real("lo", sample=(-1, 1)), S.real("w", .1, None, (.5, 2))
        ak, ik = SP.bspline_knots(arr(S, [lo, lo + w]), df)
        S.true("number of knots", len(ak) == df + 4 and len(ik) == df - 2)
        S.eq("inner knots", ak[3:-3], ik)
        S.lt("covers the data from below", ik[0], lo)
        S.lt("covers the data from above", lo + w, ik[-1])
        S.eq("equidistant", np.diff(ak), (ik[-1] - ik[0]) / (df - 3) * np.ones(df + 3))
        t = S.real("t", 0, 1)
        with fitpack(S):
            for j in range(df - 3):
                x = arr(S, [ik[j] + t * (ik[j + 1] - ik[j])])
                X = SP.bspline_basis(x, ak)
                S.eq(f"partition of unity {j}", X.sum(), 1.)
                S.eq(f"reproduces lines {j}", X[0] @ arr(S, [(ak[i + 1] + ak[i + 2] + ak[i + 3]) / 3 for i in range(df)]), x[0])
                D = SP.bspline_basis(x, ak, deriv=1)
                S.deriv(f"first derivative {j}", D[0] * (ik[j + 1] - ik[j]), X[0], "t")
            D, P = SP.bspline_penalty(ak, ik)
            C = SP.bspline_basis(ik, ak, deriv=2)
        hh = np.diff(ik)
        for i in range(df):
            for j in range(i + 1):
                S.eq(f"integrated product of curvatures {i},{j}", P[i, j], curvature(hh, C[:, i], C[:, j]), tol=1e-6)
        S.eq("penalty symmetric", P, P.T)


@harness(HARNESSES, "difference matrices", points=1)
def _dm(S):
    b = S.array("b", 5, sample=(-1, 1))
    S.eq("second differences", SP.difference_mat(5) @ b, b[2:] - 2 * b[1:-1] + b[:-2])
    S.eq("first differences", SP.difference_mat(5, 1) @ b, b[1:] - b[:-1])


# ---- constraints and smooth terms -------------------------------------------------------------------
def orth(S, n, name="q"):
    def cs(k):
        t = S.real(f"{name}{k}", -1, 1, (-.9, .9))
        return (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    (c, s) = cs(0)
    if n == 2:
        return arr(S, [[c, -s], [s, c]])
    (d, u) = cs(1)
    return arr(S, [[c, -s, 0], [s, c, 0], [0, 0, 1]]) @ arr(S, [[1, 0, 0], [0, d, -u], [0, u, d]])


def symmetric(S, name, n):
    M = arr(S, np.zeros((n, n)))
    for i in range(n):
        for j in range(i + 1):
            M[i, j] = M[j, i] = S.real(f"{name}{i}{j}", sample=(1.5, 2.5) if i == j else (-.3, .3))
    return M


for n, p in ((2, 2), (3, 3)):
    @harness(HARNESSES, f"centering constraint[{n};{p}]", points=2)
    def _ab(S, n=n, p=p):
        X, P, Q = S.array("X", (n, p), sample=(-1, 1)), symmetric(S, "s", p), orth(S, p)
        Z, R = SP.absorb_constraints(Q, X=X, S=P)
        S.eq("basis", Z, X @ Q[:, 1:])
        b = S.array("b", p - 1, sample=(-1, 1))
        c = Q[:, 1:] @ b
        S.eq("the same function", Z @ b, X @ c)
        S.eq("the same penalty", b @ R @ b, c @ P @ c)
        S.eq("one at a time", SP.absorb_constraints(Q, X=X)[0], Z)
        S.eq("one at a time, penalty", SP.absorb_constraints(Q, S=P)[1], R)

    for kind in ("cr", "cc", "bs"):
        @harness(HARNESSES, f"smooth term[{kind};{n};{p}]", points=2, paths=10)
        def _st(S, n=n, p=p, kind=kind):
            """any basis, penalty and scale: the term is centred, keeps the function space and the scaled penalty"""
            m = S.array("m", p, .1, None)
            Xc = S.array("X", (n - 1, p), sample=(-1, 1))
            X = arr(S, [list(r) for r in Xc] + [list(m * n - Xc.sum(axis=0))])
            P, sc = symmetric(S, "s", p), S.real("sc", .1, None)
            x = S.array("x", n, .1, 1)
            # an orthogonal matrix whose first column is the direction of the column means
            if p == 2:
                r = np.sqrt((m * m).sum())
                Q = arr(S, [[m[0], -m[1]], [m[1], m[0]]]) / r
            else:
                r, s2 = np.sqrt((m * m).sum()), np.sqrt(m[0] ** 2 + m[1] ** 2)
                Q = np.stack([m / r, arr(S, [-m[1], m[0], 0 * m[0]]) / s2, arr(S, [-m[0] * m[2], -m[1] * m[2], s2 ** 2]) / (r * s2)], axis=1)
            seen = []
            with contextlib.ExitStack() as st:
                g = lambda x, df: (X, P, x, {"k": df})
                for nm, f in (("_get_crsplines", g if kind == "cr" else None), ("_get_ccsplines", g if kind == "cc" else None), ("_get_bsplines", g if kind == "bs" else None),
                              ("get_penalty_scale", lambda a, b: sc)):
                    st.enter_context(stub(SS, nm, f))
                st.enter_context(stub(np.linalg, "qr", lambda a, **k: (seen.append(a), (Q, None))[1]))
                T, = SS.get_smooth(x, p, kind)
                B = np.eye(n)
                by = SS.get_smooth(x, p, kind, by=dict(by_vals=B, by_cats=list(range(n))))
            S.eq("constraint from the column means", seen[0][:, 0], m)
            S.eq("sums to zero", T["X"].sum(axis=0), np.zeros(p - 1))
            b = S.array("b", p - 1, sample=(-1, 1))
            S.eq("the same function", T["X"] @ b, X @ (Q[:, 1:] @ b))
            S.eq("scaled penalty", b @ T["S"] @ b * sc, (Q[:, 1:] @ b) @ P @ (Q[:, 1:] @ b))
            S.eq("evaluation data", T["x0"], x)
            S.true("kind", T["kind"] == kind and T["fkws"] == {"k": p})
            for i in range(n):
                S.eq(f"by level {i}", by[i]["X"], T["X"] * B[:, [i]])
                S.eq(f"penalty by level {i}", by[i]["S"], T["S"])
                S.true(f"level {i}", by[i]["by_cat"] == i)

for dims in ((2,), (1, 2), (2, 1)):
    @harness(HARNESSES, f"penalty placement[{dims}]", points=2)
    def _pp(S, dims=dims, n=2, q=1):
        Xp = pd.DataFrame(np.ones((n, q)), columns=["Intercept"])
        sm, Xs, Ss, lds = {}, [], [], []
        eig = []
        for i, p in enumerate(dims):
            X = S.array(f"X{i}", (n, p), sample=(-1, 1))
            u = S.array(f"u{i}", p, .1, None)
            Q = orth(S, p, f"q{i}") if p > 1 else np.eye(1)
            if p == 2:
                u = arr(S, [u[0], 0 * u[1]])
            P = (Q * u) @ Q.T
            eig.append(u)
            sm[f"x{i}"] = dict(X=X, S=P)
            Xs.append(X)
            Ss.append(P)
        it = iter(eig)
        with contextlib.ExitStack() as st:
            if S.sym:
                st.enter_context(stub(np.linalg, "eigvals", lambda a, **k: next(it)))
                st.enter_context(stub(np.linalg, "matrix_rank", lambda a, **k: 1))
            X, P, ranks, ld = SS.get_smooth_matrices(Xp, sm, len(dims), q + sum(dims))
        b = S.array("b", q + sum(dims), sample=(-1, 1))
        S.eq("design", np.concatenate([np.asarray(x) if not S.sym else x for x in X], axis=1)[:, q:], np.concatenate(Xs, axis=1))
        k = q
        for i, p in enumerate(dims):
            c = b[k:k + p]
            S.eq(f"penalty {i} acts on its own coefficients", b @ P[i] @ b, c @ Ss[i] @ c)
            S.eq(f"stored penalty {i}", sm[f"x{i}"]["Si"], P[i])
            S.true(f"positions {i}", list(sm[f"x{i}"]["ix"]) == list(range(k, k + p)))
            S.eq(f"log determinant {i}", ld[i], np.log(eig[i][0]))
            S.true(f"rank {i}", ranks[i] == 1)
            k += p

for dims in ((2,), (2, 2), (3,)):
    @harness(HARNESSES, f"diagonal smooth[{dims}]", points=2, paths=20)
    def _ds(S, dims=dims, q=1):
        sm, k, eig = {}, q, []
        for i, p in enumerate(dims):
            g = [S.real(f"u{i}{j}", .1, None) for j in range(p - 1)]
            u = [0 * g[0]]
            for x in g:
                u.append(u[-1] + x)
            u = arr(S, u)
            Q = orth(S, p, f"q{i}")
            eig.append((u, Q))
            sm[f"x{i}"] = dict(S=(Q * u) @ Q.T, ix=np.arange(k, k + p))
            k += p
        it = iter(eig)
        with contextlib.ExitStack() as st:
            if S.sym:
                st.enter_context(stub(np.linalg, "eigh", lambda a, **kw: tuple(v.copy() for v in next(it))))
            rp, rm, ixp, ixf, ixl = TR.diagonalize_smooth(k, sm)
        T, Ti = rm["T"], rm["Ti"]
        S.eq("inverse", T @ Ti, np.eye(k))
        for i, p in enumerate(dims):
            ix = sm[f"x{i}"]["ix"]
            P = np.zeros((k, k)) if not S.sym else S.const(np.zeros((k, k)))
            for a in range(p):
                for b in range(p):
                    P[ix[a], ix[b]] = sm[f"x{i}"]["S"][a, b]
            D = np.zeros(k)
            D[ix[:-1]] = 1
            S.eq(f"penalty becomes the identity {i}", T.T @ P @ T, np.diag(D), tol=1e-6)
        pen = [j for i, p in enumerate(dims) for j in sm[f"x{i}"]["ix"][:-1]]
        S.true("penalised coordinates", [int(v) - 1 for v in ixp] == pen)
        S.true("free coordinates", sorted([int(v) - 1 for v in ixf] + pen) == list(range(k)))
        S.true("labels", [int(v) for v in ixl] == [i + 1 for i, p in enumerate(dims) for _ in range(p - 1)])

# ---- generalised cross validation ---------------------------------------------------------------------
for n, p in ((2, 1), (3, 2)):
    @harness(HARNESSES, f"generalised cross validation[{n};{p}]", points=2, timeout=120, eager=True)
    def _gc(S, n=n, p=p):
        X, y, a = S.array("X", (n, p), sample=(.5, 2)), S.array("y", n, sample=(-1, 1)), S.real("a", .1, None)
        P = arr(S, [[S.real("s", .1, None)]]) if p == 1 else S.const(np.diag([0., 1.]))
        if p == 2:
            X = S.const(np.array([[1., .3], [1., -.4], [1., .9]]))
        g = S.real("g", 1, 1.5)
        A = X @ np.linalg.inv(X.T @ X + a * P) @ X.T
        r = y - A @ y
        S.eq("definition", SP.gcv(a, X, y, P), n * (r @ r) / (n - np.trace(A)) ** 2)
        S.eq("inflated", SP.double_gcv(a, X, y, P, g), n * (r @ r) / (n - g * np.trace(A)) ** 2)
        S.deriv("gradient", SP.grad_gcv(a, X, y, P), SP.gcv(a, X, y, P), "a")
        S.deriv("gradient, inflated", SP.grad_double_gcv(a, X, y, P, g), SP.double_gcv(a, X, y, P, g), "a")
