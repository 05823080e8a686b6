"""Factor analysis: likelihood and its derivatives, rotation criteria, identification constraints, inference, alignment."""
import contextlib
import itertools
import types
import numpy as np
import scipy as sp
import scipy.linalg
from symx.harness import harness
from checks.fam import stub
from pystatsm.pyfa2 import (alignment as AL, cayley as CY, criterion as CR, identification as ID, inference as IN, layout as LY, likelihood as LK, rotation as RO,
                            simulation as SI, sim_factor_model as SF, solvers as SO)

HARNESSES = []
FUNCTIONS = ["pystatsm.pyfa2.layout.ParamLayout", "pystatsm.pyfa2.likelihood.MLEstimator (all but the call of the optimiser)", "pystatsm.pyfa2.criterion.{GCFCriterion,TargetCriterion}",
             "pystatsm.pyfa2.cayley.*", "pystatsm.pyfa2.rotation.{OrthoRotation,ObliqueRotation}", "pystatsm.pyfa2.identification.{RotationIdentification,CanonicalIdentification}",
             "pystatsm.pyfa2.inference.*", "pystatsm.pyfa2.alignment.*", "pystatsm.pyfa2.solvers.{GPA.solve,CayleySolver._fg}", "pystatsm.pyfa2.simulation.{FactorModel,generate_factor_corr,generate_loadings}",
             "pystatsm.pyfa2.sim_factor_model.{unpack_se,alignment_matrix,run}"]
BOUNDS = "2 to 4 observed variables, 1 to 3 factors, up to 3 gradient projection steps with up to 2 line search steps each"
ASSUMPTIONS = ["eigenvalue and singular value decompositions return exact factors", "the assignment solver returns an optimal assignment",
               "the optimiser of the concentrated likelihood is outside; objective, gradient and Hessian handed to it are inside"]


def obj(S):
    return object if S.sym else float


def theta_(S, lay, m):
    L, psi = S.array("L", (lay.p, m), sample=(-1, 1)), S.array("psi", lay.p, 0, None, sample=(.3, 1))
    Phi = np.eye(m)
    if m > 1:
        Phi = S._arr(np.array([[1 if i == j else 0 for j in range(m)] for i in range(m)], dtype=obj(S)))
        for i in range(m):
            for j in range(i):
                Phi[i, j] = Phi[j, i] = S.real(f"phi{i}{j}", -.4, .4)
    return L, Phi, psi


def vec(A):
    return np.concatenate([A[:, j] for j in range(A.shape[1])])


def cols(name, p, m):
    return [f"{name}_{i}_{j}" for j in range(m) for i in range(p)]


def wrt(lay, m):
    return cols("L", lay.p, m) + [f"phi{i}{j}" for i, j in zip(lay._row_i, lay._col_j)] + [f"psi_{i}" for i in range(lay.p)]


@contextlib.contextmanager
def lu(S):
    if S.sym:
        with stub(sp.linalg, "lu_factor", lambda a, *k, **kw: (a, None)), \
                stub(sp.linalg, "lu_solve", lambda f, b, trans=0, **kw: np.linalg.solve(f[0].T if trans else f[0], b)):
            yield
    else:
        yield


@contextlib.contextmanager
def eigen(S, u, V):
    if S.sym:
        with stub(np.linalg, "eigh", lambda a, *k, **kw: (u.copy(), V.copy())), stub(np.linalg, "eigvalsh", lambda a, *k, **kw: u.copy()):
            yield
    else:
        yield


def orth(S, n, name="t"):
    def cs(k):
        t = S.real(f"{name}{k}", -1, 1, (-.9, .9))
        return (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    o = obj(S)
    if n == 1:
        return S.const(np.eye(1))
    (c, s) = cs(0)
    if n == 2:
        return S._arr(np.array([[c, -s], [s, c]], dtype=o))
    (d, u), (e, v) = cs(1), cs(2)
    A = S._arr(np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]], dtype=o))
    B = S._arr(np.array([[1, 0, 0], [0, d, -u], [0, u, d]], dtype=o))
    C = S._arr(np.array([[e, -v, 0], [v, e, 0], [0, 0, 1]], dtype=o))
    return A @ B @ C


# ---- layout --------------------------------------------------------------------------------
for p, m in ((2, 1), (3, 2), (4, 3)):
    @harness(HARNESSES, f"parameter layout[{p};{m}]", points=2)
    def _ly(S, p=p, m=m):
        lay = LY.ParamLayout(p, m)
        L, Phi, psi = theta_(S, lay, m)
        th = lay.pack(L, Phi, psi)
        S.true("length", len(th) == p * m + m * (m - 1) // 2 + p)
        for nm, a, b in zip(("loadings", "factor correlations", "unique variances"), lay.unpack(th), (L, Phi, psi)):
            S.eq(nm, a, b)
        S.eq("diagonal matrix of unique variances", lay.pack(L, Phi, np.diag(psi)), th)
        t2 = S.array("th", lay.nt, sample=(-1, 1))
        S.eq("pack inverts unpack", lay.pack(*lay.unpack(t2)), t2)
        e = LK.MLEstimator.__new__(LK.MLEstimator)
        e.p, e.m, e.layout = p, m, lay
        S.eq("implied covariance", e.sigma(th), L @ Phi @ L.T + np.diag(psi))
        G = e.dsigma(th)
        S.deriv("derivative of the implied covariance", np.array([G[:, i, j] for i in range(p) for j in range(p)]), np.array([e.sigma(th)[i, j] for i in range(p) for j in range(p)]), wrt(lay, m))


def estimator(S, p, m, Sm):
    e = LK.MLEstimator.__new__(LK.MLEstimator)
    e.S, e.p, e.m, e.r, e.layout = Sm, p, m, p - m, LY.ParamLayout(p, m)
    return e


def symm(S, p):
    Sm = S._arr(np.zeros((p, p), dtype=obj(S)))
    for i in range(p):
        for j in range(i + 1):
            Sm[i, j] = Sm[j, i] = S.real(f"s{i}{j}", sample=(1.5, 2.5) if i == j else (-.5, .5))
    return Sm


for p, m in ((1, 1), (2, 1), (2, 2), (3, 1)):
    @harness(HARNESSES, f"likelihood derivatives[{p};{m}]", points=2, timeout=200, eager=p < 3, tier="thorough" if (p, m) == (2, 2) else "quick")
    def _ld(S, p=p, m=m):
        Sm = symm(S, p)
        e = estimator(S, p, m, Sm)
        L, Phi, psi = theta_(S, e.layout, m)
        th = e.layout.pack(L, Phi, psi)
        ws = e.workspace(th)
        Sig = L @ Phi @ L.T + np.diag(psi)
        S.eq("objective", ws.F(), np.log(np.linalg.det(Sig)) + np.trace(np.linalg.inv(Sig) @ Sm))
        if p < 3:
            S.deriv("gradient", ws.grad(), ws.F(), wrt(e.layout, m))
            S.deriv("Hessian", ws.hessian(), ws.grad(), wrt(e.layout, m))
            S.eq("gradient, direct", e.grad(th), ws.grad())
            S.eq("Hessian, direct", e.hessian(th), ws.hessian())
            ix = [(i, j) for j in range(p) for i in range(j, p)]
            S.deriv("derivative of the score in the sample covariance", e.score_jacobian(th), ws.grad(), [f"s{i}{j}" for i, j in ix])
        B = ws.score_jacobian()
        n = S.real("n", 1, None, (5, 20))
        ix = [(i, j) for j in range(p) for i in range(j, p)]
        V = S._arr(np.array([[(Sig[a, c] * Sig[b, d] + Sig[a, d] * Sig[b, c]) / n for c, d in ix] for a, b in ix], dtype=obj(S)))
        S.eq("normal theory covariance of the score", ws.meat(n_obs=n), e.meat(th, V_S=V))
        q = len(ix)
        U = S.array("U", (q, q), sample=(-1, 1))
        S.eq("covariance of the score", ws.meat(V_S=U), B @ U @ B.T)


@harness(HARNESSES, "likelihood derivatives, matrix form[3;2]", points=1, timeout=240)
def _lm(S, p=3, m=2):
    """gradient and Hessian against their traces with the derivative matrices, the inverse being an arbitrary symmetric matrix"""
    Sm = symm(S, p)
    e = estimator(S, p, m, Sm)
    L, Phi, psi = theta_(S, e.layout, m)
    th = e.layout.pack(L, Phi, psi)
    ws = e.workspace(th)
    iv = np.linalg.inv(L @ Phi @ L.T + np.diag(psi))
    low = S.cut("P", S._arr(np.array([iv[i, j] for i in range(p) for j in range(i + 1)], dtype=obj(S))))
    P, k = S._arr(np.zeros((p, p), dtype=obj(S))), 0
    for i in range(p):
        for j in range(i + 1):
            P[i, j] = P[j, i] = low[k]
            k += 1
    ws.Sinv = P
    P = ws.Sinv
    G, R, g, H = ws.dsigma, ws.Sigma - Sm, ws.grad(), ws.hessian()
    nt = e.layout.nt
    # second derivatives of the implied covariance
    D2 = S._arr(np.zeros((nt, nt, p, p), dtype=obj(S)))
    for a in range(nt):
        ea = np.zeros(nt)
        ea[a] = 1
        La, Pa, sa = (x - y for x, y in zip(e.layout.unpack(ea), e.layout.unpack(np.zeros(nt))))
        for b in range(nt):
            eb = np.zeros(nt)
            eb[b] = 1
            Lb, Pb, sb = (x - y for x, y in zip(e.layout.unpack(eb), e.layout.unpack(np.zeros(nt))))
            T = La @ Pb @ L.T + La @ Phi @ Lb.T + Lb @ Pa @ L.T
            D2[a, b] = T + T.T
    for a in range(nt):
        S.eq(f"gradient {a}", g[a], np.trace(P @ R @ P @ G[a]))
        for b in range(a + 1):
            r = np.trace(P @ G[b] @ P @ G[a]) - 2 * np.trace(P @ G[b] @ P @ R @ P @ G[a]) + np.trace(P @ R @ P @ D2[a, b])
            S.eq(f"Hessian {a},{b}", H[a, b], r)
            S.eq(f"Hessian {b},{a}", H[b, a], r)


# ---- concentrated likelihood ----------------------------------------------------------------
def concentrated(S, p, m):
    V = orth(S, p)
    u, last = [], 0
    for i in range(p):
        last = last + S.real(f"g{i}", 1e-6, None, (.2, .6)) + (1 if i == p - m else 0)
        u.append(last)
    u = S._arr(np.array(u, dtype=obj(S)))
    psi = S.array("psi", p, .1, None, sample=(.5, 1.5))
    r = np.sqrt(psi)
    W = (V * u) @ V.T
    return V, u, psi, r.reshape(-1, 1) * W * r, W


for p, m in ((2, 1), (3, 1), (3, 2)):
    @harness(HARNESSES, f"concentrated likelihood[{p};{m}]", points=2, timeout=200, paths=20)
    def _cl(S, p=p, m=m):
        V, u, psi, Sm, W = concentrated(S, p, m)
        e = estimator(S, p, m, Sm)
        seen = []
        with eigen(S, u, V):
            if S.sym:
                def keep(a, *k, **kw):
                    seen.append(a)
                    return u.copy(), V.copy()
                with stub(np.linalg, "eigh", keep), stub(np.linalg, "eigvalsh", lambda a, *k, **kw: keep(a)[0]):
                    f, g, H, L = e.loglike_psi(psi), e.grad_psi(psi), e.hess_psi(psi), e.loadings_from_psi(psi)
            else:
                f, g, H, L = e.loglike_psi(psi), e.grad_psi(psi), e.hess_psi(psi), e.loadings_from_psi(psi)
            rho = np.log(psi)
            fe, ge, He = e.loglike_exp(rho), e.grad_exp(rho), e.hess_exp(rho)
        for k, a in enumerate(seen):
            S.eq(f"scaled covariance {k}", a, W)
        r = p - m
        S.eq("objective", f, sum(u[i] - np.log(u[i]) - 1 for i in range(r)))
        D = np.sqrt(psi)
        S.eq("loadings", L @ L.T, D.reshape(-1, 1) * ((V[:, r:] * (u[r:] - 1)) @ V[:, r:].T) * D)
        # derivatives of the eigenvalues and eigenvectors of D^-1/2 S D^-1/2
        du = S._arr(np.array([[-u[i] * V[k, i] ** 2 / psi[k] for k in range(p)] for i in range(p)], dtype=obj(S)))
        g0 = S._arr(np.array([sum((1 - 1 / u[i]) * du[i, k] for i in range(r)) for k in range(p)], dtype=obj(S)))
        S.eq("gradient", g, g0)
        H0 = S._arr(np.zeros((p, p), dtype=obj(S)))
        for j in range(p):
            for k in range(p):
                h = -g0[j] / psi[j] if j == k else 0
                for i in range(r):
                    dV = sum(-(u[i] + u[l]) / (2 * psi[k]) * V[k, l] * V[k, i] / (u[i] - u[l]) * V[j, l] for l in range(p) if l != i)
                    h = h - du[i, k] * V[j, i] ** 2 / psi[j] + (1 - u[i]) * 2 * V[j, i] * dV / psi[j]
                H0[j, k] = h
        S.eq("Hessian", H, H0)
        S.eq("objective on the log scale", fe, f)
        S.eq("gradient on the log scale", ge, psi * g)
        S.eq("Hessian on the log scale", He, psi.reshape(-1, 1) * H * psi + np.diag(psi * g))
        # the loadings minimise the full objective for these unique variances
        th = e.layout.pack(L, np.eye(m), psi)
        ws = e.workspace(th)
        d = np.array([1.] * r + [0.] * m) + (np.array([0.] * r + [1.] * m) * u)
        iv = 1 / np.sqrt(psi)
        if S.sym:
            ws.Sinv = iv.reshape(-1, 1) * ((V / d) @ V.T) * iv
        S.eq("inverse of the implied covariance", ws.Sinv @ ws.Sigma, np.eye(p))
        gf = ws.grad()
        S.eq("score of the loadings", gf[:p * m], np.zeros(p * m), tol=1e-6)
        S.eq("score of the unique variances", gf[e.layout.ixr], g)


# ---- criteria -------------------------------------------------------------------------------
def criteria(S, kind, p, m):
    if kind == "target":
        return CR.TargetCriterion(S.array("H", (p, m), sample=(-1, 1)))
    if kind == "weighted target":
        return CR.TargetCriterion(S.array("H", (p, m), sample=(-1, 1)), S.array("W", (p, m), 0, None))
    return CR.GCFCriterion(kind, p, m)


METHODS = ("varimax", "quartimax", "equamax", "parsimax")

for kind in METHODS + ("target", "weighted target"):
    for p, m in ((2, 2), (3, 2), (4, 3)):
        @harness(HARNESSES, f"rotation criterion[{kind};{p};{m}]", points=2)
        def _rc(S, kind=kind, p=p, m=m):
            c = criteria(S, kind, p, m)
            L = S.array("L", (p, m), sample=(-1, 1))
            B = L * L
            if kind in METHODS:
                K = {"varimax": 1 / p, "quartimax": 0, "equamax": m / (2 * p), "parsimax": (m - 1) / (p + m - 2)}[kind]
                q = sum(B[i, j] * B[i, k] for i in range(p) for j in range(m) for k in range(m) if j != k) * (1 - K)
                q = q + sum(B[i, j] * B[l, j] for j in range(m) for i in range(p) for l in range(p) if i != l) * K
                if kind == "quartimax":
                    # sum of fourth powers up to the communalities, plus a multiple of the column criterion
                    q = None
                    a = L.copy()
                    S.eq("symmetric in the order of the factors", c.Q(L[:, ::-1]), c.Q(L))
                else:
                    S.eq("Crawford-Ferguson criterion", c.Q(L), q / 4, tol=1e-8)
                S.eq("unchanged by reflections", c.Q(L * np.where(np.arange(m) % 2, 1., -1.)), c.Q(L))
            else:
                W = c.W
                S.eq("distance to the target", c.Q(L), sum(W[i, j] * (L[i, j] - c.H[i, j]) ** 2 for i in range(p) for j in range(m)) / 2)
            S.deriv("gradient", vec(c.dQ(L)), c.Q(L), cols("L", p, m))
            S.deriv("Hessian", c.d2Q(L), vec(c.dQ(L)), cols("L", p, m))
            Y = S.array("Y", (p * m, 2), sample=(-1, 1))
            S.eq("Hessian times matrix", c.d2Q_apply(L, Y), c.d2Q(L) @ Y)
            S.eq("Hessian times vector", c.d2Q_apply(L, Y[:, 0]), c.d2Q(L) @ Y[:, 0])


# ---- rotations ------------------------------------------------------------------------------
for m in (2, 3):
    @harness(HARNESSES, f"Cayley transform[{m}]", points=2, timeout=120, eager=True)
    def _cy(S, m=m):
        n = m * (m - 1) // 2
        t = S.array("t", n, sample=(-1, 1))
        K = CY.vec_to_skew(t, m)
        S.eq("skew-symmetric", K, -K.T)
        S.eq("vector of a skew matrix", CY.skew_to_vec(K), t)
        Q = CY.vec_to_rot(t, m)
        S.eq("orthogonal", Q.T @ Q, np.eye(m))
        S.eq("round trip", CY.rot_to_vec(Q), t)
        S.eq("definition", (np.eye(m) + K) @ Q, np.eye(m) - K)
        r = RO.OrthoRotation(m)
        S.eq("rotation of the class", r.unconstrained_to_rotation(t), Q)
        S.eq("inverse of the class", r.rotation_to_unconstrained(Q), t)
        S.true("dimension", r.constraint_dim == n == r.n_constraints())
        H = S.array("H", (m, m), sample=(-1, 1))
        with lu(S):
            d = r.d_rotation(t, H)
        S.deriv("derivative of an inner product with the rotation", d, sum(H[i, j] * Q[i, j] for i in range(m) for j in range(m)), "t")

    @harness(HARNESSES, f"orthogonal rotation[{m}]", points=2, timeout=120, paths=10)
    def _or(S, m=m):
        r, p = RO.OrthoRotation(m), m + 1
        A, G, T = S.array("A", (p, m), sample=(-1, 1)), S.array("G", (m, m), sample=(-1, 1)), S.array("T", (m, m), sample=(-1, 1))
        S.eq("loadings", r.rotated_loadings(A, T), A @ T)
        S.eq("uncorrelated factors", r.implied_corr(T), np.eye(m))
        Z = S.array("Z", (p, m), sample=(-1, 1))
        S.deriv("gradient in the rotation", vec(r.grad(A, T, Z)), sum(Z[i, j] * r.rotated_loadings(A, T)[i, j] for i in range(p) for j in range(m)), cols("T", m, m))
        Q = orth(S, m, "a")
        P = r.constraint_project(Q, G)
        S.eq("projection is tangent", Q.T @ P + P.T @ Q, np.zeros((m, m)))
        S.eq("projection is idempotent", r.constraint_project(Q, P), P)
        N = G - P
        S.eq("remainder is normal", Q.T @ N, N.T @ Q)
        d = S.array("d", m, .1, None, sample=(.5, 2))
        sg = np.ones(m)
        for flip in (False, True):
            U, W = orth(S, m, "u"), orth(S, m, "w")
            if flip:
                U = U * np.array([-1.] + [1.] * (m - 1))
            X = (U * d) @ W
            with (stub(np.linalg, "svd", lambda *k, **kw: (U.copy(), d.copy(), W.copy())) if S.sym else contextlib.nullcontext()):
                O = r.constraint_retract(X)
            S.eq(f"retraction is orthogonal {flip}", O.T @ O, np.eye(m))
            S.eq(f"retraction preserves orientation {flip}", np.linalg.det(O), 1.)
            if not flip:
                S.eq("polar factor", O, U @ W)

    @harness(HARNESSES, f"oblique rotation[{m}]", points=2, timeout=200, eager=m < 3)
    def _ob(S, m=m):
        r, p = RO.ObliqueRotation(m), m
        A, G, T = S.array("A", (p, m), sample=(-1, 1)), S.array("G", (m, m), sample=(-1, 1)), S.array("T", (m, m), sample=(-1, 1)) + 2 * np.eye(m)
        L = r.rotated_loadings(A, T)
        S.eq("factor correlations", r.implied_corr(T), T.T @ T)
        if m < 3:
            S.eq("loadings", L @ T.T, A)
            S.eq("common part unchanged", L @ r.implied_corr(T) @ L.T, A @ A.T)
            Z = S.array("Z", (p, m), sample=(-1, 1))
            S.deriv("gradient in the rotation", vec(r.grad(A, T, Z)), sum(Z[i, j] * L[i, j] for i in range(p) for j in range(m)), cols("T", m, m))
        X = S.array("X", (m, m), .1, None)
        O = r.constraint_retract(X)
        S.eq("unit columns", (O * O).sum(axis=0), np.ones(m))
        P = r.constraint_project(O, G)
        S.eq("projection is tangent", (O * P).sum(axis=0), np.zeros(m))
        S.eq("projection is idempotent", r.constraint_project(O, P), P)

    for kind in ("varimax", "weighted target"):
        @harness(HARNESSES, f"identification constraints[orthogonal;{kind};{m}]", points=2, timeout=200)
        def _ic(S, m=m, kind=kind, p=m):
            c = criteria(S, kind, p, m)
            I = ID.RotationIdentification(RO.OrthoRotation(m), c)
            L, Phi, psi = theta_(S, I.layout, m)
            th = I.layout.pack(L, Phi, psi)
            C = I.constraint(th)
            S.true("number", len(C) == I.n_constraints() == m * (m - 1) // 2)
            S.deriv("derivatives of the constraints", I.d_constraint(th), C, wrt(I.layout, m))
            # the constraints are the derivatives along rotations of the loadings
            k = 0
            for b in range(m):
                for a in range(b + 1, m):
                    dL = S.const(np.zeros((p, m)))
                    dL[:, a], dL[:, b] = -L[:, b], L[:, a]
                    S.eq(f"stationarity along a rotation {k}", C[k], (c.dQ(L) * dL).sum())
                    k += 1
            S.eq("free parameters", I.free_mask() * 1., np.r_[np.ones(p * m), np.zeros(m * (m - 1) // 2), np.ones(p)])

        @harness(HARNESSES, f"identification constraints[oblique;{kind};{m}]", points=2, timeout=240, eager=False)
        def _io(S, m=m, kind=kind, p=2):
            c = criteria(S, kind, p, m)
            I = ID.RotationIdentification(RO.ObliqueRotation(m), c)
            L, Phi, psi = theta_(S, I.layout, m)
            th = I.layout.pack(L, Phi, psi)
            C = I.constraint(th)
            S.true("number", len(C) == I.n_constraints() == m * (m - 1))
            S.deriv("derivatives of the constraints", I.d_constraint(th), C, wrt(I.layout, m))
            M = L.T @ c.dQ(L) @ np.linalg.inv(Phi)
            S.eq("off-diagonal of the stationarity matrix", C, np.concatenate([[M[i, j] for i in range(m) if i != j] for j in range(m)]))
            S.true("free parameters", bool(I.free_mask().all()))

for p, m in ((2, 1), (3, 2), (4, 3)):
    @harness(HARNESSES, f"canonical identification[{p};{m}]", points=2)
    def _ci(S, p=p, m=m):
        I = ID.CanonicalIdentification(p, m)
        L, Phi, psi = theta_(S, I.layout, m)
        th = I.layout.pack(L, Phi, psi)
        C = I.constraint(th)
        M = L.T @ np.diag(1 / psi) @ L
        S.true("number", len(C) == I.n_constraints() == m * (m - 1) // 2)
        S.eq("off-diagonal", C, np.array([M[i, j] for i, j in zip(*LY.tril_indices(m, -1))]))
        if m > 1:
            S.deriv("derivatives", I.d_constraint(th), C, wrt(I.layout, m))
        S.eq("free parameters", I.free_mask() * 1., np.r_[np.ones(p * m), np.zeros(m * (m - 1) // 2), np.ones(p)])
        if m < 3:
            V = orth(S, m, "a")
            ga, gb = S.real("ga", .1, None), S.real("gb", .1, None)
            u = S._arr(np.array([ga, ga + gb][:m], dtype=obj(S)))
            A = S.array("A", (p, m), sample=(-1, 1))
            for psi_ in (None, psi):
                seen = []
                with (stub(np.linalg, "eigh", lambda a, *k, **kw: (seen.append(a), (u.copy(), V.copy()))[1]) if S.sym else contextlib.nullcontext()):
                    r = I.fit(A, psi_)
                tag = "weighted " if psi_ is not None else ""
                if S.sym:
                    S.eq(tag + "matrix that is diagonalised", seen[0], A.T @ np.diag(1 / psi) @ A if psi_ is not None else A.T @ A)
                    S.eq(tag + "columns by decreasing root", r["T"], V[:, ::-1])
                    S.eq(tag + "roots", r["info"]["eigvals"], u[::-1])
                else:
                    B = r["L"].T @ (r["L"] if psi_ is None else r["L"] / psi_[:, None])
                    S.eq(tag + "diagonal", B, np.diag(r["info"]["eigvals"]), tol=1e-6)
                S.eq(tag + "loadings", r["L"] - A @ r["T"], np.zeros((p, m)))
                S.eq(tag + "uncorrelated", r["Phi"], np.eye(m))


# ---- inference ------------------------------------------------------------------------------
for nt, nc, free in ((2, 1, (1, 1)), (3, 1, (1, 0, 1)), (3, 1, (1, 1, 1))):
    @harness(HARNESSES, f"constrained information[{nt};{nc};{sum(free)}]", points=2, timeout=120, eager=True)
    def _in(S, nt=nt, nc=nc, free=free):
        H = symmetric(S, "H", nt)
        C = S.array("C", (nc, nt), sample=(.5, 1.5))
        fm = np.array(free, bool)
        b = IN.bread(H, C, fm)
        f = np.where(fm)[0]
        Hf, Cf = H[np.ix_(f, f)], C[:, f]
        S.eq("bordered matrix", IN.augmented_hessian(H, C), np.block([[H, C.T], [C, np.zeros((nc, nc))]]))
        S.eq("satisfies the constraints", Cf @ b, np.zeros((nc, len(f))))
        S.eq("generalised inverse of the information", b @ Hf @ b, b)
        S.eq("symmetric", b, b.T)
        # identity on the tangent space
        for i in range(1, len(f)):
            z = S.const(np.zeros(len(f)))
            z[0], z[i] = Cf[0, i], -Cf[0, 0]
            S.eq(f"inverse along the constraint {i}", b @ (Hf @ z), z)
        n = S.real("n", 1, None, (5, 20))
        S.eq("covariance", IN.param_cov(H, C, fm, n), 2 / n * b)
        J = S.array("J", (nt, nt), sample=(-1, 1))
        S.eq("sandwich", IN.sandwich_cov(H, C, J, fm), b @ J[np.ix_(f, f)] @ b.T)
        S.eq("information equality", IN.sandwich_cov(H, C, H * (2 / n), fm), IN.param_cov(H, C, fm, n))


def symmetric(S, name, n):
    M = S._arr(np.zeros((n, n), dtype=obj(S)))
    for i in range(n):
        for j in range(i + 1):
            M[i, j] = M[j, i] = S.real(f"{name}{i}{j}", sample=(2, 3) if i == j else (-.5, .5))
    return M


for n, p in ((2, 1), (3, 2), (2, 3)):
    @harness(HARNESSES, f"covariance of the sample covariance[{n};{p}]", points=2)
    def _cs(S, n=n, p=p):
        X = S.array("X", (n, p), sample=(-1, 1))
        V = IN.empirical_cov_vech_S(X)
        c = X - X.sum(axis=0) / n
        ix = [(i, j) for j in range(p) for i in range(j, p)]
        z = [S._arr(np.array([c[k, i] * c[k, j] for i, j in ix], dtype=obj(S))) for k in range(n)]
        mean = sum(z) / n
        S.eq("vech order and scale", V, sum(np.outer(a - mean, a - mean) for a in z) / (n * (n - 1)))
        d = S.array("d", 3, 0, None)
        S.eq("standard errors", IN.se_from_cov(np.diag(d)) ** 2, d)


# ---- alignment ------------------------------------------------------------------------------
def assignment(cost):
    n = len(cost)
    best = None
    for q in itertools.permutations(range(n)):
        v = sum(cost[i, q[i]] for i in range(n))
        if best is None or v < best[0]:
            best = (v, q)
    return np.arange(n), np.array(best[1])


for p, m, norm in ((1, 2, False), (2, 2, False), (1, 3, False)):
    @harness(HARNESSES, f"alignment[{p};{m};{norm}]", points=3, timeout=200, paths=80)
    def _al(S, p=p, m=m, norm=norm):
        L, T = S.array("L", (p, m), sample=(-1, 1)), S.array("T", (p, m), sample=(-1, 1))
        Phi = S._arr(np.array([[1 if i == j else 0 for j in range(m)] for i in range(m)], dtype=obj(S)))
        for i in range(m):
            for j in range(i):
                Phi[i, j] = Phi[j, i] = S.real(f"phi{i}{j}", -.4, .4)
        if p > 1:
            for i in range(m):
                for j in range(m):
                    S.assume_ne((T[:, i] * L[:, j]).sum(), 0)
        with stub(AL, "linear_sum_assignment", assignment):
            r = AL.align_model(L, T, Phi, L_se=L * L, Phi_se=Phi * Phi, normalize=norm)
            perm, sg = AL.align(L, T, normalize=norm)
        S.true("a permutation", sorted(perm) == list(range(m)))
        S.eq("same answer", np.r_[r["perm"], r["signs"]] * 1., np.r_[perm, sg] * 1.)
        S.true("signs", all(bool(s == 1) or bool(s == -1) for s in sg))
        S.eq("loadings", r["L"], L[:, perm] * sg)
        S.eq("common part unchanged", r["L"] @ r["Phi"] @ r["L"].T, L @ Phi @ L.T)
        S.eq("standard errors of the loadings", r["L_se"], r["L"] ** 2)
        S.eq("standard errors of the correlations", r["Phi_se"], r["Phi"] ** 2)
        for j in range(m):
            S.le(f"agrees in sign {j}", 0, (T[:, j] * r["L"][:, j]).sum())
        if not norm:
            A = np.abs(T.T @ L)
            got = sum(A[i, perm[i]] for i in range(m))
            for q in itertools.permutations(range(m)):
                S.le(f"largest congruence {q}", sum(A[i, q[i]] for i in range(m)), got, tol=1e-9)

@harness(HARNESSES, "normalised congruences", points=2)
def _nc(S, p=2, m=2):
    L, T = S.array("L", (p, m), .1, None, sample=(.2, 1)), S.array("T", (p, m), .1, None, sample=(.2, 1))
    seen = []
    with stub(AL, "linear_sum_assignment", lambda c: (seen.append(c), (np.arange(m), np.arange(m)))[1]):
        AL.align(L, T, normalize=True)
    for i in range(m):
        for j in range(m):
            S.eq(f"congruence coefficient {i},{j}", seen[0][i, j] * (np.sqrt((T[:, i] ** 2).sum()) * np.sqrt((L[:, j] ** 2).sum()) + 1e-30), -(T[:, i] * L[:, j]).sum(), tol=1e-9)


for p, m, kind in ((2, 2, "ortho"), (2, 2, "oblique"), (3, 3, "oblique")):
    for perm in itertools.permutations(range(m)):
        @harness(HARNESSES, f"alignment matrix[{p};{m};{kind};{perm}]", points=1)
        def _am(S, p=p, m=m, kind=kind, perm=np.array(perm)):
            lay = LY.ParamLayout(p, m)
            L, Phi, psi = theta_(S, lay, m)
            s = S._arr(np.array([S.real(f"s{i}", sample=(-1, 1)) for i in range(m)], dtype=obj(S)))
            fm = np.ones(lay.nt, bool)
            if kind == "ortho":
                fm[lay.ixs] = False
                Phi = np.eye(m)
            M = SF.alignment_matrix(lay, fm, perm, s)
            P2 = s.reshape(-1, 1) * Phi[np.ix_(perm, perm)] * s
            S.eq("permutes and reflects the parameters", M @ lay.pack(L, Phi, psi)[fm], lay.pack(L[:, perm] * s, P2, psi)[fm])
            se = S.array("se", int(fm.sum()), 0, None)
            a, b, c = SF.unpack_se(se, fm, lay, kind == "oblique")
            full = lay.pack(a, b, c)
            S.eq("standard errors keep their places", full[fm], se)
            S.eq("standard errors of correlations symmetric", b, b.T)


# ---- gradient projection ----------------------------------------------------------------------
for steps, ls in ((1, 1), (1, 2), (2, 1), (2, 2)):
    @harness(HARNESSES, f"gradient projection[{steps};{ls}]", points=3, paths=120, timeout=200)
    def _gp(S, steps=steps, ls=ls):
        N = steps * ls + 1
        f = [S.real(f"f{i}", sample=(-2, 2)) for i in range(N)]
        g = [S.real(f"g{i}", sample=(-1, 1)) for i in range(N)]
        t = [S.real(f"t{i}", sample=(-1, 1)) for i in range(N)]
        al = S.real("alpha", .1, None, (.2, 1))
        arr = lambda x: S._arr(np.array([[x]], dtype=obj(S)))
        at = {}

        class Rot:
            n = 0

            def rotated_loadings(self, A, T):
                return T

            def grad(self, A, T, dQ):
                return dQ

            def constraint_project(self, T, G):
                return G

            def constraint_retract(self, X):
                self.n += 1
                at[self.n] = X
                return arr(t[self.n])
        rot = Rot()

        class Crit:
            def Q(self, L):
                return f[rot.n]

            def dQ(self, L):
                return arr(g[rot.n])
        g3 = SO.GPA(Crit(), rot, alpha=al, tol=1e-6, n_iters=steps, ls_iters=ls)
        T, info = g3.solve(np.eye(1), T0=arr(t[0]))
        k = [i for i in range(N) if info["f"] is f[i] or (not S.sym and info["f"] == f[i])]
        S.true("a value of the criterion", len(k) == 1)
        S.eq("value belongs to the rotation", T[0, 0], t[k[0]])
        S.le("never above the start", info["f"], f[0])
        tr = [a for a, _ in info["trace"]]
        for i in range(1, len(tr)):
            S.lt(f"decreases {i}", tr[i], tr[i - 1])
        S.le("steps", info["n_iter"], steps)
        # the first trial point
        if 1 in at:
            S.eq("first trial", at[1][0, 0], t[0] - 2 * al * g[0])
            # a trial is accepted exactly when it decreases by half the squared gradient times the step
            if ls == 1:
                if len(info["trace"]) > 1 or k[0] == 1:
                    S.lt("sufficient decrease", f[1], f[0] - al * g[0] ** 2)
                else:
                    S.le("rejected", f[0] - al * g[0] ** 2, f[1])

for m, kind in ((2, "varimax"), (2, "weighted target"), (3, "weighted target")):
    @harness(HARNESSES, f"Cayley solver gradient[{kind};{m}]", points=2, timeout=200, eager=True)
    def _cg(S, m=m, kind=kind):
        p = 2
        c = criteria(S, kind, p, m)
        t, A = S.array("t", m * (m - 1) // 2, sample=(-1, 1)), S.array("A", (p, m), sample=(-1, 1))
        s = SO.CayleySolver(c, RO.OrthoRotation(m))
        with lu(S):
            f, g = s._fg(t, A)
        T = CY.vec_to_rot(t, m)
        S.eq("criterion at the rotated loadings", f, c.Q(A @ T))
        S.deriv("gradient", g, f, "t")


# ---- simulation -----------------------------------------------------------------------------
for p, m in ((2, 1), (3, 2), (4, 3)):
    @harness(HARNESSES, f"factor model[{p};{m}]", points=2)
    def _fm(S, p=p, m=m):
        L, Phi, psi = theta_(S, LY.ParamLayout(p, m), m)
        Sig = L @ Phi @ L.T + np.diag(psi)
        S.eq("covariance", SI.FactorModel(L, Phi, psi).Sigma, Sig)
        S.eq("covariance from a matrix of unique variances", SI.FactorModel(L, Phi, np.diag(psi)).Sigma, Sig)
        rho = S.real("rho", .1, .9)
        R = SI.generate_factor_corr(m, rho)
        S.eq("unit diagonal", np.diag(R), np.ones(m))
        S.eq("alternating autoregressive correlations", R, np.array([[(-1) ** (i + j) * rho ** abs(i - j) for j in range(m)] for i in range(m)], dtype=obj(S)))
        lo, hi = S.real("lo", .1, .5), S.real("hi", .6, .9)
        G = SI.generate_loadings(p, m, lo, hi)
        S.eq("sum of squares by rows", (G * G).sum(axis=1), G.sum(axis=1) ** 2)


@harness(HARNESSES, "simulated factor correlations", points=2)
def _sc(S):
    for m in (2, 3, 4):
        R = SI.generate_factor_corr(m, random=True, rng=np.random.default_rng(1))
        S.true(f"shape {m}", np.shape(R) == (m, m))


for kind in ("ortho", "oblique"):
    @harness(HARNESSES, f"simulation study[{kind}]", points=2, timeout=120)
    def _ss(S, kind=kind, p=2, m=2):
        """two replicates whose fits are arbitrary: stored estimates and covariances are those of the aligned parameters"""
        lay = LY.ParamLayout(p, m)
        fits = []
        for r in range(3):
            L, psi = S.array(f"L{r}", (p, m), sample=(-1, 1)), S.array(f"psi{r}", p, .1, None, (.3, 1))
            ph = S.real(f"phi{r}", -.5, .5) if kind == "oblique" else 0
            fits.append((L, S._arr(np.array([[1, ph], [ph, 1]], dtype=obj(S))), psi))
        nf = p * m + p + (kind == "oblique")
        K = np.eye(nf) + .3 * np.add.outer(np.arange(nf), np.arange(nf)) / nf
        vs = [S.real(f"v{r}", .5, 2) for r in range(2)]
        aligns = [(np.array([1, 0]), np.array([1., -1.])), (np.array([0, 1]), np.array([-1., 1.]))]
        state = types.SimpleNamespace(fit=-1, cov=-1, al=-1)

        class Est(LK.MLEstimator):
            def __init__(self, Sm, m):
                self.layout = LY.ParamLayout(p, m)

            def loadings_from_psi(self, psi):
                return np.zeros((p, m))

            def fit_psi(self):
                return {"psi": fits[state.fit + 1][2], "Lambda": np.zeros((p, m))}

            def hessian(self, theta):
                return theta

        class Ident(ID.RotationIdentification):
            def fit(self, A, T0=None):
                state.fit += 1
                return {"L": fits[state.fit][0], "Phi": fits[state.fit][1]}

            def d_constraint(self, theta):
                return theta

        def cov(H, C, fm, n):
            state.cov += 1
            S.eq(f"information at the estimates {state.cov}", H, lay.pack(*fits[state.cov + 1]))
            S.eq(f"constraints at the estimates {state.cov}", C, lay.pack(*fits[state.cov + 1]))
            return vs[state.cov] * K

        def align(a, b):
            state.al += 1
            return aligns[state.al]
        X = S.array("X", (3, p), sample=(-1, 1))
        with contextlib.ExitStack() as st:
            if S.sym:
                # the coverage rates are not part of the property: no case split on every |z| < 1.96
                st.enter_context(stub(np, "abs", lambda a, *k, **kw: np.zeros(np.shape(a))))
            st.enter_context(stub(SF.FactorModel, "sample", lambda self, n, rng=None: X))
            for nm, x in (("MLEstimator", Est), ("RotationIdentification", Ident), ("param_cov", cov), ("align", align), ("tqdm", types.SimpleNamespace(tqdm=lambda x: x))):
                st.enter_context(stub(SF, nm, x))
            r = SF.run(p, m, 3, 2, kind)
        fm = np.ones(lay.nt, bool)
        if kind == "ortho":
            fm[lay.ixs] = False
        for k, (perm, sg) in enumerate(aligns):
            L, Phi, psi = fits[k + 1]
            S.eq(f"estimates {k}", r["thetas"][k], lay.pack(L[:, perm] * sg, sg.reshape(-1, 1) * Phi[np.ix_(perm, perm)] * sg, psi)[fm])
            M = SF.alignment_matrix(lay, fm, perm, sg)
            S.eq(f"covariance {k}", r["Vs"][k], M @ (vs[k] * K) @ M.T)
        S.eq("true parameters", r["theta_true"], lay.pack(fits[0][0], fits[0][1], np.zeros(p))[fm] + np.r_[np.zeros(nf - p), r["theta_true"][-p:]])
        d = r["thetas"] - r["theta_true"]
        for k in range(2):
            S.eq(f"squared z {k}", r["z"][k] ** 2 * np.diag(r["Vs"][k]), d[k] ** 2)
        S.eq("empirical covariance", r["V_emp"], np.outer(d[0] - d[1], d[0] - d[1]) / 2)
