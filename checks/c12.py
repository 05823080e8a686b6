"""Parameter transforms: mutually inverse maps with exact first and second derivatives."""
import types
import numpy as np
from symx.harness import harness
from pystatsm.utilities import param_transforms as PT, cov_transform as CT, unconstrained_chol as UC, dchol as DC
from .fam import npx

HARNESSES = []
FUNCTIONS = ["pystatsm.utilities.param_transforms.{ParameterTransformBase,CombinedTransform,ComposedTransform,OrderedTransform,LogTransform,TanhTransform,IdentityTransform,"
             "UnconstrainedCholeskyCorr,CovCorr,LogScale,CorrCholesky,OffDiagMask,CholeskyCov}.*",
             "pystatsm.utilities.cov_transform.{UnconstrainedCholeskyCorr,CovCorr,LogScale,CorrCholesky,OffDiagMask,CholeskyCov}.*",
             "pystatsm.utilities.unconstrained_chol.{fwd,rvs,jac_fwd,jac_rvs,hess_fwd,hess_rvs}", "pystatsm.utilities.dchol.{dchol,unit_matrices}"]
BOUNDS = ("vectors of 1 to 4 numbers, covariance matrices of order 1 to 3 (4 in the thorough tier for the elementary steps), compositions of 1 to 3 arbitrary two-dimensional "
          "component transforms, batches of 2 vectors; every real argument in the transform's domain")
ASSUMPTIONS = ["component transforms of a composition are arbitrary quadratic maps (their second derivatives at a point are then arbitrary)"]


def flat(a):
    return [a[ix] for ix in np.ndindex(*np.shape(a))]


def jets(S, tag, J, H, f, names):
    """J and H are the first and second derivatives of the vector f with respect to names"""
    n, m = len(f), len(names)
    S.eq(tag + " derivative shapes", np.array(np.shape(J) + np.shape(H)), np.array([n, m, n, m, m]))
    for j, w in enumerate(names):
        for i in range(n):
            S.deriv(tag + " first derivative", J[i, j], f[i], w)
            for k in range(m):
                S.deriv(tag + " second derivative", H[i, k, j], J[i, k], w)


# name: (constructor, size of vector, x domain/sample, y domain/sample)
def _vec(S, nm, spec):
    return S._arr(np.array([S.real("%s_%d" % (nm, i), lo, hi, sm) for i, (lo, hi, sm) in enumerate(spec)], dtype=object))


ANY, POS, UNIT = (None, None, (-1, 1)), (0, None, (0.5, 2)), (-1, 1, (-0.6, 0.6))
BALL = (-1, 1, (-0.4, 0.4))


def hv(n, diag, off):
    return [diag if i == j else off for j in range(n) for i in range(j, n)]


def lhv(n, off):
    return [off] * (n * (n - 1) // 2)


def _elem(name, make, xs, ys, tier="quick", ordered=False, points=2, inverse=True):
    @harness(HARNESSES, name + ".forward", points=points, tier=tier)
    def f(S):
        T = make()
        x = _vec(S, "x", xs)
        if ordered:
            d = _vec(S, "d", [POS] * len(xs))
            x = S._arr(np.array([x[0] + sum(d[1:i + 1], 0) for i in range(len(xs))], dtype=object)) if len(xs) > 1 else x
        y = T.fwd(x)
        S.eq("argument is left as it was", x, x)
        if ordered:
            # derivatives at x, taken along x0 and the gaps
            J, H = T.jac_fwd(x), T.hess_fwd(x)
            n = len(xs)
            for a in range(n):
                w = "x_0" if a == 0 else "d_%d" % a
                dx = [1 if (a == 0 or i >= a) else 0 for i in range(n)]
                for i in range(n):
                    S.deriv("forward first derivative", sum(J[i, j] * dx[j] for j in range(n)), y[i], w)
                    for k in range(n):
                        S.deriv("forward second derivative", sum(H[i, k, j] * dx[j] for j in range(n)), J[i, k], w)
        else:
            jets(S, "forward", T.jac_fwd(x), T.hess_fwd(x), y, ["x_%d" % i for i in range(len(xs))])
        if inverse:
            S.eq("reverse undoes forward", T.rvs(y), x, tol=1e-9)

    @harness(HARNESSES, name + ".reverse", points=points, tier=tier)
    def r(S):
        T = make()
        y = _vec(S, "y", ys)
        x = T.rvs(y)
        jets(S, "reverse", T.jac_rvs(y), T.hess_rvs(y), x, ["y_%d" % i for i in range(len(ys))])
        if ordered:
            for i in range(1, len(ys)):
                S.lt("increasing", x[i - 1], x[i])
        if inverse is True:
            S.eq("forward undoes reverse", T.fwd(x), y, tol=1e-9)


for _n in (1, 2, 3, 4):
    _t = "quick"
    _elem("ordered.n%d" % _n, PT.OrderedTransform, [ANY] * _n, [ANY] * _n, ordered=True)
    if _n <= 3:
        _elem("log.n%d" % _n, PT.LogTransform, [POS] * _n, [ANY] * _n)
        _elem("tanh.n%d" % _n, PT.TanhTransform, [UNIT] * _n, [ANY] * _n)
        _elem("identity.n%d" % _n, PT.IdentityTransform, [ANY] * _n, [ANY] * _n)


class Pub:
    """cov_transform classes only have the underscored methods"""

    def __init__(self, t):
        self.t = t

    def __getattr__(self, k):
        return getattr(self.t, "_" + k)


for _M, _nm in ((PT, "param_transforms"), (CT, "cov_transform")):
    for _n in (1, 2, 3, 4):
        _t = "quick" if _n < 4 else "thorough"
        _w = (lambda c, n=_n, M=_M: (lambda: c(n)) if M is PT else (lambda: Pub(c(n))))
        if _n > 1:
            _elem("%s.UnconstrainedCholeskyCorr.n%d" % (_nm, _n), _w(_M.UnconstrainedCholeskyCorr), lhv(_n, BALL if _M is PT else ANY),
                  lhv(_n, (-1, 1, (-0.6, 0.6)) if _M is PT else BALL), tier=_t, inverse=True if _M is PT or _n == 2 else "forward")
            if _n < 4:
                _elem("%s.CorrCholesky.n%d" % (_nm, _n), _w(_M.CorrCholesky), lhv(_n, BALL), lhv(_n, BALL), tier=_t)
        _elem("%s.CovCorr.n%d" % (_nm, _n), _w(_M.CovCorr), hv(_n, POS, ANY), hv(_n, POS, ANY), tier=_t)
        _elem("%s.LogScale.n%d" % (_nm, _n), _w(_M.LogScale), hv(_n, POS, ANY), hv(_n, ANY, ANY), tier=_t)


# unconstrained_chol.fwd and rvs are used the other way round by the names in the class
# ---------------------------------------------------------------- positive definiteness of the image
def _pd(name, M, n, tier="quick"):
    @harness(HARNESSES, name, points=2, tier=tier)
    def h(S):
        E = npx(S)
        u = _vec(S, "u", hv(n, ANY, ANY))
        T = M.CholeskyCov(n)
        x = T._rvs(u)
        A, k = [[0] * n for _ in range(n)], 0
        for j in range(n):
            for i in range(j, n):
                A[i][j] = A[j][i] = x[k]
                k += 1
        # an explicit factorisation V V' with positive diagonal
        V = [[0] * n for _ in range(n)]
        U = [[0] * n for _ in range(n)]
        k = 0
        for j in range(n):
            for i in range(j, n):
                U[i][j] = u[k]
                k += 1
        for i in range(n):
            s = E.exp(U[i][i] / 2)
            if M is PT:
                rem = 1
                for j in range(i):
                    V[i][j] = s * E.tanh(U[i][j]) * E.sqrt(rem)
                    rem = rem * (1 - E.tanh(U[i][j])**2)
                V[i][i] = s * E.sqrt(rem)
            else:
                raise NotImplementedError
        for i in range(n):
            for j in range(i + 1):
                S.eq("covariance matrix is V V'", A[i][j], sum(V[i][a] * V[j][a] for a in range(j + 1)), tol=1e-9)


for _n in (1, 2, 3):
    _pd("param_transforms.CholeskyCov.image.n%d" % _n, PT, _n)
_elem("param_transforms.CholeskyCov.n1", lambda: PT.CholeskyCov(1), [POS], [ANY])
_elem("param_transforms.CholeskyCov.n2", lambda: PT.CholeskyCov(2), [POS, (None, None, (-0.2, 0.2)), POS], [ANY] * 3)
_elem("cov_transform.CholeskyCov.n2", lambda: Pub(CT.CholeskyCov(2)), [POS, (None, None, (-0.2, 0.2)), POS], [ANY, (-0.7, 0.7, (-0.5, 0.5)), ANY])


# ---------------------------------------------------------------- composition, combination and batches for arbitrary components
class Quad:
    """arbitrary quadratic map and an unrelated arbitrary quadratic map in the other direction"""

    def __init__(self, S, nm, n):
        self.c = {}
        for d in ("f", "r"):
            a = S.array(nm + d + "a", n, sample=(-1, 1))
            B = S.array(nm + d + "b", (n, n), sample=(-1, 1))
            C = S.array(nm + d + "c", (n, n, n), sample=(-1, 1))
            self.c[d] = (a, B, C)
        self.n = n

    def val(self, d, x):
        a, B, C = self.c[d]
        R = range(self.n)
        return np.stack([a[i] + sum(B[i, j] * x[j] for j in R) + sum(C[i, j, k] * x[j] * x[k] for j in R for k in R) for i in R])

    def jac(self, d, x):
        a, B, C = self.c[d]
        R = range(self.n)
        return np.stack([np.stack([B[i, j] + sum((C[i, j, k] + C[i, k, j]) * x[k] for k in R) for j in R]) for i in R])

    def hess(self, d, x):
        C = self.c[d][2]
        R = range(self.n)
        return np.stack([np.stack([np.stack([C[i, j, k] + C[i, k, j] for k in R]) for j in R]) for i in R])


class Mock(PT.ParameterTransformBase):
    def __init__(self, q):
        self.q = q

    def _fwd(self, x):
        return self.q.val("f", x)

    def _rvs(self, x):
        return self.q.val("r", x)

    def _jac_fwd(self, x):
        return self.q.jac("f", x)

    def _jac_rvs(self, x):
        return self.q.jac("r", x)

    def _hess_fwd(self, x):
        return self.q.hess("f", x)

    def _hess_rvs(self, x):
        return self.q.hess("r", x)


METHODS = ["fwd", "rvs", "jac_fwd", "jac_rvs", "hess_fwd", "hess_rvs"]


def _comp(k):
    @harness(HARNESSES, "composed.k%d" % k, points=1, timeout=300)
    def h(S):
        qs = [Quad(S, "q%d" % i, 2) for i in range(k)]
        T = PT.ComposedTransform([Mock(q) for q in qs])
        x = S.array("x", 2, sample=(-0.5, 0.5))
        for d, order, tag in (("f", qs, "forward"), ("r", qs[::-1], "reverse")):
            v = x
            J, H = S._arr(np.array([[1, 0], [0, 1]], dtype=object)), np.zeros((2, 2, 2))
            for q in order:
                j, c = q.jac(d, v), q.hess(d, v)
                H = np.stack([np.stack([np.stack([sum(j[i, a] * H[a, b, e] for a in (0, 1)) +
                                                  sum(c[i, a, g] * J[a, b] * J[g, e] for a in (0, 1) for g in (0, 1)) for e in (0, 1)])
                                        for b in (0, 1)]) for i in (0, 1)])
                J = np.stack([np.stack([sum(j[i, a] * J[a, b] for a in (0, 1)) for b in (0, 1)]) for i in (0, 1)])
                v = q.val(d, v)
            m = "fwd" if d == "f" else "rvs"
            S.eq(tag + " value is the composition in order", getattr(T, m)(x), v, tol=1e-8)
            S.eq(tag + " jacobian", getattr(T, "jac_" + m)(x), J, tol=1e-8)
            S.eq(tag + " hessian", getattr(T, "hess_" + m)(x), H, tol=1e-8)


for _k in (1, 2, 3):
    _comp(_k)


def _combined(tag, n, idx, ranges):
    @harness(HARNESSES, "combined." + tag, points=1)
    def h(S):
        qs = [Quad(S, "q%d" % i, b - a) for i, (a, b) in enumerate(ranges)]
        T = PT.CombinedTransform([Mock(q) for q in qs], idx)
        x = S.array("x", n, sample=(-0.5, 0.5))
        for d, m in (("f", "fwd"), ("r", "rvs")):
            v = [x[i] for i in range(n)]
            J = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
            H = [[[0] * n for _ in range(n)] for _ in range(n)]
            for q, (a, b) in zip(qs, ranges):
                w, j, c = q.val(d, x[a:b]), q.jac(d, x[a:b]), q.hess(d, x[a:b])
                for i in range(b - a):
                    v[a + i] = w[i]
                    for k in range(b - a):
                        J[a + i][a + k] = j[i, k]
                        for l in range(b - a):
                            H[a + i][a + k][a + l] = c[i, k, l]
            S.eq(m + " applies each transform to its block", getattr(T, m)(x), S._arr(np.array(v, dtype=object)), tol=1e-9)
            S.eq("jacobian of " + m, getattr(T, "jac_" + m)(x), S._arr(np.array(J, dtype=object)), tol=1e-9)
            S.eq("hessian of " + m, getattr(T, "hess_" + m)(x), S._arr(np.array(H, dtype=object)), tol=1e-9)


_combined("sizes", 4, [1, 2, 1], [(0, 1), (1, 3), (3, 4)])
_combined("size-then-rest", 3, [2], [(0, 2)])
_combined("ranges-with-gap", 5, [(1, 2), (3, 5)], [(1, 2), (3, 5)])
_combined("slices", 4, [slice(0, 2), slice(3, 4)], [(0, 2), (3, 4)])


@harness(HARNESSES, "combined.batch", points=1)
def _cb(S):
    q = Quad(S, "q", 2)
    T = PT.CombinedTransform([Mock(q)], [(1, 3)])
    x = S.array("x", (2, 4), sample=(-0.5, 0.5))
    for m in METHODS:
        r = getattr(T, m)(x)
        for i in range(2):
            S.eq("row %s" % m, r[i], getattr(T, m)(x[i]), tol=1e-9)


@harness(HARNESSES, "batch", points=1)
def _batch(S):
    q = Quad(S, "q", 2)
    T = Mock(q)
    x = S.array("x", (2, 1, 2), sample=(-0.5, 0.5))
    for m in METHODS:
        d = "r" if "rvs" in m else "f"
        k = "jac" if "jac" in m else "hess" if "hess" in m else "val"
        r = getattr(T, m)(x)
        S.eq("shape", np.array(np.shape(r)), np.array((2, 1) + (2,) * dict(val=1, jac=2, hess=3)[k]))
        for i in range(2):
            S.eq("each vector of a batch is transformed on its own (%s)" % m, r[i, 0], getattr(q, k)(d, x[i, 0]), tol=1e-9)


@harness(HARNESSES, "scalar", points=2)
def _scalar(S):
    E = npx(S)
    p, v, u = S.real("p", 0, None, (0.5, 2)), S.real("v", None, None, (-1, 1)), S.real("u", -1, 1, (-0.7, 0.7))
    L, T, I = PT.LogTransform(), PT.TanhTransform(), PT.IdentityTransform()
    for t, a, b, na, nb in ((L, p, v, "p", "v"), (T, u, v, "u", "v"), (I, v, v, "v", "v")):
        S.eq("reverse undoes forward", t.rvs(t.fwd(a)), a, tol=1e-9)
        S.eq("forward undoes reverse", t.fwd(t.rvs(b)), b, tol=1e-9)
        S.deriv("first derivative", t.jac_fwd(a), t.fwd(a), na)
        S.deriv("second derivative", t.hess_fwd(a), t.jac_fwd(a), na)
        S.deriv("first derivative, reverse", t.jac_rvs(b), t.rvs(b), nb)
        S.deriv("second derivative, reverse", t.hess_rvs(b), t.jac_rvs(b), nb)


def _ints(tag, make, vals):
    """whole numbers given as an integer array transform like the same numbers given as floats"""
    @harness(HARNESSES, "integers." + tag, points=1)
    def h(S):
        S.real("unused", 0, 1)
        T = make()
        a = np.array(vals)
        for m in METHODS:
            if tag == "tanh" and "fwd" in m:
                continue
            r = getattr(T, m)(np.array(vals))
            e = getattr(T, m)(a.astype(float))
            S.eq("%s of an integer array" % m, r, e, tol=1e-9)
            r = getattr(T, m)(np.array([vals, vals]))
            S.eq("%s of an integer batch" % m, r[1], e, tol=1e-9)


_ints("ordered", PT.OrderedTransform, [1, 3, 8])
_ints("log", PT.LogTransform, [1, 2, 5])
_ints("tanh", PT.TanhTransform, [0, 1, 2])
_ints("logscale", lambda: PT.LogScale(2), [2, 1, 3])
_ints("covcorr", lambda: PT.CovCorr(2), [2, 1, 3])


# ---------------------------------------------------------------- Cholesky derivatives
def _dchol(n, m, tier="quick"):
    """every positive definite matrix is C C', every pair of derivatives of it comes from derivatives of C"""
    @harness(HARNESSES, "dchol.n%d.m%d" % (n, m), points=2, tier=tier, timeout=300)
    def h(S):
        C = S.lower("c", n)
        Z = 0 * C[0, 0]

        def low(nm):
            o = np.empty((n, n), dtype=object)
            o[...] = Z
            for i in range(n):
                for j in range(i + 1):
                    o[i, j] = S.real("%s_%d%d" % (nm, i, j), None, None, (-0.5, 0.5))
            return S._arr(o)
        D1 = [low("d%d" % x) for x in range(m)]
        D2 = {(x, y): low("e%d%d" % (x, y)) for x in range(m) for y in range(x + 1)}
        D2.update({(y, x): v for (x, y), v in list(D2.items())})
        M = np.dot(C, C.T)
        dM = np.empty((n, n, m), dtype=object)
        d2M = np.empty((n, n, m, m), dtype=object)
        for x in range(m):
            dM[:, :, x] = np.dot(D1[x], C.T) + np.dot(C, D1[x].T)
            for y in range(m):
                d2M[:, :, x, y] = (np.dot(D2[x, y], C.T) + np.dot(C, D2[x, y].T) + np.dot(D1[x], D1[y].T) + np.dot(D1[y], D1[x].T))
        dM, d2M = S._arr(dM), S._arr(d2M)
        for order in (0, 1, 2):
            L, dL, d2L = DC.dchol(M, dM, d2M, order=order)
            S.eq("factor, order %d" % order, L, C, tol=1e-9)
            for x in range(m):
                if order > 0:
                    S.eq("derivative of the factor, order %d" % order, dL[:, :, x], D1[x], tol=1e-8)
                for y in range(m):
                    if order > 1:
                        S.eq("second derivative of the factor", d2L[:, :, x, y], D2[x, y], tol=1e-7)


_dchol(1, 2)
_dchol(2, 1)
_dchol(2, 2)
_dchol(3, 1)
_dchol(3, 2, "thorough")


@harness(HARNESSES, "dchol.unit", points=1)
def _unit(S):
    S.real("unused", 0, 1)
    for n in (1, 2, 3):
        dM, d2M = DC.unit_matrices(n)
        k = 0
        want = np.zeros(dM.shape, dtype=float)
        for j in range(n):
            for i in range(j, n):
                want[i, j, k] = 1
                k += 1
        S.eq("unit matrices", dM, want)
        S.eq("second derivatives vanish", d2M, 0 * d2M)
