"""Data and moment helpers: moments, scalings, codings, tables, sampling covariances of covariances and correlations, normal densities."""
import itertools
import numpy as np
import scipy as sp
import scipy.special
from symx.harness import harness
from pystatsm.utilities import data_utils as D
from pystatsm.utilities import cov_utils as CU
from pystatsm.utilities import func_utils as FU
from .fam import npx, stub, stat
from .c18 import full_sample, det

HARNESSES = []
FUNCTIONS = ["pystatsm.utilities.data_utils.{_col_sum,_row_sum,_col_mean,_col_std,center,standardize,csd,cov_nb,corr_nb,_csd,cov,corr,normalize_xtrx,ssq,scale_diag,scale_dg,norm_diag,"
             "flip_signs,dummy,dummy_encode,sign_change,welford_variance,welford_cov,cross_tabulate,flat_cross_tabulate,expand_crosstab}",
             "pystatsm.utilities.cov_utils.{cov_sample_cov,corr_acov_neudecker,corr_acov_browne}",
             "pystatsm.utilities.func_utils.{norm_pdf,norm_cdf,norm_cdf_jit,_norm_cdf,binorm_pdf,binorm_cdf,binorm_l2_jit,binorm_cdf_region,binorm_pdf_region,dbinorm_pdf,dbinorm_pdf_region,"
             "dbinorm_cdf_du,d2binorm_cdf_du2,d2binorm_cdf_duv,d2binorm_cdf_dur,poisson_logp,logbinom,expit,soft_threshold,symmetric_conf_int,harmonic_exact}"]
BOUNDS = "2 to 5 observations of 1 to 3 variables, arrays up to three axes, covariance matrices of order 2 and 3, tables up to 3 x 2 x 2; every real value"
ASSUMPTIONS = ["ties between a series and its offset are excluded in the sign change searches"]


def arr(S, rows):
    return S._arr(np.array(rows, dtype=object if S.sym else float))


for n, p in ((2, 1), (3, 2), (4, 2)):
    @harness(HARNESSES, f"moments[{n};{p}]", points=2, eager=True)
    def _mo(S, n=n, p=p):
        X, Y = S.array("X", (n, p), sample=(-2, 2)), S.array("Y", (n, 2), sample=(-2, 2))
        mx, my = [sum(X[:, j]) / n for j in range(p)], [sum(Y[:, j]) / n for j in range(2)]
        C = arr(S, [[sum((X[i, a] - mx[a]) * (X[i, b] - mx[b]) for i in range(n)) / n for b in range(p)] for a in range(p)])
        K = arr(S, [[sum((X[i, a] - mx[a]) * (Y[i, b] - my[b]) for i in range(n)) / n for b in range(2)] for a in range(p)])
        S.eq("column sums", D._col_sum(X), X.sum(axis=0))
        S.eq("row sums", D._row_sum(X), X.sum(axis=1))
        S.eq("column means", D._col_mean(X), arr(S, mx))
        S.eq("centred", D.center(X), X - arr(S, mx))
        S.eq("covariance", D.cov(X), C)
        S.eq("compiled covariance", D.cov_nb(X), C)
        S.eq("cross covariance", D.cov(X, Y), K)
        S.eq("sums of squares by column", D.ssq(X), (X * X).sum(axis=0))
        S.eq("sums of squares by row", D.ssq(X, axis=1), (X * X).sum(axis=1))
        S.eq("sum of squares of a vector", D.ssq(X[:, 0]), sum(x * x for x in X[:, 0]))


@harness(HARNESSES, "standardised data and correlations", points=2, timeout=120, eager=True)
def _cr(S):
    X = full_sample(S)
    n = 4
    C = D.cov(X)
    sd = npx(S).sqrt(np.diag(C))
    R = C / sd / sd[:, None]
    mx = X.sum(axis=0) / n
    Z = (X - mx) / sd
    S.eq("standard deviations", D._col_std(X), sd)
    S.eq("standardised, compiled", D.csd(X), Z)
    Z2, m2, s2 = D._csd(X, return_stats=True)
    S.eq("standardised", Z2, Z)
    S.eq("its mean", m2, mx)
    S.eq("its scale", s2, sd)
    S.eq("standardised only", D._csd(X), Z)
    S.eq("correlation", D.corr(X), R)
    S.eq("compiled correlation", D.corr_nb(X), R)
    Y = S.lower("W", 2).T
    H = S.const(np.array([[1., 1], [1, -1], [-1, 1], [-1, -1]])) @ Y
    Cxy = D.cov(X, H)
    sy = npx(S).sqrt(np.diag(D.cov(H)))
    S.eq("cross correlation", D.corr(X, H), Cxy / sy / sd[:, None])


for n in (1, 2, 3):
    @harness(HARNESSES, f"scaling[{n}]", points=2)
    def _sc(S, n=n):
        A, s = S.array("A", (n, n), sample=(-1, 1)), S.array("s", n, sample=(.5, 2))
        B, _ = S.posdef("B", n)
        want = arr(S, [[s[i] * A[i, j] * s[j] for j in range(n)] for i in range(n)])
        S.eq("scaled on both sides", D.scale_diag(A, s), want)
        S.eq("scaled, column vector", D.scale_diag(A, s[:, None]), want)
        S.eq("scaled into a new matrix", D.scale_dg(A, s), want)
        A2 = A.copy()
        out = A2 * 0
        r = D.scale_dg(A2, s, out=out)
        S.eq("scaled into a buffer", out.copy(), want)
        S.true("buffer returned", r is out)
        S.eq("argument kept", A2.copy(), A)
        r = D.scale_dg(A2, s, inplace=True)
        S.eq("scaled in place", A2, want)
        N = D.norm_diag(B)
        d = npx(S).sqrt(np.diag(B))
        S.eq("unit diagonal", N, B / d / d[:, None])
        X = S.array("X", (n, 2), sample=(-1, 1))
        w = [sum(X[i, j] * B[i, k] * X[k, j] for i in range(n) for k in range(n)) for j in range(2)]
        for x in w:
            S.assume_lt(0, x)
        Y = D.normalize_xtrx(X, B)
        S.eq("parallel to the original", Y * npx(S).sqrt(arr(S, w)), X)


for n, m in ((2, 1), (3, 1), (2, 2)):
    @harness(HARNESSES, f"sign convention of columns[{n};{m}]", points=3, paths=64)
    def _fs(S, n=n, m=m):
        V = S.array("V", (n, m), sample=(-2, 2))
        for j in range(m):
            for i in range(n):
                S.assume_ne(V[i, j], 0)
        F = D.flip_signs(V.copy())
        for j in range(m):
            for i in range(n):
                S.eq("magnitudes kept", F[i, j] ** 2, V[i, j] ** 2)
                S.eq("columns keep their direction", F[i, j] * V[0, j], F[0, j] * V[i, j])
            k = 0
            big = V[0, j] * V[0, j]
            for i in range(1, n):
                if V[i, j] * V[i, j] > big:
                    k, big = i, V[i, j] * V[i, j]
            S.le("largest entry positive", 0, F[k, j])


# ---- codings ------------------------------------------------------------------------------
for n in (1, 2, 3):
    @harness(HARNESSES, f"indicator coding[{n}]", points=3, paths=64)
    def _du(S, n=n):
        x = S.array("x", n, sample=(-1, 1))
        if n == 3:
            if S.real("z", sample=(-1, 1)) < 0:
                x = arr(S, [x[0], x[1], x[0]])
        cats = []
        for v in x:
            if not any(bool(v == c) for c in cats):
                cats.append(v)
        cats = arr(S, cats)
        order = np.argsort(cats)
        cats = cats[order]
        A, B = D.dummy(x), D.dummy_encode(x)
        C = D.dummy(x, fullrank=False)
        B = dense(B)
        S.true("one column per level", A.shape == (n, len(cats)) and B.shape == A.shape and C.shape == (n, len(cats) - 1))
        for i in range(n):
            for j in range(len(cats)):
                w = 1 if bool(x[i] == cats[j]) else 0
                S.eq("indicator", A[i, j], w)
                S.eq("sparse indicator", B[i, j], w)
                if j < len(cats) - 1:
                    S.eq("reduced rank", C[i, j], w)
        E = D.dummy(x, categories=cats[::-1].copy())
        S.eq("given order of levels", E, A[:, ::-1])
        F = dense(D.dummy_encode(x, categories=cats[::-1].copy()))
        S.eq("given order of levels, sparse", F, B[:, ::-1])


def dense(M):
    return M.toarray() if hasattr(M, "toarray") else np.asarray(M)


for n, k in ((3, 1), (4, 1), (3, 2), (4, 2), (4, 3), (5, 2)):
    @harness(HARNESSES, f"sign changes of a series[{n};{k}]", points=4, paths=80)
    def _sg(S, n=n, k=k):
        x, b = S.array("x", n, sample=(-2, 2)), S.real("b", sample=(-.5, .5))
        for i in range(n):
            S.assume_ne(x[i], b)
            S.assume_ne(x[i] - b, 0)
        up = [bool(v - b > 0) for v in x]
        ch = [i for i in range(1, n) if up[i] != up[i - 1]]
        if len(ch) < k:
            from symx.harness import SkipClaims
            S.eq("enough changes", b, b)
            return
        S.eq("position before the change", D.sign_change(x, nth_change=k, offset=b), ch[k - 1] - 1)
        if n == 3:
            X = arr(S, [[v, v] for v in x])
            r = D.sign_change(X, nth_change=k, offset=arr(S, [b, b]))
            S.eq("by column", r, np.array([ch[k - 1] - 1] * 2))


# ---- running moments ----------------------------------------------------------------------
for shape, axis in (((3,), 0), ((4,), None), ((3, 2), 0), ((2, 3), 1), ((2, 3, 2), 0), ((2, 3, 2), 1), ((2, 2, 3), 2)):
    for ub in (False, True):
        @harness(HARNESSES, f"running variance[{','.join(map(str, shape))};{axis};{ub}]", points=2)
        def _wv(S, shape=shape, axis=axis, ub=ub):
            X = S.array("X", shape, sample=(-2, 2))
            m, v = D.welford_variance(X, axis=axis, unbiased=ub)
            ax = axis or 0
            n = shape[ax]
            M = sum(np.take(X, i, axis=ax) for i in range(n)) / n
            S.true("shape", np.shape(m) == np.shape(M))
            S.eq("mean", m, M)
            Q = sum((np.take(X, i, axis=ax) - M) * (np.take(X, i, axis=ax) - M) for i in range(n))
            S.eq("variance", v, Q / (n - ub))

for n, p, q in ((2, 1, 1), (3, 2, 1), (4, 2, 2), (3, 2, 3)):
    for ub in (False, True):
        @harness(HARNESSES, f"running covariance[{n};{p};{q};{ub}]", points=2)
        def _wc(S, n=n, p=p, q=q, ub=ub):
            X, Y = S.array("X", (n, p), sample=(-2, 2)), S.array("Y", (n, q), sample=(-2, 2))
            m, C = D.welford_cov(X, unbiased=ub)
            cx, cy = X - X.sum(axis=0) / n, Y - Y.sum(axis=0) / n
            S.eq("mean", m, X.sum(axis=0) / n)
            S.eq("covariance", C, cx.T @ cx / (n - ub))
            _, K = D.welford_cov(X, Y, unbiased=ub)
            S.eq("cross covariance", K, cx.T @ cy / (n - ub))


# ---- tables -------------------------------------------------------------------------------
for shape in ((2, 2), (3, 2), (2, 2, 2)):
    for cd in range(-1, len(shape)):
        @harness(HARNESSES, f"flat table[{','.join(map(str, shape))};{cd}]", points=2)
        def _ft(S, shape=shape, cd=cd):
            T = S.array("T", shape, 0, None)
            lev = [np.arange(s) * 10.0 + k for k, s in enumerate(shape)]
            with stub(D, "cross_tabulate", lambda a: (T, [x for x in lev])):
                F, rows, cols, loc = D.flat_cross_tabulate(None, column_dim=cd)
            c = cd % len(shape)
            others = [k for k in range(len(shape)) if k != c]
            S.true("column labels", list(cols) == list(lev[c]))
            S.true("size", F.shape == (int(np.prod([shape[k] for k in others])), shape[c]) and len(rows) == len(F))
            for i, lab in enumerate(rows):
                for j, cl in enumerate(cols):
                    ix = [0] * len(shape)
                    for k, v in zip(others, lab):
                        ix[k] = list(lev[k]).index(v)
                    ix[c] = list(lev[c]).index(cl)
                    S.eq("cell carries its labels", F[i, j], T[tuple(ix)])


for n, p in ((2, 2), (3, 2)):
    @harness(HARNESSES, f"cross table[{n};{p}]", points=4, paths=120)
    def _ct(S, n=n, p=p):
        bits = [[1.0 if bool(S.real(f"b{i}{j}", 0, 1, (0, 1)) < .5) else 0.0 for j in range(p)] for i in range(n)]
        A = np.array(bits)
        T, lev = D.cross_tabulate(A)
        S.true("levels", all(list(l) == sorted(set(A[:, j])) for j, l in enumerate(lev)))
        for ix in np.ndindex(*T.shape):
            S.eq("count", T[ix], sum(all(A[i, j] == lev[j][ix[j]] for j in range(p)) for i in range(n)))
        B = D.expand_crosstab(T)
        T2, _ = D.cross_tabulate(B)
        if all(T.sum(axis=tuple(k for k in range(p) if k != j)).min() > 0 for j in range(p)):
            S.eq("expanded and counted again", T2, T)
        S.true("rows", B.shape == (n, p))


# ---- sampling covariance of covariances and correlations ----------------------------------
def vix(p):
    return [(i, j) for j in range(p) for i in range(j, p)]


for p in (2, 3):
    @harness(HARNESSES, f"covariance of covariances[{p}]", points=2)
    def _cc(S, p=p):
        G = S.symm("G", p)
        k = S.array("k", p, .5, 3)
        ix = vix(p)
        for nm, kw, r in (("normal", {}, np.ones(p)), ("kurtosis", dict(kurt=k), npx(S).sqrt(k)),
                          ("excess kurtosis", dict(excess_kurt=3 * k - 3), npx(S).sqrt(k))):
            V = CU.cov_sample_cov(S=G, **kw)
            C = arr(S, [[(r[i] + r[j]) / 2 * G[i, j] for j in range(p)] for i in range(p)])
            want = arr(S, [[C[i, k_] * C[j, l] + C[i, l] * C[j, k_] + C[i, j] * C[k_, l] - G[i, j] * G[k_, l] for k_, l in ix] for i, j in ix])
            S.eq(nm, V, want)

    @harness(HARNESSES, f"covariance of correlations[{p}]", points=2, timeout=120, eager=True)
    def _ca(S, p=p):
        R = arr(S, [[1 if i == j else 0 for j in range(p)] for i in range(p)])
        for i in range(p):
            for j in range(i):
                R[i, j] = R[j, i] = S.real(f"r{i}{j}", -.5, .5)
        s = S.array("s", p, .5, 2)
        G = R * s * s[:, None]
        want = np.zeros((p * p, p * p), dtype=object)
        for (j, i), (l, k) in itertools.product(itertools.product(range(p), repeat=2), repeat=2):
            want[j * p + i, l * p + k] = (R[i, j] * R[k, l] * (R[i, k] ** 2 + R[i, l] ** 2 + R[j, k] ** 2 + R[j, l] ** 2) / 2 + R[i, k] * R[j, l] + R[i, l] * R[j, k]
                                          - R[i, j] * R[i, k] * R[i, l] - R[j, i] * R[j, k] * R[j, l] - R[k, i] * R[k, j] * R[k, l] - R[l, i] * R[l, j] * R[l, k])
        A = CU.corr_acov_neudecker(G)
        S.eq("delta method", A, S._arr(want if S.sym else want.astype(float)))
        S.eq("second form", CU.corr_acov_browne(G), A)
        kap = S.real("kap", 1, 3)
        S.eq("common kurtosis", CU.corr_acov_browne(G, kap), kap * A)


# ---- scalar functions ---------------------------------------------------------------------
@harness(HARNESSES, "normal distribution", points=3)
def _nd(S):
    x, m, s = S.real("x", sample=(-2, 2)), S.real("m", sample=(-1, 1)), S.real("s", 0, None)
    S.deriv("density is the derivative", FU.norm_pdf(x, m, s), FU.norm_cdf(x, m, s), ["x"])
    S.eq("distribution function", FU.norm_cdf(x, m, s), stat(S, "norm", "cdf", (x - m) / s))


@harness(HARNESSES, "rational normal distribution function", points=4, paths=40)
def _rn(S):
    z, m, s = S.real("z", -8, 8), S.real("m", sample=(-1, 1)), S.real("s", 0, None)
    S.assume_ne(z, 0)
    a, b = FU._norm_cdf(z), FU._norm_cdf(-z)
    S.eq("symmetry", a + b, 1)
    S.eq("location and scale", FU.norm_cdf_jit(m + s * z, m, s), a)


@harness(HARNESSES, "bivariate normal density", points=3)
def _bd(S):
    x, y, r = S.real("x", sample=(-2, 2)), S.real("y", sample=(-2, 2)), S.real("r", -.9, .9)
    f = FU.binorm_pdf_jit(x, y, r)
    S.deriv("derivative in the correlation", FU.dbinorm_pdf(x, y, r), f, ["r"])
    S.eq("density of the quadrature", FU.binorm_dl_jit(x, y, r), f, tol=1e-9)
    S.deriv("first derivative of the distribution", FU.d2binorm_cdf_du2(x, y, r), FU.dbinorm_cdf_du(x, y, r), ["x"])
    S.deriv("cross derivative", FU.d2binorm_cdf_duv(x, y, r), FU.dbinorm_cdf_du(x, y, r), ["y"])
    S.deriv("derivative in u and r", FU.d2binorm_cdf_dur(x, y, r), FU.dbinorm_cdf_du(x, y, r), ["r"])
    S.eq("mixed derivative is the density", FU.d2binorm_cdf_duv(x, y, r), f)
    S.deriv("Plackett identity", FU.d2binorm_cdf_dur(x, y, r), f, ["x"])
    mx, my, sx, sy = (S.real(n, sample=(.5, 2)) for n in ("mx", "my", "sx", "sy"))
    S.assume_lt(0, sx)
    S.assume_lt(0, sy)
    S.eq("location and scale", FU.binorm_pdf_jit(mx + sx * x, my + sy * y, r, mx, my, sx, sy) * sx * sy, f)


def two(S, name):
    """a function of both coordinates and the correlation"""
    f, g = S.func(name + "1", lambda k, z: float(np.sin(z))), S.func(name + "2", lambda k, z: float(np.cos(z)))
    v = lambda z: z if np.ndim(z) == 0 else np.ravel(z)[0]
    return lambda k, x, y, r: f(0, v(x)) * g(0, v(y)) + v(x) * v(r)


@harness(HARNESSES, "rectangles of the bivariate normal", points=3)
def _br(S):
    a, b, c, d = (S.real(n, sample=(-1, 1)) for n in "abcd")
    r = S.real("r", -.9, .9)
    F = two(S, "F")
    G = two(S, "G")
    one = lambda v: arr(S, [v])
    with stub(FU, "_binorm_cdf_arr", lambda h, k, r: S._arr(np.array([F(0, x, y, r) for x, y in zip(np.ravel(h), np.ravel(k))], dtype=object if S.sym else float).reshape(np.shape(h)))):
        P = FU.binorm_cdf_region((one(a), one(b)), (one(c), one(d)), r)
    S.eq("probability of the rectangle", P[0], F(0, c, d, r) - F(0, c, b, r) - F(0, a, d, r) + F(0, a, b, r))
    with stub(FU, "binorm_pdf", lambda x, y, r: F(0, x, y, r)):
        S.eq("corner sum of the density", FU.binorm_pdf_region((a, b), (c, d), r), F(0, c, d, r) - F(0, c, b, r) - F(0, a, d, r) + F(0, a, b, r))
    with stub(FU, "dbinorm_pdf", lambda x, y, r: G(0, x, y, r)):
        S.eq("corner sum of its derivative", FU.dbinorm_pdf_region((a, b), (c, d), r), G(0, c, d, r) - G(0, c, b, r) - G(0, a, d, r) + G(0, a, b, r))
    H, K = arr(S, [[a, b], [c, d]]), arr(S, [[b, c], [d, a]])
    M = FU.binorm_pdf(H, K, r)
    for i in range(2):
        for j in range(2):
            S.eq("elementwise", M[i, j], FU.binorm_pdf_jit(H[i, j], K[i, j], r))


for deg in (0, 1, 2, 3, 6):
    @harness(HARNESSES, f"bivariate normal quadrature[{deg}]", points=2)
    def _bq(S, deg=deg):
        h, k, r, c = S.real("h", sample=(-1, 1)), S.real("k", sample=(-1, 1)), S.real("r", -1, 1, (-.9, .9)), S.real("c", -1, 1)
        Q = S.func("Q", lambda j, z: float(1 / (1 + np.exp(-z))))
        with stub(FU, "binorm_dl_jit", lambda a, b, t: c * t ** deg), stub(FU, "norm_cdf_jit", lambda z: Q(0, z)):
            L = FU.binorm_l2_jit(h, k, r)
            P = FU.binorm_cdf_jit(h, k, r)
        want = Q(0, -h) * Q(0, -k) + c * r ** (deg + 1) / (deg + 1)
        S.lt("integral of the density over the correlation, above", L - want, 1e-12)
        S.lt("integral of the density over the correlation, below", want - L, 1e-12)
        S.eq("lower left from upper right", P - L, Q(0, h) + Q(0, k) - 1)


@harness(HARNESSES, "other scalar functions", points=3, paths=20)
def _ot(S):
    x, t = S.real("x", sample=(-2, 2)), S.real("t", 0, 3)
    S.assume_ne(x, 0)
    y = FU.soft_threshold(x, t)
    if x > t:
        S.eq("shrunk from above", y, x - t)
    elif x < -t:
        S.eq("shrunk from below", y, x + t)
    else:
        S.eq("thresholded", y, 0)
    e = FU.expit(x)
    S.eq("inverse logit", npx(S).log(e) - npx(S).log(1 - e), x)
    mu = S.real("mu", 0, None)
    for k in range(4):
        f = FU.poisson_logp(k, mu)
        S.eq("Poisson mass", f, k * npx(S).log(mu) - mu - float(sp.special.gammaln(k + 1)), tol=1e-9)
        S.eq("Poisson probability", npx(S).log(FU.poisson_logp(k, mu, logp=False)), f, tol=1e-9)
    q = S.real("q", 0, 1, (.1, .9))
    S.assume_lt(q, 1)
    u = FU.symmetric_conf_int(q)
    S.eq("upper tail of a symmetric interval", 2 * (1 - u), 1 - q)
    S.eq("level in percent", FU.symmetric_conf_int(95.0), FU.symmetric_conf_int(.95), tol=1e-9)
    for n in range(1, 8):
        a, b = FU.harmonic_fraction(n)
        from fractions import Fraction
        S.true("harmonic number", Fraction(a, b) == sum(Fraction(1, i) for i in range(1, n + 1)))
