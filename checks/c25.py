"""Robust regression: loss functions, expectations, objective derivatives, iterations, scale estimators and inference."""
import contextlib
import itertools
import numpy as np
import scipy as sp
import scipy.integrate
import scipy.optimize
from types import SimpleNamespace
from symx.harness import harness
from checks.fam import npx, stat, stub
from pystatsm.pyrobust import m_estimators as M, rls as R, dispersion_estimators as D

HARNESSES = []
FUNCTIONS = ["pystatsm.pyrobust.m_estimators.{MEstimator,Huber,Bisquare}.*", "pystatsm.pyrobust.rls.RobustLM.{__init__,_update_y,rho,grad,hessian,irwls,fit}", "pystatsm.pyrobust.rls.RobustSLM._s_est_eq",
             "pystatsm.pyrobust.dispersion_estimators.{gmd,gmd2,gmd3,mad,sn,sn_naive,sn_estimator,sn_estimator2,qn_estimator,qn_estimator2,_median_1d,_median_nd,_sn_a,_sn_b,vech,invech}"]
BOUNDS = "arbitrary tuning constants and residuals in every branch, 2 or 3 observations and 1 or 2 coefficients for the regression, samples of 2 to 6 for the scale estimators"
ASSUMPTIONS = ["adaptive quadrature returns the integral of the function it is given"]


def arr(S, x):
    return S._arr(np.array(x, dtype=object if S.sym else float))


def const_of(S, lo=.2):
    return S.real("c", lo, None, (.6, 1.5))


for name in ("Huber", "Bisquare"):
    for how in ("constructor", "argument"):
        @harness(HARNESSES, f"loss[{name};{how}]", points=4, paths=40)
        def _ls(S, name=name, how=how):
            c, x = const_of(S), S.real("x", sample=(-2, 2))
            f = getattr(M, name)(c=c) if how == "constructor" else getattr(M, name)()
            a = () if how == "constructor" else (c,)
            v = arr(S, [x])
            rho, psi, phi, w = (g(v, *a) for g in (f.rho, f.psi, f.phi, f.weights))
            k = f.rho_norm(*a)
            # the loss itself, on each side of the tuning constant
            ax = np.abs(x)
            if ax <= c:
                u = x / c
                want = x ** 2 / 2 if name == "Huber" else u ** 6 - 3 * u ** 4 + 3 * u ** 2
            else:
                want = c * ax - c ** 2 / 2 if name == "Huber" else 1.
            S.eq("value", rho, arr(S, [want + 0 * x]))
            S.assume_ne(ax, c)
            S.eq("normalising constant", k, 1. if name == "Huber" else c ** 2 / 6)
            S.deriv("first derivative", psi / k, rho, "x")
            S.deriv("second derivative", phi, psi, "x")
            S.eq("weights", w * v, psi)
            S.eq("even", f.rho(-v, *a), rho)
            S.eq("odd", f.psi(-v, *a), -psi)
            S.le("increases away from zero", 0, psi[0] * x)
            for d, want in ((0, rho), (1, psi / k), (2, phi / k)):
                S.eq(f"chi {d}", f.chi(v, d, *a), want)

    @harness(HARNESSES, f"continuity[{name}]", points=2)
    def _ct(S, name=name):
        c = const_of(S)
        f = getattr(M, name)(c=c)
        for s in (1, -1):
            v = arr(S, [s * c])
            S.eq(f"loss at the constant {s}", f.rho(v), arr(S, [c ** 2 / 2 if name == "Huber" else 1. + 0 * c]))
            S.eq(f"score at the constant {s}", f.psi(v), arr(S, [s * c if name == "Huber" else 0 * c]))
            S.eq(f"weight at the constant {s}", f.weights(v), arr(S, [1. + 0 * c if name == "Huber" else 0 * c]))

    @harness(HARNESSES, f"scale step[{name}]", points=2, paths=80)
    def _sc(S, name=name, n=1):
        c, bd = const_of(S), S.real("bd", .1, .9)
        f = getattr(M, name)(c=c)
        r, s0 = S.array("r", n, .05, 3), S.real("s0", .2, 3)
        s1 = f.m_estimate_scale(r, s0, bd=bd)
        S.eq("scale step", s1 ** 2 * bd * n, s0 ** 2 * f.rho(r / s0).sum())

    for n in (1, 2):
        @harness(HARNESSES, f"weighted step[{name};{n}]", points=2, paths=80, tier="quick" if n < 2 else "thorough")
        def _ws(S, name=name, n=n):
            bd = .5
            f = getattr(M, name)(c=2.)
            X, e, b = S.const(np.array([[1.], [2.]][:n])), S.array("e", n, .05, 3), S.array("b", 1, sample=(-1, 1))
            s0, b2 = 1., S.array("b2", 1, 5, 6)
            y, got = X.dot(b) + e, []

            def nwls(X, y, w):
                got.append(w)
                return b2
            with stub(M, "nwls", nwls):
                rr, bb, ss = f.irls_step(X, y, b, s0, bd=bd, n_iters=1)
            S.eq("scale", ss ** 2 * bd * n, s0 ** 2 * f.rho(e / s0).sum())
            S.eq("weights", got[0] * (e / ss), f.psi(e / ss))
            S.eq("residuals", rr, y - X.dot(b2))
            S.eq("coefficients", bb, b2)

    @harness(HARNESSES, f"expectations by quadrature[{name}]", points=3, paths=40)
    def _eq(S, name=name):
        """what is integrated, at any point"""
        c, x = const_of(S), S.real("x", sample=(-2, 2))
        f = getattr(M, name)(c=c)
        pdf = stat(S, "norm", "pdf", x)
        v = arr(S, [x])
        one = lambda g: (lambda t: g(t)[0] if np.ndim(g(t)) else g(t))
        got = {}

        def quad(g, a, b, *args, **kw):
            got["range"] = (a, b)
            return g(v)[0], 0
        with stub(sp.integrate, "quad", quad):
            for nm, want in (("E_rho", f.rho(v)[0]), ("E_psi", f.psi(v)[0]), ("E_phi", f.phi(v)[0]), ("E_psi2", f.psi(v)[0] ** 2)):
                S.eq(nm, getattr(M.MEstimator, nm)(f), want * pdf)
                S.true(f"{nm} over the whole line", got["range"] == (-np.inf, np.inf))


@harness(HARNESSES, "expectations of the Huber loss", points=3)
def _eh(S):
    c = const_of(S)
    p, d = stat(S, "norm", "cdf", c), stat(S, "norm", "pdf", c)
    for how in ("constructor", "argument"):
        f = M.Huber(c=c) if how == "constructor" else M.Huber()
        a = () if how == "constructor" else (c,)
        # d rho / dc = (|x| - c) outside, d psi^2 / dc = 2 c outside, the mass inside grows with the density
        S.deriv(f"loss {how}", 2 * (d - c * (1 - p)), f.E_rho(*a), "c")
        S.deriv(f"squared score {how}", 4 * c * (1 - p), f.E_psi2(*a), "c")
        S.deriv(f"curvature {how}", 2 * d, f.E_phi(*a), "c")
        S.eq(f"score {how}", f.E_psi(*a), 0.)
    f = M.Huber()
    z = 0 * c
    S.eq("no loss at constant zero", f.E_rho(z), 0.)
    S.eq("no squared score at constant zero", f.E_psi2(z), 0.)
    S.eq("no curvature at constant zero", f.E_phi(z), 0.)


# ---- regression ----------------------------------------------------------------------------------------
def robust(S, n=2, p=1):
    m = object.__new__(R.RobustLM)
    m.X = S.array("X", (n, p), sample=(.2, 1))
    m.y = S.array("y", n, sample=(-1.5, 1.5))
    m.n_obs, m.n_var, m.a = n, p, S.real("a", .1, 1)
    m.f = M.Huber(c=const_of(S))
    m.xcols = ["x%d" % i for i in range(p)]
    return m


for n, p in ((2, 1), (2, 2)):
    @harness(HARNESSES, f"concomitant scale objective[{n};{p}]", points=4, paths=60, timeout=120)
    def _ob(S, n=n, p=p):
        m = robust(S, n, p)
        b, t = S.array("b", p, sample=(-1, 1)), S.real("t", sample=(-.5, .5))
        th = np.concatenate([b, arr(S, [t])])
        s = np.exp(t)
        r = m.y - m.X.dot(b)
        for i in range(n):
            S.assume_ne(np.abs(r[i] / s), m.f.c)
        S.eq("definition", m.rho(th), s * m.f.rho(r / s).sum() + n * s * m.a)
        g, H = m.grad(th), m.hessian(th)
        for i in range(p):
            S.deriv(f"gradient {i}", g[i], m.rho(th), f"b_{i}")
            S.deriv(f"Hessian {i}", H[i], g, f"b_{i}")
        S.deriv("gradient of the log scale", g[p], m.rho(th), "t")
        S.deriv("Hessian of the log scale", H[p], g, "t")
        a2 = S.real("a2", .1, 1)
        S.eq("other offset", m.rho(th, a2) - m.rho(th), n * s * (a2 - m.a))
        S.eq("other offset, gradient", m.grad(th, a2)[p] - g[p], n * s * (a2 - m.a))
        S.eq("other offset, Hessian", m.hessian(th, a2)[p, p] - H[p, p], n * s * (a2 - m.a))


@harness(HARNESSES, "reweighting", points=2, paths=60, timeout=120)
def _rw(S, n=3):
    """one reweighted step solves the score equations with the weights of the current residuals"""
    m = robust(S, n, 1)
    b = S.array("b", 1, sample=(-1, 1))
    s1 = S.real("s1", .2, 2)
    m.theta_init = np.concatenate([b, arr(S, [S.real("t", sample=(-.5, .5))])])
    got = []

    def nwls(X, y, w):
        got.append(w)
        return b
    e = m.y - m.X.dot(b)
    for i in range(n):
        S.assume_ne(e[i], 0 * e[i])
    with stub(R, "nwls", nwls), stub(R, "mad", lambda r: s1):
        th, hist = m.irwls(n_iters=1)
    S.eq("weights", got[0] * (e / s1), m.f.psi(e / s1))
    S.eq("coefficients", th[:1], b)
    S.eq("log scale", th[1], npx(S).log(s1))


@harness(HARNESSES, "set up", points=2, paths=60)
def _su(S, n=3):
    import pandas as pd
    c = S.real("c", 1, 3)
    d = pd.DataFrame({"y": [1., 2., 4.], "x": [0., 1., 3.]})
    m = R.RobustLM("y~x-1", d, c=c)
    S.eq("tuning constant", m.f.c, c)
    m.X = S.array("X", (n, 1), .2, 2)
    y, s1, got = S.array("y", n, sample=(-1, 1)), S.real("s1", .2, 2), []

    def mad(r):
        got.append(r)
        return s1
    with stub(R, "mad", mad):
        m._update_y(y)
    X = m.X[:, 0]
    b = (X * y).sum() / (X * X).sum()
    S.eq("least squares start", m.theta_init[0], b)
    S.eq("scale of the residuals", got[0], y - X * b)
    S.eq("scale start", npx(S).exp(m.theta_init[1]), s1)


@harness(HARNESSES, "inference", points=2, paths=120, timeout=200)
def _in(S, n=2, p=1):
    m = robust(S, n, p)
    m.X = S.const(np.array([[1.], [.5]]))
    b, t = S.array("b", p, .1, None), S.real("t", sample=(-.5, .5))
    th = np.concatenate([b, arr(S, [t])])
    m.theta_init = th
    s = np.exp(t)
    asked = {}

    def minimize(f, x, **k):
        asked.update(k, f=f, x=x)
        return SimpleNamespace(x=th)
    r = m.y - m.X.dot(b)
    psi, phi = m.f.psi(r / s), m.f.phi(r / s)
    S.assume_lt(0, phi.sum())
    with stub(sp.optimize, "minimize", minimize):
        m.fit()
    S.true("objective", asked["f"] == m.rho and asked["jac"] == m.grad and asked["hess"] == m.hessian)
    S.eq("residuals", m.resids, r)
    S.eq("scale", m.scale, s)
    E2, E1 = s ** 2 * (psi ** 2).sum() / (n - p), phi.sum() / n
    v = ((phi - E1) ** 2).sum() / n
    k = 1 + p * v / (n * E1 ** 2)
    G = m.X.T @ m.X
    W = (m.X * phi[:, None]).T @ m.X
    S.eq("first covariance", m.H1 @ G * E1 ** 2, k ** 2 * E2 * np.eye(p))
    S.eq("second covariance", m.H2 @ W * E1, k * E2 * np.eye(p))
    S.eq("third covariance", W @ m.H3 @ W * k, E2 * G)
    for i, H in enumerate((m.H1, m.H2, m.H3)):
        se = np.sqrt(np.diag(H))
        S.eq(f"standard error {i}", m.res[f"SE{i + 1}"].values, se)
        S.eq(f"statistic {i}", m.res[f"t{i + 1}"].values * se, b)
        S.eq(f"p value {i}", m.res[f"p{i + 1}"].values, 2 * stat(S, "t", "sf", b / se, n - p))
    S.eq("coefficients", m.res["beta"].values, b)
    med = np.median(m.y)
    f0, f1 = m.f.rho((m.y - med) / s).sum(), m.f.rho(r / s).sum()
    q = m.sumstats.iloc[:, 0]
    S.eq("explained", q["r2"] * f0, f0 - f1)
    S.eq("deviance", q["dev"], 2 * s ** 2 * f1)
    S.eq("AIC", q["AICr"], 2 * f1 + p * 2 * (E2 / s ** 2) / E1)
    S.eq("BIC", q["BICr"], 2 * f1 + np.log(n) * p)


# ---- scale estimators -------------------------------------------------------------------------------------
def ordered(S, n):
    x = [S.real("x0", sample=(-1, 1))]
    for i in range(n - 1):
        x.append(x[-1] + S.real(f"g{i}", .01, None, (.1, 1)))
    return x


for n in (2, 3, 4):
    @harness(HARNESSES, f"mean differences[{n}]", points=2, paths=100)
    def _gm(S, n=n):
        x = ordered(S, n)
        for perm in ([0, 1, 2, 3][:n], [2, 0, 3, 1][:n] if n == 4 else ([2, 0, 1] if n == 3 else [1, 0])):
            v = arr(S, [x[i] for i in perm])
            want = sum(x[i] - x[j] for i in range(n) for j in range(i)) * 2 / (n * (n - 1))
            for f in (D.gmd, D.gmd2):
                S.eq(f"{f.__name__} {perm}", f(v, corrected=False), want)
                S.eq(f"{f.__name__} {perm}, consistent", f(v), want * npx(S).sqrt(npx(S).pi) / 2)
            S.eq(f"gmd3 {perm}", D.gmd3(v, corrected=False), want)
            S.eq(f"gmd3 {perm}, consistent", D.gmd3(v), want * npx(S).sqrt(npx(S).pi) / 2)

for n in (2, 3, 4, 5):
    @harness(HARNESSES, f"median absolute deviation[{n}]", points=2, paths=200, tier="quick" if n < 5 else "thorough")
    def _md(S, n=n):
        x = ordered(S, n)
        perm = [3, 0, 4, 1, 2]
        v = arr(S, [x[i] for i in perm if i < n])
        m = (x[(n - 1) // 2] + x[n // 2]) / 2
        r = D.mad(v, cn=1.)
        d = [np.abs(t - m) for t in x]
        # a median: as many deviations below as above
        S.eq("consistent", D.mad(v), r * (1.0 / sp.special.ndtri(.75)))
        lo = sum(1 for t in d if t <= r)
        hi = sum(1 for t in d if t >= r)
        S.true("half of the deviations on each side", 2 * lo >= n and 2 * hi >= n)
        S.eq("along an axis", D.mad(np.stack([v, 2 * v], axis=1), cn=1., axis=0), arr(S, [r, 2 * r]))

for n in (2, 3, 4, 5, 6):
    @harness(HARNESSES, f"fast Sn[{n}]", points=3, paths=400, timeout=240, tier="quick" if n < 5 else "thorough")
    def _sn(S, n=n):
        """the fast recursion equals the definition by all pairs"""
        v = arr(S, ordered(S, n))
        for cor in (False, True):
            a, u = D.sn(v, corrected=cor)
            b, w = D.sn_naive(v, corrected=cor)
            S.eq(f"estimate {cor}", a, b)
            S.eq(f"inner medians {cor}", u, w)

for n in (3, 4):
    @harness(HARNESSES, f"pairwise estimators[{n}]", points=3, paths=400, timeout=200)
    def _pw(S, n=n):
        x = ordered(S, n)
        v = arr(S, [x[i] for i in (2, 0, 3, 1) if i < n])
        s1 = D.sn_estimator(v, corrected=False)
        S.eq("both forms of Sn", D.sn_estimator2(v, corrected=False), s1)
        S.eq("consistent Sn", D.sn_estimator(v), s1 * 1.1926)
        if n > 3:
            q1 = D.qn_estimator(v, corrected=False)
            S.eq("both forms of Qn", D.qn_estimator2(v, corrected=False), q1)
            S.eq("consistent Qn", D.qn_estimator(v), q1 * 2.219144465985076)
            pairs = [np.abs(x[i] - x[j]) for i in range(n) for j in range(i)]
            S.true("k-th smallest difference", sum(1 for t in pairs if t <= q1) >= 3 and sum(1 for t in pairs if t < q1) < 3)

for n in (2, 3, 4, 5):
    @harness(HARNESSES, f"low and high medians[{n}]", points=2, paths=200)
    def _lm(S, n=n):
        x = ordered(S, n)
        v = arr(S, [x[i] for i in (3, 0, 4, 1, 2) if i < n])
        for kind, k in (("low", (n + 1) // 2 - 1), ("high", n // 2)):
            S.eq(kind, D._median_1d(v, kind), x[k])
            S.eq(f"{kind} along an axis", D._median_nd(np.stack([v, 2 * v], axis=1), kind, axis=0), arr(S, [[x[k], 2 * x[k]]]))
