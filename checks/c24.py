"""Gaussian location scale additive models: likelihood derivatives, implicit derivatives, REML and everything reported."""
import contextlib
import itertools
import numpy as np
import pandas as pd
import scipy as sp
import scipy.optimize
from types import SimpleNamespace
from symx.harness import harness
from checks.fam import npx, stat, stub, L1
from pystatsm.pygam import gauls as M
from pystatsm.pygam.gauls import GauLS, LogbLink, PredictorTerm
from pystatsm.utilities import optimizer_utils as OU

HARNESSES = []
FUNCTIONS = ["pystatsm.pygam.gauls.LogbLink.*", "pystatsm.pygam.gauls.PredictorTerm.evaluate_component_basis",
             "pystatsm.pygam.gauls.GauLS.{loglike,penalized_loglike,ll_eta_derivs,grad_ll_beta,grad_pll_beta,hess_ll_beta,hess_pll_beta,get_penalty_mat,outer_step,beta_rho,grad_beta_rho,_grad_beta_rho,"
             "dhess,d2hess,hess_beta_rho,logdetS,reml,gradient,hessian,_f_grad_hess,get_smooth_comps,predict_component,optimize_penalty,fit}",
             "pystatsm.utilities.optimizer_utils.MemoizeGradHess"]
BOUNDS = "1 or 2 observations, 2 or 3 coefficients, 0 to 2 penalties, arbitrary four times differentiable links, one Newton step with every pattern of step halving"
ASSUMPTIONS = ["links are arbitrary smooth monotone functions", "derivatives along the fitted path are taken with the coefficients moving by their implicit derivative"]


def arr(S, x):
    return S._arr(np.array(x, dtype=object if S.sym else float))


def _h(shift):
    # a positive increasing function and its derivatives (real runs)
    def f(k, x):
        v = np.exp(x / 2) / 2**k
        return float(v + (shift + x if k == 0 else 1. if k == 1 else 0.)) if shift else float(v)
    return f


class AnyLink:
    """inverse link is an arbitrary function; the derivatives of the link follow from those of its inverse"""
    def __init__(self, S, name, shift):
        self.h, self.S = S.func(name, _h(shift), sign={1: 1} if shift else {0: 1, 1: 1}), S
        self.eta = None

    def inv_link(self, eta):
        self.eta = eta
        return self.h(0, eta)

    def dinv_link(self, eta):
        return self.h(1, eta)

    def d2link(self, mu):
        return -self.h(2, self.eta) / self.h(1, self.eta) ** 3

    def d3link(self, mu):
        a, b, c = (self.h(k, self.eta) for k in (1, 2, 3))
        return (3 * b ** 2 - a * c) / a ** 5

    def d4link(self, mu):
        a, b, c, d = (self.h(k, self.eta) for k in (1, 2, 3, 4))
        return (-15 * b ** 3 + 10 * a * b * c - a ** 2 * d) / a ** 7


@harness(HARNESSES, "bounded log link", points=3)
def _lb(S):
    b = S.real("b", .001, 1, (.01, .6))
    l = LogbLink(b)
    eta = S.real("eta", sample=(-1, 1))
    mu = l.inv_link(eta)
    S.eq("mean", mu * (npx(S).exp(eta) + b), 1.)
    S.eq("inverse", l.link(mu), eta)
    S.deriv("derivative of the mean", l.dinv_link(eta), mu, "eta")
    # derivatives of the link in the mean, through the inverse at the same point
    x = S.real("x", .1, None, (.2, .9))
    c = S.real("c", .001, None, (.01, .3))
    S.assume_lt(c * x, .99)
    k = LogbLink(c)
    g1 = -1 / (x * (1 - c * x))
    S.deriv("first", g1, k.link(x), "x")
    S.deriv("second", k.d2link(x), g1, "x")
    S.deriv("third", k.d3link(x), k.d2link(x), "x")
    S.deriv("fourth", k.d4link(x), k.d3link(x), "x")


def model(S, n=1, pm=1, ps=1, w=True, links=True, ns=2, y=True):
    m = object.__new__(GauLS)
    m.m = SimpleNamespace(X=S.array("X", (n, pm), sample=(.3, 1)), link=AnyLink(S, "h", 1.))
    m.s = SimpleNamespace(X=S.array("Z", (n, ps), sample=(.3, 1)), link=AnyLink(S, "k", 0.))
    m.y = S.array("y", n, sample=(-1, 1))
    m.w = S.array("w", n, .1, None) if w else None
    m.ixm, m.ixs = np.arange(pm), np.arange(pm, pm + ps)
    m.nxm, m.nxs, m.nx = pm, ps, pm + ps
    m.X = {0: m.m.X, 1: m.s.X}
    P = []
    for i in range(ns):
        s = S.real(f"s{i}", .1, None, (.5, 2))
        A = [[0 * s] * (pm + ps) for _ in range(pm + ps)]
        j = [pm - 1, pm + ps - 1][i]
        A[j][j] = s
        P.append(A)
    m.S = arr(S, P) if ns else np.zeros((0, pm + ps, pm + ps))
    m.ns = ns
    m.ranks = [1] * ns
    m.m.ranks, m.s.ranks = [1][:ns], [1][:max(ns - 1, 0)]
    m.m.ldS, m.s.ldS = [S.real("ldm", sample=(-1, 1))][:ns], [S.real("lds", sample=(-1, 1))][:max(ns - 1, 0)]
    m.mp = pm + ps - ns
    return m, S.array("b", pm + ps, sample=(-.5, .5))


for w in (False, True):
    @harness(HARNESSES, f"likelihood[{'weighted' if w else 'plain'}]", points=2, timeout=120)
    def _ll(S, w=w):
        m, b = model(S, n=1, w=w)
        e = np.concatenate([arr(S, [S.real("em", sample=(-.5, .5))]), arr(S, [S.real("es", sample=(-.5, .5))])])
        m.m.X, m.s.X = np.eye(1), np.eye(1)
        mu, tau = m.m.link.inv_link(e[:1]), m.s.link.inv_link(e[1:])
        wt = m.w[0] if w else 1.
        ld = -(m.y[0] - mu[0]) ** 2 * tau[0] ** 2 / 2 + npx(S).log(tau[0]) - npx(S).log(2 * npx(S).pi) / 2
        S.eq("normal density", m.loglike(e), -wt * ld)
        A1, A2, A3, A4 = m.ll_eta_derivs(e[:1], e[1:])
        S.deriv("mean", -A1[0, 0], m.loglike(e), "em")
        S.deriv("scale", -A1[0, 1], m.loglike(e), "es")
        for lev, (lo, hi) in enumerate(((A1, A2), (A2, A3), (A3, A4))):
            for j in range(lo.shape[1]):
                S.deriv(f"order {lev + 2}, {j} in the mean", hi[0, j], lo[0, j], "em")
                S.deriv(f"order {lev + 2}, {j} in the scale", hi[0, j + 1], lo[0, j], "es")
        B1, B2, B3, B4 = m.ll_eta_derivs(e[:1], e[1:], deriv_order=2)
        S.eq("lower orders", np.concatenate([B1, B2], axis=1), np.concatenate([A1, A2], axis=1))
        S.true("only what is asked for", B3 is None and B4 is None and m.ll_eta_derivs(e[:1], e[1:], deriv_order=1)[1] is None)

    @harness(HARNESSES, f"coefficients[{'weighted' if w else 'plain'}]", points=2, timeout=120)
    def _co(S, w=w):
        m, b = model(S, n=2, pm=2, ps=1, w=w)
        lam = S.array("lam", 2, .1, None)
        P = m.get_penalty_mat(lam)
        S.eq("penalty", P, lam[0] * m.S[0] + lam[1] * m.S[1])
        S.eq("penalised likelihood", m.penalized_loglike(b, P), m.loglike(b) + b @ P @ b / 2)
        g, H = m.grad_ll_beta(b), m.hess_ll_beta(b)
        for i in range(3):
            S.deriv(f"gradient {i}", g[i], m.loglike(b), f"b_{i}")
            S.deriv(f"Hessian {i}", H[i], g, f"b_{i}")
        S.eq("penalised gradient", m.grad_pll_beta(b, P) - g, P @ b)
        S.eq("penalised Hessian", m.hess_pll_beta(b, P) - H, P)


def path(S, m, b, ns=2):
    B1 = S.array("B", (m.nx, ns), sample=(-.5, .5))
    C = S.array("C", (m.nx, 3), sample=(-.5, .5))
    B2 = arr(S, [[[C[q, i + j] for q in range(m.nx)] for j in range(ns)] for i in range(ns)])
    e = arr(S, [S.zero(f"e{i}") for i in range(ns)])
    return B1, B2, e


for n in (1, 2):
    @harness(HARNESSES, f"Hessian along the path[{n}]", points=2, timeout=200)
    def _dh(S, n=n):
        m, b = model(S, n=n)
        lam = S.array("lam", 2, .1, None)
        B1, B2, e = path(S, m, b)
        m.grad_beta_rho, m.hess_beta_rho = lambda *a: B1, lambda *a: B2
        d1, d2 = m.dhess(b, lam), m.d2hess(b, lam)
        H = m.hess_ll_beta(b + B1 @ e)
        for i in range(2):
            S.deriv(f"first {i}", d1[i], H, f"e{i}")
        moved = B1 + arr(S, [[B2[i, 0, q] * e[0] + B2[i, 1, q] * e[1] for i in range(2)] for q in range(m.nx)])
        m.grad_beta_rho = lambda *a: moved
        D = m.dhess(b + B1 @ e, lam)
        for i, j in itertools.product(range(2), repeat=2):
            S.deriv(f"second {i}{j}", d2[i, j], D[i], f"e{j}")


@harness(HARNESSES, "implicit derivatives", points=2, timeout=200)
def _im(S):
    m, b = model(S, n=1)
    rho = S.array("r", 2, sample=(-.5, .5))
    lam = np.exp(rho)
    P = m.get_penalty_mat(lam)
    H = m.hess_ll_beta(b) + P
    b1 = m.grad_beta_rho(b, lam)
    for i in range(2):
        S.eq(f"first {i}", H @ b1[:, i], -lam[i] * m.S[i] @ b)
    m.beta_rho = lambda r: b
    S.eq("from the log smoothing parameters", m._grad_beta_rho(rho), b1)
    del m.beta_rho
    B1, B2, e = path(S, m, b)
    m.grad_beta_rho = lambda *a: B1
    b2 = m.hess_beta_rho(b, lam)
    le = lam * np.exp(e)
    G = m.hess_ll_beta(b + B1 @ e) + m.get_penalty_mat(le)
    for i, j in itertools.product(range(2), repeat=2):
        # (H + S) b1_i + lam_i S_i b stays zero; the diagonal uses it to replace lam_i S_i b
        S.deriv(f"second {i}{j}", -(H @ b2[i, j]) + (H @ B1[:, i] if i == j else 0), G @ B1[:, i] + lam[i] * m.S[i] @ (B1 @ e), f"e{j}")


def slogdet(S):
    if not S.sym:
        return contextlib.nullcontext()
    return stub(np.linalg, "slogdet", lambda M: (1., npx(S).log(M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0])))


@harness(HARNESSES, "REML", points=2, timeout=300)
def _re(S):
    m, b = model(S, n=1, w=False)
    r = S.array("r", 2, sample=(-.5, .5))
    lam = np.exp(r)
    P = m.get_penalty_mat(lam)
    H = m.hess_ll_beta(b) + P
    S.assume_lt(0, H[0, 0] * H[1, 1] - H[0, 1] * H[1, 0])
    B1, B2, e = path(S, m, b)
    m.beta_rho = lambda *a: b
    m.grad_beta_rho, m.hess_beta_rho = lambda *a: B1, lambda *a: B2
    g, h = m.gradient(r), m.hessian(r)
    gp = m.grad_pll_beta(b, P)
    with slogdet(S):
        L0 = m.reml(r)
        S.eq("definition", L0, m.penalized_loglike(b, P) + npx(S).log(H[0, 0] * H[1, 1] - H[0, 1] * H[1, 0]) / 2 - (r[0] + r[1] + m.m.ldS[0] + m.s.ldS[0]) / 2)
        F = m._f_grad_hess(r)
    S.eq("combined value", F[0], L0)
    S.eq("combined gradient", F[1], g)
    S.eq("combined Hessian", F[2], h)
    be = b + B1 @ e
    moved = B1 + arr(S, [[B2[i, 0, q] * e[0] + B2[i, 1, q] * e[1] for i in range(2)] for q in range(m.nx)])
    m.beta_rho, m.grad_beta_rho = lambda *a: be, lambda *a: moved
    with slogdet(S):
        L = m.reml(r + e)
    G = m.gradient(r + e)
    D2 = B1.T @ H @ B1
    for i in range(2):
        S.deriv(f"gradient {i}", g[i] + B1[:, i] @ gp, L, f"e{i}")
        for j in range(2):
            # b1' (H + S) b1 stands for -lam_i b1_j' S_i b
            S.deriv(f"Hessian {i}{j}", h[i, j] + D2[i, j] + lam[i] * B1[:, j] @ (m.S[i] @ b), G[i], f"e{j}")


for a, c in ((0, 1), (0, 2), (1, 0), (2, 1), (0, 0)):
    @harness(HARNESSES, f"log determinant of the penalty[{a};{c}]", points=1)
    def _ld(S, a=a, c=c):
        m = object.__new__(GauLS)
        r = S.array("r", max(a + c, 1), sample=(-1, 1))
        l = S.array("l", max(a + c, 1), sample=(-1, 1))
        rk = [1, 3, 2]
        m.m, m.s = SimpleNamespace(ranks=rk[:a], ldS=[l[i] for i in range(a)]), SimpleNamespace(ranks=rk[a:a + c], ldS=[l[a + i] for i in range(c)])
        S.eq("every penalty with its own parameter", m.logdetS(r), sum([rk[i] * r[i] + l[i] for i in range(a + c)], 0 * r[0]))


# ---- Newton iterations -------------------------------------------------------------------------------
@harness(HARNESSES, "Newton step", points=0, paths=300, timeout=200)
def _nt(S):
    m = object.__new__(GauLS)
    m.nx = 1
    h, g, b0 = S.real("h", -5, 5, (-2, 2)), S.real("g", -5, 5, (-1, 1)), S.real("b", -5, 5, (-1, 1))
    v = S.array("v", 18, -100, 100, (-2, 2))
    asked = []

    def ll(b, P):
        for q, x in asked:
            if S.sym and q is b or not S.sym and np.array_equal(q, b):
                return x
        asked.append((b, v[len(asked)]))
        return asked[-1][1]
    m.penalized_loglike = ll
    m.hess_ll_beta, m.grad_ll_beta = lambda b: arr(S, [[h]]), lambda b: arr(S, [g])
    start = arr(S, [b0])
    with contextlib.ExitStack() as st:
        if S.sym:
            st.enter_context(stub(np.linalg, "eigh", lambda A, **k: (arr(S, [A[0, 0]]), np.eye(1))))
        b, i, conv = m.outer_step(np.zeros((1, 1)), start, n_iters=1)
    first = asked[0][1]
    step = b0 - b[0]
    S.le("against the gradient", 0, step * g)
    if not conv:
        # the value at the coefficients returned; they are among those tried
        val = first
        for q, x in asked[1:]:
            if bool((q[0] - b[0]) == 0):
                val = x
                break
        S.le("never worse than the start", val, first)


# ---- after the optimiser -------------------------------------------------------------------------------
HB = np.array([[3., .5, .25], [.5, 2., -.25], [.25, -.25, 1.5]])


def stats_model(S):
    m = object.__new__(GauLS)
    m.m = SimpleNamespace(X=S.const(np.array([[1., .5], [1., -.25], [1., 2.]])), link=AnyLink(S, "h", 1.), smooths={"x": dict(ix=np.array([1]))})
    m.s = SimpleNamespace(X=S.const(np.array([[.5], [1.], [-.75]])), link=AnyLink(S, "k", 0.), smooths={"x": dict(ix=np.array([0]))})
    m.Xt = np.concatenate([m.m.X, m.s.X], axis=1)
    m.ixm, m.ixs = np.arange(2), np.arange(2, 3)
    m.ns, m.nx = 2, 3
    u = S.array("u", 2, .1, None)
    z = 0 * u[0]
    m.S = arr(S, [[[z, z, z], [z, u[0], z], [z, z, z]], [[z, z, z], [z, z, z], [z, z, u[1]]]])
    m.theta = S.array("t0", 2, sample=(-1, 1))
    return m


@harness(HARNESSES, "covariances", points=2, timeout=200, paths=30)
def _cv(S):
    m = stats_model(S)
    th, b = S.array("th", 2, sample=(-.5, .5)), S.array("b", 3, sample=(-1, 1))
    v = S.array("v", 2, .2, None)
    m.beta_rho = lambda r: b
    m.hess_ll_beta = lambda q: S.const(HB)
    m.hessian = lambda r: np.diag(v)
    m._f_grad_hess = lambda r: (r[0] + 2 * r[1], 3 * r, np.diag(r))
    asked = {}

    def minimize(f, x, **k):
        asked.update(x=x, f=f(x), jac=k["jac"](x), hess=k["hess"](x), at=f(th))
        return SimpleNamespace(x=th)
    with stub(sp.optimize, "minimize", minimize):
        m.optimize_penalty()
    t = asked["x"]
    S.eq("objective", asked["f"], t[0] + 2 * t[1])
    S.eq("its gradient", asked["jac"], 3 * t)
    S.eq("its Hessian", asked["hess"], np.diag(t))
    S.eq("objective at another point", asked["at"], th[0] + 2 * th[1])
    lam = np.exp(th)
    P = lam[0] * m.S[0] + lam[1] * m.S[1]
    S.eq("Bayesian covariance", m.Vb @ (HB + P), np.eye(3))
    S.eq("influence", (HB + P) @ m.F, HB)
    S.eq("effective degrees of freedom", m.edf, m.F[0, 0] + m.F[1, 1] + m.F[2, 2])
    J = m.grad_beta_rho(b, lam)
    S.eq("smoothing uncertainty", m.Vc - m.Vb, np.outer(J[:, 0], J[:, 0]) / v[0] + np.outer(J[:, 1], J[:, 1]) / v[1])
    S.eq("frequentist covariance", m.Vs, m.Vb @ HB @ m.Vb)
    S.eq("frequentist covariance, corrected", m.Vf - m.Vs, m.Vc - m.Vb)
    S.eq("covariance of the smoothing parameters", m.Vp * v, np.eye(2))
    S.eq("coefficients", m.beta, b)
    for nm, i in (("m(x)", 1), ("s(x)", 2)):
        T = m.res_smooths.loc[nm]
        S.eq(f"degrees of freedom of {nm}", T["edf"], m.F[i, i])
        S.eq(f"statistic of {nm}", T["chisq"] * m.Vb[i, i], b[i] ** 2)
        S.eq(f"p value of {nm}", T["p_approx"], stat(S, "chi2", "sf", T["chisq"], T["rdf"]))
        S.true(f"coefficients of {nm}", list(m.smooths[nm]["ix"]) == [i])
    S.true("terms keep their own positions", list(m.m.smooths["x"]["ix"]) == [1] and list(m.s.smooths["x"]["ix"]) == [0])


@harness(HARNESSES, "summary", points=2)
def _su(S, n=2):
    m = object.__new__(GauLS)
    m.m = SimpleNamespace(X=S.array("X", (n, 1), sample=(.3, 1)), link=AnyLink(S, "h", 1.))
    m.s = SimpleNamespace(X=S.array("Z", (n, 1), sample=(.3, 1)), link=AnyLink(S, "k", 0.))
    m.ixm, m.ixs, m.w = np.arange(1), np.arange(1, 2), None
    m.y = y = S.array("y", n, sample=(-1, 1))
    b, th, d = S.array("b", 2, .1, None), S.array("th", 2, .1, None), S.array("v", 4, .1, None)
    edf, L = S.real("edf", 1, 2), S.real("L", sample=(-1, 1))

    def opt(opt_kws={}):
        m.beta, m.theta, m.edf, m.Vc, m.Vp = b, th, edf, np.diag(d[:2]), np.diag(d[2:])
    m.optimize_penalty, m.reml = opt, lambda r: L
    m.varnames = list("abcd")
    m.fit(confint=90)
    r, full, se, z = m.res, np.concatenate([b, th]), np.sqrt(d), stat(S, "norm", "ppf", .95)
    S.eq("estimates", r["param"].values, full)
    S.eq("standard errors", r["SE"].values, se)
    S.eq("lower", r["CI90-"].values, full - z * se)
    S.eq("upper", r["CI90+"].values, full + z * se)
    S.eq("statistic", r["t"].values, full / se)
    mu, tau = m.m.link.inv_link(m.m.X @ b[:1]), m.s.link.inv_link(m.s.X @ b[1:])
    mean = (y[0] + y[1]) / 2
    S.eq("mean", m.mu, mu)
    S.eq("residuals", m.resids, y - mu)
    S.eq("precision root", m.tau, tau)
    S.eq("scaled residuals", m.pearson_resids, (y - mu) * tau)
    D, D0 = (((y - mu) * tau) ** 2).sum(), (((y - mean) * tau) ** 2).sum()
    t = m.sumstats.iloc[:, 0]
    S.eq("explained deviance", t["Explained Deviance"], (D0 - D) / D0)
    S.eq("R squared", t["Rsquared"] * ((y - mean) ** 2).sum(), ((y - mean) ** 2).sum() - ((y - mu) ** 2).sum())
    S.eq("log likelihood", t["Loglike"], m.loglike(b))
    S.eq("AIC", t["AIC"], 2 * t["Loglike"] + 2 + 2 * edf)
    S.eq("REML", t["REML"], L)
    S.eq("EDF", t["EDF"], edf)


for mi, si, where in itertools.product((True, False), (True, False), ("both", "m", "s")):
    @harness(HARNESSES, f"predicted component[{mi};{si};{where}]", points=1)
    def _pc(S, mi=mi, si=si, where=where):
        """the predicted mean and standard deviation at any basis"""
        m = object.__new__(GauLS)
        m.ixm, m.ixs = np.arange(3), np.arange(3, 6)
        m.beta = b = S.array("b", 6, sample=(-.5, .5))
        B, Q = {}, S.array("Q", (2, 2), sample=(-1, 1))
        x = S.array("x", 2, sample=(0, 1))
        off = {"m(Intercept)": S.real("om", sample=(-.5, .5)), "s(Intercept)": S.real("os", sample=(-.5, .5))}
        have = ([k for k, f in zip(off, (mi, si)) if f])
        m.res = pd.DataFrame({"param": pd.Series([off[k] for k in have] + [0. * off["m(Intercept)"]], dtype=object if S.sym else float, index=have + ["m(z)"])})
        for nm, icpt, shift, on in (("m", mi, 1., where != "s"), ("s", si, 0., where != "m")):
            t = object.__new__(PredictorTerm)
            t.link = AnyLink(S, {"m": "h", "s": "k"}[nm], shift)
            t.x_varnames = (["Intercept"] if icpt else ["g"]) + ["u1"]
            t.component_varnames = ["u"] if on else ["other"]
            B[nm] = S.array("B" + nm, (2, 2), sample=(-1, 1))
            t.methods = {"cr": lambda x, knots, nm=nm, **k: B[nm]}
            t.smooths = {"u": dict(kind="cr", knots=np.arange(3.), fkws={}, q=Q, ix=np.array([2]))}
            setattr(m, nm, t)
        r = m.predict_component("u", x)
        em = (B["m"] @ Q[:, 1]) * b[2] if where != "s" else 0 * x
        es = (B["s"] @ Q[:, 1]) * b[5] if where != "m" else 0 * x
        if mi:
            em = em + off["m(Intercept)"]
        if si:
            es = es + off["s(Intercept)"]
        S.eq("mean", r["mu"].values, m.m.link.inv_link(em))
        S.eq("standard deviation", r["sd"].values * m.s.link.inv_link(es), np.ones(2))


@harness(HARNESSES, "bands of the smooths", points=2)
def _bs(S):
    m = object.__new__(GauLS)
    B, Q, L = S.array("B", (2, 3), sample=(-1, 1)), S.array("Q", (3, 3), sample=(-1, 1)), S.array("L", (4, 4), sample=(-1, 1))
    m.smooths = {"m(u)": dict(knots=np.array([0., 1.]), kind="cc", fkws={}, q=Q, ix=np.array([2, 3]))}
    m.Vc = L @ L.T
    b = S.array("b", 4, sample=(-1, 1))
    with stub(M, "ccspline_basis", lambda x, k, **kw: B), stub(np, "linspace", lambda a, b, n: np.array([a, b])):
        r = m.get_smooth_comps(b, ci=80)["m(u)"]
    C = B @ Q[:, 1:]
    S.eq("function", r[:, 1], C @ b[2:])
    S.eq("band", r[:, 2], stat(S, "norm", "ppf", .9) * np.sqrt(((C @ m.Vc[2:, 2:]) * C).sum(axis=1)))
