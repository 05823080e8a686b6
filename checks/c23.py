"""Generalized additive models: penalised likelihood, implicit derivatives, REML criterion and everything reported."""
import contextlib
import itertools
import numpy as np
import scipy as sp
import scipy.optimize
from types import SimpleNamespace
from symx.harness import harness
from checks.fam import npx, stat, stub, F1, L1
from pystatsm.pygam.gam import GAM
from pystatsm.utilities import splines as SP

HARNESSES = []
FUNCTIONS = ["pystatsm.pygam.gam.GAM.{get_wz,solve_pls,pirls,get_penalty_mat,logdetS,grad_beta_rho,hess_beta_rho,dhess_beta_rho,grad_dev_beta,hess_dev_beta,reml,gradient,hessian,get_smooth_comps,_eval_smooth,optimize_penalty,fit}",
             "pystatsm.pyglm.families.{Gaussian,Gamma,Poisson,InverseGaussian,Binomial,NegativeBinomial}.*"]
BOUNDS = "2 or 3 observations, 1 or 2 coefficients, 1 or 2 penalties, one or two working least squares iterations with every pattern of step halving"
ASSUMPTIONS = ["derivatives along the fitted path are taken with the coefficients moving by their implicit derivative", "the optimiser of the smoothing parameters returns any point"]

CASES = [("Gaussian", "IdentityLink"), ("Gaussian", "LogLink"), ("Gamma", "LogLink"), ("Poisson", "LogLink"), ("InverseGaussian", "LogLink"), ("Binomial", "LogitLink")]


def arr(S, x):
    return S._arr(np.array(x, dtype=object if S.sym else float))


def family(S, fam, link):
    return getattr(F1, fam)(link=getattr(L1, link))


def response(S, fam, n):
    if fam == "Gaussian":
        return S.array("y", n, sample=(.5, 2))
    if fam == "Binomial":
        return S.array("y", n, .01, .99)
    return S.array("y", n, .1, None, (.5, 3))


X2 = np.array([[1., .5], [1., -.25], [1., 1.5]])


def model(S, fam, link, n=2, p=1, ns=2, rank=1):
    m = object.__new__(GAM)
    m.f = family(S, fam, link)
    m.X = S.array("X", (n, 1), sample=(.3, 1)) if p == 1 else S.const(X2[:n])
    m.y = response(S, fam, n)
    m.ns, m.nx, m.n_obs = ns, p, n
    P = []
    for i in range(ns):
        s = S.real(f"s{i}", .1, None, (.5, 2))
        P.append([[s]] if p == 1 else ([[0 * s, 0 * s], [0 * s, s]] if i == 0 else [[s, 0 * s], [0 * s, 0 * s]]))
    m.S = arr(S, P)
    m.ranks = np.ones(ns)
    m.ldS = np.zeros(ns)
    m.ldS_sum = S.real("ld", sample=(-1, 1))
    m.mp = m.nx - m.ranks.sum()
    b = S.array("b", p, sample=(.2, .6))
    return m, b


def slogdet(S):
    """the penalised Hessian is positive definite at a fit"""
    if not S.sym:
        return contextlib.nullcontext()
    return stub(np.linalg, "slogdet", lambda M: (1., npx(S).log(M[0, 0])))


def fitted(m, b):
    """the penalised fit returns b"""
    eta = m.X.dot(b)
    mu = m.f.inv_link(eta)
    m.pirls = lambda lam, *a, **k: (b, eta, mu, None, True, 1)
    return eta, mu


for fam, link in CASES:
    @harness(HARNESSES, f"penalised likelihood[{fam};{link}]", points=2, timeout=120, eager=True)
    def _pl(S, fam=fam, link=link):
        m, b = model(S, fam, link, n=2, p=2, ns=2)
        lam = S.array("lam", 2, .1, None)
        P = m.get_penalty_mat(lam)
        S.eq("penalty", P, lam[0] * m.S[0] + lam[1] * m.S[1])
        g = m.grad_dev_beta(b, P)
        D2, H = m.hess_dev_beta(b, P)
        dev = (m.f.deviance(m.y, mu=m.f.inv_link(m.X.dot(b))).sum() + b @ P @ b) / 2
        for i in range(2):
            S.deriv(f"gradient {i}", g[i], dev, f"b_{i}")
            S.deriv(f"Hessian {i}", H[i], g, f"b_{i}")
        S.eq("penalty part", H - D2, P)
        if fam != "Binomial":
            new = m.solve_pls(m.X.dot(b), P)
            S.eq("working least squares is a Newton step", H @ (new - b), -g, tol=1e-6)

    @harness(HARNESSES, f"Newton step[{fam};{link}]", points=2, timeout=120)
    def _ns(S, fam=fam, link=link):
        m, b = model(S, fam, link, n=2, p=1, ns=1)
        P = m.S[0]
        g = m.grad_dev_beta(b, P)
        H = m.hess_dev_beta(b, P)[1]
        S.assume_lt(0, H[0, 0])
        S.eq("working least squares is a Newton step", H @ (m.solve_pls(m.X.dot(b), P) - b), -g, tol=1e-6)

    @harness(HARNESSES, f"implicit derivatives[{fam};{link}]", points=2, timeout=200, eager=link == "LogitLink")
    def _id(S, fam=fam, link=link, ns=2):
        m, b = model(S, fam, link, n=2, p=1, ns=ns)
        lam = S.array("lam", ns, .1, None)
        e = arr(S, [S.zero(f"e{i}") for i in range(ns)])
        H = m.hess_dev_beta(b, m.get_penalty_mat(lam))[1]
        S.assume_lt(0, H[0, 0])
        b1 = m.grad_beta_rho(b, lam)
        b2 = m.hess_beta_rho(b, lam)
        bt, lt = b + b1 @ e, lam * np.exp(e)
        Pe = m.get_penalty_mat(lt)
        for i in range(ns):
            S.deriv(f"coefficients {i}", 0 * b, m.grad_dev_beta(bt, Pe) - 1 * m.grad_dev_beta(b, m.get_penalty_mat(lam)), f"e{i}")
        c1 = m.grad_beta_rho(bt, lt)
        for i in range(ns):
            for j in range(ns):
                S.deriv(f"second derivative {i}{j}", b2[i, j], c1[:, i], f"e{j}")

    @harness(HARNESSES, f"third implicit derivative[{fam};{link}]", points=2, timeout=400, eager=True, tier="quick" if link == "LogLink" and fam in ("Poisson", "Gamma") else "thorough")
    def _i3(S, fam=fam, link=link, ns=2):
        m, b = model(S, fam, link, n=1, p=1, ns=ns)
        lam = S.array("lam", ns, .1, None)
        e = arr(S, [S.zero(f"e{i}") for i in range(ns)])
        S.assume_lt(0, m.hess_dev_beta(b, m.get_penalty_mat(lam))[1][0, 0])
        b1 = m.grad_beta_rho(b, lam)
        b3 = m.dhess_beta_rho(b, lam)
        c2 = m.hess_beta_rho(b + b1 @ e, lam * np.exp(e))
        for i, j, k in itertools.product(range(ns), repeat=3):
            S.deriv(f"{i}{j}{k}", b3[i, j, k], c2[i, j], f"e{k}")

    if fam not in ("Gaussian", "Gamma", "InverseGaussian"):
        continue

    @harness(HARNESSES, f"REML[{fam};{link}]", points=2, timeout=200, eager=fam == "Gamma" or link == "IdentityLink")
    def _re(S, fam=fam, link=link, ns=2):
        m, b = model(S, fam, link, n=2, p=1, ns=ns)
        th = S.array("th", ns + 1, sample=(-1, 1))
        e = arr(S, [S.zero(f"e{i}") for i in range(ns)] + [S.zero("e%d" % ns)])
        lam, phi = np.exp(th[:-1]), np.exp(th[-1])
        P = m.get_penalty_mat(lam)
        H = m.hess_dev_beta(b, P)[1]
        S.assume_lt(0, H[0, 0])
        b1 = m.grad_beta_rho(b, lam)
        gd = m.grad_dev_beta(b, P)
        _, mu = fitted(m, b)
        g, h = m.gradient(th), m.hessian(th)
        with slogdet(S):
            L0 = m.reml(th)
        D = m.f.deviance(m.y, mu=mu).sum() + b @ P @ b
        S.eq("definition", 2 * L0, D / phi + np.log(H[0, 0] / phi) - (m.ranks @ th[:-1] - m.ranks.sum() * th[-1] + m.ldS_sum) + 2 * m.f.llscale(phi, m.y))
        bt = b + b1 @ e[:-1]
        fitted(m, bt)
        tt = th + e
        with slogdet(S):
            L, gt = m.reml(tt), m.gradient(tt)
        # a fit that is not stationary adds the gradient of the penalised deviance along the path
        for i in range(ns + 1):
            off = b1[:, i] @ gd / phi if i < ns else 0
            S.deriv(f"gradient {i}", g[i] + off, L, f"e{i}")
        for i in range(ns + 1):
            for j in range(ns + 1):
                want = h[i, j]
                if i == ns and j < ns:
                    want = want - b1[:, j] @ gd / phi
                S.deriv(f"Hessian {i}{j}", want, gt[i], f"e{j}")
        S.eq("symmetric", h, h.T)

# several coefficients, one penalty: linear algebra with concrete designs
for fam, link in (("Gaussian", "IdentityLink"), ("Poisson", "LogLink"), ("Gamma", "LogLink")):
    @harness(HARNESSES, f"implicit derivatives, two coefficients[{fam};{link}]", points=2, timeout=200)
    def _i2(S, fam=fam, link=link, ns=2):
        m, b = model(S, fam, link, n=2, p=2, ns=ns)
        lam = S.array("lam", ns, .1, None)
        P = m.get_penalty_mat(lam)
        H = m.hess_dev_beta(b, P)[1]
        b1 = m.grad_beta_rho(b, lam)
        for i in range(ns):
            S.eq(f"first {i}", H @ b1[:, i], -lam[i] * m.S[i] @ b)
        # arbitrary first derivatives: the equation of the second ones
        B1 = S.array("B", (2, ns), sample=(-1, 1))
        m.grad_beta_rho = lambda *a: B1
        b2 = m.hess_beta_rho(b, lam)
        e = arr(S, [S.zero(f"e{i}") for i in range(ns)])
        lt = lam * np.exp(e)
        G = m.hess_dev_beta(b + B1 @ e, m.get_penalty_mat(lt))[1]
        for i in range(ns):
            for j in range(ns):
                # differentiate H(b, rho) b1_i + lam_i S_i b = 0 along rho_j
                k = H @ b2[i, j]
                if i == j:
                    k = k - H @ B1[:, i]
                S.eq(f"second {i}{j}", k, -(m.X.T * (m.f.dw_deta(m.y, m.f.inv_link(m.X @ b)) * (m.X @ B1[:, i]) * (m.X @ B1[:, j]))).sum(axis=1)
                     - lam[j] * m.S[j] @ B1[:, i] - lam[i] * m.S[i] @ B1[:, j])


# ---- iteration ---------------------------------------------------------------------------------------
class Trace:
    """a family whose deviance takes arbitrary values; records the coefficients it is asked for"""
    def __init__(self, S, dev):
        self.S, self.dev, self.asked = S, dev, []

    def link(self, mu):
        return mu

    def inv_link(self, eta):
        return eta

    def deviance(self, y, mu=None):
        self.asked.append(mu)
        return self.dev[len(self.asked) - 1:len(self.asked)]


for iters in (1, 2):
    @harness(HARNESSES, f"iteration[{iters}]", points=0, paths=400, timeout=240, tier="quick" if iters == 1 else "thorough")
    def _it(S, iters=iters):
        m = object.__new__(GAM)
        m.X, m.y = np.eye(1), S.array("y", 1, sample=(-1, 1))
        m.S = np.zeros((1, 1, 1))
        dev = S.array("d", 1 + 17 * iters, .01, 100, (.5, 2))
        steps = S.array("s", iters + 1, sample=(-1, 1))
        m.f = Trace(S, dev)
        seen = []

        def pls(eta, P):
            seen.append(eta)
            return steps[len(seen) - 1:len(seen)]
        m.solve_pls = pls
        b, eta, mu, d, conv, i = m.pirls(np.ones(1), n_iters=iters)
        S.eq("predictor", eta, b)
        S.eq("mean", mu, b)
        S.le("penalised deviance never increases", d, dev[0])
        k = len(m.f.asked)
        S.true("deviance of the coefficients returned", any(_same(S, b, x) and _same(S, d, y) for x, y in zip(m.f.asked, [dev[q] for q in range(k)])))
        S.eq("start", seen[0], (m.y + m.y) / 2)
        if conv:
            S.lt("convergence means a small change", dev[k - 2] - d, 1e-10 * (dev[k - 2] + 1)) if k == 2 else None


def _same(S, a, b):
    a, b = np.asarray(a, dtype=object).ravel()[0], np.asarray(b, dtype=object).ravel()[0]
    return (a - b) == 0 if not S.sym else bool((a - b) == 0)


# ---- after the optimiser -------------------------------------------------------------------------------
for fam, link in (("Gaussian", "IdentityLink"), ("Gamma", "LogLink")):
    @harness(HARNESSES, f"covariances[{fam};{link}]", points=2, timeout=120, paths=12)
    def _cv(S, fam=fam, link=link, p=2):
        m, b = model(S, fam, link, n=3, p=p, ns=1)
        b = S.const(np.array([.25, .5])) if fam == "Gaussian" else S.const(np.array([0., 0.]))
        if fam == "Gamma":
            m.y = S.const(np.array([1.5, .5, 1.25]))
        m.smooths = {"x": dict(ix=np.array([1]))}
        m.theta = S.array("t0", 2, sample=(-1, 1))
        th = S.array("th", 2, sample=(-.5, .5))
        eta, mu = fitted(m, b)
        v = S.array("v", 3, .2, None)
        Hi = arr(S, [[v[0], v[2] - v[2]], [v[2] - v[2], v[1]]])
        m.hessian = lambda t: Hi
        asked = {}

        def minimize(f, x, **k):
            asked.update(f=f, x=x, **k)
            return SimpleNamespace(x=th)
        lam, phi = np.exp(th[:1]), np.exp(th[1])
        with stub(sp.optimize, "minimize", minimize):
            m.optimize_penalty()
        P = lam[0] * m.S[0]
        H = m.hess_dev_beta(b, P)[0]
        S.true("objective", asked["f"] == m.reml and asked["jac"] == m.gradient and asked["hess"] is m.hessian)
        S.eq("Bayesian covariance", m.Vb @ (H + P), phi * np.eye(p), tol=1e-6)
        S.eq("influence of the data", (H + P) @ m.F, H, tol=1e-6)
        S.eq("effective degrees of freedom", m.edf, m.F[0, 0] + m.F[1, 1])
        J = m.grad_beta_rho(b, lam)
        S.eq("smoothing uncertainty", (m.Vc - m.Vb) * v[0], np.outer(J[:, 0], J[:, 0]), tol=1e-6)
        S.eq("frequentist covariance", m.Vs * phi, m.Vb @ H @ m.Vb, tol=1e-6)
        S.eq("frequentist covariance, corrected", m.Vf - m.Vs, m.Vc - m.Vb, tol=1e-6)
        S.eq("covariance of the smoothing parameters", m.Vp @ Hi, np.eye(2))
        S.eq("scale", m.scale, phi)
        S.eq("coefficients", m.beta, b)
        S.eq("mean", m.mu, mu)
        T = m.res_smooths.loc["x"]
        S.eq("term degrees of freedom", T["edf"], m.F[1, 1])
        S.eq("term statistic", T["chisq"] * m.Vb[1, 1], b[1] ** 2, tol=1e-6)
        S.eq("term p value", T["p_approx"], stat(S, "chi2", "sf", T["chisq"], T["rdf"]))
        S.lt("rounded degrees of freedom, above", T["rdf"], T["edf"] + 1)
        S.lt("rounded degrees of freedom, below", T["edf"] - .0501, T["rdf"])

    @harness(HARNESSES, f"summary[{fam};{link}]", points=2)
    def _su(S, fam=fam, link=link, n=2):
        m = object.__new__(GAM)
        m.f = family(S, fam, link)
        m.y, m.n_obs = response(S, fam, n), n
        mu = S.array("mu", n, .1, None)
        b, th, d = S.array("b", 2, .1, None), S.array("th", 2, .1, None), S.array("v", 4, .1, None)

        def opt(approx_hess=False, opt_kws={}):
            m.beta, m.theta, m.mu, m.edf = b, th, mu, edf
            m.Vc, m.Vp = np.diag(d[:2]), np.diag(d[2:])
        edf = S.real("edf", 1, 2)
        m.varnames = list("abcd")
        m.optimize_penalty = opt
        m.fit(confint=90)
        r, full = m.res, np.concatenate([b, th])
        se = np.sqrt(d)
        z = stat(S, "norm", "ppf", .95)
        S.eq("estimates", r["param"].values, full)
        S.eq("standard errors", r["SE"].values, se)
        S.eq("lower", r["CI90-"].values, full - z * se)
        S.eq("upper", r["CI90+"].values, full + z * se)
        S.eq("statistic", r["t"].values, full / se)
        y = m.y
        mean = (y[0] + y[1]) / 2
        D, D0 = m.f.deviance(y, mu=mu).sum(), m.f.deviance(y, mu=mean + 0 * y).sum()
        t = m.sumstats[0] if 0 in m.sumstats else m.sumstats.iloc[:, 0]
        S.eq("explained deviance", t["Explained Deviance"], (D0 - D) / D0)
        S.eq("R squared", t["Rsquared"], 1 - ((y - mu) ** 2).sum() / ((y - mean) ** 2).sum())
        S.eq("log likelihood", t["Loglike"], m.f.full_loglike(y, mu=mu, phi=D / n))
        S.eq("AIC", t["AIC"], 2 * t["Loglike"] + 2 + 2 * edf)
        S.eq("EDF", t["EDF"], edf)


for kind, n in (("cr", 4), ("cc", 4), ("bs", 5)):
    @harness(HARNESSES, f"evaluated smooth[{kind}]", points=2, timeout=120)
    def _ev(S, kind=kind, n=n):
        """any basis: the centred function, and bands from the covariance of its own coefficients"""
        m = object.__new__(GAM)
        p = 3
        B = S.array("B", (2, p), sample=(-1, 1))
        Q = S.array("Q", (p, p), sample=(-1, 1))
        x = S.array("x", 2, sample=(0, 1))
        seen = []

        def basis(x, knots, **k):
            seen.append((x, knots, k))
            return B
        m.smooths = {"u": dict(knots="K", kind=kind, fkws={"a": 1}, q=Q, ix=np.array([2, 3])), "w": dict(ix=np.array([1]))}
        b, L = S.array("b", 4, sample=(-1, 1)), S.array("L", (4, 4), sample=(-1, 1))
        m.Vc = L @ L.T
        m.beta = b
        import pystatsm.pygam.gam as G
        with stub(G, {"cr": "crspline_basis", "cc": "ccspline_basis", "bs": "bspline_basis"}[kind], basis):
            r = m.get_smooth_comps(["u"], {"u": x}, ci=80)["u"]
        S.true("basis", seen[0][0] is x and seen[0][1] == "K" and seen[0][2] == {"a": 1})
        S.eq("coordinates", r[:, 0], x)
        C = B @ Q[:, 1:]
        S.eq("function", r[:, 1], C @ b[2:])
        z = stat(S, "norm", "ppf", .9)
        S.eq("band", r[:, 2], z * np.sqrt(((C @ m.Vc[2:, 2:]) * C).sum(axis=1)))
