"""Penalised regression: elastic net sweeps, objectives and gradients, iterations, lasso proximal steps and the least angle path."""
import numpy as np
import scipy as sp
from types import SimpleNamespace
from symx.harness import harness
from checks.fam import npx, stat, stub
from pystatsm.pyglmnet import glmen2 as E, gaussian_eln as GE, binomial_eln as BE, binom_eln2 as B2, lars as LR, lasso as LS
from pystatsm.utilities import func_utils as FU
from pystatsm.pyglm.families import Gaussian, Binomial

HARNESSES = []
FUNCTIONS = ["pystatsm.pyglmnet.glmen2.{_coordinate_descent_cycle,weighted_elnet,ElasticNetGLM.*}", "pystatsm.pyglmnet.gaussian_eln.{eln_cd,elnet,elnet_grad,elnet_loglike,elnet_penalty,sft}",
             "pystatsm.pyglmnet.binomial_eln.{binom_glm_cd,binom_eval,elnet_penalty,sft,inv_logit}", "pystatsm.pyglmnet.binom_eln2.{_welnet_cd,objective_function,binomial_deviance,penalty_func,get_intercept,get_eta_mu}",
             "pystatsm.pyglmnet.lars.*", "pystatsm.pyglmnet.lasso.*", "pystatsm.utilities.func_utils.soft_threshold"]
BOUNDS = "1 to 3 observations and 1 to 3 coefficients, one sweep or outer iteration from any state, whole least angle paths for fixed Gram matrices of size 2 and 3"
ASSUMPTIONS = []


def arr(S, x):
    return S._arr(np.array(x, dtype=object if S.sym else float))


def pen(S, p="l"):
    return S.real("lam", .05, None, (.1, .6)), S.real("alpha", .1, .9)


def soft(u, t):
    """argmin of (x - u)^2 / 2 + t |x|"""
    if u > t:
        return u - t
    if u < -t:
        return u + t
    return 0 * u


for name, f in (("func_utils", FU.soft_threshold), ("lasso", LS.soft_threshold), ("gaussian", GE.sft), ("binomial", BE.sft)):
    @harness(HARNESSES, f"soft threshold[{name}]", points=4)
    def _st(S, f=f):
        x, t = S.real("x", sample=(-2, 2)), S.real("t", 0, 1)
        S.eq("value", f(x, t), soft(x, t))


# ---- sweeps --------------------------------------------------------------------------------------------------
class Soft:
    """soft thresholding, which is checked above, as a function that returns any value"""

    def __init__(self, S, p, zero=False):
        self.S, self.out, self.args = S, [S.real(f"s{j}", .2, 2) if not zero else 0. for j in range(p)], []

    def __call__(self, u, t):
        self.args.append((u, t))
        j = len(self.args) - 1
        # in units of the curvature, so that the coefficient itself is the free quantity
        return self.out[j] * self.den[j]


def py(f):
    return getattr(f, "py_func", f)


def sweep(S, X, b, r, v, lam1, lam2, f, n=1):
    """reference coordinate descent: r is the weighted residual v * (y - eta)"""
    b, k, h = list(b), len(b), []
    S.true("calls", len(f.args) == k)
    for j in range(k):
        q = (v * X[:, j] ** 2).sum() / n
        S.eq(f"threshold {j}", arr(S, list(f.args[j])), arr(S, [(X[:, j] * r).sum() / n + q * b[j], lam1]))
        new = f.out[j]
        d = new - b[j]
        r = r - d * v * X[:, j]
        b[j] = new
        h.append(q * d ** 2)
    return arr(S, b), r, h


for n, p in ((2, 1), (2, 2)):
    for zero in (False, True):
        k = f"{n};{p}" + (";zero" if zero else "")

        @harness(HARNESSES, f"weighted sweep[{k}]", points=3, paths=60, timeout=120)
        def _ws(S, n=n, p=p, zero=zero):
            lam, al = pen(S)
            X, b, b0 = S.array("X", (n, p), .1, 2), S.array("b", p, -2, -.1), S.real("b0", sample=(-1, 1))
            v, z = S.array("v", n, .2, 2), S.array("z", n, sample=(-1, 1))
            r, f = v * z, Soft(S, p, zero)
            f.den = [(v * X[:, j] ** 2).sum() + lam * (1 - al) for j in range(p)]
            xv = arr(S, [0.] * p) if S.sym else np.zeros(p)
            with stub(E, "soft_threshold", f):
                o = py(E._coordinate_descent_cycle)(b.copy(), b0, r.copy(), v, X, X ** 2, xv, np.zeros(p, dtype=bool), np.ones(p, dtype=bool), np.arange(p), lam, al)
            bb, rr, h = sweep(S, X, b, r, v, lam * al, lam * (1 - al), f)
            d = rr.sum() / v.sum()
            S.eq("coefficients", o[0], bb)
            S.eq("intercept", o[1], b0 + d)
            S.eq("residual", o[4], rr - d * v)
            S.eq("residual of the new coefficients", o[4], v * (z - X.dot(o[0] - b) - (o[1] - b0)))
            for q in h + [v.sum() * d ** 2]:
                S.le("largest change", q, o[3], tol=1e-12)
            S.true("only zeros are dropped", bool(np.all(o[2] == (not zero))))

        @harness(HARNESSES, f"binomial sweep[{k}]", points=3, paths=60, timeout=120)
        def _bs(S, n=n, p=p, zero=zero):
            lam, al = pen(S)
            X, b, b0 = S.array("X", (n, p), .1, 2), S.array("b", p, -2, -.1), S.real("b0", sample=(-1, 1))
            v, z = S.array("v", n, .2, 2), S.array("z", n, sample=(-1, 1))
            r, f = v * z, Soft(S, p, zero)
            f.den = [(v * X[:, j] ** 2).sum() / n + lam * (1 - al) for j in range(p)]
            with stub(BE, "sft", f):
                o = py(BE.binom_glm_cd)(b.copy(), b0, X, X ** 2, r.copy(), v, arr(S, [0.] * p), lam * al, lam * (1 - al), np.ones(p, dtype=bool), np.arange(p), n)
            bb, rr, h = sweep(S, X, b, r, v, lam * al, lam * (1 - al), f, n)
            d = rr.sum() / v.sum()
            S.eq("coefficients", o[0], bb)
            S.eq("intercept", o[1], b0 + d)
            S.eq("changes", o[3], arr(S, h))
            f.args = []
            with stub(B2, "soft_threshold", f):
                o = py(B2._welnet_cd)(X, X ** 2, r.copy(), v, al, lam, arr(S, [b0] + list(b)), np.ones(p, dtype=bool), np.arange(p), 1, -1.)
            sweep(S, X, b, r, v, lam * al, lam * (1 - al), f, n)
            S.eq("second solver, coefficients", o[0], bb)
            S.eq("second solver, intercept", o[1], b0 + d)

        @harness(HARNESSES, f"Gaussian sweep[{k}]", points=3, paths=60, timeout=120)
        def _gs(S, n=n, p=p, zero=zero):
            lam, al = pen(S)
            X, b = S.array("X", (n, p), .1, 2), S.array("b", p, -2, -.1)
            y, f = S.array("y", n, sample=(-1, 1)), Soft(S, p, zero)
            f.den = [(X[:, j] ** 2).sum() + lam * (1 - al) * n for j in range(p)]
            with stub(GE, "sft", f):
                o = py(GE.eln_cd)(X, y, (X ** 2).sum(axis=0), al, lam, b.copy(), np.ones(p, dtype=bool), 1, 1e-9, 1e-9)
            # this solver scales by the number of observations
            f.args = [(u / n, t / n) for u, t in f.args]
            bb, rr, h = sweep(S, X, b, y - X.dot(b), arr(S, [1.] * n), lam * al, lam * (1 - al), f, n)
            S.eq("coefficients", o[0], bb)
            S.eq("objective before", o[1][0][2], ((y - X.dot(b)) ** 2).sum() / (2 * n) + lam * (-al * b.sum() + (1 - al) / 2 * (b ** 2).sum()))


@harness(HARNESSES, "threshold minimises", points=4, paths=40)
def _tm(S):
    """the coordinate update is the minimiser of the penalised quadratic"""
    u, la, h, dla = S.real("u", sample=(-2, 2)), S.real("la", .05, 1), S.real("h", .1, 2), S.real("dla", 0, 1)
    x = FU.soft_threshold(u, la) / (h + dla)
    w = S.real("w", sample=(-2, 2))
    q = lambda x: h * x ** 2 / 2 - u * x + la * np.abs(x) + dla * x ** 2 / 2
    S.le("no smaller value", q(x), q(w))


@harness(HARNESSES, "stopping rule", points=4, paths=40)
def _sr(S):
    """weighted_elnet stops at the first sweep with a small change and returns that sweep's coefficients; nothing but the sweep changes the residual"""
    seen, bs = [], [S.array(f"b{i}", 2, sample=(-1, 1)) for i in range(3)]
    ds, rs = S.array("d", 3, 0, 2), [S.array(f"r{i}", 2, sample=(-1, 1)) for i in range(3)]
    v, y = S.array("v", 2, .2, 2), S.array("y", 2, sample=(-1, 1))
    X = S.const(np.array([[1.], [2.]]))
    lam, al = pen(S)

    def cycle(b, b0, r, v_, X_, Xsq, xv, ind, active, index, l, a):
        i = len(seen)
        seen.append((b.copy(), b0, r, l, a))
        return bs[i][1:], bs[i][0], active, ds[i], rs[i]
    f = py(E.weighted_elnet)
    with stub(E, "_coordinate_descent_cycle", cycle), stub(E, "numba", SimpleNamespace(float64=float, boolean=bool)):
        beta, it, _ = f(arr(S, [0., 0.]), y, v, X, X ** 2, np.ones(1, dtype=bool), np.arange(1), lam, lam, al, 3, 1.)
    k = len(seen)
    S.true("sweeps", k == it + 1)
    for i in range(k):
        S.true(f"change {i}", (ds[i] < 1) if i == k - 1 and k < 3 else (i == 2 or ds[i] >= 1))
        S.eq(f"residual {i}", seen[i][2], v * y if i == 0 else rs[i - 1])
        if i:
            S.eq(f"start {i}", arr(S, [seen[i][1], seen[i][0][0]]), bs[i - 1])
        S.true(f"penalty {i}", seen[i][3] is lam or bool(seen[i][3] == lam))
    S.eq("result", beta, bs[k - 1])


# ---- ElasticNetGLM ----------------------------------------------------------------------------------------------
def model(S, fam, n=2, p=1, alpha=None):
    m = object.__new__(E.ElasticNetGLM)
    m.X = S.array("X", (n, p), sample=(-1, 1))
    m.y = S.array("y", n, .1, .9)
    w = S.array("w", n, .2, 1)
    m.wobs, m.n_obs, m.n, m.n_var, m.p = w, n, n, p, p
    m.family, m.alpha = fam(), S.real("alpha", .1, .9) if alpha is None else alpha
    m.halc = (1 - m.alpha) / 2
    return m


FAM = dict(gaussian=Gaussian, binomial=Binomial)
@harness(HARNESSES, "overflow guard", points=3)
def _og(S):
    e, lo, hi = S.array("e", 2, sample=(-3, 3)), S.real("lo", -2, -1), S.real("hi", 1, 2)
    o = E.overflow_adjust(e.copy(), lo, hi)
    for i in range(2):
        S.eq(f"{i}", o[i], lo if e[i] < lo else (hi if e[i] > hi else e[i]))


def unclipped():
    return stub(E, "overflow_adjust", lambda x, *a: x)


for fam in FAM:
    for n, p in ((1, 2), (2, 1)):
        @harness(HARNESSES, f"objective[{fam};{n};{p}]", points=3, paths=60, timeout=120)
        def _ob(S, fam=fam, n=n, p=p):
            m = model(S, FAM[fam], n, p)
            lam, sg = S.real("lam", .05, 2), np.array([1, 1, -1.])[:p + 1]
            eb = S.array("b", p + 1, .1, 1)
            b = eb * sg
            eta = m.X.dot(b[1:]) + b[0]
            with unclipped():
                pn = lam * (m.alpha * np.abs(b[1:]).sum() + (1 - m.alpha) / 2 * (b[1:] ** 2).sum())
                S.eq("penalty", m.pen_func(b, lam), pn)
                f = m.obj_func(b, lam)
                S.eq("objective", f, m._dev_beta(b) / 2 + pn)
                if fam == "gaussian":
                    S.eq("deviance", m._dev_beta(b), (m.wobs * (m.y - eta) ** 2).sum())
                else:
                    mu = m._get_mu(b)
                    lg = npx(S).log
                    S.eq("deviance", m._dev_beta(b), 2 * (m.wobs * (m.y * lg(m.y / mu) + (1 - m.y) * lg((1 - m.y) / (1 - mu)))).sum())
                g, gd, gp = m.obj_grad(b, lam), m.dev_grad(b, lam), m.pen_grad(b, lam)
                H, Hd = m.obj_hess(b, lam), m.dev_hess(b, lam)
                for j in range(p + 1):
                    S.deriv(f"gradient {j}", sg[j] * g[j], f, f"b_{j}")
                    S.deriv(f"half deviance gradient {j}", 2 * sg[j] * gd[j], m._dev_beta(b), f"b_{j}")
                    S.deriv(f"Hessian {j}", sg[j] * H[j], g, f"b_{j}")
                    S.deriv(f"deviance Hessian {j}", sg[j] * Hd[j], 2 * gd, f"b_{j}")
                    if j:
                        S.deriv(f"penalty gradient {j}", sg[j] * gp[j - 1], m.pen_func(b, lam), f"b_{j}")
                S.eq("sum", g, gd + np.concatenate([arr(S, [0.]), gp]))
                y2, w2 = S.array("y2", n, .1, .9), S.array("w2", n, .2, 1)
                m2 = model_like(m, y2, w2)
                S.eq("other data", m.obj_func(b, lam, m.X, y2, w2), m2.obj_func(b, lam))
                S.eq("other data, gradient", m.obj_grad(b, lam, m.X, y2, w2), m2.obj_grad(b, lam))

    @harness(HARNESSES, f"outer iteration[{fam}]", points=3, paths=60, timeout=120)
    def _oi(S, fam=fam, n=2, p=1):
        """the inner solver gets the derivatives of the log likelihood"""
        m = model(S, FAM[fam], n, p)
        b, lam = S.array("b", p + 1, .1, 1), S.real("lam", .05, 2)
        b2, got = S.array("c", p + 1, .1, 1), []
        def inner(beta, y, v, X, Xsq, active, index, l, l0, a, **k):
            got.append((beta, y, v, X, active.copy(), l, a))
            return b2.copy(), 0, None
        fs, seen = [S.real("f0", 1, 2), S.real("f1", 4, 5)], []

        def objective(mu, beta, *a):
            seen.append((mu, beta, a))
            return fs[len(seen) - 1]
        m._obj_func_mu = objective
        with stub(E, "weighted_elnet", inner), unclipped():
            o, hist = m._glm_elnet(b.copy(), m.X, m.X ** 2, m.y, m.wobs, lam, n_iters=1)
        with unclipped():
            beta, z, v, X, act, l, a = got[0]
            g, H = m.dev_grad(b, lam), m.dev_hess(b, lam) / 2
            D = np.concatenate([arr(S, [[1.]] * n), m.X], axis=1)
            S.eq("start", beta, b)
            S.eq("score", D.T.dot(v * z), -g)
            S.eq("information", (D * v[:, None]).T.dot(D), H)
            S.eq("result", o, b2)
            S.eq("objective", arr(S, [hist[0][0], hist[1][0]]), arr(S, fs))
            for i, c in enumerate((b, b2)):
                S.eq(f"mean {i}", seen[i][0], m._get_mu(c))
                S.eq(f"coefficients {i}", seen[i][1], c)
                S.eq(f"penalty {i}", seen[i][2][0], lam)
            s = np.abs(g[1])
            S.true("screening", bool(act[0]) == bool(s >= lam))
            S.eq("penalty", arr(S, [l, a]), arr(S, [lam, m.alpha]))

    @harness(HARNESSES, f"largest penalty[{fam}]", points=3, paths=60, timeout=120)
    def _lp(S, fam=fam, n=2, p=1):
        m = model(S, FAM[fam], n, p)
        m.X = S.const(np.array([[1.], [-1.]]))
        S.assume_lt(m.y[1], m.y[0])
        w = m.wobs
        m.wobs = w / w.sum()
        lams, nd, b, eta, mu = m.get_start_param(n_lambdas=3, lambda_min_ratio=.25)
        mean = (m.wobs * m.y).sum()
        S.eq("null mean", mu, arr(S, [mean] * n))
        S.eq("null intercept", m._get_mu(b), arr(S, [mean] * n))
        S.eq("no slopes", b[1:], 0 * b[1:])
        S.eq("null deviance", nd, m._dev_mu(mu))
        g = m.dev_grad(b, 0.)[1:]
        top = lams[0] * m.alpha
        S.eq("smallest penalty with no slope", top, np.abs(g[0]))
        S.eq("grid", lams[1] ** 2, lams[0] * lams[2])
        S.eq("grid end", lams[2] * 4, lams[0])
        S.eq("start value", m.get_intercept(), b)


def model_like(m, y, w):
    k = object.__new__(E.ElasticNetGLM)
    k.__dict__.update(m.__dict__)
    k.y, k.wobs = y, w
    return k


@harness(HARNESSES, "set up", points=3)
def _su(S, n=3):
    X, y, w = S.const(np.array([[1., 3.], [2., -1.], [4., 0.]])), S.array("y", n, sample=(-1, 1)), S.array("w", n, .2, 2)
    m = E.ElasticNetGLM(X, y, Gaussian(), wobs=w, alpha=.5)
    S.eq("centred", m.X.sum(axis=0), 0 * m.X[0])
    S.eq("unit variance", (m.X ** 2).sum(axis=0), 0 * m.X[0] + n)
    S.eq("same variables", (X[0] - X[1]) * (m.X[0] - m.X[2]), (m.X[0] - m.X[1]) * (X[0] - X[2]))
    S.eq("squares", m.Xsq, m.X ** 2)
    S.eq("weights", m.wobs * w.sum(), w)
    S.true("no category", not m._categorical)


@harness(HARNESSES, "validation deviance", points=3)
def _vd(S, n=2, p=1):
    m = model(S, Gaussian, n, p)
    B = S.array("B", (2, p + 1), sample=(-1, 1))
    with unclipped():
        f = m.crossval_path(B, arr(S, [0., 0.]), m.X, m.y, m.wobs)
    for i in range(2):
        with unclipped():
            S.eq(f"{i}", f[i] * m.wobs.sum(), m._dev_beta(B[i]))


# ---- Gaussian and binomial functions ----------------------------------------------------------------------------
@harness(HARNESSES, "Gaussian objective", points=3, paths=20)
def _go(S, n=2, p=2):
    X, y, b = S.array("X", (n, p), sample=(-1, 1)), S.array("y", n, sample=(-1, 1)), S.array("b", p, sample=(-1, 1))
    lam, al = pen(S)
    for j in range(p):
        S.assume_ne(b[j], 0)
    f = GE.elnet_loglike(X, y, b, al, lam)
    S.eq("parts", f[2], f[0] + f[1])
    S.eq("fit", f[0], ((y - X.dot(b)) ** 2).sum() / (2 * n))
    S.eq("penalty", f[1], lam * (al * np.abs(b).sum() + (1 - al) / 2 * (b ** 2).sum()))
    S.eq("binomial penalty", BE.elnet_penalty(b, al, lam), f[1])
    S.eq("second binomial penalty", B2.penalty_func(b, al, (1 - al) / 2, lam), f[1])
    g = GE.elnet_grad(b, X, y, lam, al)
    for j in range(p):
        S.deriv(f"gradient {j}", g[j], f[2], f"b_{j}")


@harness(HARNESSES, "Gaussian solver", points=2)
def _gv(S, n=2, p=1):
    X, y = S.const(np.array([[1.], [-2.]])), S.array("y", n, sample=(-1, 1))
    lam, al = pen(S)
    got = []

    def cd(X_, y_, Xsq, a, l, b, active, *k):
        got.append((y_, Xsq, a, l, b, active, k))
        return b, arr(S, [[0.] * 3] * 4), active, 1
    with stub(GE, "eln_cd", cd):
        o = GE.elnet(X, y, lam, al)
        GE.elnet(X, y, lam, al, intercept=False)
    S.eq("centred response", got[0][0], y - y.sum() / n)
    S.eq("response", got[1][0], y)
    S.eq("squares", got[0][1], (X ** 2).sum(axis=0))
    S.eq("penalty", arr(S, got[0][2:4]), arr(S, [al, lam]))
    S.eq("start", got[0][4], X.T.dot(y) / n)
    S.true("history", len(o[1]) == 3)


@harness(HARNESSES, "binomial objective", points=3, paths=40)
def _bo(S, n=2, p=1):
    X, y, b, b0 = S.array("X", (n, p), sample=(-1, 1)), S.array("y", n, .1, .9), S.array("b", p, sample=(-1, 1)), S.real("b0", sample=(-1, 1))
    lam, al = pen(S)
    eta = X.dot(b) + b0
    lg = npx(S).log
    ll, P, f = BE.binom_eval(y, eta, b, al, lam)
    mu = BE.inv_logit(eta)
    e = npx(S).exp(eta)
    S.eq("mean", mu * (1 + e), e)
    S.eq("deviance", ll * n, -2 * (y * lg(mu) + (1 - y) * lg(1 - mu)).sum())
    S.eq("sum", f, ll / 2 + P)
    et, m2, w2 = B2.get_eta_mu(X, b, b0)
    S.eq("second mean", m2 * (1 + e), e)
    S.eq("variance", w2, m2 * (1 - m2))
    w = S.array("w", n, .2, 1)
    mu = S.array("mu", n, .1, .9)
    for k in range(4):
        yy = arr(S, [y[0], y[1]] if k == 0 else [[0., 1.], [y[0], 0.], [1., y[1]]][k - 1])
        q = B2.binomial_deviance(yy, mu, w)
        for i in range(n):
            v = yy[i]
            want = -lg(1 - mu[i]) if bool(v == 0) else (-lg(mu[i]) if bool(v == 1) else v * lg(v / mu[i]) + (1 - v) * lg((1 - v) / (1 - mu[i])))
            S.eq(f"second deviance {k} {i}", q[i], 2 * w[i] * want)
        S.eq(f"second objective {k}", B2.objective_function(yy, mu, w, b, al, (1 - al) / 2, lam), q.sum() / 2 + B2.penalty_func(b, al, (1 - al) / 2, lam))
    c, m0, e0 = B2.get_intercept(y, w)
    S.eq("intercept", npx(S).exp(c) * (w * (1 - y)).sum(), (w * y).sum())
    S.eq("null mean", m0 * w.sum(), arr(S, [(w * y).sum()] * n))


# ---- lasso ---------------------------------------------------------------------------------------------------------
@harness(HARNESSES, "proximal step", points=3, paths=60, timeout=120)
def _px(S, n=2, p=2):
    X, y, b = S.array("X", (n, p), .3, 2), S.array("y", n, sample=(-1, 1)), S.array("b", p, .1, 1)
    lam, L = S.real("lam", .05, 1), S.real("L", .5, None, (8, 12))
    XtX, Xty = X.T.dot(X), X.T.dot(y)
    obj = lambda b: ((y - X.dot(b)) ** 2).sum() / (2 * n) + lam * b.sum()
    f, h, t = LS.lasso_obj(b, X, y, lam)
    S.eq("objective", t, obj(b))
    S.eq("parts", t, f + h)
    # step 1 / (2 L): the gradient step then the soft threshold
    new, got = S.array("z", p, 2, 3), []

    def thr(x, t):
        got.append((x, t))
        return new
    with stub(LS, "soft_threshold", thr):
        o, hist = LS.lasso_prox_grad(b.copy(), X, y, Xty, XtX, lam, L, n_iters=1)
        z = 0 * b
        q, hist2 = LS.lasso_accelerated_grad(z, X, y, Xty, XtX, lam, L, n_iters=1)
    for i, s in enumerate((b, z)):
        S.eq(f"gradient step {i}", (got[i][0] - s) * 2 * L * n, X.T.dot(y - X.dot(s)))
        S.eq(f"threshold {i}", got[i][1] * 2 * L, lam)
        S.eq(f"history {i}", (hist, hist2)[i][:, 2], arr(S, [obj(s), obj(new)]))
        worse = bool(obj(new) > obj(s))
        S.eq(f"step {i}", (o, q)[i], s if worse else new)


@harness(HARNESSES, "accelerated step", points=3, paths=60, timeout=120)
def _ac(S, n=1, p=1):
    """two steps: the second starts from the extrapolated point"""
    X, y, b = S.array("X", (n, p), .3, 2), S.array("y", n, sample=(-1, 1)), S.array("b", p, .1, 1)
    lam, L = S.real("lam", .05, 1), S.real("L", .5, None, (8, 12))
    z, got = [S.array("z0", p, 2, 3), S.array("z1", p, 4, 5)], []

    def thr(x, t):
        got.append(x)
        return z[len(got) - 1]
    with stub(LS, "soft_threshold", thr), stub(LS, "lasso_obj", lambda *a: (0., 0., 0.)):
        o, _ = LS.lasso_accelerated_grad(b.copy(), X, y, X.T.dot(y), X.T.dot(X), lam, L, n_iters=2)
    for i, s in enumerate((0 * b, z[0] + (z[0] - b) / 4)):
        S.eq(f"gradient step {i}", (got[i] - s) * 2 * L * n, X.T.dot(y - X.dot(s)))
    S.eq("result", o, z[1])


# ---- least angle path ------------------------------------------------------------------------------------------------
GRAM = {"2": [[2, 1], [1, 2]], "2,negative": [[1, -1], [-1, 3]]}


@harness(HARNESSES, "step length", points=4, paths=60)
def _sl(S, n=1):
    """the first point where another variable is as correlated as the active ones, or the least squares point"""
    cj, A = S.real("cj", 1, 2), S.real("A", .5, 1)
    C, a = S.array("C", n, -.9, .9), S.array("a", n, -2, 2)
    for k in range(n):
        S.assume_ne(a[k], A)
        S.assume_ne(a[k], -A)
    g = LR.get_lars_gamma(C, cj, A, a)
    S.lt("moves", 0, g)
    S.le("not past least squares", g * A, cj)
    t = S.real("t", 0, 1) * g
    for k in range(n):
        S.le(f"stays within {k}", C[k] - t * a[k], cj - t * A, tol=1e-9)
        S.le(f"stays above {k}", -(C[k] - t * a[k]), cj - t * A, tol=1e-9)
    hit = [(cj - g * A) - (C[k] - g * a[k]) for k in range(n)] + [(cj - g * A) + (C[k] - g * a[k]) for k in range(n)] + [cj - g * A]
    pr = 1
    for h in hit:
        pr = pr * h
    S.eq("ends at an event", pr, 0., tol=1e-7)


@harness(HARNESSES, "sign change", points=6, paths=60)
def _sg(S):
    """the step is cut where the first active coefficient reaches zero"""
    b, w, g = S.array("b", 3, sample=(-1, 1)), S.array("w", 2, sample=(-1, 1)), S.real("g", .1, 2)
    act = np.array([2, 0])
    for k in range(2):
        S.assume_ne(w[k], 0)
        S.assume_ne(b[act[k]], 0)
    S.assume_ne(b[2] * w[1], b[0] * w[0])
    drops, h = LR._lasso_modification(b, act, w, g)
    S.le("not longer", h, g)
    S.lt("moves", 0, h)
    dr = [bool(x) for x in drops] if np.ndim(drops) else [False, False]
    for k in range(2):
        x = b[act[k]]
        S.le(f"keeps its sign {k}", 0, (x + h * w[k]) * x, tol=1e-9)
        if dr[k]:
            S.eq(f"dropped at zero {k}", x + h * w[k], 0., tol=1e-9)
    if not any(dr):
        S.eq("whole step", h, g)


for p in (2, 3, 4):
    @harness(HARNESSES, f"factor updates[{p}]", points=3, timeout=120)
    def _fu(S, p=p):
        """adding and dropping variables keeps the triangular factor of the Gram matrix of the active variables, in their order"""
        F = S.lower("F", p - 1)
        m = p - 1
        G = arr(S, [[0.] * p] * p)
        G[:m, :m] = F.dot(F.T)
        x = S.array("x", m, sample=(-1, 1))
        G[m, :m] = x
        G[:m, m] = x
        z = arr(S, list(x))
        for i in range(m):
            z[i] = (x[i] - sum(F[i, k] * z[k] for k in range(i))) / F[i, i]
        G[m, m] = (z ** 2).sum() + S.real("e", .1, 1) ** 2
        L = arr(S, [[0.] * p] * p)
        L[:m, :m] = F
        C = S.array("C", 1, .5, 1)
        L2, rest, s, act, ind = LR.lars_add_var(C[0], 0, G, L.copy(), C, np.arange(m), np.ones(m), np.array([m]))
        S.eq("added", L2.dot(L2.T), G)
        S.true("lower", all(bool(L2[i, j] == 0) for i in range(p) for j in range(i + 1, p)))
        S.true("active", list(act) == list(range(p)) and len(ind) == 0 and len(rest) == 0)
        S.eq("sign", s[m], 1.)
        for k in range(m):
            B = S.array("B", (1, p), .1, 1)
            L3, B3, act, s, ind = LR.lars_drop_var(L.copy(), B.copy(), np.arange(m), np.arange(m) * 1., np.array([m]), np.arange(m) == k, 0)
            keep = [i for i in range(m) if i != k]
            q = m - 1
            S.true(f"remaining {k}", list(act) == keep and [int(x) for x in s] == keep and list(ind) == [m, k])
            S.eq(f"dropped {k}", L3[:q, :q].dot(L3[:q, :q].T), G[np.ix_(keep, keep)] if q else L3[:0, :0].dot(L3[:0, :0].T))
            S.eq(f"coefficients {k}", B3[0], arr(S, [0. if j == k else B[0, j] for j in range(p)]))


for key in GRAM:
    for method in ("lasso", "lar"):
        @harness(HARNESSES, f"path[{key};{method}]", points=6, paths=60, timeout=400, tier="thorough")
        def _pt(S, key=key, method=method):
            G = np.array(GRAM[key], float)
            p = len(G)
            c = S.array("c", p, sample=(-2, 2))
            S.assume_lt(c[1] ** 2, c[0] ** 2)
            S.assume_lt(0, c[0])
            if p == 3:
                S.assume_lt(c[2] ** 2, c[0] ** 2)
            XtX = S.const(G)
            lam, act, B = LR._lars(None, None, XtX, c.copy(), XtX.copy(), c.copy(), method, 10 * p, 1, p)
            S.eq("starts at zero", B[0], 0 * c)
            S.eq("first penalty", lam[0], c[0])
            for i in range(len(lam)):
                r = c - XtX.dot(B[i])
                for j in range(p):
                    S.le(f"knot {i}, correlation {j}", np.abs(r[j]), lam[i], tol=1e-8)
                if method == "lasso":
                    for j in range(p):
                        if bool(B[i][j] > 0):
                            S.eq(f"knot {i}, positive {j}", r[j], lam[i])
                        elif bool(B[i][j] < 0):
                            S.eq(f"knot {i}, negative {j}", r[j], -lam[i])
                if i:
                    S.le(f"knot {i}, decreasing", lam[i], lam[i - 1], tol=1e-8)
            S.eq("ends at least squares", XtX.dot(B[-1]), c)


@harness(HARNESSES, "path summaries", points=3)
def _ps(S, n=3, p=2):
    X, y = S.array("X", (n, p), sample=(-1, 1)), S.array("y", n, sample=(-1, 1))
    B = S.array("B", (2, p), .2, 1)
    s2 = S.real("s2", .2, 2)
    B[0] = 0 * B[0]
    d = LR._lars_sumstats(X, y, None, None, B, s2=s2)
    for i in range(2):
        rss = ((y - X.dot(B[i])) ** 2).sum()
        S.eq(f"SSR {i}", d["SSR"].values[i], rss)
        S.eq(f"df {i}", d["df"].values[i], 0. if i == 0 else 1. * p)
        S.eq(f"AIC {i}", (d["AIC"].values[i] - 2 * p * i) * s2, rss)
        S.eq(f"BIC {i}", (d["BIC"].values[i] - np.log(n) * p * i) * s2, rss)
        S.eq(f"Rsq {i}", (1 - d["Rsq"].values[i]) * s2 * n, rss)
    s3 = y - y.sum() / n
    d = LR._lars_sumstats(X, y, None, None, B)
    S.eq("variance of the response", d["Rsq"].values[1] * (s3 ** 2).sum(), (s3 ** 2).sum() - ((y - X.dot(B[1])) ** 2).sum())


@harness(HARNESSES, "path set up", points=3)
def _pu(S, n=3, p=2):
    X, y = S.const(np.array([[1., 3.], [2., -1.], [4., 0.]])), S.array("y", n, sample=(-1, 1))
    for inter in (True, False):
        for st in (True, False):
            for nm in (True, False):
                A, b, XtX, Xty, G, C = LR.handle_lars_setup(X, y, inter, nm, st)
                k = f"{inter} {st} {nm}"
                S.eq(f"Gram {k}", XtX, A.T.dot(A))
                S.eq(f"cross products {k}", Xty, A.T.dot(b))
                S.eq(f"copies {k}", G, XtX)
                S.eq(f"copy {k}", C, Xty)
                S.eq(f"response {k}", b, y - y.sum() / n if inter else y)
                if st:
                    v = A - A.sum(axis=0) / n
                    S.eq(f"scale {k}", (v ** 2).sum(axis=0), 0 * v[0] + (1 if nm else n))
                elif not nm:
                    S.eq(f"design {k}", A, X - X.sum(axis=0) / n if inter else X)
