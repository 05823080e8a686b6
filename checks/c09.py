"""Inference machinery shared by the regression models: tests, constraints, profile likelihood, intervals, data container."""
import numpy as np
import scipy as sp
import pandas as pd
from types import SimpleNamespace
from symx.harness import harness
from pystatsm.pyglm2 import likelihood_model as LM, regression_model as RM
from pystatsm.pyglm import linear_model as LG
from pystatsm.utilities import output, optimizer_utils as OU
from .fam import npx, stat, rec, stub

HARNESSES = []
FUNCTIONS = ["pystatsm.pyglm2.likelihood_model.LikelihoodModel.{_get_information,_get_pseudo_rsquared,_parameter_inference,_make_constraints,"
             "_profile_loglike_constrained,_profile_loglike_restricted,_solve_interval,_lr_test,_wald_test,_score_test}",
             "pystatsm.pyglm2.regression_model.{ModelData,RegressionMixin}",
             "pystatsm.pyglm.linear_model.{LikelihoodModel,ModelData,RegressionMixin} (legacy copies)",
             "pystatsm.utilities.output.{get_param_table,compute_bias_corrected_bootstrap_intervals}",
             "pystatsm.utilities.optimizer_utils.{ZeroConstraint,MemoizeJac,MemoizeGradHess,process_optimizer_kwargs}"]
BOUNDS = ("arbitrary real likelihood values, parameters (3 or 4), scores, symmetric positive definite matrices and constraint matrices (1 or 2 rows); arbitrary smooth "
          "likelihood (uninterpreted) for the profile functions, the optimiser replaced by an arbitrary answer; up to 5 observations; every missingness pattern of 3 rows")
BOTH = [("", LM.LikelihoodModel, RM.RegressionMixin, RM.ModelData, LM, RM), ("legacy.", LG.LikelihoodModel, LG.RegressionMixin, LG.ModelData, LG, LG)]


def each(name, **kw):
    def dec(f):
        for pre, L, R, D, lmod, rmod in BOTH:
            def body(S, L=L, R=R, D=D, lmod=lmod, rmod=rmod):
                return f(S, SimpleNamespace(L=L, R=R, D=D, lmod=lmod, rmod=rmod, legacy=L is LG.LikelihoodModel))
            harness(HARNESSES, pre + name, **kw)(body)
        return f
    return dec


@each("information", points=2)
def h_info(S, K):
    ll = S.real("ll", None, None, (1, 9))
    ln = S.real("ln", None, None, (9.5, 20))
    S.assume_lt(0, ll)
    S.assume_lt(ll, ln)
    k, n = S.real("k", 0, None, (1, 3)), S.real("n", 0, None, (10, 20))
    S.assume_lt(k + 1, n)
    E = npx(S)
    a = K.L._get_information(ll, k, n)
    S.eq("AIC", a[0], 2 * ll + 2 * k)
    S.eq("corrected AIC", a[1], 2 * ll + 2 * k + 2 * k * (k + 1) / (n - k - 1))
    S.eq("BIC", a[2], 2 * ll + k * E.log(n))
    S.eq("consistent AIC", a[3], 2 * ll + k * (E.log(n) + 1))
    r = K.L._get_pseudo_rsquared(ll, ln, k, n)
    lr = 2 * (ln - ll)
    cs = 1 - E.exp(-lr / n)
    S.eq("Cox-Snell", r[0], cs)
    S.eq("Nagelkerke", r[1] * (1 - E.exp(-2 * ln / n)), cs)
    S.eq("McFadden", r[2], 1 - ll / ln)
    S.eq("adjusted McFadden", r[3], 1 - (-ll - k) / (-ln))
    S.eq("likelihood ratio", r[-1], lr)
    if not K.legacy:
        S.eq("Estrella", r[4], 1 - E.exp(E.log(ll / ln) * (2 * ln / n)))
        S.eq("adjusted Estrella", r[5], 1 - E.exp(E.log((ll + k) / ln) * (2 * ln / n)))
        S.eq("Aldrich-Nelson", r[6], lr / (lr + n))
        S.eq("Veall-Zimmermann", r[7], lr / (lr + n) * (2 * ln + n) / (2 * ln))


@each("lr-test", points=2)
def h_lr(S, K):
    a, b = S.real("a", None, None, (-3, 0)), S.real("b", None, None, (-9, -4))
    for df in (1, 3):
        for df_ in (True, False):
            t = K.L._lr_test(a, b, df, return_dataframe=df_)
            g = (lambda k: t[k].iloc[0]) if df_ else (lambda k: t[k])
            S.eq("statistic", g("Stat"), 2 * (a - b))
            S.eq("degrees of freedom", g("df"), df)
            S.eq("p-value", g("P Value"), stat(S, "chi2", "sf", 2 * (a - b), df), tol=1e-7)


def _wald(S, K, m):
    p = 3
    th, t0 = S.array("t", p, sample=(-1, 1)), S.array("s", p, sample=(-1, 1))
    A, _ = S.posdef("A", p)
    B, _ = S.posdef("B", p)
    if m == 1:
        C = S.array("C", (1, p), sample=(-1, 1))
    else:
        C = S.const(np.eye(p)[[2, 0]])
    V = A @ B @ A
    Cm = C @ V @ C.T
    det = Cm[0, 0] if m == 1 else Cm[0, 0] * Cm[1, 1] - Cm[0, 1] * Cm[1, 0]
    S.assume_lt(0.01, det)
    d = C @ (th - t0)
    adj = [[1]] if m == 1 else [[Cm[1, 1], -Cm[0, 1]], [-Cm[1, 0], Cm[0, 0]]]
    ref = sum(d[i] * adj[i][j] * d[j] for i in range(m) for j in range(m))
    for df_ in (True, False):
        t = K.L._wald_test(th, t0, C, A, B, return_dataframe=df_)
        g = (lambda k: t[k].iloc[0]) if df_ else (lambda k: t[k])
        S.eq("Wald statistic", g("Stat") * det, ref)
        S.eq("Wald degrees of freedom", g("df"), m)
        S.eq("Wald p-value", g("P Value"), stat(S, "chi2", "sf", g("Stat"), m), tol=1e-7)
    gr = S.array("g", p, sample=(-1, 1))
    d = C @ A @ gr
    ref = sum(d[i] * adj[i][j] * d[j] for i in range(m) for j in range(m))
    for df_ in (True, False):
        t = K.L._score_test(gr, C, A, B, return_dataframe=df_)
        g = (lambda k: t[k].iloc[0]) if df_ else (lambda k: t[k])
        S.eq("score statistic", g("Stat") * det, ref)
        S.eq("score degrees of freedom", g("df"), m)
        S.eq("score p-value", g("P Value"), stat(S, "chi2", "sf", g("Stat"), m), tol=1e-7)


@each("wald-score.1", points=2)
def h_w1(S, K):
    _wald(S, K, 1)


@each("wald-score.2", points=2)
def h_w2(S, K):
    _wald(S, K, 2)


@each("constraints", points=2)
def h_con(S, K):
    x, v = S.array("x", 4, sample=(-1, 1)), S.array("v", 2, sample=(-1, 1))
    for idx in (np.array([2, 0]), [1, 3], np.array([False, True, True, False])):
        ii = np.where(idx)[0] if np.asarray(idx).dtype == bool else idx
        c = K.L._make_constraints(idx, v)
        S.true("one constraint per fixed parameter", len(c) == 2 and all(q["type"] == "eq" for q in c))
        S.eq("constraint residuals", [q["fun"](x) for q in c], [x[ii[0]] - v[0], x[ii[1]] - v[1]])


class _Min:
    """stands for scipy.optimize.minimize: records the problem, answers with an arbitrary vector"""
    def __init__(self, xs):
        self.xs, self.calls = list(xs), []

    def __call__(self, fun=None, x0=None, **kw):
        self.calls.append(dict(kw, fun=fun, x0=np.array(x0)))
        return SimpleNamespace(x=self.xs.pop(0), fun=None)


@each("profile", points=2)
def h_prof(S, K):
    """objective: an arbitrary function through its value, gradient and Hessian at the queried points"""
    p = 4
    Q, q0 = S.symm("Q", p), S.array("q", p, sample=(-1, 1))
    f = lambda x: x @ Q @ x / 2 + q0 @ x + x[0] * x[1] * x[2]
    g = lambda x: Q @ x + q0 + np.array([x[1] * x[2], x[0] * x[2], x[0] * x[1], 0 * x[0]])
    H = lambda x: Q + np.array([[0 * x[0], x[2], x[1], 0 * x[0]], [x[2], 0 * x[0], x[0], 0 * x[0]], [x[1], x[0], 0 * x[0], 0 * x[0]], [0 * x[0]] * 4])
    th, par = S.array("t", p, sample=(-1, 1)), S.array("v", 2, sample=(-1, 1))
    z, fr, y = S.array("z", p, sample=(-1, 1)), S.array("u", 2, sample=(-1, 1)), S.array("y", 2, sample=(-1, 1))
    ind, free = np.array([3, 1]), [0, 2]
    mm = _Min([z, fr, z, fr])
    with stub(sp.optimize, "minimize", mm):
        c = K.L._profile_loglike_constrained(par, ind, th, f, g, H)
        r = K.L._profile_loglike_restricted(par, ind, th, f, g, H)
        o1 = K.L._profile_loglike_constrained(par[0], 2, th, f, g, H, return_info=True)
        o2 = K.L._profile_loglike_restricted(par, ind, th, f, g, H, return_info=True)
    S.eq("constrained profile is the objective at the optimum", c, f(z))
    a = mm.calls[0]
    S.eq("constraints hold exactly where the fixed parameters take their values", [q["fun"](z) for q in a["constraints"]], [z[3] - par[0], z[1] - par[1]])
    x0 = [th[0], par[1], th[2], par[0]]
    S.eq("start satisfies the constraints", a["x0"], x0)
    S.eq("objective, gradient and Hessian", [a["fun"](z), *a["jac"](z), *a["hess"](z).ravel()], [f(z), *g(z), *H(z).ravel()])
    full = np.array([fr[0], par[1], fr[1], par[0]])
    S.eq("restricted profile is the objective with the fixed values filled in", r, f(full))
    b = mm.calls[1]
    S.eq("restricted start", b["x0"], [th[0], th[2]])
    fy = np.array([y[0], par[1], y[1], par[0]])
    S.eq("restricted objective", b["fun"](y), f(fy))
    S.eq("restricted gradient", b["jac"](y), g(fy)[free])
    S.eq("restricted Hessian", b["hess"](y), H(fy)[free][:, free])
    S.eq("parameters are not modified", th, S.array("t", p, sample=(-1, 1)))
    S.eq("optimiser result is returned on request", o1.x, z)
    S.eq("optimiser result is returned on request", o2.x, fr)
    S.eq("scalar constraint", [q["fun"](z) for q in mm.calls[2]["constraints"]], [z[2] - par[0]])


@each("interval", points=2, paths=900)
def h_int(S, K):
    """profile negative log-likelihood: an arbitrary function with its level exceeded within 3 standard errors on both sides"""
    par, se, l0 = S.real("p", None, None, (-1, 1)), S.real("s", 0, None, (0.2, 2)), S.real("l", None, None, (1, 2))
    F = S.func("prof", lambda k, x: {0: x * x, 1: 2 * x, 2: 2.0}.get(k, 0.0))
    f = lambda x: F(0, x)
    S.assume_lt(l0, f(par - 3 * se))
    S.assume_lt(l0, f(par + 3 * se))
    S.assume_lt(f(par), l0)
    calls, roots = [], [S.real("r0", None, None, (-9, -8)), S.real("r1", None, None, (8, 9))]
    def root(f, args=(), method=None, bracket=None, **k):
        calls.append((f, bracket))
        return SimpleNamespace(root=roots[len(calls) - 1])
    with stub(sp.optimize, "root_scalar", root):
        lo, hi = K.L._solve_interval(f, par, se, l0)
    S.eq("limits are the roots found", [lo, hi], roots)
    x = S.real("x", None, None, (-1, 1))
    for fn, br in calls:
        S.eq("limits solve profile = level", fn(x), f(x) - l0)
    (f0, b0), (f1, b1) = calls
    S.eq("left bracket ends at the estimate", b0[1], par)
    S.eq("right bracket starts at the estimate", b1[0], par)
    S.lt("left bracket lies below the estimate", b0[0], par)
    S.lt("right bracket lies above the estimate", par, b1[1])
    S.lt("the level is crossed inside the left bracket", l0, f(b0[0]))
    S.lt("the level is crossed inside the right bracket", l0, f(b1[1]))


@each("interval.lstq", points=2)
def h_lst(S, K):
    par, se, l0 = S.real("p", None, None, (-1, 1)), S.real("s", 0, None, (0.2, 2)), S.real("l", None, None, (1, 2))
    F = S.func("prof", lambda k, x: {0: x * x, 1: 2 * x, 2: 2.0}.get(k, 0.0))
    f = lambda x: F(0, x)
    z, x = S.array("z", 2, sample=(-1, 1)), S.real("x", None, None, (-1, 1))
    cs = []
    with stub(sp.optimize, "minimize", lambda fun, x0=None, **k: (cs.append((fun, x0)), SimpleNamespace(x=z[len(cs) - 1]))[1]):
        lo, hi = K.L._solve_interval(f, par, se, l0, method="lstq")
    S.eq("limits are the minimisers", [lo, hi], z)
    for fn, _ in cs:
        S.eq("squared distance to the level", fn(x), (f(x) - l0)**2)
    S.eq("starts on either side", [c[1] for c in cs], [par - 2 * se, par + 2 * se])


@each("sandwich", points=2)
def h_sand(S, K):
    n, p = 4, 2
    g, h = S.array("g", n, sample=(-1, 1)), S.array("h", n, 0, 1, (0.1, 0.7))
    X = S.array("X", (n, p), sample=(-1, 1))

    def ref(f):
        return [[sum(g[i] * g[i] * f(i) * X[i, a] * X[i, b] for i in range(n)) for b in range(p)] for a in range(p)]
    S.eq("HC0", K.R.sandwich_cov(g, X), ref(lambda i: 1))
    S.eq("HC1", K.R.sandwich_cov(g, X, kind="HC1"), ref(lambda i: 2))
    S.eq("HC2", K.R.sandwich_cov(g, X, h, "HC2"), ref(lambda i: 1 / (1 - h[i])))
    S.eq("HC3", K.R.sandwich_cov(g, X, h, "HC3"), ref(lambda i: 1 / (1 - h[i])**2))


@each("sandwich.hc4", points=2, paths=40)
def h_hc4(S, K):
    n = 5
    E = npx(S)
    g = S.array("g", n, sample=(-1, 1))
    h = S.array("h", n, 0, 1, (0.1, 0.7))
    X = S.const(np.ones((n, 1)))
    mean = sum(h) / n
    out = K.R.sandwich_cov(g, X, h, "HC4")
    tot = 0
    for i in range(n):
        d = h[i] / mean
        tot = tot + g[i] * g[i] * (1 / (1 - h[i])**4 if bool(d >= 4) else E.exp(-d * E.log(1 - h[i])))
    S.eq("HC4", out[0, 0], tot)


@each("leverage", points=2)
def h_lev(S, K):
    n = 3
    X = S.array("X", (n, 2), sample=(-1, 1))
    G = X.T @ X
    det = G[0, 0] * G[1, 1] - G[0, 1] * G[0, 1]
    S.assume_lt(0, det)
    S.assume_lt(0, G[0, 0])
    ref = [X[i, 0] * X[i, 0] * G[1, 1] - 2 * X[i, 0] * X[i, 1] * G[0, 1] + X[i, 1] * X[i, 1] * G[0, 0] for i in range(n)]
    S.eq("leverage by QR", K.R._compute_leverage_qr(X) * det, ref)
    S.eq("leverage by Cholesky", K.R._compute_leverage_cholesky(X) * det, ref)
    y, f = S.array("y", n, sample=(-2, 2)), S.array("f", n, sample=(-2, 2))
    yb = sum(y) / n
    S.assume_lt(0, sum((v - yb)**2 for v in y))
    S.eq("R squared", (1 - K.R._rsquared(y, f)) * sum((v - yb)**2 for v in y), sum((a - b)**2 for a, b in zip(y, f)))


def _dinfo(cols, slices):
    return SimpleNamespace(term_names=list(slices), term_name_slices={k: slice(*v) for k, v in slices.items()}, column_names=cols)


@harness(HARNESSES, "term-constraints", points=1)
def h_term(S):
    m = object.__new__(RM.RegressionMixin)
    th = S.array("t", 8, sample=(-1, 1))
    d1 = _dinfo(["Intercept", "a1", "a2", "b"], {"Intercept": (0, 1), "a": (1, 3), "b": (3, 4)})
    d2 = _dinfo(["Intercept", "z"], {"Intercept": (0, 1), "z": (1, 2)})
    m.n_params, m.x_design_info, m.design_info = 8, d1, [d1, d2, None]
    for off in (0, 2):
        m.make_termwise_constraint_matrices(offset=off)
        S.true("every term except the intercept", list(m.constraint_matrices) == ["a", "b"])
        S.eq("term a picks its coefficients", m.constraint_matrices["a"] @ th, th[1 + off:3 + off])
        S.eq("term b picks its coefficients", m.constraint_matrices["b"] @ th, th[3 + off:4 + off])
        m.make_termwise_constraint_matrices2(offset=off)
        S.true("every design", list(m.constraint_matrices) == [0, 1] and list(m.constraint_matrices[0]) == ["a", "b"] and list(m.constraint_matrices[1]) == ["z"])
        S.eq("first design", m.constraint_matrices[0]["a"] @ th, th[1 + off:3 + off])
        S.eq("first design", m.constraint_matrices[0]["b"] @ th, th[3 + off:4 + off])
        S.eq("second design follows the first", m.constraint_matrices[1]["z"] @ th, th[5 + off:6 + off])
    for zi in (np.array([2, 0]), np.array([1])):
        z = OU.ZeroConstraint(3, zi)
        S.eq("zero constraint", z.func(th[:3]), th[zi])
        S.eq("zero constraint derivative", z.grad(th[:3]) @ th[:3], th[zi])
        c = z.make_constraint()
        S.eq("zero bounds", np.concatenate([c.lb, c.ub]), np.zeros(2 * len(zi)))
        S.eq("zero constraint function", c.fun(th[:3]), th[zi])
        S.eq("zero constraint jacobian", c.jac(th[:3]), z.jac)


def _lltests(two, scale, off):
    @harness(HARNESSES, "term-tests.%d.%d.%d" % (two, scale, off), points=2)
    def h(S):
        class M(RM.RegressionMixin, LM.LikelihoodModel):
            _loglike = _gradient = _hessian = _fit = None
        m = object.__new__(M)
        d1 = _dinfo(["Intercept", "a"], {"Intercept": (0, 1), "a": (1, 2)})
        d2 = _dinfo(["z"], {"z": (0, 1)})
        p = 3 + off + scale
        m.n_params, m.x_design_info, m.design_info = p, d1, ([d1, d2, None] if two else [d1, None])
        th = S.array("t", p, sample=(-1, 1))
        names = ["a", "z"] if two else ["a"]
        xs = [S.array("x" + k, p, sample=(-1, 1)) for k in names]
        A = {}
        recs = []

        def hess(x):
            i = ([1 + k for k, v in enumerate(xs) if v is x] + [0])[0]
            recs.append(i)
            return np.eye(p) * (2 + 2 * i)
        gi = {id(th): S.array("g", (4, p), sample=(-1, 1))}
        for k, v in zip(names, xs):
            gi[id(v)] = S.array("g" + k, (4, p), sample=(-1, 1))

        def grad_i(x):
            for v in xs:
                if x is v:
                    return gi[id(v)]
            return gi[id(th)]
        out = dict(w=[], s=[])

        m._wald_test = rec(m._wald_test, out["w"], lambda: pd.DataFrame({"Stat": 1.0}, index=["Wald Test"]))
        m._score_test = rec(m._score_test, out["s"], lambda: pd.DataFrame({"Stat": 1.0}, index=["Score Test"]))
        mm = _Min(xs)
        with stub(sp.optimize, "minimize", mm):
            (m.ll_tests2 if two else m.ll_tests)(ll="F", grad="G", hess=hess, grad_i=grad_i, params=th, scale=bool(scale), offset=off)
        pos = [1 + off, 2 + off][:len(names)]
        for k in range(len(names)):
            c = mm.calls[k]
            S.true("the likelihood is optimised", c["fun"] == "F" and c["jac"] == "G" and c["hess"] is hess)
            S.eq("the tested coefficient is constrained to zero", c["constraints"][0].fun(th), [th[pos[k]]])
            S.eq("zero bounds", [c["constraints"][0].lb, c["constraints"][0].ub], np.zeros((2, 1)))
            x0 = th.copy()
            x0[pos[k]] = 0
            S.eq("start", c["x0"], x0)
            e = np.eye(p)[[pos[k]]]
            t, t0, C, Ai, B, _ = out["w"][k]
            S.eq("Wald: estimates", np.array([t, t0]), np.array([th, xs[k]]))
            S.eq("Wald: constraint derivative", C, e)
            S.eq("Wald: inverse Hessian at the estimate", Ai, np.eye(p) / 2)
            G = gi[id(th)]
            S.eq("Wald: score covariance at the estimate", B, G.T @ G)
            g, C, Ai, B, _ = out["s"][k]
            G = gi[id(xs[k])]
            S.eq("score: gradient under the constraint", g, [sum(G[:, j]) for j in range(p)])
            S.eq("score: constraint derivative", C, e)
            S.eq("score: inverse Hessian under the constraint", Ai, np.eye(p) / (4 + 2 * k))
            S.eq("score: covariance under the constraint", B, G.T @ G)
        S.true("tests are labelled by term", all(any(n in str(i[0]) for i in m.wald_tests.index) for n in names))


_lltests(0, 0, 0)
_lltests(0, 1, 1)
_lltests(1, 0, 0)
_lltests(1, 1, 1)


@harness(HARNESSES, "param-table", points=2)
def h_tab(S):
    b, se = S.array("b", 2, sample=(-2, 2)), S.array("s", 2, 0, None, (0.3, 2))
    for df, alpha, pc in ((None, 0.05, 2.0), (7, 0.05, 2.0), (7, 0.125, 1.0)):
        t = output.get_param_table(b, se, df, index=["u", "v"], alpha=alpha, p_const=pc)
        nu = np.inf if df is None else df
        for i in range(2):
            r = t.iloc[i].to_numpy()
            S.eq("estimate and standard error", r[:2], [b[i], se[i]])
            S.eq("t statistic", r[2] * se[i], b[i])
            ab = abs(b[i] / se[i])
            S.eq("p-value", r[3], stat(S, "t", "sf", ab, nu) * pc, tol=1e-7)
            lo, hi = stat(S, "t", "ppf", alpha / 2, nu), stat(S, "t", "ppf", 1 - alpha / 2, nu)
            S.eq("lower limit", r[4], b[i] + lo * se[i], tol=1e-7)
            S.eq("upper limit", r[5], b[i] + hi * se[i], tol=1e-7)
        S.true("labels", list(t.index) == ["u", "v"] and list(t.columns)[:4] == ["parameter", "SE", "t", "p"]
               and list(t.columns)[4:] == ["LowerCI%g" % (100 - 100 * alpha), "UpperCI%g" % (100 - 100 * alpha)])


@harness(HARNESSES, "bca", points=2, paths=80)
def h_bca(S):
    E = npx(S)
    th = S.array("t", 1, sample=(-0.5, 0.5))
    J = S.array("j", (3, 1), sample=(-1, 1))
    J[1, 0], J[2, 0] = S.const(np.array([0.5, -0.25]))
    Bt = S.array("b", (4, 1), sample=(-1, 1))
    jm = sum(J[:, 0]) / 3
    d = [jm - v for v in J[:, 0]]
    s2, s3 = sum(v * v for v in d), sum(v**3 for v in d)
    S.assume_lt(0.01, s2)
    for v in Bt[:, 0]:
        S.assume_lt(0.001, (v - th[0])**2)
    below = sum(1 if bool(v < th[0]) else 0 for v in Bt[:, 0])
    if below in (0, 4):
        return
    z0 = sp.special.ndtri(below / 4) if below != 2 else 0
    acc = s3 / (6 * E.sqrt(s2) * s2)
    cs = [z0 + sp.special.ndtri(v) for v in (0.0625, 0.9375)]
    for v in cs:
        S.assume_ne(1 - acc * v, 0)
    log = []
    with stub(np, "quantile", lambda a, q, **k: (log.append((a, q)), np.zeros(len(q)))[1]):
        output.compute_bias_corrected_bootstrap_intervals(th, J, Bt, alpha=0.125)
    a, q = log[0]
    S.eq("quantiles of the bootstrap samples", a, Bt[:, 0])
    for k, c in enumerate(cs):
        S.eq("BCa level", q[k], E.ndtr(z0 + c / (1 - acc * c)))


@each("model-data", points=1)
def h_data(S, K):
    n = 3
    A, y, w = S.array("A", (n, 2), sample=(-1, 1)), S.array("y", n, sample=(-1, 1)), S.array("w", n, 0, None, (0.5, 2))
    dfr = pd.DataFrame(A, index=[10, 11, 12], columns=["u", "v"])
    ser = pd.Series(y, index=[10, 11, 12], name="resp")
    for X, Y in ((A, y), (dfr, ser), (dfr, y), (A, ser), (A, y.reshape(-1, 1)), (dfr, pd.DataFrame(y.reshape(-1, 1), columns=["resp"], index=dfr.index))):
        for wt in (None, w):
            m = object.__new__(K.R)
            K.R.__init__(m, X=X, y=Y, weights=wt)
            d = m.model_data
            t = tuple(d)
            S.true("design, response, weights", len(t) == 3 and len(d) == 3 and d.has_weights)
            S.eq("design", t[0], A)
            S.eq("response", t[1], y)
            S.eq("weights", t[2], np.ones(n) if wt is None else w)
            s = d[np.array([2, 0])]
            S.eq("selected rows", [*s[0].ravel(), *s[1], *s[2]], [*A[[2, 0]].ravel(), *y[[2, 0]], *(t[2][[2, 0]])])
            S.true("one index and one column list per array", len(d.indexes) == 2 and len(d.columns) == 2 and len(d.design_info) == 2)
            S.true("column names", list(d.columns[0]) == (["u", "v"] if X is dfr else ["x0", "x1"]))
            S.true("indexes", list(d.indexes[0]) == ([10, 11, 12] if X is dfr else [0, 1, 2]))


def _missing():
    import itertools
    @harness(HARNESSES, "missing", points=1)
    def h(S):
        n = 3
        base, yb, w = S.array("A", (n, 2), sample=(-1, 1)), S.array("y", n, sample=(-1, 1)), S.array("w", n, 0, None, (0.5, 2))
        for pat in itertools.product(range(3), repeat=n):
            # 0: complete, 1: missing in the design, 2: missing in the response
            for flat in (True, False):
                A, y = base.copy(), yb.copy()
                for i, k in enumerate(pat):
                    if k == 1:
                        A[i, i % 2] = np.nan
                    elif k == 2:
                        y[i] = np.nan
                d = RM.ModelData(A, y if flat else y.reshape(-1, 1))
                d.add_weights(w)
                d.drop_missing()
                keep = [i for i, k in enumerate(pat) if k == 0]
                t = tuple(d)
                S.eq("complete rows are kept", np.concatenate([t[0].ravel(), np.asarray(t[1]).ravel(), t[2]]), np.concatenate([base[keep].ravel(), yb[keep], w[keep]]))
                S.true("indexes follow", list(d.indexes[0]) == keep)


_missing()


@harness(HARNESSES, "memoize", points=2)
def h_memo(S):
    calls = []
    x, z = S.array("x", 2, sample=(-1, 1)), S.array("z", 2, sample=(2, 3))
    S.assume_lt(x[0], z[0])

    def fun(v):
        calls.append(1)
        return v @ v, 2 * v, np.eye(2) * 2
    M = OU.MemoizeGradHess(fun)
    for v in (x, z, x):
        S.eq("value", M(v), v @ v)
        S.eq("gradient", M.derivative(v), 2 * v)
        S.eq("Hessian", M.hessian(v), np.eye(2) * 2)
    S.eq("each point is evaluated once", len(calls), 3)
    M = OU.MemoizeJac(lambda v: (v @ v, 2 * v))
    v = x.copy()
    S.eq("value", M(v), x @ x)
    v[0] = z[0]
    S.eq("in-place change is seen", M(v), v @ v)
    S.eq("gradient after in-place change", M.derivative(v), 2 * v)
