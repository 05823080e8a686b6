"""Linear mixed models: estimates of effects, their uncertainty and the summaries derived from them."""
import numpy as np
import pandas as pd
import scipy as sp
from symx.harness import harness
from pystatsm.pylmm import re_mod as RM
from pystatsm.pylmm.re_mod import LMM2, _VarCorrReparam
from .c14 import Model, SPEC, RE, sym_re
from .fam import npx, stat, stub

HARNESSES = []
FUNCTIONS = ["pystatsm.pylmm.re_mod.LMM2.{compute_effects,predict,vinvcrossprod,random_effects,random_effects_se,variance_decomposition,r_squared,_dC_dtheta,"
             "approx_degfree,_post_fit,confint,lrt,_fit_with_fixed_tau,profile_confint}", "pystatsm.pylmm.re_mod._VarCorrReparam.{fwd,rvs,jacobian}"]
BOUNDS = ("3 to 4 observations, 2 to 3 levels per grouping factor, up to 2 terms, up to 2 variables per term, up to 2 fixed effects; arbitrary response, variance "
          "parameters and parameter covariance")
ASSUMPTIONS = ["CHOLMOD is modelled as an exact Cholesky factorisation of the permuted matrix", "random effect covariances positive definite, residual variance positive",
               "the numerical Hessian and the optimiser are replaced by arbitrary results"]
NAMES = [n for n in SPEC if n != "crossed with slope"]


def dense(m):
    S = m.S
    Vi, P = m.P(True)
    Z = S.const(np.hstack([p[0] for p in m.parts]))
    q = Z.shape[1]
    G = S._arr(np.zeros((q, q), dtype=object)) if S.sym else np.zeros((q, q))
    o = 0
    for B in m.Gbig():
        G[o:o + B.shape[0], o:o + B.shape[0]] = B
        o += B.shape[0]
    return Vi, P, Z, G


for name in NAMES:
    @harness(HARNESSES, f"effects[{name}]", points=2, eager=True)
    def _ef(S, name=name):
        m = Model(S, name, perm="roll")
        Vi, P, Z, G = dense(m)
        XVX = m.X.T @ Vi @ m.X
        C = np.linalg.inv(XVX)
        b0 = (C @ (m.X.T @ (Vi @ m.y)))[:, 0]
        u0 = (G @ (Z.T @ (P @ m.y)))[:, 0]
        b, Cx, u = m.lmm.compute_effects(m.theta)
        S.eq("generalised least squares estimate", b, b0)
        S.eq("its covariance", Cx, C)
        S.eq("best linear unbiased predictor", u, u0)
        m.lmm.beta, m.lmm.u, m.lmm.theta, m.lmm.XtVinvX_inv = b, u, m.theta, Cx
        S.eq("prediction", m.lmm.predict(), m.X @ b0 + Z @ u0)
        A, B = S.array("A", (m.X.shape[0], 1), sample=(-1, 1)), m.X
        S.eq("inner product", m.lmm.vinvcrossprod(A, B), A.T @ Vi @ B)

    @harness(HARNESSES, f"prediction errors[{name}]", points=2, eager=True)
    def _se(S, name=name):
        m = Model(S, name)
        Vi, P, Z, G = dense(m)
        l = m.lmm
        l.theta = m.theta
        l.XtVinvX_inv = np.linalg.inv(m.X.T @ Vi @ m.X)
        D = G - G @ Z.T @ P @ Z @ G
        for d in np.diag(D):
            S.assume_lt(0.0, d)
        se = l.random_effects_se()
        S.eq("prediction error variance", se * se, np.diag(D))

    @harness(HARNESSES, f"variance components[{name}]", points=2, eager=True)
    def _vd(S, name=name):
        m = Model(S, name)
        l, x = m.lmm, npx(S)
        l.theta, l.beta = m.theta, S.array("b", m.X.shape[1], sample=(-1, 1))
        f = m.X @ l.beta
        n = len(f)
        d = f - f.sum() / n
        v = [(d * d).sum() / n]
        for (Z, A, q), B in zip(m.parts, m.Gbig()):
            Zc = S.const(Z)
            v.append(np.trace(Zc @ B @ Zc.T) / n)
        v.append(m.s2)
        t = sum(v[1:], v[0])
        r = l.r_squared()
        S.eq("fixed effects", r["components"]["v_fe"], v[0])
        for k in range(len(m.parts)):
            S.eq("random effects", r["components"]["v_re"][k], v[1 + k])
            S.eq("share of a term", r["per_term"][k], v[1 + k] / t)
        S.eq("residual", r["components"]["v_resid"], m.s2)
        S.eq("marginal", r["marginal"], v[0] / t)
        S.eq("conditional", r["conditional"], (t - m.s2) / t)

    @harness(HARNESSES, f"covariance derivative[{name}]", points=2, eager=True)
    def _dc(S, name=name):
        m = Model(S, name)
        Vi = np.linalg.inv(m.V())
        VX = Vi @ m.X
        C = np.linalg.inv(m.X.T @ VX)
        J = m.lmm._dC_dtheta(m.theta, C)
        k = 0
        for Z, A, q in m.parts:
            for j in range(q):
                for i in range(j, q):
                    E = np.zeros((q, q))
                    E[i, j] = E[j, i] = 1
                    S.eq("component %d" % k, J[k], C @ VX.T @ S.const(Z @ np.kron(A, E) @ Z.T) @ VX @ C)
                    k += 1
        S.eq("residual component", J[k], C @ VX.T @ VX @ C)
        S.true("one derivative per parameter", len(J) == k + 1)


def fitted(S, q, p, n=9):
    """an LMM2 after fitting, whose estimates are arbitrary"""
    l = object.__new__(LMM2)
    l.beta = S.array("b", p, sample=(-1, 1))
    l.theta = S.array("th", q, sample=(0.5, 1.5))
    l.Hinv_theta, _ = S.posdef("H", q)
    return l


for p, row in ((1, [[1.0]]), (2, [[1.0, -2.0]]), (2, [[0.0, 1.0]])):
    @harness(HARNESSES, f"degrees of freedom[{row}]", points=3)
    def _df(S, p=p, row=row):
        l = fitted(S, 2, p)
        C, _ = S.posdef("C", p)
        Js = [S.symm(f"J{k}", p) for k in range(2)]
        l._factor_C = lambda th: None
        if S.sym:
            Ci = np.linalg.inv(C)
        else:
            Ci = np.linalg.inv(C)
        l.mme = type("M", (), dict(n_fixef=p, X=None))()
        l.vinvcrossprod = lambda A, B, th: Ci
        l._dC_dtheta = lambda th, c: Js
        L = np.array(row)
        a = S.const(L[0])
        v = a @ C @ a
        g = S._arr(np.array([a @ J @ a for J in Js], dtype=object)) if S.sym else np.array([a @ J @ a for J in Js])
        d = g @ l.Hinv_theta @ g
        tiny = np.finfo(float).tiny
        w = v * v / d
        S.assume_lt(tiny, d)
        S.assume_lt(tiny, v)
        S.assume_lt(2.0, w)
        S.assume_lt(1.0, w / (w - 2.0))
        r = l.approx_degfree([L])[0]
        S.eq("squared statistic", r["F"], (a @ l.beta) ** 2 / v)
        S.true("numerator degrees of freedom", r["df1"] == 1)
        S.eq("Satterthwaite degrees of freedom", r["df2"], v * v / d)


def theta_spec(S, rm):
    x = npx(S)
    th, rho, nm = [], [], []
    for k, t in enumerate(rm.gterms):
        q = t.n_revars
        s = [S.real(f"v{k}_{i}", lo=0.1, hi=4) for i in range(q)]
        for j in range(q):
            for i in range(j, q):
                if i == j:
                    th.append(s[i])
                    rho.append(s[i])
                    nm.append(f"v{k}_{i}")
                else:
                    z = S.real(f"z{k}_{i}_{j}", sample=(-1, 1))
                    th.append(x.sqrt(s[i]) * x.sqrt(s[j]) * x.tanh(z))
                    rho.append(z)
                    nm.append(f"z{k}_{i}_{j}")
    e = S.real("s2", lo=0.1, hi=4)
    f = lambda v: S._arr(np.array(v + [e], dtype=object)) if S.sym else np.array(v + [e], dtype=float)
    return f(th), f(rho), nm + ["s2"]


for name in ("slope", "crossed with slope", "unbalanced"):
    @harness(HARNESSES, f"variance and correlation parameters[{name}]", points=3)
    def _vc(S, name=name):
        rm = sym_re(S, RE[name])
        rp = _VarCorrReparam(rm)
        th, tau, nm = theta_spec(S, rm)
        S.eq("variances and covariances", rp.rvs(tau), th)
        J = rp.jacobian(tau)
        for i in range(len(nm)):
            S.deriv("jacobian", J[i], rp.rvs(tau)[i], nm)


@harness(HARNESSES, "variance and correlation parameters, forward", points=3)
def _vf(S):
    rm = sym_re(S, RE["slope"])
    rp = _VarCorrReparam(rm)
    x = npx(S)
    a, b = S.real("a", 0.1, 4), S.real("b", 0.1, 4)
    r = S.real("r", -0.99, 0.99)
    s2 = S.real("s2", 0.1, 4)
    v = [a, r * x.sqrt(a * b), b, s2]
    th = S._arr(np.array(v, dtype=object)) if S.sym else np.array(v)
    tau = rp.fwd(th)
    S.eq("diagonal unchanged", tau[[0, 2, 3]], th[[0, 2, 3]])
    S.eq("correlation recovered", x.tanh(tau[1]), r)


@harness(HARNESSES, "profile objective", points=2, eager=True)
def _po(S):
    m = Model(S, "slope")
    rp = _VarCorrReparam(m.rm)
    th, tau, nm = theta_spec(S, m.rm)
    l = m.lmm
    l.reml = True
    got = {}

    class R:
        pass

    def minimize(f, x0, **k):
        got["f"], got["x0"] = f, x0
        r = R()
        r.x, r.fun = x0, 0.0
        return r
    c = [S.real(f"c{i}", sample=(-1, 1)) for i in range(4)]
    t0 = [S.real(f"t{i}", lo=0.1, hi=4) for i in range(4)]
    arr = lambda v: S._arr(np.array(v, dtype=object)) if S.sym else np.array(v, dtype=float)
    l.loglike = lambda th, reml: (arr(c) * th * th).sum() if reml else 0.0
    l.gradient = lambda th, reml: 2 * arr(c) * th
    for i in range(4):
        with stub(sp.optimize, "minimize", minimize):
            thr, _ = l._fit_with_fixed_tau(rp, tau, i, t0[i], [True, False, True, True])
        free = [k for k in range(4) if k != i]
        w = arr([tau[k] if k != i else t0[i] for k in range(4)])
        S.eq("the fixed parameter stays fixed", thr, rp.rvs(w))
        v, g = got["f"](arr([tau[k] for k in free]))
        S.eq("objective", v, l.loglike(rp.rvs(w), True))
        S.deriv("objective gradient", g, v, [nm[k] for k in free])


for reml in (True, False):
    @harness(HARNESSES, f"fit summary[reml={reml}]", points=3)
    def _fs(S, reml=reml):
        m = Model(S, "slope")
        l, x = m.lmm, npx(S)
        n, p, q = 16, 2, 4
        l.mme = type("M", (), dict(n_obs=n, n_fixef=p, re_mod=m.rm))()
        C, _ = S.posdef("C", p)
        Hi, _ = S.posdef("H", q)
        b, u = S.array("b", p, sample=(-1, 1)), S.array("u", 4, sample=(-1, 1))
        l.compute_effects = lambda th: (b, C, u)
        l.fe_names = ["a", "b"]
        f = S.real("f", sample=(1, 4))
        opt = type("O", (), dict(x=m.theta, fun=f))()
        Hs = np.linalg.inv(Hi) * 2
        with stub(RM, "so_gc_cd", lambda g, th, args=(): Hs):
            l._post_fit(m.theta, opt, reml)
        ne, d = (n - p, q) if reml else (n, p + q)
        ll = f + ne * x.log(2 * np.pi)
        S.eq("-2 log likelihood with constant", l.ll, ll)
        S.eq("log likelihood", l.llf, -ll / 2)
        S.eq("AIC", l.AIC, ll + 2 * d)
        S.eq("AICC", l.AICC, ll + 2 * d * ne / (ne - d - 1))
        S.eq("BIC", l.BIC, ll + d * np.log(ne))
        S.eq("CAIC", l.CAIC, ll + d * (np.log(ne) + 1))
        S.eq("covariance of the parameters", l.se_theta ** 2, np.diag(Hi))
        S.eq("covariance of the coefficients", l.se_beta ** 2, np.diag(C))
        r = l.re_corrs[0]
        G = m.G[0]
        S.eq("correlation", r[0, 1] * x.sqrt(G[0, 0]) * x.sqrt(G[1, 1]), G[0, 1])
        S.eq("unit diagonal", np.diag(r), 1.0)
        S.eq("covariance", l.re_covs[0], G)
        tt = np.asarray(l.res["t"]) if not S.sym else l.res["t"].values
        S.eq("ratio", S._arr(np.array(list(tt), dtype=object)) * l.se_params if S.sym else tt * l.se_params, l.params)
        pv = list(l.res["p"].values)
        for i in range(p + q):
            S.eq("p value", pv[i], stat(S, "t", "sf", abs(l.params[i] / l.se_params[i]), n - p))


@harness(HARNESSES, "likelihood ratio test", points=3)
def _lr(S):
    a, b = object.__new__(LMM2), object.__new__(LMM2)
    a.theta, b.theta = np.zeros(4), np.zeros(2)
    a.ll, b.ll = S.real("a", sample=(1, 2)), S.real("b", sample=(2, 4))
    r = a.lrt(b)
    S.eq("statistic", r["stat"].values[0], b.ll - a.ll)
    S.true("degrees of freedom", r["df"].values[0] == 2)
    S.eq("p value", r["p"].values[0], stat(S, "chi2", "sf", b.ll - a.ll, 2))
