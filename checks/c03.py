"""Score, curvature and working weights of the exponential families, for an arbitrary link."""
import numpy as np
from symx.harness import harness
from .fam import NAMES, ADAPT, MUDOM, draw, npx

HARNESSES = []
FUNCTIONS = ["pystatsm.%s.families.ExponentialFamily.{gw,hw,get_ghw,get_a,get_g,get_w,get_ehw,da_dmu,d2a_dmu2,dw_deta,d2w_deta2}" % p
             for p in ("pyglm2", "pyglm")] + ["pystatsm.%s.families.%s.{dtau,d2tau}" % (p, n) for p in ("pyglm2", "pyglm") for n in NAMES[:4]]
BOUNDS = ("arbitrary strictly increasing smooth link (uninterpreted g with derivatives up to order four), every response, mean, positive "
          "weight, scale and dispersion; vectors of length 1 and 2")


def _mk(pk, name):
    A = ADAPT[pk]
    pre = "%s.%s." % (pk, name)

    @harness(HARNESSES, pre + "gradient", points=3)
    def h(S):
        y, mu, w, phi, k = draw(S, name, 1)
        ph = 1.0 if name == "NegativeBinomial" else phi
        a = A(S, name, mu)
        g1 = a.f.dlink(mu)
        gw = a.call("gw", y, mu, w, ph, k)
        hw = a.call("hw", y, mu, w, ph, k)
        # d/deta = (1/g') d/dmu
        S.deriv("derivative of the negative log-likelihood in the linear predictor", gw * g1, a.ll(y, mu, w, ph, k), "mu")
        S.deriv("second derivative of the negative log-likelihood in the linear predictor", hw * g1, gw, "mu")
        g2, h2 = a.call("get_ghw", y, mu, w, ph, k)
        S.eq("joint gradient", g2, gw)
        S.eq("joint curvature", h2, hw)

    @harness(HARNESSES, pre + "vector", points=2)
    def h(S):
        y, mu, w, phi, k = draw(S, name, 2)
        a = A(S, name, mu)
        for m in ("gw", "hw", "get_ehw"):
            v = a.call(m, y, mu, w, phi, k)
            for i in range(2):
                b = A(S, name, mu[i:i + 1])
                S.eq("%s acts observation by observation" % m, v[i], b.call(m, y[i:i + 1], mu[i:i + 1], w[i:i + 1], phi, k)[0])

    @harness(HARNESSES, pre + "expected", points=3)
    def h(S):
        y, mu, w, phi, k = draw(S, name, 1)
        a = A(S, name, mu)
        S.eq("expected curvature is the curvature at the mean", a.call("get_ehw", y, mu, w, phi, k), a.call("hw", mu, mu, w, phi, k))

    @harness(HARNESSES, pre + "working", points=3)
    def h(S):
        y, mu, w, phi, k = draw(S, name, 1)
        a = A(S, name, mu)
        g1 = a.f.dlink(mu)
        one = S.const(np.ones(1))
        al = a.acall("get_a", y, mu, k)
        wt = a.acall("get_w", y, mu, k)
        S.eq("working weight at unit prior weight and scale is the curvature", wt, a.call("hw", y, mu, one, 1.0, k))
        S.eq("curvature factor times expected curvature is the curvature", al * a.call("hw", mu, mu, w, phi, k), a.call("hw", y, mu, w, phi, k))
        # working response: w * z = -score, with z = (y - mu) * g
        S.eq("working weight times working residual is minus the gradient", wt * (y - mu) * a.acall("get_g", y, mu, k),
             -a.call("gw", y, mu, one, 1.0, k))
        S.deriv("first derivative of the curvature factor", a.acall("da_dmu", y, mu, k), al, "mu")
        S.deriv("second derivative of the curvature factor", a.acall("d2a_dmu2", y, mu, k), a.acall("da_dmu", y, mu, k), "mu")

    @harness(HARNESSES, pre + "weights", points=3)
    def h(S):
        y, mu, w, phi, k = draw(S, name, 1)
        a = A(S, name, mu)
        g1 = a.f.dlink(mu)
        d1 = a.acall("dw_deta", y, mu, k)
        S.deriv("first derivative of the working weight in the linear predictor", d1 * g1, a.acall("get_w", y, mu, k), "mu")
        S.deriv("second derivative of the working weight in the linear predictor", a.acall("d2w_deta2", y, mu, k) * g1, d1, "mu")

    if name in ("Gaussian", "InverseGaussian", "Gamma", "NegativeBinomial"):
        @harness(HARNESSES, pre + "scale", points=3)
        def h(S):
            X = npx(S)
            y, mu, w, phi, k = draw(S, name, 2)
            t = S.real("t", None, None, (-1, 1))
            a = A(S, name, link=None)
            e = X.exp(t)
            nb = name == "NegativeBinomial"
            ll = a.ll(y, mu, w, 1.0 if nb else e, e if nb else 1.0)
            d1 = a.tau("dtau", t, y, mu, w)
            S.deriv("derivative of the negative log-likelihood in the log scale", d1, ll, "t")
            S.deriv("second derivative of the negative log-likelihood in the log scale", a.tau("d2tau", t, y, mu, w), d1, "t")
            S.eq("summed derivative", a.tau("dtau", t, y, mu, w, True), d1[0] + d1[1])
            d2 = a.tau("d2tau", t, y, mu, w)
            S.eq("summed second derivative", a.tau("d2tau", t, y, mu, w, True), d2[0] + d2[1])


for _p in ("pyglm2", "pyglm"):
    for _n in NAMES:
        _mk(_p, _n)
