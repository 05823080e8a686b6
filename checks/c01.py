"""Link functions of both GLM packages: round trip and derivatives."""
import numpy as np
from symx.harness import harness
from pystatsm.pyglm2 import links as L2
from pystatsm.pyglm import links as L1

HARNESSES = []
FUNCTIONS = ["pystatsm.%s.links.%s.{inv_link,dinv_link,d2inv_link,link,dlink,d2link,d3link,d4link}" % (p, n)
             for p in ("pyglm2", "pyglm") for n in
             ("IdentityLink", "LogitLink", "ProbitLink", "LogLink", "ReciprocalLink", "CloglogLink", "PowerLink",
              "LogComplementLink", "NegativeBinomialLink")]
BOUNDS = ("every real linear predictor / mean in the link's open domain; power link: every real exponent other than 0 and exponent 0 "
          "separately; negative-binomial link: every positive dispersion; vectors of length 1")


def _alpha(S):
    a = S.real("alpha", None, None, (-3, 3))
    S.assume_ne(a, 0)
    return a


# name -> (constructor(L, S), eta domain, mu domain)
LINKS = {
    "identity": (lambda L, S: L.IdentityLink(), (None, None), (None, None)),
    "logit": (lambda L, S: L.LogitLink(), (None, None), (0, 1)),
    "probit": (lambda L, S: L.ProbitLink(), (None, None), (0, 1)),
    "log": (lambda L, S: L.LogLink(), (None, None), (0, None)),
    "reciprocal": (lambda L, S: L.ReciprocalLink(), (0, None), (0, None)),
    "cloglog": (lambda L, S: L.CloglogLink(), (None, None), (0, 1)),
    "power": (lambda L, S: L.PowerLink(_alpha(S)), (0, None), (0, None)),
    "power0": (lambda L, S: L.PowerLink(0), (None, None), (0, None)),
    "logcomp": (lambda L, S: L.LogComplementLink(), (None, 0), (None, 1)),
    "negbin": (lambda L, S: L.NegativeBinomialLink(S.real("kappa", 0, None, (0.3, 3))), (None, 0), (0, None)),
}


def _mk(name, mk, L, ed, md):
    @harness(HARNESSES, name + ".inverse", points=4)
    def inv(S):
        l = mk(L, S)
        eta = S.array("eta", 1, *ed)
        mu = l.inv_link(eta * 1)
        S.eq("round trip link(inv_link(eta))", l.link(mu), eta)
        S.deriv("first derivative of the inverse link", l.dinv_link(eta), mu, "eta")
        S.deriv("second derivative of the inverse link", l.d2inv_link(eta), l.dinv_link(eta), "eta")

    @harness(HARNESSES, name + ".link", points=4)
    def link(S):
        l = mk(L, S)
        mu = S.array("mu", 1, *md)
        eta = l.link(mu)
        S.eq("round trip inv_link(link(mu))", l.inv_link(eta), mu)
        S.deriv("first derivative of the link", l.dlink(mu), eta, "mu")
        S.deriv("second derivative of the link", l.d2link(mu), l.dlink(mu), "mu")

    @harness(HARNESSES, name + ".link_high", points=4)
    def link_high(S):
        l = mk(L, S)
        mu = S.array("mu", 1, *md)
        S.deriv("third derivative of the link", l.d3link(mu), l.d2link(mu), "mu")
        S.deriv("fourth derivative of the link", l.d4link(mu), l.d3link(mu), "mu")


for _p, _L in (("pyglm2", L2), ("pyglm", L1)):
    for _n, (_mkf, _e, _m) in LINKS.items():
        _mk(_p + "." + _n, _mkf, _L, _e, _m)
