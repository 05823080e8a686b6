"""Shared pieces for the exponential-family checks."""
import contextlib
import inspect
import sys
import math
import numpy as np
import scipy as sp
import scipy.special
import scipy.stats
from pystatsm.pyglm2 import families as F2, links as L2
from pystatsm.pyglm import families as F1, links as L1

NAMES = ["Gaussian", "InverseGaussian", "Gamma", "NegativeBinomial", "Poisson", "Binomial"]
# domains: (y lo, hi), (mu lo, hi)
YDOM = dict(Gaussian=(None, None), InverseGaussian=(0, None), Gamma=(0, None), NegativeBinomial=(0, None), Poisson=(0, None),
            Binomial=(0, 1))
MUDOM = dict(YDOM)
PKGS = {"pyglm2": (F2, L2), "pyglm": (F1, L1)}


def _gimpl(k, x):
    v = math.exp(x / 3) / 3**k
    if k == 0:
        return x + v
    return v + (1 if k == 1 else 0)


class MockLink2(L2.Link):
    """arbitrary smooth strictly monotone link: g, g', ... are uninterpreted"""
    def __init__(self, S, mu=None, eta=None):
        self.g = S.func("g", _gimpl, sign={1: 1})
        self._mu, self._eta = mu, eta

    def link(self, mu):
        return self.g(0, mu)

    def dlink(self, mu):
        return self.g(1, mu)

    def d2link(self, mu):
        return self.g(2, mu)

    def d3link(self, mu):
        return self.g(3, mu)

    def d4link(self, mu):
        return self.g(4, mu)

    # the inverse is only needed at the harness point eta = g(mu)
    def inv_link(self, eta):
        return self._mu

    def dinv_link(self, eta):
        return 1 / self.g(1, self._mu)

    def d2inv_link(self, eta):
        return -self.g(2, self._mu) / self.g(1, self._mu)**3


class MockLink1(MockLink2, L1.Link):
    pass


class A2:
    """call adaptor, current package"""
    pk = "pyglm2"

    def __init__(self, S, name, mu=None, link=True):
        self.name = name
        cls = getattr(F2, name)
        self.f = cls(link=MockLink2(S, mu)) if link is True else cls() if link is None else cls(link=link)

    def ll(self, y, mu, w, phi, k):
        return self.f._loglike(y, mu, w, phi, k)

    def full(self, y, mu, w, phi, k):
        return self.f._full_loglike(y, mu, w, phi, k)

    def dev(self, y, mu, w, phi, k):
        return self.f.deviance(y, mu, w, phi, k)

    def V(self, mu, k):
        return self.f.var_func(mu, dispersion=k)

    def variance(self, mu, w, phi, k):
        return self.f.variance(mu, weights=w, phi=phi, dispersion=k)

    def call(self, m, y, mu, w, phi, k):
        return getattr(self.f, m)(y=y, mu=mu, weights=w, phi=phi, dispersion=k)

    def acall(self, m, y, mu, k):
        return getattr(self.f, m)(y=y, mu=mu, dispersion=k)

    def tau(self, m, t, y, mu, w, reduce=False):
        return getattr(self.f, m)(t, y, mu, weights=w, reduce=reduce)


class A1(A2):
    pk = "pyglm"

    def __init__(self, S, name, mu=None, link=True):
        self.name = name
        cls = getattr(F1, name)
        self.f = cls(link=MockLink1(S, mu)) if link is True else cls() if link is None else cls(link=link)

    def ll(self, y, mu, w, phi, k):
        return self.f._loglike(y, mu=mu, weights=w, phi=phi, dispersion=k)

    def full(self, y, mu, w, phi, k):
        return self.f._full_loglike(y, mu=mu, weights=w, phi=phi, dispersion=k)

    def dev(self, y, mu, w, phi, k):
        return self.f.deviance(y, mu=mu, weights=w, phi=phi, dispersion=k)

    def V(self, mu, k):
        return self.f.var_func(mu=mu, dispersion=k)

    def variance(self, mu, w, phi, k):
        return self.f.variance(mu=mu, phi=phi, dispersion=k) / w


ADAPT = {"pyglm2": A2, "pyglm": A1}


def draw(S, name, n=1, ymin=None):
    y = S.array("y", n, *YDOM[name])
    mu = S.array("mu", n, *MUDOM[name])
    w = S.array("w", n, 0, None, (0.5, 3))
    phi = S.real("phi", 0, None, (0.3, 2))
    k = S.real("kappa", 0, None, (0.3, 2))
    return y, mu, w, phi, k


def npx(S):
    """numpy-like functions usable on both symbolic and float operands"""
    from symx import shim

    class X:
        @staticmethod
        def log(x):
            return shim.unary("log", x) if S.sym else np.log(x)

        @staticmethod
        def exp(x):
            return shim.unary("exp", x) if S.sym else np.exp(x)

        @staticmethod
        def tanh(x):
            return shim.unary("tanh", x) if S.sym else np.tanh(x)

        @staticmethod
        def gammaln(x):
            return shim.unary("gammaln", x) if S.sym else sp.special.gammaln(x)

        @staticmethod
        def digamma(x):
            return shim.polygamma(0, x) if S.sym else sp.special.digamma(x)

        @staticmethod
        def sqrt(x):
            return np.sqrt(x)

        @staticmethod
        def ndtr(x):
            return shim.unary("ndtr", x) if S.sym else sp.special.ndtr(x)

        @staticmethod
        def ndtri(x):
            return shim.unary("ndtri", x) if S.sym else sp.special.ndtri(x)

        @staticmethod
        def arcsin(x):
            return np.arcsin(x)

        pi = None
    X.pi = np.pi if not S.sym else __import__("symx.expr", fromlist=["PI"]).PI
    return X


@contextlib.contextmanager
def stub(owner, name, repl):
    """replace owner.name by repl, also where an analysed module holds it under another name"""
    from symx import shim
    real = getattr(owner, name)
    px = (shim._BYID or {}).get(id(owner))          # the encoder's stand-in for the library module
    tab = px._over if isinstance(px, shim.Proxy) and name in px._over else None
    reals = [real] + ([tab[name]] if tab is not None else [])
    held = [(m.__dict__, k, v) for mn, m in list(sys.modules.items()) if m is not None and (mn == "pystatsm" or mn.startswith("pystatsm."))
            and m is not owner for k, v in list(m.__dict__.items()) if any(v is r for r in reals)]
    setattr(owner, name, repl)
    if tab is not None:
        tab[name] = repl
    for g, k, v in held:
        g[k] = repl
    try:
        yield repl
    finally:
        setattr(owner, name, real)
        if tab is not None:
            tab[name] = reals[1]
        for g, k, v in held:
            g[k] = v


def rec(real, log, result=None):
    """stand-in for real that logs its arguments in the order of real's signature"""
    sig = inspect.signature(real)

    def f(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        log.append(tuple(b.arguments.values()))
        return result() if callable(result) else result
    return f


def stat(S, dist, kind, z, *shapes):
    """scipy.stats function on either kind of operand"""
    from symx import shim
    if S.sym:
        d = shim._Dist(getattr(sp.stats, dist), dist) if dist != "norm" else shim.norm_stub
        return getattr(d, kind)(z, *shapes)
    return getattr(getattr(sp.stats, dist), kind)(z, *shapes)
