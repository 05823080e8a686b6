"""Finite difference routines: exact on every polynomial of their order, at every point and with every step."""
import itertools
import numpy as np
from symx.harness import harness
from pystatsm.utilities import numerical_derivs as ND

HARNESSES = []
FUNCTIONS = ["pystatsm.utilities.numerical_derivs.{fo_fc_fd,so_fc_fd,so_gc_fd,fo_fc_cd,so_fc_cd,so_gc_cd,_fd_coefs,fd_coefs,finite_diff,grad_approx,jac_approx,jac_approx2,jac_approx4,hess_approx,"
             "_hess_approx,hess_approx2,fd_coefficients,fd_derivative}"]
BOUNDS = "functions of 1 to 3 variables, polynomials up to total degree 6 with arbitrary coefficients, stencils of up to 7 points, up to 3 extrapolation levels"
ASSUMPTIONS = ["real arithmetic: rounding and truncation errors of real steps are outside, exactness on polynomials is what fixes every weight"]


class Poly:
    """a polynomial with symbolic coefficients and its exact derivatives"""
    def __init__(self, S, n, deg, name="c", lo=0):
        self.S, self.n = S, n
        self.terms = {}
        for a in itertools.product(range(deg + 1), repeat=n):
            if lo <= sum(a) <= deg:
                self.terms[a] = S.real(name + "".join(map(str, a)), sample=(-1, 1))

    @staticmethod
    def ev(terms, x):
        r = 0
        for a, c in terms.items():
            t = c
            for k, e in enumerate(a):
                if e:
                    t = t * x[k] ** e
            r = r + t
        return r

    def __call__(self, x, *args):
        r = self.ev(self.terms, x)
        for a in args:
            r = r * a
        return r

    @staticmethod
    def d(terms, i):
        r = {}
        for a, c in terms.items():
            if a[i]:
                b = a[:i] + (a[i] - 1,) + a[i + 1:]
                r[b] = r.get(b, 0) + c * a[i]
        return r

    def grad(self, x):
        return self.S._arr(np.array([self.ev(self.d(self.terms, i), x) for i in range(self.n)], dtype=object if self.S.sym else float))

    def hess(self, x):
        return self.S._arr(np.array([[self.ev(self.d(self.d(self.terms, i), j), x) for j in range(self.n)] for i in range(self.n)],
                                    dtype=object if self.S.sym else float))


def point(S, n, lo=None):
    return S.array("x", n, lo, None, sample=(.3, 2))


def step(S):
    return S.real("h", 0, None, (.2, .5))


for n in (1, 2, 3):
    @harness(HARNESSES, f"forward differences[{n}]", points=2)
    def _ff(S, n=n):
        x, h, t = point(S, n), step(S), S.real("t", sample=(.5, 2))
        f = Poly(S, n, 1)
        S.eq("gradient of a linear function", ND.fo_fc_fd(f, x, eps=h), f.grad(x))
        S.eq("extra argument", ND.fo_fc_fd(f, x, eps=h, args=(t,)), f.grad(x) * t)
        g = Poly(S, n, 2, "q")
        S.eq("Hessian of a quadratic", ND.so_fc_fd(g, x, eps=h), g.hess(x))
        S.eq("Hessian of a quadratic, extra argument", ND.so_fc_fd(g, x, eps=h, args=(t,)), g.hess(x) * t)
        S.eq("Hessian from its gradient", ND.so_gc_fd(g.grad, x, eps=h), g.hess(x))
        S.eq("Hessian from its gradient, extra argument", ND.so_gc_fd(lambda z, s: g.grad(z) * s, x, eps=h, args=(t,)), g.hess(x) * t)

    @harness(HARNESSES, f"central differences[{n}]", points=2)
    def _cf(S, n=n):
        x, h, t = point(S, n), step(S), S.real("t", sample=(.5, 2))
        g = Poly(S, n, 2, "q")
        S.eq("gradient of a quadratic", ND.fo_fc_cd(g, x, eps=h), g.grad(x))
        S.eq("extra argument", ND.fo_fc_cd(g, x, eps=h, args=(t,)), g.grad(x) * t)
        c = Poly(S, n, 3)
        S.eq("Hessian of a cubic", ND.so_fc_cd(c, x, eps=h), c.hess(x), tol=1e-6)
        S.eq("Hessian of a cubic, extra argument", ND.so_fc_cd(c, x, eps=h, args=(t,)), c.hess(x) * t, tol=1e-6)
        S.eq("Hessian from the gradient of a cubic", ND.so_gc_cd(c.grad, x, eps=h), c.hess(x))
        S.eq("Hessian from the gradient, extra argument", ND.so_gc_cd(lambda z, s: c.grad(z) * s, x, eps=h, args=(t,)), c.hess(x) * t)
        S.eq("default step", ND.fo_fc_cd(g, x), g.grad(x), tol=1e-4)
        if n == 1:
            p = Poly(S, 1, 5, "p")
            S.eq("second derivative of a quintic", ND.so_fc_cd(p, x, eps=h), p.hess(x), tol=1e-6)

    @harness(HARNESSES, f"relative steps[{n}]", points=3, paths=40, timeout=120)
    def _rs(S, n=n):
        x, t = point(S, n), S.real("t", sample=(.5, 2))
        # the first coordinate takes either side of the switch to an absolute step, the others are beyond it
        tol = .05
        for k in range(n):
            S.assume_lt(0, x[k])
            if k:
                S.assume_lt(tol, x[k])
        kw = dict(eps=.25, d=.125, tol=tol)
        q = Poly(S, n, 2, "q")
        r = Poly(S, n, 2, "r")
        F = lambda z, *a: S._arr(np.array([q(z, *a), r(z, *a)], dtype=object if S.sym else float))
        J = S._arr(np.array([list(q.grad(x)), list(r.grad(x))], dtype=object if S.sym else float))
        for nm in ("jac_approx", "jac_approx4"):
            S.eq(nm, getattr(ND, nm)(F, x, **kw), J)
            S.eq(nm + ", extra argument", getattr(ND, nm)(F, x, args=(t,), **kw), J * t)
        M = np.array([True, False])
        A = ND.jac_approx(F, x, mask=M, **kw)
        S.eq("masked Jacobian", A, J * np.array([[1.], [0.]]))
        H = ND.hess_approx(F, x, **kw)
        S.eq("second derivatives", H[0], q.hess(x), tol=1e-6)
        S.eq("second derivatives of the other", H[1], r.hess(x), tol=1e-6)
        if n < 3:
            c = Poly(S, n, 3)
            H = ND.hess_approx(c, x, **kw)
            S.eq("second derivatives of a cubic", H[0], c.hess(x), tol=1e-6)

for n, nr in ((1, 1), (2, 1), (1, 2), (2, 2), (1, 3)):
    @harness(HARNESSES, f"extrapolated differences[{n};{nr}]", points=2, paths=20, timeout=120)
    def _ex(S, n=n, nr=nr):
        x = point(S, n, .2)
        kw = dict(eps=.25, d=.125, tol=.05, nr=nr)
        f = Poly(S, n, 2 * nr)
        S.eq("gradient", ND.grad_approx(f, x, **kw), f.grad(x)[None], tol=1e-6)
        S.eq("gradient with another ratio", ND.grad_approx(f, x, **kw, v=2), f.grad(x)[None], tol=1e-6)
        g = Poly(S, n, 2, "g")
        F = lambda z: S._arr(np.array([f(z), g(z)], dtype=object if S.sym else float))
        A = ND.jac_approx2(F, x, **kw)
        S.eq("Jacobian", A[0][:, 0], f.grad(x), tol=1e-6)
        S.eq("Jacobian of the other", A[0][:, 1], g.grad(x), tol=1e-6)
        k2 = dict(a_eps=.25, r_eps=.125, xtol=.05, nr=nr)
        H = ND.hess_approx2(F, x, **k2)
        S.eq("Hessian", H[0], f.hess(x), tol=1e-5)
        S.eq("Hessian of the other", H[1], g.hess(x), tol=1e-5)

for m in (2, 3, 4, 5):
    for k in range(0, min(m, 4)):
        @harness(HARNESSES, f"stencil weights[{m};{k}]", points=2, eager=True, timeout=120)
        def _st(S, m=m, k=k):
            z, x0 = S.array("z", m, sample=(-2, 2)), S.real("x0", sample=(-1, 1))
            for i in range(m):
                for j in range(i):
                    S.assume_ne(z[i], z[j])
                    S.assume_ne(z[i] - z[j], 0)
            W = ND.fd_coefs(z, x0=x0, n=k, last_col=False)
            for o in range(k + 1):
                for p in range(m):
                    want = 0
                    if p >= o:
                        want = x0 ** (p - o)
                        for q in range(o):
                            want = want * (p - q)
                    S.eq(f"derivative {o} of a power {p}", sum(W[i, o] * z[i] ** p for i in range(m)), want, tol=1e-4)
            S.true("last column", all(a is b or a == b for a, b in zip(ND.fd_coefs(z, x0=x0, n=k), W[:, -1])))

for order, m in ((1, 1), (2, 1), (1, 2), (3, 1)):
    @harness(HARNESSES, f"stencil derivative[{order};{m}]", points=2)
    def _fd(S, order=order, m=m):
        x = point(S, 2)
        f = Poly(S, 1, 2 * m + 2 * order)
        terms = f.terms
        for _ in range(order):
            terms = f.d(terms, 0)
        want = S._arr(np.array([f.ev(terms, [v]) for v in x], dtype=object if S.sym else float))
        fn = lambda z: S._arr(np.array([f([v]) for v in z], dtype=object if S.sym else float))
        S.eq("derivative of a polynomial", ND.finite_diff(fn, x, order=order, m=m, n=m + order), want, tol=1e-5)
        h = step(S)
        pts = np.arange(-2, 3)
        g = Poly(S, 1, 4, "g")
        terms = g.terms
        for _ in range(order):
            terms = g.d(terms, 0)
        S.eq("derivative by solved weights", ND.fd_derivative(lambda v: g([v]), x[0], epsilon=h, order=order, points=pts), g.ev(terms, [x[0]]), tol=1e-5)
