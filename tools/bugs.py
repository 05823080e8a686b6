"""Planted bugs (tools/plant.py turns them into seeded/<id>/)."""
H = "import numpy as np\n"
BUGS = [
dict(id="b01", property="C01", needs="a mean within 1e-6 of 1 with the complementary log-log link",
     breaks="a numerical guard truncates the link, so link and inverse link stop being mutual inverses close to one",
     edits=[("pystatsm/pyglm2/links.py", "        eta = np.log(np.log(1 / (1 - mu)))\n        return eta", "        eta = np.log(-np.log(np.maximum(1.0 - mu, 1e-6)))\n        return eta")],
     demo=H + """
from pystatsm.pyglm2.links import CloglogLink
L = CloglogLink()
for eta in (-2.0, 0.3, 2.8, 3.1):
    assert abs(L.link(L.inv_link(np.array([eta])))[0] - eta) < 1e-6, eta
"""),
dict(id="b02", property="C02", needs="prior weights other than one in an inverse Gaussian model",
     breaks="the density loses the weight in its normalising constant, so the dispersion estimate and likelihood are wrong for weighted data",
     edits=[("pystatsm/pyglm2/families.py", "ll = weights * num / den + np.log((phi * y**3) / weights)", "ll = weights * num / den + np.log(phi * y**3)")],
     demo=H + """
from scipy.stats import invgauss
from pystatsm.pyglm2.families import InverseGaussian
f = InverseGaussian()
y, mu, w, phi = np.array([0.7, 2.0]), np.array([1.1, 1.6]), np.array([0.5, 3.0]), 0.8
p = phi / w
ref = -invgauss(mu=mu * p, scale=1 / p).logpdf(y)
assert np.allclose(f._full_loglike(y, mu, w, phi), ref)
"""),
dict(id="b03", property="C03", needs="the dispersion curvature of a Gamma model with prior weights different from one",
     breaks="the second derivative along log dispersion uses the weight once too few, giving wrong standard errors for the scale",
     edits=[("pystatsm/pyglm2/families.py", "        T3 = weights / phi * sp.special.polygamma(1, weights / phi)", "        T3 = sp.special.polygamma(1, weights / phi) / phi")],
     demo=H + """
from pystatsm.pyglm2.families import Gamma
f = Gamma()
y, mu, w = np.array([0.7, 2.0]), np.array([1.1, 1.6]), np.array([0.5, 3.0])
t, h = 0.2, 1e-5
num = (f.dtau(t + h, y, mu, w) - f.dtau(t - h, y, mu, w)) / (2 * h)
assert abs(num - f.d2tau(t, y, mu, w)) < 1e-6 * abs(num)
"""),
dict(id="b04", property="C04", needs="interval prediction from a family whose scale is estimated (not fixed at one)",
     breaks="the scale enters the interval for the mean twice",
     edits=[("pystatsm/pyglm2/glm.py", "            eta_se = np.sqrt(wdiag_outer_prod(X, coefs_cov, X))", "            eta_se = np.sqrt(phi * wdiag_outer_prod(X, coefs_cov, X))")],
     demo=H + """
from pystatsm.pyglm2.glm import GLM
from pystatsm.pyglm2.families import Gamma
from pystatsm.pyglm2.links import LogLink
X = np.array([[1.0, 0.3], [1.0, -1.0]])
C = np.array([[0.5, 0.1], [0.1, 0.4]])
r = GLM._predict(np.array([0.2, 0.1]), X, Gamma(LogLink), phi=0.3, coefs_cov=C)
assert np.allclose(r["eta_se"] ** 2, np.diag(X @ C @ X.T))
"""),
dict(id="b05", property="C05", needs="per-observation gradients in unconstrained coordinates with at least two thresholds",
     breaks="the chain rule uses the transposed threshold Jacobian, so observation scores no longer add up to the gradient",
     edits=[("pystatsm/pyglm2/clm.py", "        g[:, :q] = np.dot(g[:, :q], OrderedTransform._jac_rvs(params[:q], q))", "        g[:, :q] = np.dot(OrderedTransform._jac_rvs(params[:q], q), g[:, :q].T).T")],
     demo=H + """
import pandas as pd
from pystatsm.pyglm2.clm import CLM
rng = np.random.default_rng(0)
x = rng.normal(size=40)
y = np.digitize(x + rng.logistic(size=40), [-1, 0.5, 1.5])
m = CLM("y~x-1", pd.DataFrame(dict(x=x, y=y)))
t = m.params_init + 0.1
assert np.allclose(m.gradient_unconstrained_i(t).sum(0), m.gradient_unconstrained(t))
"""),
dict(id="b06", property="C06", needs="a zero-inflated Poisson fit with prior weights different from one",
     breaks="the gradient of the inflation part ignores the prior weight of the positive responses",
     edits=[("pystatsm/pyglm2/zinf.py", "        u_bernoulli[~ix_zero] = w[~ix_zero] * zero_link", "        u_bernoulli[~ix_zero] = zero_link")],
     demo=H + """
from pystatsm.pyglm2.zinf import ZeroInflatedPoisson as Z
from pystatsm.pyglm2.links import LogLink, LogitLink
rng = np.random.default_rng(0)
X, W = rng.normal(size=(6, 2)), rng.normal(size=(6, 2))
y, w = np.array([0.0, 1, 0, 3, 2, 0]), np.array([1.0, 2, 3, 0.5, 1, 0.7])
t = np.array([0.2, -0.3, 0.4, 0.1])
a = (X, W, y, w)
assert np.allclose(Z._gradient_i(t, a, LogLink(), LogitLink()).sum(0), Z._gradient(t, a, LogLink(), LogitLink()))
"""),
dict(id="b07", property="C07", needs="a linearly constrained least-squares fit with a non-zero right-hand side",
     breaks="the constrained coefficients ignore the right-hand side's contribution in the residual sum of squares",
     edits=[("pystatsm/pyglm2/ols.py", "        sse_constrained = sse + np.dot(w.T, w)\n", "        sse_constrained = sse + np.dot(w.T, sp.linalg.solve_triangular(R.T, Cb, lower=True))\n")],
     demo=H + """
from pystatsm.pyglm2.ols import OLS
rng = np.random.default_rng(0)
X, y = rng.normal(size=(12, 3)), rng.normal(size=12)
G, Gi, L, Li, sse, b, p = OLS._fit2(None, (X, y))
C, d = np.array([[1.0, 1, 0], [0, 1, -1]]), np.array([0.7, -0.4])
bc, sc = OLS._get_coef_constrained(p, sse, (X, y), C, d)
assert np.allclose(C @ bc, d) and np.allclose(sc, ((y - X @ bc) ** 2).sum())
"""),
dict(id="b08", property="C08", needs="multivariate regression with non-constant observation weights",
     breaks="the log-determinant term of the likelihood counts observations instead of total weight, so the gradient no longer matches",
     edits=[("pystatsm/pyglm2/mvols.py", "        n_eff = float(np.sum(w))\n        quad", "        n_eff = float(len(w))\n        quad")],
     demo=H + """
from pystatsm.pyglm2.mvols import MVOLS, MMRParameterPacker
rng = np.random.default_rng(0)
X, Y, w = rng.normal(size=(9, 2)), rng.normal(size=(9, 2)), rng.uniform(0.5, 3, size=9)
pk = MMRParameterPacker(2, 2)
t = rng.normal(size=pk.n_params) * 0.3
f = lambda v: MVOLS._loglike(v, (X, Y, w), pk)
h = 1e-6
num = np.array([(f(t + h * e) - f(t - h * e)) / (2 * h) for e in np.eye(len(t))])
assert np.allclose(num, MVOLS._gradient(t, (X, Y, w), pk), atol=1e-4)
"""),
dict(id="b09", property="C09", needs="the HC3 or HC4 robust covariance with unequal leverages",
     breaks="the HC4 exponent uses the largest instead of the average leverage",
     edits=[("pystatsm/pyglm2/regression_model.py", "            omega = w / (1.0 - h)**np.minimum(4.0, h / np.mean(h))", "            omega = w / (1.0 - h)**np.minimum(4.0, h / np.max(h))")],
     demo=H + """
from pystatsm.pyglm2.regression_model import RegressionMixin as R
g, h = np.array([0.3, -1.0, 2.0]), np.array([0.1, 0.5, 0.3])
X = np.array([[1.0, 0.3], [1.0, -1.0], [1.0, 2.0]])
d = np.minimum(4, h / h.mean())
ref = (X * (g ** 2 / (1 - h) ** d)[:, None]).T @ X
assert np.allclose(R.sandwich_cov(g, X, h, "HC4"), ref)
"""),
dict(id="b10", property="C10", needs="per-observation gradients of a multi-group model whose group rows are interleaved in the data",
     breaks="the per-observation gradients of a group are stored in consecutive rows instead of the group's rows",
     edits=[("pystatsm/pysem2/sem.py", "            g[self.model_data.group_indices[i]] = gi\n", "            start = int(self.gsizes[:i].sum())\n            g[start:start + len(gi)] = gi\n")],
     demo=H + """
import pandas as pd
from pystatsm.pysem2.sem import SEM
rng = np.random.default_rng(0)
X = rng.normal(size=(20, 2)) @ np.array([[1, .5], [0, 1]])
d = pd.DataFrame(X, columns=["x1", "x2"]).assign(g=[0, 1] * 10)
m = SEM("x2 ~ x1", d, dict(group_col="g", shared=[False] * 6))
t = m.theta + 0.1
f = lambda x: m.loglike(x, level="observation")
num = np.array([(f(t + 1e-6 * e) - f(t - 1e-6 * e)) / 2e-6 for e in np.eye(len(t))]).T
assert np.allclose(num, m.gradient_obs(t), atol=1e-5)
"""),
dict(id="b11", property="C11", needs="a labelled parameter in a matrix that is not shared across groups",
     breaks="labelled parameters of unshared matrices are tied across the groups",
     edits=[("pystatsm/pysem2/model_base.py", """                ftable.loc[ix1, "label"] = ftable.loc[ix1, ["group", "label"]].astype(str).agg(' '.join, axis=1)\n""", "")],
     demo=H + """
import pandas as pd
from pystatsm.pysem2.sem import SEM
rng = np.random.default_rng(0)
X = rng.normal(size=(20, 3))
d = pd.DataFrame(X, columns=["x1", "x2", "x3"]).assign(g=[0, 1] * 10)
m = SEM("x3 ~ b*x1 + x2", d, dict(group_col="g", shared=[True, False, True, True, True, True]))
free = m.transform_theta_to_free(np.arange(len(m.theta)) + 1.0)
B = [m.group_free_to_model_mats(m.transform_free_to_group_free(free, i), i)[1] for i in (0, 1)]
assert B[0][0, 1] != B[1][0, 1]
"""),
dict(id="b12", property="C12", needs="parameters before the first transformed slice of a combined transform",
     breaks="parameters before the first transformed slice come back as zero",
     edits=[("pystatsm/utilities/param_transforms.py", "            if prev_stop < start:\n", "            if 0 < prev_stop < start:\n")],
     demo=H + """
from pystatsm.utilities.param_transforms import CombinedTransform, LogTransform
t = CombinedTransform([LogTransform()], [(2, 4)])
x = np.array([0.3, -0.7, 1.5, 2.5])
assert np.allclose(t._fwd(x), np.r_[x[:2], np.log(x[2:])])
"""),
dict(id="b13", property="C13", needs="a Kronecker product of two matrices with different numbers of rows and columns",
     breaks="the matrix that vectorises a Kronecker product uses the wrong commutation matrix unless the sizes agree",
     edits=[("pystatsm/utilities/special_mats.py", "  Kv = sp.sparse.kron(sp.sparse.eye(p), kmat(r, n))", "  Kv = sp.sparse.kron(sp.sparse.eye(p), kmat(n, r))")],
     demo=H + """
from pystatsm.utilities.special_mats import kronvec_mat
rng = np.random.default_rng(0)
A, B = rng.normal(size=(2, 3)), rng.normal(size=(4, 5))
v = lambda M: M.reshape(-1, order="F")
assert np.allclose(v(np.kron(A, B)), kronvec_mat(A.shape, B.shape) @ np.kron(v(A), v(B)))
"""),
dict(id="b14", property="C14", needs="a relationship matrix with determinant other than one and two random effect variables per level",
     breaks="the log determinant of the random effect covariance counts the relationship matrix once instead of once per variable, so the likelihood is off",
     edits=[("pystatsm/pylmm/re_mod.py", "class KronAG(BaseProductCovariance):\n\n    def __init__(self, n_rv, n_lv, a_cov, a_inv):\n        self.a_cov = a_cov\n        self.a_inv = a_inv\n        self.lda_const = logpdet(a_cov.toarray()) * n_rv\n", "class KronAG(BaseProductCovariance):\n\n    def __init__(self, n_rv, n_lv, a_cov, a_inv):\n        self.a_cov = a_cov\n        self.a_inv = a_inv\n        self.lda_const = logpdet(a_cov.toarray())\n")],
     demo=H + """
import pandas as pd
from pystatsm.pylmm.re_mod import RandomEffects, MMEBlocked
d = pd.DataFrame(dict(t=[1., 2., -.5, 1.5, .3, .7], g=[5, 5, 3, 3, 4, 4]))
A = np.array([[2., .5, .1], [.5, 1.5, .2], [.1, .2, 1.2]])
rm = RandomEffects([("~1+t", "g")], d, [A])
y = np.array([[.4], [1.2], [-.3], [.8], [.1], [-.6]])
X = np.ones((6, 1))
m = MMEBlocked(X, y, rm)
G = np.array([[1.3, .4], [.4, .9]])
Z = rm.Z.toarray()
V = Z @ np.kron(A, G) @ Z.T + 0.7 * np.eye(6)
Vi = np.linalg.inv(V)
XVX = X.T @ Vi @ X
P = Vi - Vi @ X @ np.linalg.inv(XVX) @ X.T @ Vi
ref = np.linalg.slogdet(V)[1] + np.linalg.slogdet(XVX)[1] + (y.T @ P @ y)[0, 0]
assert abs(m._loglike(np.array([1.3, .4, .9, .7]), True) - ref) < 1e-8
"""),
dict(id="b15", property="C15", needs="a term whose random intercept and slope are correlated",
     breaks="the variance attributed to a term ignores the covariance between its random effects, so the R squared values are wrong",
     edits=[("pystatsm/pylmm/re_mod.py", "            v_re[k] = float(Z_k.multiply(ZG_k).sum() / n)", "            v_re[k] = float(Z_k.multiply(Z_k).dot(G_k.diagonal()).sum() / n)")],
     demo=H + """
import pandas as pd
from pystatsm.pylmm.re_mod import LMM2
rng = np.random.default_rng(0)
g = np.repeat(np.arange(8), 6)
t = rng.normal(size=48) + 1.0
d = pd.DataFrame(dict(g=g, t=t, x=rng.normal(size=48), y=rng.normal(size=48)))
m = LMM2("y~1+x+(1+t|g)", d)
G = np.array([[1.3, .6], [.6, .9]])
m.theta = np.array([1.3, .6, .9, .7])
m.beta = np.array([.2, .5])
Z = m.mme.Z.toarray()
ref = np.trace(Z @ np.kron(np.eye(8), G) @ Z.T) / 48
assert abs(m.variance_decomposition()["v_re"][0] - ref) < 1e-8
"""),
dict(id="b16", property="C16", needs="a dense factor that is not symmetric",
     breaks="the kernel of sparse kron dense reads the dense factor by rows instead of by columns, which only a symmetric factor hides",
     edits=[("pystatsm/utilities/src/cs_kron_sd.c", "Cx[cnt] = ax * B[b_row + b_col * Bnr];\n                    Ci[cnt]", "Cx[cnt] = ax * B[b_row * Bnc + b_col];\n                    Ci[cnt]")],
     demo=H + """
import scipy.sparse as s
from pystatsm.utilities.python_wrappers import sparse_dense_kron
A = s.csc_array(np.array([[1., 0], [2., 3.]]))
A.indices = A.indices.astype(np.int32); A.indptr = A.indptr.astype(np.int32)
B = np.array([[1., 2.], [3., 4.]])
assert np.allclose(sparse_dense_kron(A, B).toarray(), np.kron(A.toarray(), B))
"""),
dict(id="b17", property="C17", needs="dropping the first row of a factor",
     breaks="the rotations that restore a Cholesky factor after a row is removed start at the second row at the earliest, so removing the first row leaves a factor of the wrong matrix",
     edits=[("pystatsm/utilities/linalg_operations.py", "for t in range(k, n-1):", "for t in range(max(k, 1), n-1):")],
     demo=H + """
from pystatsm.utilities.linalg_operations import chol_downdate
A = np.array([[4., 1., .5], [1., 3., .2], [.5, .2, 2.]])
L = chol_downdate(np.linalg.cholesky(A), 0)[:-1, :-1]
assert np.allclose(L @ L.T, A[1:, 1:])
"""),
dict(id="b18", property="C18", needs="a two sided truncation interval below the mean that holds little of the mass",
     breaks="the rejection sampler for a narrow interval draws between the scaled lower bound and its negative half instead of up to the upper bound, so draws can exceed the upper bound",
     edits=[("pystatsm/utilities/random.py", "                z = np.random.uniform(sl, su)\n", "                z = np.random.uniform(sl, max(su, sl / 2.0))\n")],
     demo=H + """
import pystatsm.utilities.random as r
f = getattr(r.scalar_truncnorm, "py_func", r.scalar_truncnorm)
np.random.seed(0)
for i in range(300):
    z = f(0.0, 1.0, -2.0, -1.5)
    assert -2.0 <= z <= -1.5
"""),
dict(id="b19", property="C19", needs="variables with different kurtosis",
     breaks="the sampling covariance of covariances averages the kurtosis of two variables geometrically instead of averaging their roots",
     edits=[("pystatsm/utilities/cov_utils.py", "    A = 0.5 * (u + u.T)\n", "    A = np.sqrt(u * u.T)\n")],
     demo=H + """
from pystatsm.utilities.cov_utils import cov_sample_cov
S = np.array([[1., .5], [.5, 1.]])
V = cov_sample_cov(S=S, kurt=np.array([1., 4.]))
a = 1.5
assert abs(V[0, 1] - (2 * 1 * a * .5 + 1 * a * .5 - .5)) < 1e-12
"""),
dict(id="b20", property="C20", needs="a point whose coordinates call for different steps",
     breaks="the mixed derivative of the extrapolated Hessian removes the curvature along the second variable with the step of the first",
     edits=[("pystatsm/utilities/numerical_derivs.py", "                    fjj = Hd[:, j] * h[j]**2\n", "                    fjj = Hd[:, j] * h[j] * h[i]\n")],
     demo=H + """
from pystatsm.utilities.numerical_derivs import hess_approx2
f = lambda x: np.array([x[0]**2 + 3 * x[0] * x[1] + 5 * x[1]**2])
H = hess_approx2(f, np.array([1., 20.]), r_eps=1e-1, nr=2)
assert np.allclose(H[0], [[2., 3.], [3., 10.]], atol=1e-3)
"""),
dict(id="b21", property="C21", needs="two eigenvalues of the scaled covariance that lie within one percent of each other",
     breaks="the Hessian of the concentrated factor likelihood drops the coupling between eigenvectors whose eigenvalues are close but distinct",
     edits=[("pystatsm/pyfa2/likelihood.py", "where=np.abs(diffs) > 1e-12)", "where=np.abs(diffs) > 1e-2)")],
     demo=H + """
from pystatsm.pyfa2.likelihood import MLEstimator
from pystatsm.utilities.numerical_derivs import so_gc_cd
a, b = np.array([1., 1., 1.]) / 3**.5, np.array([1., -1., 0.]) / 2**.5
c = np.cross(a, b)
S = 3 * np.outer(a, a) + .5 * np.outer(b, b) + .506 * np.outer(c, c)
e = MLEstimator(S, 2)
psi = np.ones(3)
assert np.allclose(e.hess_psi(psi), so_gc_cd(e.grad_psi, psi), atol=1e-3)
"""),
dict(id="b22", property="C22", needs="a cyclic spline whose last two knot intervals have different lengths",
     breaks="the slope of a cyclic spline is no longer continuous at its last inner knot, so the basis and the penalty describe another function",
     edits=[("pystatsm/utilities/splines.py", "B[-1, -2] = h[-2] / 6", "B[-1, -2] = h[-1] / 6")],
     demo=H + """
from pystatsm.utilities import splines as sp
def kink(k):
    S, F = sp.ccspline_penalty(k)
    b = np.cos(np.arange(len(k) - 1.))
    f = lambda x: (sp.ccspline_basis(np.array([x]), k, F) @ b)[0]
    h = 1e-5
    return max(abs((f(x + h) - f(x)) - (f(x) - f(x - h))) / h for x in k[1:-1])
assert kink(np.array([0., 1., 2., 3., 4.])) < 1e-3
assert kink(np.array([0., 1., 2., 2.5, 4.])) < 1e-3
"""),
dict(id="b23", property="C23", needs="a working step whose penalised deviance is still too large after all step halvings",
     breaks="the additive model falls back to the previous coefficients but keeps the mean of the rejected step",
     edits=[("pystatsm/pygam/gam.py", "beta, eta, mu, dev = beta_prev, eta_prev, self.f.inv_link(eta_prev), dev_prev", "beta, eta, dev = beta_prev, eta_prev, dev_prev")],
     demo=H + """
from pystatsm.pygam.gam import GAM
from pystatsm.pyglm.families import Gaussian
m = object.__new__(GAM)
m.f, m.X, m.y, m.S = Gaussian(), np.eye(3), np.array([1., 2., 3.]), np.zeros((1, 3, 3))
calls = []
def pls(eta, S):
    calls.append(eta)
    return m.y + (1. if len(calls) == 1 else -1e7)
m.solve_pls = pls
b, eta, mu, dev, conv, i = m.pirls(np.ones(1))
assert np.allclose(mu, eta) and np.allclose(b, eta)
"""),
dict(id="b24", property="C24", needs="a Newton step at a point where the penalised Hessian has a clearly negative eigenvalue",
     breaks="location scale coefficients move up the penalised likelihood, or stay at their start, where the Hessian is indefinite",
     edits=[("pystatsm/pygam/gauls.py", "u[u<etol] = abs(u[u<etol])+etol", "u[u<etol] = u[u<etol]-etol")],
     demo=H + """
from pystatsm.pygam.gauls import GauLS
m = object.__new__(GauLS)
m.nx = 2
m.penalized_loglike = lambda b, S: np.cos(b[0]) + b[1]**2
m.hess_ll_beta = lambda b: np.diag([-np.cos(b[0]), 2.])
m.grad_ll_beta = lambda b: np.array([-np.sin(b[0]), 2 * b[1]])
b, i, conv = m.outer_step(np.zeros((2, 2)), np.array([.3, 1.]))
assert abs(np.cos(b[0]) + 1) < 1e-6 and abs(b[1]) < 1e-4
"""),
dict(id="b25", property="C25", needs="a residual scale different from one",
     breaks="the Hessian's block between coefficients and log scale is off by the scale, so Newton steps and anything read off the Hessian are wrong",
     edits=[("pystatsm/pyrobust/rls.py", "Hbs = self.X.T.dot(phi * r / s)", "Hbs = self.X.T.dot(phi * u / s)")],
     demo=H + """
from pystatsm.pyrobust.rls import RobustLM
import pandas as pd
rng = np.random.default_rng(1)
d = pd.DataFrame({"x": rng.normal(size=30)})
d["y"] = 1 + d.x + 3 * rng.standard_t(2, size=30)
m = RobustLM("y~x", d)
th = np.array([1., .8, 1.1])
e = 1e-6
for j in range(3):
    h = np.eye(3)[j] * e
    assert np.allclose((m.grad(th + h) - m.grad(th - h)) / (2 * e), m.hessian(th)[j], atol=1e-4, rtol=1e-4), j
"""),
dict(id="b26", property="C26", needs="two active coefficients that would both change sign within one least angle step",
     breaks="the lasso path steps through zero for one coefficient and drops the wrong variable",
     edits=[("pystatsm/pyglmnet/lars.py", "np.min([np.min(sgn_change[sgn_change>0]), gamma])", "np.min([np.max(sgn_change[sgn_change>0]), gamma])")],
     demo=H + """
from pystatsm.pyglmnet.lars import _lasso_modification
b = np.array([.5, 1., 0.])
d, g = _lasso_modification(b, np.array([0, 1]), np.array([-1., -4.]), 1.)
assert abs(g - .25) < 1e-12 and list(d) == [False, True]
"""),
]
