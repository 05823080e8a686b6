"""Linear mixed models: likelihood, gradients and solvers against the dense marginal model."""
import copy
import numpy as np
import pandas as pd
import scipy as sp
import scipy.sparse
from symx.harness import harness
from symx import sparse as SPX
from symx.sparse import SSp
from pystatsm.pylmm import re_mod as RM
from pystatsm.pylmm.re_mod import RandomEffects, MMEBlocked, LMM2, _VarCorrReparam
from .fam import npx

HARNESSES = []
FUNCTIONS = ["pystatsm.pylmm.re_mod.{RandomEffects,RandomEffectTerm,KronIG,KronAG,DiagResidualCovTerm}.*",
             "pystatsm.pylmm.re_mod.MMEBlocked.{_initialize_unweighted,update_crossprods,update_chol,update_chol_diag,_chol_sparse,_chol_dense,_chol_sparse_diag,"
             "_chol_dense_diag,_loglike,_loglike_reparam,_gradient,_gradient_v2,_gradient_reparam,vinv_apply,p_apply}",
             "pystatsm.pylmm.re_mod.LMM2.{gradient_reparam,gradient_v2_reparam}", "pystatsm.utilities.linalg_operations._FactorProxy.*",
             "pystatsm.utilities.src.{cs_add_inplace,tile_1d,cs_kron,cs_pattern_trace,cs_block_diag_self_dot}.c"]
BOUNDS = ("3 to 4 observations, 2 to 3 levels per grouping factor, up to 2 terms, up to 2 variables per term, up to 2 fixed effects; the design is the one named, "
          "the response and every variance parameter are arbitrary; the fill-reducing permutation is one of two fixed ones")
ASSUMPTIONS = ["CHOLMOD is modelled as an exact Cholesky factorisation of the permuted matrix", "random effect covariances positive definite, residual variance positive"]

D3 = pd.DataFrame(dict(t=[1., 2., -.5], g=[5, 3, 3], h=[1, 0, 1], k=[4, 4, 2]))
D4 = pd.DataFrame(dict(t=[1., 2., -.5, 1.5], c=[-1., 1, -1, 1], z=[0., 0, 1, 2], g=[5, 5, 3, 3], h=[1, 0, 1, 0], k=[0, 1, 1, 2]))
A3 = np.array([[1., .5, 0], [.5, 1.25, .5], [0, .5, 1.25]])
A2 = np.array([[2.5, 1.5], [1.5, 2.5]])    # determinant 4
X3 = np.array([[1., .5], [1, -1], [1, 2]])
X4 = np.array([[1., .5], [1, -1], [1, 2], [1, 1]])
SPEC = {
    "intercept": ([("~1", "g")], D4, None, X4),
    "slope": ([("~1+t", "g")], D3, None, X3[:, :1]),
    "centred slope": ([("~1+c", "g")], D4, None, X4[:, :1]),
    "covariate zero in a level": ([("~1+z", "g")], D4, None, X4[:, :1]),
    "slope only": ([("~0+t", "h")], D4, None, X4),
    "crossed": ([("~1", "g"), ("~1", "h")], D3, None, X3[:, :1]),
    "crossed with slope": ([("~1+t", "g"), ("~1", "h")], D3, None, X3[:, :1]),
    "unbalanced": ([("~1", "k")], D4, None, X4),
    "relationship": ([("~1", "k")], D4, [A3], X4[:, :1]),
    "sparse relationship": ([("~1", "k")], D4, [sp.sparse.csc_matrix(A3)], X4[:, :1]),
    "relationship with slope": ([("~1+t", "g")], D3, [A2], X3[:, :1]),
    "relationship crossed": ([("~1", "h"), ("~1", "g")], D3, [None, sp.sparse.csc_matrix(A2)], X3[:, :1]),
}


def build(terms, data, a_covs=None):
    try:
        return RandomEffects(terms, data, a_covs)
    except Exception as e:      # re-raised inside the harness, where it is judged
        return e


RE = {k: build(*v[:3]) for k, v in SPEC.items()}


def sym_re(S, rm):
    """copy of a RandomEffects object whose sparse buffers hold symbolic numbers"""
    if isinstance(rm, Exception):
        raise rm
    rm = copy.deepcopy(rm)
    if S.sym:
        for t in rm.tterms:
            cs = t.cov_structure
            cs.G = t.G = SSp.real(cs.G)
            cs.g_data = cs.G.data
            cs.G_derivs = [SSp.real(d) for d in cs.G_derivs]
            for n in ("a_cov", "a_inv"):
                if getattr(cs, n, None) is not None:
                    setattr(cs, n, SSp.real(getattr(cs, n)))
            cs.unstructured_cov.dCov = S.const(cs.unstructured_cov.dCov)
        for t in rm.gterms:
            t.g_data = t.G.data
            t.Z = SSp.real(t.Z)
        rm.theta = S.const(rm.theta)
        rm._construct_matrices()
    return rm


def design(name):
    """dense Z of every term from the data, columns ordered by level of first appearance, then variable"""
    terms, data, acov, X = SPEC[name]
    out = []
    for i, (f, g) in enumerate(terms):
        cols = [np.ones(len(data))] if f.startswith("~1") else []
        cols += [data[v].values for v in f[1:].split("+") if v not in "01"]
        R = np.stack(cols, 1)
        lev = list(dict.fromkeys(data[g]))
        Z = np.zeros((len(data), len(lev) * R.shape[1]))
        for o, l in enumerate(data[g]):
            j = lev.index(l) * R.shape[1]
            Z[o, j:j + R.shape[1]] = R[o]
        A = np.eye(len(lev)) if acov is None or acov[i] is None else acov[i]
        out.append((Z, A.toarray() if sp.sparse.issparse(A) else A, R.shape[1]))
    return out


class Model:
    """the library's equations for one design with symbolic response and parameters, and the dense definition beside it"""

    def __init__(self, S, name, thr=0.4, perm="rev"):
        SPX.PERM[0] = perm
        self.S, self.name = S, name
        self.X = S.const(SPEC[name][3])
        n = self.X.shape[0]
        self.y = S.array("y", (n, 1), sample=(-1, 1))
        self.rm = sym_re(S, RE[name])
        self.parts = design(name)
        th, self.G = [], []
        for k, (Z, A, q) in enumerate(self.parts):
            P, L = S.posdef(f"G{k}", q)
            self.G.append(P)
            th += [P[i, j] for j in range(q) for i in range(j, q)]
        self.s2 = S.real("s2", 0.25, 4)
        self.theta = S._arr(np.array(th + [self.s2], dtype=object))
        self.mme = MMEBlocked(self.X, self.y, self.rm, sparse_threshold=thr)
        self.lmm = object.__new__(LMM2)
        self.lmm.mme = self.mme

    def Gbig(self):
        out = []
        for (Z, A, q), P in zip(self.parts, self.G):
            out.append(np.kron(self.S.const(A), P))
        return out

    def V(self):
        n = self.X.shape[0]
        V = self.s2 * self.S.const(np.eye(n))
        for (Z, A, q), B in zip(self.parts, self.Gbig()):
            Z = self.S.const(Z)
            V = V + Z @ B @ Z.T
        return V

    def ref(self, reml):
        V = self.V()
        Vi = np.linalg.inv(V)
        XV = self.X.T @ Vi
        XVX = XV @ self.X
        b = np.linalg.inv(XVX) @ (XV @ self.y)
        ll = np.log(np.linalg.det(V)) + (self.y.T @ (Vi @ (self.y - self.X @ b)))[0, 0]
        return ll + np.log(np.linalg.det(XVX)) if reml else ll

    def P(self, reml):
        Vi = np.linalg.inv(self.V())
        if not reml:
            return Vi, Vi
        VX = Vi @ self.X
        return Vi, Vi - VX @ np.linalg.inv(self.X.T @ VX) @ VX.T

    def score(self, reml):
        """tr(Q dV) - (Py)' dV (Py) for every parameter, Q the inverse of V (ML) or P (REML)"""
        S = self.S
        P = self.P(True)[1]
        Q = P if reml else self.P(False)[0]
        Py = P @ self.y
        out = []
        for Z, A, q in self.parts:
            for j in range(q):
                for i in range(j, q):
                    E = np.zeros((q, q))
                    E[i, j] = E[j, i] = 1
                    dV = S.const(Z @ np.kron(A, E) @ Z.T)
                    out.append((Q * dV).sum() - (Py.T @ dV @ Py)[0, 0])
        out.append(np.trace(Q) - (Py.T @ Py)[0, 0])
        return S._arr(np.array(out, dtype=object))


for name in SPEC:
    for reml in (True, False):
        for thr in (0.0, 1.1):
            @harness(HARNESSES, f"loglike[{name};reml={reml};{'sparse' if thr else 'dense'}]", points=2, eager=True)
            def _ll(S, name=name, reml=reml, thr=thr):
                m = Model(S, name, thr)
                S.eq("-2 log likelihood", m.mme._loglike(m.theta, reml), m.ref(reml))
        for v in ("_gradient", "_gradient_v2"):
            @harness(HARNESSES, f"{v[1:]}[{name};reml={reml}]", points=2, eager=True)
            def _gr(S, name=name, reml=reml, v=v):
                m = Model(S, name)
                S.eq("score", getattr(m.mme, v)(m.theta, reml), m.score(reml))


        @harness(HARNESSES, f"projections[{name};reml={reml}]", points=2, eager=True)
        def _pr(S, name=name, reml=reml):
            m = Model(S, name, perm="roll")
            m.lmm._factor_C(m.theta)
            Vi, P = m.P(reml)
            v = S.array("v", m.X.shape[0], sample=(-1, 1))
            S.eq("inverse of V applied", m.mme.vinv_apply(v, m.theta), Vi @ v)
            XVXi = np.linalg.inv(m.X.T @ Vi @ m.X)
            S.eq("projection applied", m.mme.p_apply(v, m.theta, XVXi, reml), P @ v)

    for thr in (0.0, 1.1):
        @harness(HARNESSES, f"factor[{name};{'sparse' if thr else 'dense'}]", points=2, eager=True)
        def _fa(S, name=name, thr=thr):
            m = Model(S, name, thr)
            L11, L21, L22 = m.mme.update_chol(m.theta)
            W = np.hstack([m.X, m.y])
            S.eq("last block of the factor", L22 @ L22.T, W.T @ np.linalg.inv(m.V()) @ W)
            S.eq("middle block of the factor", L21 @ L21.T, W.T @ W / m.s2 - W.T @ np.linalg.inv(m.V()) @ W)

for name in ("intercept", "crossed"):
    for reml in (True, False):
        for v in ("", "_v2"):
            @harness(HARNESSES, f"reparametrised gradient{v}[{name};reml={reml}]", points=2, eager=True)
            def _re(S, name=name, reml=reml, v=v):
                m = Model(S, name)
                n = len(m.theta)
                eta = S.array("eta", n, sample=(-1, 1))
                f = getattr(m.lmm, f"gradient{v}_reparam")(eta, reml)
                S.deriv("score in the unconstrained parameters", f, m.lmm.loglike_reparam(eta, reml), [f"eta_{i}" for i in range(n)])
                th = m.rm.reparam.rvs(eta)
                S.eq("variances are exponentials", th, npx(S).exp(eta))
