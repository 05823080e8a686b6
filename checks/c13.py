"""Vectorisation, structured (commutation, elimination, duplication, pattern) matrices and index arithmetic."""
import itertools
import math
import numpy as np
import scipy as sp
from symx.harness import harness
from pystatsm.utilities import indexing_utils as IU, special_mats as SM, linalg_operations as LA
from .fam import npx, stub

HARNESSES = []
FUNCTIONS = ["pystatsm.utilities.special_mats.{lmat,kmat,dmat,nmat,dpmat,kronvec_mat,pattern_mat_*,apply_*,CommutationMatrix,EliminationMatrix,DuplicationMatrix,DpMatrix,"
             "comm_mat,elim_mat,difference_mat}", "pystatsm.utilities.indexing_utils.{vec,vech,vecl}_inds_{forwards,reverse}, largest_triangular, kronecker_indices_*, *_matrix_indices, "
             "{colex,lex}_index_{forward,reverse}, *ascending_indices*, array_match, nonzero, unique, fill_tensor, tril_indices, triu_indices, inv_tril_indices, vech_diag_indices",
             "pystatsm.utilities.linalg_operations.{vec,invec,vech,invech,vecl,invecl,_vec,_invec,_vech,_invech,_vecl,_invecl,_vech_nb,_vec_ndg,lower_half_vec,inv_lower_half_vec,"
             "invech_chol,vdg,gb_diag,lhv_*,hv_*,*_size_to_*}"]
BOUNDS = ("matrices of 1 to 4 rows and columns with arbitrary real entries; index formulas for every row and column index and every matrix size up to the bound in the "
          "harness name; lookups and unique values in arrays of up to 3 arbitrary numbers (every ordering and tie pattern)")
ASSUMPTIONS = ["float rounding inside the triangular root sqrt(8 n + 1) is outside the claim"]


def M_(S, nm, r, c):
    return S.array(nm, (r, c), sample=(-1, 1))


def colmajor(A):
    r, c = np.shape(A)
    return np.stack([A[i, j] for j in range(c) for i in range(r)])


def lowhalf(A, k=0):
    n = len(A)
    v = [A[i, j] for j in range(n) for i in range(j + k, n)]
    return np.stack(v) if v else np.zeros(0)


def dn(x):
    return x.toarray() if hasattr(x, "toarray") else x


# ---------------------------------------------------------------- vectorisation operators
def _vecs(n):
    @harness(HARNESSES, "vec.n%d" % n, points=1)
    def h(S):
        A, B = M_(S, "A", n, n), M_(S, "B", n, n + 1)
        Y = S.symm("Y", n)
        R = np.stack([np.stack([Y[i, j] if i != j else 1 + 0 * Y[0, 0] for j in range(n)]) for i in range(n)])
        S.eq("vec stacks columns", LA.vec(B), colmajor(B))
        S.eq("vec of a batch", LA._vec(np.stack([B, 2 * B])), np.stack([colmajor(B), 2 * colmajor(B)]))
        S.eq("vec", LA._vec(B), colmajor(B))
        S.eq("invec undoes vec", LA.invec(LA.vec(B), n, n + 1), B)
        S.eq("_invec undoes _vec on batches", LA._invec(np.stack([colmajor(B), 2 * colmajor(B)]), n, n + 1), np.stack([B, 2 * B]))
        for nm, f in (("vech", LA.vech), ("_vech", LA._vech), ("_vech_nb", LA._vech_nb)):
            S.eq(nm + " stacks the lower triangle by columns", f(A), lowhalf(A))
        S.eq("_vech of a batch", LA._vech(np.stack([A, 2 * A])), np.stack([lowhalf(A), 2 * lowhalf(A)]))
        S.eq("invech undoes vech", LA.invech(LA.vech(Y)), Y)
        S.eq("_invech undoes _vech", LA._invech(LA._vech(Y)), Y)
        S.eq("_invech of a batch", LA._invech(np.stack([LA._vech(Y), 2 * LA._vech(Y)])), np.stack([Y, 2 * Y]))
        if n > 1:
            for nm, f in (("vecl", LA.vecl), ("_vecl", LA._vecl), ("lower_half_vec", LA.lower_half_vec)):
                S.eq(nm + " stacks the strict lower triangle by columns", f(A), lowhalf(A, 1))
            S.eq("invecl undoes vecl", LA.invecl(LA.vecl(R)), R)
            S.eq("_invecl undoes _vecl", LA._invecl(LA._vecl(R)), R)
            S.eq("_invecl of a batch", LA._invecl(np.stack([LA._vecl(R), 0.5 * LA._vecl(R)]))[0], R)
            v = S.array("v", n * (n - 1) // 2, sample=(-1, 1))
            S.eq("lower_half_vec undoes its inverse", LA.lower_half_vec(LA.inv_lower_half_vec(v)), v)
            T = LA.inv_lower_half_vec(v)
            S.eq("inv_lower_half_vec is strictly lower", [T[i, j] for i in range(n) for j in range(i, n)], [0] * (n * (n + 1) // 2))
            S.eq("off-diagonal elements", LA._vec_ndg(A), [A[i, j] for j in range(n) for i in range(n) if i != j])
            nr = LA.lhv_row_norms(v)
            for i in range(n):
                S.eq("row norms", nr[i]**2, 1 + sum(T[i, j]**2 for j in range(i)), tol=1e-9)
        u = S.array("u", n * (n + 1) // 2, sample=(-1, 1))
        L = LA.invech_chol(u)
        S.eq("invech_chol fills the lower triangle by columns", lowhalf(L), u)
        S.eq("invech_chol is lower triangular", [L[i, j] for i in range(n) for j in range(i + 1, n)], [0] * (n * (n - 1) // 2))
        S.eq("vdg puts vec on the diagonal", LA.vdg(B), np.stack([np.stack([colmajor(B)[i] if i == j else 0 * A[0, 0] for j in range(n * (n + 1))]) for i in range(n * (n + 1))]))
        G = LA.gb_diag(A, B)
        for i in range(2 * n):
            for j in range(2 * n + 1):
                S.eq("block diagonal", G[i, j], A[i, j] if i < n and j < n else B[i - n, j - n] if i >= n and j >= n else 0)
        S.eq("sizes", [LA.lhv_size_to_mat_size(n * (n - 1) // 2) if n > 1 else 1, LA.hv_size_to_mat_size(n * (n + 1) // 2), LA.mat_size_to_lhv_size(n), LA.mat_size_to_hv_size(n)],
             [n, n, n * (n - 1) // 2, n * (n + 1) // 2])
        r, c = LA.lhv_indices((n, n))
        S.eq("strict lower indices", [list(r), list(c)], [[i for j in range(n) for i in range(j + 1, n)], [j for j in range(n) for i in range(j + 1, n)]])
        r, c = LA.hv_indices((n, n))
        S.eq("lower indices", [list(r), list(c)], [[i for j in range(n) for i in range(j, n)], [j for j in range(n) for i in range(j, n)]])


for _n in (1, 2, 3, 4):
    _vecs(_n)


# ---------------------------------------------------------------- structured matrices acting on arbitrary matrices
def _struct(n):
    @harness(HARNESSES, "matrices.n%d" % n, points=1)
    def h(S):
        A = M_(S, "A", n, n)
        Y = S.symm("Y", n)
        Ls = S.lower("l", n)
        for nm, K in (("kmat", SM.kmat(n, n)), ("comm_mat", SM.comm_mat(n, n))):
            S.eq(nm + " maps vec(A) to vec(A')", K @ colmajor(A), colmajor(A.T))
        for nm, L in (("lmat", SM.lmat(n)), ("elim_mat", SM.elim_mat(n))):
            S.eq(nm + " maps vec(A) to vech(A)", L @ colmajor(A), lowhalf(A))
            S.eq(nm + "' maps vech of a lower triangular matrix back to vec", L.T @ lowhalf(Ls), colmajor(Ls))
        S.eq("dmat maps vech(Y) to vec(Y)", SM.dmat(n) @ lowhalf(Y), colmajor(Y))
        S.eq("dmat' adds mirrored elements", SM.dmat(n).T @ colmajor(A), lowhalf(np.stack([np.stack([A[i, j] + A[j, i] if i != j else A[i, i] for j in range(n)]) for i in range(n)])))
        S.eq("dpmat averages mirrored elements into vech", SM.dpmat(n) @ colmajor(A), lowhalf((A + A.T) / 2))
        S.eq("nmat maps vec(A) to vec(A + A')", SM.nmat(n) @ colmajor(A), colmajor(A + A.T))
        r, c = IU.duplication_matrix_indices(n)
        D = np.zeros((n * n, n * (n + 1) // 2))
        D[r, c] = D[r, c] + 1
        S.eq("duplication indices", D, SM.dmat(n).toarray())
        # pattern matrices
        E0 = 0 * A[0, 0]
        dg = np.stack([np.stack([A[i, j] if i == j else E0 for j in range(n)]) for i in range(n)])
        S.eq("pattern_mat_d keeps the diagonal", SM.pattern_mat_d(n) @ colmajor(A), colmajor(dg))
        S.eq("pattern_mat_s symmetrises", SM.pattern_mat_s(n) @ colmajor(A), colmajor((A + A.T) / 2))
        S.eq("pattern_mat_c symmetrises off the diagonal", SM.pattern_mat_c(n) @ colmajor(A), colmajor((A + A.T) / 2 - dg))
        S.eq("pattern_mat_k places a vector on the diagonal", SM.pattern_mat_k(n) @ A[0], colmajor(np.stack([np.stack([A[0, i] if i == j else E0 for j in range(n)]) for i in range(n)])))


for _n in (1, 2, 3, 4):
    _struct(_n)


def _rect(m, n):
    @harness(HARNESSES, "commutation.%dx%d" % (m, n), points=1)
    def h(S):
        A = M_(S, "A", m, n)
        B = M_(S, "B", n, 2)
        a = colmajor(A)
        at = colmajor(A.T)
        for nm, K in (("kmat", SM.kmat(m, n)), ("comm_mat", SM.comm_mat(m, n))):
            S.eq(nm + " maps vec(A) to vec(A')", K @ a, at)
            S.eq(nm + " transposed maps back", K.T @ at, a)
        S.eq("index form", SM.apply_kmat1(a, m, n), at)
        S.eq("matrix form", SM.apply_kmat2(a, m, n), at)
        C = SM.CommutationMatrix(m, n)
        S.eq("class, index form", C.apply(a), at)
        S.eq("class, matrix form", C.apply_alt(a), at)
        S.eq("columns", C.apply(np.stack([a, 2 * a]).T), np.stack([at, 2 * at]).T)
        K = SM.kronvec_mat((m, n), (n, 2))
        AB = np.stack([np.stack([A[i, j] * B[k, l] for j in range(n) for l in range(2)]) for i in range(m) for k in range(n)])
        S.eq("kronvec_mat maps vec(A) kron vec(B) to vec(A kron B)", K @ np.stack([x * y for x in a for y in colmajor(B)]), colmajor(AB), tol=1e-9)


for _m, _n in ((1, 2), (2, 1), (2, 3), (3, 2)):
    _rect(_m, _n)


def _apply(n):
    p, q = n * (n + 1) // 2, n * n

    @harness(HARNESSES, "apply.n%d" % n, points=1)
    def h(S):
        A = M_(S, "A", q, 2)
        Q = M_(S, "Q", q, q)
        L, D, Dp = SM.lmat(n).toarray(), SM.dmat(n).toarray(), SM.dpmat(n).toarray()
        mm = lambda X, Y: np.dot(S.const(X.astype(float)) if X.dtype != object else X, S.const(Y.astype(float)) if Y.dtype != object else Y)
        LA_, DA = mm(L, A), mm(D.T, A)
        el, du, dp = SM.EliminationMatrix(n), SM.DuplicationMatrix(n), SM.DpMatrix(n)
        for nm, v in (("apply_lmat1", SM.apply_lmat1(A)), ("apply_lmat2", SM.apply_lmat2(A)), ("apply", el.apply(A)), ("apply_alt", el.apply_alt(A)), ("app", el.app(A))):
            S.eq("elimination times A: " + nm, v, LA_)
        QL = mm(Q, L.T)
        for nm, v in (("apply_lmat_post1", SM.apply_lmat_post1(Q)), ("apply_lmat_post2", SM.apply_lmat_post2(Q)), ("apply_post", el.apply_post(Q)), ("apply_post_alt", el.apply_post_alt(Q)),
                      ("app", el.app(Q, pre=False, post=True))):
            S.eq("A times elimination transposed: " + nm, v, QL)
        for nm, v in (("apply_lmat_pre_post1", SM.apply_lmat_pre_post1(Q)), ("app", el.app(Q, post=True))):
            S.eq("elimination on both sides: " + nm, v, mm(L, QL))
        A0 = A.copy()
        for nm, v in (("apply_dmat1", SM.apply_dmat1(A)), ("apply_dmat2_pre", SM.apply_dmat2_pre(A)), ("apply", du.apply(A)), ("apply_pre", du.apply_pre(A))):
            S.eq("duplication transposed times A: " + nm, v, DA, tol=1e-9)
        QD = mm(Q, D)
        for nm, v in (("apply_dmat1", SM.apply_dmat1(Q, pre_mult=False, post_mult=True)), ("apply_dmat2_post", SM.apply_dmat2_post(Q, transpose=False)),
                      ("apply", du.apply(Q, pre_mult=False, post_mult=True)), ("apply_dmat3", SM.apply_dmat3(Q, pre_mult=False, post_mult=True))):
            S.eq("A times duplication: " + nm, v, QD, tol=1e-9)
        DQD = mm(D.T, QD)
        for nm, v in (("apply_dmat1", SM.apply_dmat1(Q, post_mult=True)), ("apply_dmat2_pre_post", SM.apply_dmat2_pre_post(Q)), ("apply", du.apply(Q, post_mult=True)),
                      ("apply_pre_post", du.apply_pre_post(Q)), ("apply_dmat3", SM.apply_dmat3(Q, post_mult=True)), ("apply_dmat3 batch", SM.apply_dmat3(np.stack([Q, 2 * Q]), post_mult=True)[0])):
            S.eq("duplication on both sides: " + nm, v, DQD, tol=1e-9)
        S.eq("duplicate: apply_pre", du.apply_pre(DA, transpose=False), mm(D, DA), tol=1e-9)
        S.eq("duplicate: apply_dmat2_pre", SM.apply_dmat2_pre(DA, n=n, transpose=False), mm(D, DA), tol=1e-9)
        S.eq("averaging", dp.apply(A), mm(Dp, A), tol=1e-9)
        S.eq("averaging on both sides", dp.apply(Q, post_mult=True), mm(mm(Dp, Q), Dp.T), tol=1e-9)
        S.eq("argument unchanged", A, A0)


for _n in (2, 3):
    _apply(_n)


@harness(HARNESSES, "difference", points=1)
def _diff(S):
    x = S.array("x", 6, sample=(-1, 1))
    S.eq("first difference", S.const(SM.difference_mat(6, 1)) @ x, [x[i + 1] - x[i] for i in range(5)])
    S.eq("second difference", S.const(SM.difference_mat(6)) @ x, [x[i + 2] - 2 * x[i + 1] + x[i] for i in range(4)])
    S.eq("third difference", S.const(SM.difference_mat(6, 3)) @ x, [x[i + 3] - 3 * x[i + 2] + 3 * x[i + 1] - x[i] for i in range(3)])


# ---------------------------------------------------------------- index arithmetic (integer variables)
class _Int:
    """int() that keeps a symbolic whole number"""
    dtype = np.dtype(int)

    def __call__(self, x=0, *a):
        from symx.expr import Expr, floor_
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.reshape(-1)[0]
        return floor_(x) if isinstance(x, Expr) else int(x, *a)

    def __instancecheck__(self, x):
        return isinstance(x, int)


def ints(S, *mods):
    import contextlib
    st = contextlib.ExitStack()
    if S.sym:
        for m in mods:
            m.__dict__["int"] = _Int()
            st.callback(m.__dict__.pop, "int", None)
    return st


def sc(x):
    return x.reshape(-1)[0] if isinstance(x, np.ndarray) and x.size == 1 else x


def same(S, name, a, b):
    S.le(name + " (not above)", sc(a), sc(b))
    S.le(name + " (not below)", sc(b), sc(a))


def _vech_ix(N):
    @harness(HARNESSES, "index.vech.upto%d" % N, points=3, timeout=120, paths=100)
    def h(S):
        n, s, d = S.integer("n", 1, N), S.integer("s", 0, N), S.integer("d", 0, N)
        r = s + d
        S.assume_lt(r, n)
        with ints(S, IU):
            i = IU.vech_inds_forwards(r, s, n)
            S.le("position is not negative", 0, sc(i))
            S.lt("position is below n(n+1)/2", sc(i), n * (n + 1) / 2)
            j, k = IU.vech_inds_reverse(i, n)
            same(S, "row recovered", j, r)
            same(S, "column recovered", k, s)


_vech_ix(12)


@harness(HARNESSES, "index.vec", points=3)
def _vec_ix(S):
    m, r, s = S.integer("m", 1, 50), S.integer("r", 0, 49), S.integer("s", 0, 50)
    S.assume_lt(r, m)
    j, k = IU.vec_inds_reverse(IU.vec_inds_forwards(r, s, m), m)
    same(S, "row recovered", j, r)
    same(S, "column recovered", k, s)
    same(S, "position is column times rows plus row", IU.vec_inds_forwards(r, s, m), s * m + r)


def _vecl_ix(N):
    @harness(HARNESSES, "index.vecl.upto%d" % N, points=3, timeout=120, paths=80)
    def h(S):
        n, s, d = S.integer("n", 2, N), S.integer("s", 0, N), S.integer("d", 1, N)
        r = s + d
        S.assume_lt(r, n)
        with ints(S, IU):
            i = IU.vecl_inds_forwards(r, s, n)
            S.le("position is not negative", 0, sc(i))
            S.lt("position is below n(n-1)/2", sc(i), n * (n - 1) / 2)
            j, k = IU.vecl_inds_reverse(i, n)
            same(S, "row recovered", j, r)
            same(S, "column recovered", k, s)


_vecl_ix(10)


@harness(HARNESSES, "index.triangular", points=3, timeout=120, paths=80)
def _tri(S):
    n = S.integer("n", 0, 120)
    with ints(S, IU):
        k = sc(IU.largest_triangular(n))
        S.le("triangular number does not exceed n", k * (k + 1) / 2, n)
        S.lt("the next one does", n, (k + 1) * (k + 2) / 2)


@harness(HARNESSES, "index.kronecker", points=3)
def _kr_ix(S):
    p, q = S.integer("p", 1, 4), S.integer("q", 1, 4)
    r, s, t, u = [S.integer(c, 0, 8) for c in "rstu"]
    S.assume_lt(t, p)
    S.assume_lt(u, q)
    i, j = IU.kronecker_indices_reverse(r, s, t, u, p, q)
    same(S, "row of the product", i, r * p + t)
    same(S, "column of the product", j, s * q + u)
    (a, b), (c, d) = IU.kronecker_indices_forward(i, j, p, q)
    for nm, x, y in (("first row", a, r), ("first column", b, s), ("second row", c, t), ("second column", d, u)):
        same(S, nm + " recovered", x, y)


def _order(nd):
    dims = [(3, 2, 4), (2, 3, 2)][0][:nd]

    @harness(HARNESSES, "index.orders.%dd" % nd, points=2)
    def h(S):
        X = S.array("X", dims, sample=(-1, 1))
        C, L = [], []
        for ix in np.ndindex(*dims):
            c, l = IU.colex_index_forward(np.array(ix), np.array(dims)), IU.lex_index_forward(np.array(ix), np.array(dims))
            C.append(colmajor_nd(X)[int(c)])
            L.append(np.ravel(X)[int(l)])
            S.true("colex undone at %s" % (ix,), tuple(int(v) for v in IU.colex_index_reverse(c, np.array(dims))) == ix)
            S.true("lex undone at %s" % (ix,), tuple(int(v) for v in IU.lex_index_reverse(l, np.array(dims))) == ix)
        S.eq("colex position is the column-major one", np.stack(C), np.ravel(X))
        S.eq("lex position is the row-major one", np.stack(L), np.ravel(X))


def colmajor_nd(X):
    return np.stack([X[tuple(ix[::-1])] for ix in np.ndindex(*X.shape[::-1])])


for _nd in (2, 3):
    _order(_nd)


def _ascend(k, p):
    @harness(HARNESSES, "index.ascending.k%dp%d" % (k, p), points=2)
    def h(S):
        asc = list(IU.ascending_indices((p,) * k))
        want = [t for t in itertools.product(range(p), repeat=k) if list(t) == sorted(t)]
        S.true("nondecreasing tuples, each once, in order", [tuple(t) for t in asc] == want)
        S.true("generator lists the same tuples", [tuple(t) for t in IU.ascending_indices_generator((p,) * k)] == want)
        colex = sorted(want, key=lambda t: t[::-1])
        fw = [int(IU.ascending_indices_forward(np.array(t))) for t in colex]
        fn = [int(IU.colex_ascending_indices_forward(np.array(t))) for t in colex]
        fd = [int(IU.colex_descending_indices_forward(np.array(t[::-1]))) for t in colex]
        S.true("position in colexicographic order", fw == list(range(len(colex))))
        S.true("position in colexicographic order (compiled)", fn == list(range(len(colex))))
        S.true("position in colexicographic order (descending)", fd == list(range(len(colex))))
        for i, t in enumerate(colex):
            S.true("tuple %d recovered" % i, tuple(int(v) for v in IU.ascending_indices_reversed(i, k, p)) == t)
            S.true("tuple %d recovered (compiled)" % i, tuple(int(v) for v in IU.colex_ascending_indices_reverse(i, (p,) * k)) == t)
            S.true("tuple %d recovered (descending)" % i, tuple(int(v) for v in IU.colex_descending_indices_reverse(i, (p,) * k)) == t[::-1])
        v = S.array("v", (2, len(want)), sample=(-1, 1))
        T = IU.fill_tensor(v, (p,) * k)
        S.eq("symmetric tensor holds each value at every permutation of its index", T,
             np.stack([v[:, want.index(tuple(sorted(ix)))] for ix in itertools.product(range(p), repeat=k)]).T.reshape((2,) + (p,) * k))


for _k, _p in ((1, 3), (2, 3), (3, 2), (3, 3)):
    _ascend(_k, _p)


def _tril(n, m, k):
    @harness(HARNESSES, "index.triangles.%dx%d.k%s" % (n, m, k), points=1)
    def h(S):
        A = M_(S, "A", n, m)
        lowf = [(i, j) for j in range(m) for i in range(n) if i - j >= -k]
        lowc = [(i, j) for i in range(n) for j in range(m) if i - j >= -k]
        upf = [(i, j) for j in range(m) for i in range(n) if j - i >= k]
        upc = [(i, j) for i in range(n) for j in range(m) if j - i >= k]

        def pick(ix):
            return A[np.asarray(ix[0]), np.asarray(ix[1])]

        def ref(l):
            return np.stack([A[t] for t in l]) if l else np.zeros(0)
        if n == m:
            S.eq("lower triangle by columns", pick(IU.tril_indices(n, k)), ref(lowf))
            S.eq("upper triangle by columns", pick(IU.triu_indices(n, k)), ref(upf))
            S.eq("diagonal", pick(IU.diag_indices(n, k)), ref([(i, i + k) for i in range(n) if 0 <= i + k < n]))
        S.eq("lower triangle by rows", pick(IU.tril_indices(n, k, m, "C")), ref(lowc))
        S.eq("upper triangle by rows", pick(IU.triu_indices(n, k, m, "C")), ref(upc))
        if n == m and k == 0:
            Y = S.symm("Y", n)
            v = LA.vech(Y)
            S.eq("positions of the diagonal in the half vectorisation", v[IU.vech_diag_indices(n)], np.stack([Y[i, i] for i in range(n)]))
            S.eq("its forward formula", np.stack([v[int(IU.vech_diag_indices_forward(i, n))] for i in range(n)]), np.stack([Y[i, i] for i in range(n)]))
            ii, ij = IU.commutation_matrix_indices(n, n)
            S.eq("commutation indices send vec X to vec X'", colmajor(A)[ij], colmajor(A.T))
            r, c = IU.duplication_matrix_indices(n)
            D = np.zeros((n * n, n * (n + 1) // 2))
            D[r, c] = 1.0
            S.eq("duplication indices send vech Y to vec Y", D.dot(v), colmajor(Y))
            r, c = IU.elimination_matrix_indices(n)
            S.eq("elimination indices send vec A to vech A", colmajor(A)[c], lowhalf(A))
        if n == m and k == -1 and n > 1:
            iv = IU.inv_tril_indices(n, -1)
            w = lowhalf(A, 1)
            S.eq("inverse indices fill both triangles", np.stack([w[int(iv[i, j])] for i in range(n) for j in range(n) if i != j]),
                 np.stack([A[max(i, j), min(i, j)] for i in range(n) for j in range(n) if i != j]))


for _a in ((2, 2, 0), (3, 3, 0), (4, 4, 0), (2, 2, -1), (3, 3, -1), (4, 4, -1), (3, 3, 1), (4, 4, 2), (3, 2, 0), (2, 3, 0), (2, 4, 1)):
    _tril(*_a)


@harness(HARNESSES, "lookup.match", points=3, paths=120)
def _match(S):
    x = S.array("x", 3, sample=(-1, 1))
    for i in range(3):
        for j in range(i):
            S.assume_ne(x[i], x[j])
    y = S.array("y", 2, sample=(-1, 1))
    for i in range(2):
        for j in range(3):
            S.assume_ne(y[i], x[j])
    q = np.stack([x[1], y[0], x[2], x[0], y[1]])
    r = IU.array_match(x, q)
    S.true("finds every value that occurs and no other", len(r) == 3)
    S.eq("in the order of the query", x[np.asarray(r)], np.stack([x[1], x[2], x[0]]))


def _uniq(n):
    @harness(HARNESSES, "lookup.unique.n%d" % n, points=3, paths=200)
    def h(S):
        x = S.array("x", n, sample=(-1, 1))
        u, inv, ind = IU.unique(x)
        S.eq("values rebuilt", u[np.asarray(inv)], x)
        S.eq("first occurrences", x[np.asarray(ind)], u)
        S.true("in order of first occurrence", all(ind[i] < ind[i + 1] for i in range(len(ind) - 1)))
        for i in range(len(u)):
            for j in range(i):
                S.true("values are distinct", bool(u[i] != u[j]))


for _n in (1, 2, 3):
    _uniq(_n)


def _mats(n, nm):
    @harness(HARNESSES, "matrices.second.%s.n%d" % (nm, n), points=2)
    def h(S):
        C = S.lower("C", n)
        LN, I, L, D2 = getattr(SM, nm)(n)
        l = lowhalf(C)
        LN, L, D2 = dn(LN), dn(L), dn(D2)
        dm = S.const if not S.sym else (lambda x: x)
        LN, L, D2 = [dm(np.asarray(x, dtype=float)) if not S.sym else x for x in (LN, L, D2)]
        J = np.dot(np.dot(LN, np.kron(C, np.eye(n))), L.T)
        Sg = np.dot(C, C.T)
        S.deriv("Jacobian of vech(CC') in vech(C)", J, of=lowhalf(Sg), wrt=[S.name_of(v) for v in l] if hasattr(S, "name_of") else ["C_%d_%d" % (i, j) for j in range(n) for i in range(j, n)])
        S.eq("second derivative matrix holds the Jacobian's linear dependence on C", np.dot(D2, l), colmajor(J))


for _n in (1, 2, 3):
    for _m in ("make_mats", "make_mats2"):
        _mats(_n, _m)
