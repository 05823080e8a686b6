"""Compiled sparse kernels and their Python wrappers against the dense definitions."""
import itertools
import numpy as np
import scipy as sp
import scipy.sparse
from symx.harness import harness
from symx.sparse import SSp
from pystatsm.utilities import python_wrappers as W

HARNESSES = []
FUNCTIONS = ["pystatsm.utilities.python_wrappers.{coo_to_csc,cs_add_inplace,cs_matmul_inplace,dense_sparse_kron,sparse_kron,sparse_kron_inplace,ds_kron,ds_kron_inplace,"
             "sparse_dense_kron,sparse_dense_kron_inplace,id_sp_kron,id_sp_kron_inplace,sparse_dot,sparse_pattern_trace,block_diag_self_dot,tile_1d,repeat_1d,"
             "naive_matmul_inplace,naive_matmul_inplace2}", "pystatsm.utilities.cython_wrappers (pyx)", "pystatsm.utilities.src.*.c"]
BOUNDS = ("every nonempty sparsity pattern of the named small shapes (up to 3 x 3), row indices in ascending or descending order where the kernel promises nothing about order; "
          "every stored value arbitrary; every buffer access inside its buffer")
ASSUMPTIONS = ["matrices with no stored entry are outside (the compiled wrappers reject empty buffers)", "complex kernels are outside"]


def sparse(data, indices, indptr, shape, S, fmt="csc"):
    indices, indptr = np.array(indices, dtype=np.int32), np.array(indptr, dtype=np.int32)
    if S.sym:
        return SSp(data, indices, indptr, shape, fmt)
    c = sp.sparse.csc_array if fmt == "csc" else sp.sparse.csr_array
    return c((np.asarray(data, dtype=float).copy(), indices, indptr), shape=shape)


def csc(S, name, pat, desc=False, fmt="csc"):
    """(sparse, dense) with symbolic values on a boolean pattern"""
    n, m = pat.shape
    D = S._arr(np.zeros((n, m), dtype=object)) if S.sym else np.zeros((n, m))
    V = S.array(name, (n, m), sample=(-2, 2))
    D = V * S.const(pat.astype(float))
    P = pat if fmt == "csc" else pat.T
    ind, ptr, dat = [], [0], []
    for j in range(P.shape[1]):
        rows = [i for i in range(P.shape[0]) if P[i, j]]
        if desc:
            rows = rows[::-1]
        ind += rows
        dat += [V[i, j] if fmt == "csc" else V[j, i] for i in rows]
        ptr.append(len(ind))
    dat = S._arr(np.array(dat, dtype=object)) if S.sym else np.array(dat, dtype=float)
    return sparse(dat, ind, ptr, (n, m), S, fmt), D


def zeros_like(S, pat, cap=None, fill=7.0, desc=False):
    """a result buffer with stale values on a pattern"""
    m = sparse(S.const(np.full(int(pat.sum()), fill)), *struct(pat, desc), pat.shape, S)
    return m


def struct(pat, desc=False):
    ind, ptr = [], [0]
    for j in range(pat.shape[1]):
        r = [i for i in range(pat.shape[0]) if pat[i, j]]
        ind += r[::-1] if desc else r
        ptr.append(len(ind))
    return ind, ptr


def patterns(n, m):
    out = []
    for bits in itertools.product([False, True], repeat=n * m):
        p = np.array(bits).reshape(n, m)
        if p.any():
            out.append(p)
    return out


def dense(S, C):
    """entries by definition of the compressed format, so that a malformed result cannot write outside the array"""
    if S.sym:
        return C.toarray()
    D = np.zeros(C.shape)
    for j in range(C.shape[1]):
        for p in range(C.indptr[j], C.indptr[j + 1]):
            D[C.indices[p], j] += C.data[p]
    return D


def valid(S, C, what):
    """indices in range and column pointers monotone"""
    ip, ii = np.asarray(C.indptr), np.asarray(C.indices)
    major, minor = (C.shape[1], C.shape[0])
    ok = len(ip) == major + 1 and ip[0] == 0 and all(np.diff(ip) >= 0) and ip[-1] <= len(ii) and all(0 <= i < minor for i in ii[:ip[-1]])
    S.true(what + " is a well formed matrix", bool(ok))


def tag(p):
    return "".join("01"[int(v)] for v in p.ravel())


SHAPES = [((1, 2), (2, 1)), ((2, 2), (2, 2)), ((2, 1), (2, 3)), ((2, 3), (2, 1))]


def pairs(sa, sb, step=1):
    return [(a, b) for k, (a, b) in enumerate(itertools.product(patterns(*sa), patterns(*sb))) if k % step == 0]


# ---- Kronecker products ------------------------------------------------------------------
for sa, sb in SHAPES:
    nm = "%dx%d,%dx%d" % (sa + sb)
    for desc in (False, True):
        for pa in patterns(*sa):
            @harness(HARNESSES, f"kron[{nm};{tag(pa)}{';unsorted' if desc else ''}]", points=1, timeout=60)
            def _kr(S, sa=sa, sb=sb, pa=pa, desc=desc):
                A, DA = csc(S, "a", pa, desc)
                for pb in patterns(*sb):
                    B, DB = csc(S, "b", pb, desc)
                    K = np.kron(DA, DB)
                    C = W.sparse_kron(A, B)
                    valid(S, C, "sparse kron sparse")
                    S.eq("sparse kron sparse", dense(S, C), K)
                    pk = np.kron(pa, pb)
                    out = zeros_like(S, pk)
                    out.indptr[:] = 0
                    r = W.sparse_kron(A, B, out=out)
                    S.eq("sparse kron sparse into a matrix", dense(S, r), K)
                    S.true("the given matrix is returned", r is out)
                    n = int(pk.sum())
                    bufs = (S.const(np.zeros(n)), np.zeros(n, dtype=np.int32), np.zeros(pk.shape[1] + 1, dtype=np.int32))
                    x, i, p = W.sparse_kron(A, B, out=bufs)
                    S.eq("sparse kron sparse into buffers", dense(S, sparse(x, i, p, pk.shape, S)), K)
                    C.data[:] = 0.0
                    S.eq("sparse kron sparse in place", dense(S, W.sparse_kron_inplace(A, B, C)), K)
    for pa in patterns(*sa):
        @harness(HARNESSES, f"dense kron[{nm};{tag(pa)}]", points=1, timeout=60)
        def _dk(S, sa=sa, sb=sb, pa=pa):
            A, DA = csc(S, "a", pa)
            M = S.array("m", sb, sample=(-2, 2))
            full = np.ones(sb, dtype=bool)
            for order in "CF":
                F = M if order == "C" else (M.T.copy()).T
                for f, fi, args, K, pk in (("ds_kron", "ds_kron_inplace", (F, A), np.kron(M, DA), np.kron(full, pa)),
                                           ("sparse_dense_kron", "sparse_dense_kron_inplace", (A, F), np.kron(DA, M), np.kron(pa, full)),
                                           ("dense_sparse_kron", None, (F, A), np.kron(M, DA), np.kron(full, pa))):
                    C = getattr(W, f)(*args)
                    valid(S, C, f)
                    S.eq(f, dense(S, C), K)
                    out = zeros_like(S, pk)
                    out.indptr[:] = 0
                    r = getattr(W, f)(*args, out=out)
                    S.eq(f + " into a matrix", dense(S, r), K)
                    n = int(pk.sum())
                    bufs = (S.const(np.zeros(n)), np.zeros(n, dtype=np.int32), np.zeros(pk.shape[1] + 1, dtype=np.int32))
                    x, i, p = getattr(W, f)(*args, out=bufs)
                    S.eq(f + " into buffers", dense(S, sparse(x, i, p, pk.shape, S)), K)
                    if fi:
                        C.data[:] = 0.0
                        S.eq(f + " in place", dense(S, getattr(W, fi)(*args, C)), K)
                        x = S.const(np.zeros(n))
                        r = getattr(W, fi)(*args, x)
                        S.eq(f + " in place into values", r, C.data)

for shape in ((1, 1), (2, 2), (2, 1), (1, 2), (2, 3), (3, 2)):
    for m in (1, 2, 3):
        @harness(HARNESSES, f"identity kron[{m};{shape[0]}x{shape[1]}]", points=1, timeout=60)
        def _ik(S, m=m, shape=shape):
            for pb in patterns(*shape):
                for desc in (False, True):
                    B, DB = csc(S, "b", pb, desc)
                    K = np.kron(S.const(np.eye(m)), DB)
                    C = W.id_sp_kron(m, B)
                    valid(S, C, "identity kron sparse")
                    S.eq("identity kron sparse", dense(S, C), K)
                    C.data[:] = 0.0
                    S.eq("identity kron sparse in place", dense(S, W.id_sp_kron_inplace(m, B, C)), K)

# ---- sums and products -------------------------------------------------------------------
for shape in ((1, 3), (3, 1), (2, 2), (3, 2)):
    for pa in patterns(*shape):
        if tag(pa).count("1") > 4:
            continue

        @harness(HARNESSES, f"add[{shape[0]}x{shape[1]};{tag(pa)}]", points=1, timeout=60)
        def _ad(S, shape=shape, pa=pa):
            A, DA = csc(S, "a", pa)
            al, be = S.real("alpha"), S.real("beta")
            for k, pb in enumerate(patterns(*shape)):
                B, DB = csc(S, "b", pb, desc=k % 2 == 1)
                for pc in {tag(q): q for q in (pa | pb, np.ones(shape, dtype=bool))}.values():
                    C = zeros_like(S, pc, desc=k % 3 == 1)
                    r = W.cs_add_inplace(A, B, C, al, be)
                    S.eq("alpha A + beta B", dense(S, C), al * DA + be * DB)
                    S.true("the given matrix is returned", r is C)
                    r = W.cs_add_inplace(A, B, C)
                    S.eq("A + B, buffer reused", dense(S, C), DA + DB)

for sa, sb in (((2, 2), (2, 2)), ((3, 2), (2, 1)), ((1, 3), (3, 2)), ((3, 1), (1, 2)), ((2, 3), (3, 1))):
    for pa in patterns(*sa):
        @harness(HARNESSES, f"product[{sa[0]}x{sa[1]},{sb[0]}x{sb[1]};{tag(pa)}]", points=1, timeout=60)
        def _mm(S, sa=sa, sb=sb, pa=pa):
            for k, pb in enumerate(patterns(*sb)):
                A, DA = csc(S, "a", pa, desc=k % 2 == 1)
                B, DB = csc(S, "b", pb, desc=k % 3 == 1)
                pc = pa.astype(int) @ pb.astype(int) > 0
                if not pc.any():
                    continue
                C = zeros_like(S, pc)
                for use in ("first", "second"):
                    r = W.cs_matmul_inplace(A, B, C)
                    valid(S, C, "product")
                    S.eq(f"A B, {use} use of the buffer", dense(S, C), DA @ DB)
                    ip, ii = np.asarray(C.indptr), np.asarray(C.indices)
                    S.true(f"rows of the product ascend, {use} use of the buffer",
                           bool(all(all(np.diff(ii[ip[j]:ip[j + 1]]) > 0) for j in range(sb[1]))))
                S.true("the given matrix is returned", r is C)

for pa in patterns(1, 3) + patterns(1, 4):
    @harness(HARNESSES, f"dot[{tag(pa)}]", points=1, timeout=60)
    def _dt(S, pa=pa):
        c = S.real("c")
        for pb in patterns(*pa.shape):
            A, DA = csc(S, "a", pa.T)
            B, DB = csc(S, "b", pb.T)
            S.eq("dot product", W.sparse_dot(A, B), (DA * DB).sum())
            S.eq("dot product added to a start value", W.sparse_dot(A, B, c), c + (DA * DB).sum())

for shape in ((2, 2), (3, 2), (1, 3)):
    for pb in patterns(*shape):
        @harness(HARNESSES, f"pattern trace[{shape[0]}x{shape[1]};{tag(pb)}]", points=1, timeout=60)
        def _pt(S, shape=shape, pb=pb):
            k = shape[1]
            pcs = patterns(k, k)
            if k == 3:
                pcs = [p for n, p in enumerate(pcs) if n % 7 == 0]
            for pc in pcs:
                for desc in (False, True):
                    B, DB = csc(S, "b", pb, desc)
                    C, DC = csc(S, "c", pc, desc)
                    t = ((DB.T @ DB) * DC).sum()
                    S.eq("sum of B'B over the entries of C", W.sparse_pattern_trace(B, C), t)
            s = S.real("s")
            S.eq("added to a start value", W.sparse_pattern_trace(B, C, s), s + t)

for ng, nv, nc in ((1, 2, 2), (2, 2, 2), (2, 1, 3), (1, 3, 2), (2, 2, 1)):
    for desc in (False, True):
        @harness(HARNESSES, f"block diagonal self product[{ng};{nv};{nc}{';unsorted' if desc else ''}]", points=1, timeout=120)
        def _bd(S, ng=ng, nv=nv, nc=nc, desc=desc):
            for pl in patterns(ng * nv, nc):
                L, D = csc(S, "l", pl, desc, "csr")
                ref = sum(D[j * nv:(j + 1) * nv] @ D[j * nv:(j + 1) * nv].T for j in range(ng))
                S.eq("sum over levels of L L'", W.block_diag_self_dot(L, ng, nv), ref)
            out = S.const(np.full((nv, nv), 5.0))
            S.eq("into a buffer", W.block_diag_self_dot(L, ng, nv, out=out), ref)


@harness(HARNESSES, "coordinate to compressed", points=1, timeout=120)
def _cc(S):
    for n, m, nz in ((2, 2, 1), (2, 2, 2), (2, 3, 2), (3, 2, 3), (2, 4, 2)):
        for rows in itertools.product(range(n), repeat=nz):
            for cols in itertools.product(range(m), repeat=nz):
                v = S.array("v", nz, sample=(-2, 2))
                D = S.const(np.zeros((n, m)))
                for i, j, x in zip(rows, cols, v):
                    D[i, j] = D[i, j] + x
                C = W.coo_to_csc(np.array(rows), np.array(cols), v, (n, m))
                valid(S, C, "compressed")
                S.eq("entries, repeated coordinates summed", dense(S, C), D)
                shape, nnz, bp, bi, bx = W.coo_to_csc(np.array(rows), np.array(cols), v, (n, m), return_array=False)
                S.true("shape and count", shape == (n, m) and nnz == nz)
                S.eq("buffers", dense(S, sparse(bx, bi, bp, (n, m), S)), D)


for n in (1, 2, 3):
    @harness(HARNESSES, f"tile and repeat[{n}]", points=1)
    def _tr(S, n=n):
        v = S.array("v", n, sample=(-2, 2))
        for r in (1, 2, 3):
            S.eq("tiled", W.tile_1d(v, r), np.concatenate([v] * r))
            S.eq("repeated", W.repeat_1d(v, r), S._arr(np.array([v[i] for i in range(n) for _ in range(r)], dtype=object)) if S.sym else np.repeat(v, r))
            o = S.const(np.zeros(n * r))
            W.tile_1d(v, r, out=o)
            S.eq("tiled into a buffer", o, np.concatenate([v] * r))

for n, k, m in ((1, 1, 1), (2, 3, 1), (1, 2, 3), (3, 2, 2)):
    @harness(HARNESSES, f"dense product[{n};{k};{m}]", points=1)
    def _nm(S, n=n, k=k, m=m):
        A, B = S.array("a", (n, k), sample=(-2, 2)), S.array("b", (k, m), sample=(-2, 2))
        for f in ("naive_matmul_inplace", "naive_matmul_inplace2"):
            S.eq(f, getattr(W, f)(A, B), A @ B)
            C = S.const(np.full((n, m), 3.0))
            getattr(W, f)(A, B, C)
            S.eq(f + " into a buffer", C, A @ B)
