"""Sparse matrices with concrete structure and symbolic values.

SSp keeps (data, indices, indptr) in csc or csr order, data an array of Expr, so that code which
writes into .data (the C kernels) or relies on the position of entries is followed faithfully.
Structural operations (transpose, slicing, format change, stacking, ...) are delegated to scipy on a
matrix of entry numbers; arithmetic is done entry by entry."""
import numpy as np
import scipy as sp
import scipy.sparse as sps

from . import expr as E
from .expr import Expr
from . import shim


def _iszero(e):
    return isinstance(e, Expr) and e.op == "C" and e.c == 0


class SSp:
    __array_ufunc__ = None
    __array_priority__ = 1e6
    ndim = 2

    def __init__(self, data, indices, indptr, shape, fmt="csc", mat=False, sorted_=None):
        self.data = data if isinstance(data, shim.SArr) else shim.sarr(data)
        self.indices, self.indptr = indices, indptr
        self.shape, self._fmt, self._mat = tuple(int(i) for i in shape), fmt, mat
        self._sorted = sorted_

    @property
    def has_sorted_indices(self):
        # scipy caches the answer on the object
        if self._sorted is None:
            self._sorted = bool(self._struct().has_sorted_indices)
        return self._sorted

    @has_sorted_indices.setter
    def has_sorted_indices(self, v):
        self._sorted = bool(v)

    # ---- structure -----------------------------------------------------------------
    @property
    def nnz(self):
        return int(self.indptr[-1])

    size = nnz

    @property
    def format(self):
        return self._fmt

    def getnnz(self, axis=None):
        return self._struct().getnnz(axis)

    @property
    def dtype(self):
        return np.dtype(float)

    def get_shape(self):
        return self.shape

    def _struct(self):
        c = sps.csc_array if self._fmt == "csc" else sps.csr_array
        n = self.nnz
        return c((np.arange(1, n + 1, dtype=float), np.asarray(self.indices)[:n].copy(), np.asarray(self.indptr).copy()), shape=self.shape)

    def _from(self, st, fmt=None):
        """matrix holding this one's entries at the positions of st (entries are entry numbers)"""
        if not sps.issparse(st):
            raise E.NotEncodable("sparse structure")
        fmt = fmt or (st.format if st.format in ("csc", "csr") else self._fmt)
        st = st.asformat(fmt)
        k = st.data.astype(int) - 1
        return SSp(shim.sarr(self.data.view(np.ndarray)[k]) if len(k) else shim.sarr(np.empty(0, dtype=object)),
                   st.indices.copy(), st.indptr.copy(), st.shape, fmt, self._mat)

    def _dict(self):
        d = {}
        v = self.data.view(np.ndarray)
        for j in range(len(self.indptr) - 1):
            for p in range(int(self.indptr[j]), int(self.indptr[j + 1])):
                i = int(self.indices[p])
                key = (i, j) if self._fmt == "csc" else (j, i)
                d[key] = d[key] + v[p] if key in d else v[p]
        return d

    @classmethod
    def of_dict(cls, d, shape, fmt="csc", mat=False):
        keys = sorted(d, key=(lambda t: (t[1], t[0])) if fmt == "csc" else (lambda t: t))
        nmaj = shape[1] if fmt == "csc" else shape[0]
        indptr = np.zeros(nmaj + 1, dtype=np.int32)
        ind = np.zeros(len(keys), dtype=np.int32)
        data = np.empty(len(keys), dtype=object)
        for n, (i, j) in enumerate(keys):
            indptr[(j if fmt == "csc" else i) + 1] += 1
            ind[n] = i if fmt == "csc" else j
            data[n] = E.lift(d[(i, j)])
        return cls(shim.sarr(data), ind, np.cumsum(indptr).astype(np.int32), shape, fmt, mat)

    @classmethod
    def real(cls, M):
        """from a scipy sparse matrix of numbers"""
        fmt = M.format if M.format in ("csc", "csr") else "csc"
        mat = isinstance(M, sps.spmatrix)
        M = M.asformat(fmt)
        return cls(shim.sarr(np.asarray(M.data, dtype=float)), M.indices.copy(), M.indptr.copy(), M.shape, fmt, mat, getattr(M, "_has_sorted_indices", None))

    @property
    def T(self):
        return self.transpose()

    def transpose(self, axes=None, copy=False):
        return SSp(self.data.copy() if copy else self.data, self.indices, self.indptr, self.shape[::-1], "csr" if self._fmt == "csc" else "csc", self._mat)

    def asformat(self, f, copy=False):
        if f in (None, self._fmt):
            return self.copy() if copy else self
        if f == "coo":
            return SCoo(self)
        if f == "array":
            return self.toarray()
        return self._from(self._struct().asformat(f), f)

    def tocsc(self, copy=False):
        return self.asformat("csc", copy)

    def tocsr(self, copy=False):
        return self.asformat("csr", copy)

    def tocoo(self, copy=False):
        return SCoo(self)

    def tolil(self, copy=False):
        return self.copy()

    def copy(self):
        return SSp(self.data.copy(), self.indices.copy(), self.indptr.copy(), self.shape, self._fmt, self._mat)

    def astype(self, t, *a, **k):
        return self.copy()

    def sort_indices(self):
        if self.has_sorted_indices:
            return
        self._sorted = True
        s = self._struct()
        s.has_sorted_indices = False
        s.sort_indices()
        k = s.data.astype(int) - 1
        n = len(k)
        self.data[:n] = shim.sarr(self.data.view(np.ndarray)[k]) if n else self.data[:0]
        self.indices[:n] = s.indices

    def sorted_indices(self):
        r = self.copy()
        r.sort_indices()
        return r

    def eliminate_zeros(self):
        s = self._struct()
        v = self.data.view(np.ndarray)
        for k in range(self.nnz):
            if _iszero(v[k]):
                s.data[k] = 0.0
        s.eliminate_zeros()
        r = self._from(s, self._fmt)
        self.data, self.indices, self.indptr = r.data, r.indices, r.indptr

    def sum_duplicates(self):
        r = SSp.of_dict(self._dict(), self.shape, self._fmt)
        self.data, self.indices, self.indptr = r.data, r.indices, r.indptr

    def prune(self):
        pass

    def __getitem__(self, k):
        if isinstance(k, tuple):
            k = tuple(shim._asindex(i) if isinstance(i, (shim.SArr, Expr)) else i for i in k)
        st = (sps.csc_matrix(self._struct()) if self._mat else self._struct())
        r = st[k]
        if np.isscalar(r) or not sps.issparse(r):
            i = int(r)
            return self.data[i - 1] if i else E.ZERO
        if r.ndim == 1:
            return self._from(r.reshape(1, -1)).toarray().ravel()
        return self._from(r)

    def toarray(self, order=None, out=None):
        o = np.empty(self.shape, dtype=object)
        o[...] = E.ZERO
        for (i, j), v in self._dict().items():
            o[i, j] = v
        return shim.sarr(o)

    todense = toarray

    @property
    def A(self):
        return self.toarray()

    def diagonal(self, k=0):
        d = self._dict()
        n = min(self.shape[0] - max(-k, 0), self.shape[1] - max(k, 0))
        return shim.sarr([d.get((i + max(-k, 0), i + max(k, 0)), E.ZERO) for i in range(n)])

    def trace(self, offset=0):
        return shim._reduce("add", self.diagonal(offset))

    def nonzero(self):
        return self._struct().nonzero()

    def reshape(self, *shape, order="C", copy=False):
        shape = shape[0] if len(shape) == 1 and not np.isscalar(shape[0]) else shape
        return self._from(self._struct().reshape(shape, order=order))

    def sum(self, axis=None, dtype=None, out=None):
        r = shim._reduce("add", self.toarray(), axis)
        if axis is not None and self._mat:
            r = r.reshape((1, -1) if axis in (0, -2) else (-1, 1))
        return r

    def mean(self, axis=None, **k):
        return shim.mean(self.toarray(), axis)

    def max(self, axis=None, **k):
        return shim._reduce("maximum", self.toarray(), axis)

    # ---- arithmetic ----------------------------------------------------------------
    def _map(self, f):
        return SSp(f(self.data), self.indices.copy(), self.indptr.copy(), self.shape, self._fmt, self._mat)

    def __neg__(self):
        return self._map(lambda d: -d)

    def __abs__(self):
        return self._map(lambda d: abs(d))

    def power(self, n, dtype=None):
        return self._map(lambda d: d ** n)

    def sqrt(self):
        return self._map(lambda d: shim.unary("sqrt", d))

    def __pow__(self, n):
        if self._mat:
            r = self
            for _ in range(int(n) - 1):
                r = r @ self
            return r
        return self.power(n)

    def _scalar(self, o):
        return isinstance(o, Expr) or np.isscalar(o) or (isinstance(o, np.ndarray) and o.ndim == 0)

    def _sp(self, o):
        if isinstance(o, SSp):
            return o
        if isinstance(o, SCoo):
            return o.tocsc()
        if sps.issparse(o):
            return SSp.real(o)
        return None

    def _addsub(self, o, s, rev=False):
        if self._scalar(o):
            if not isinstance(o, Expr) and float(o) == 0:
                return self.copy() if not rev or s > 0 else -self
            raise NotImplementedError("adding a nonzero scalar to a sparse matrix is not supported")
        b = self._sp(o)
        if b is None:
            o = shim.sarr(o)
            d = self.toarray()
            return (o + d if s > 0 else o - d) if rev else (d + o if s > 0 else d - o)
        if b.shape != self.shape:
            raise ValueError("inconsistent shapes")
        d = dict(self._dict())
        if rev and s < 0:
            d = {k: -v for k, v in d.items()}
            s = 1
        for k, v in b._dict().items():
            w = v if s > 0 else -v
            d[k] = d[k] + w if k in d else w
        return SSp.of_dict({k: v for k, v in d.items() if not _iszero(v)}, self.shape, self._fmt, self._mat)

    def __add__(self, o):
        return self._addsub(o, 1)

    def __radd__(self, o):
        return self._addsub(o, 1, True)

    def __sub__(self, o):
        return self._addsub(o, -1)

    def __rsub__(self, o):
        return self._addsub(o, -1, True)

    def _mm(self, o):
        b = self._sp(o)
        if b is None:
            return shim.matmul(self.toarray(), shim.sarr(o))
        if self.shape[1] != b.shape[0]:
            raise ValueError("matmul: dimension mismatch")
        rows = {}
        for (i, j), v in b._dict().items():
            rows.setdefault(i, []).append((j, v))
        d = {}
        for (i, k), v in self._dict().items():
            for j, w in rows.get(k, ()):
                t = v * w
                d[(i, j)] = d[(i, j)] + t if (i, j) in d else t
        if shim.EAGER[0]:
            d = {k: shim._ez(v) for k, v in d.items()}
        return SSp.of_dict(d, (self.shape[0], b.shape[1]), self._fmt, self._mat)

    def __matmul__(self, o):
        if self._scalar(o):
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        return self._mm(o)

    def __rmatmul__(self, o):
        b = self._sp(o)
        if b is not None:
            return b._mm(self)
        return shim.matmul(shim.sarr(o), self.toarray())

    def dot(self, o):
        return self * o if self._scalar(o) else self._mm(o)

    def multiply(self, o):
        if self._scalar(o):
            o = o.item() if isinstance(o, np.ndarray) else o
            return self._map(lambda d: d * o)
        b = self._sp(o)
        if b is not None and b.shape == self.shape:
            e = b._dict()
            return SSp.of_dict({k: v * e[k] for k, v in self._dict().items() if k in e}, self.shape, self._fmt, self._mat)
        w = b.toarray() if b is not None else shim.sarr(o)
        w = np.broadcast_to(w.view(np.ndarray), self.shape)
        return SSp.of_dict({k: v * w[k] for k, v in self._dict().items()}, self.shape, self._fmt, self._mat)

    def __mul__(self, o):
        if self._scalar(o):
            return self.multiply(o)
        return self._mm(o) if self._mat else self.multiply(o)

    def __rmul__(self, o):
        if self._scalar(o):
            return self.multiply(o)
        return self.__rmatmul__(o) if self._mat else self.multiply(o)

    def __imul__(self, o):
        self.data[:] = self.data * o
        return self

    def __truediv__(self, o):
        if self._scalar(o):
            return self._map(lambda d: d / o)
        raise E.NotEncodable("sparse / matrix")

    def maximum(self, o):
        raise E.NotEncodable("sparse maximum")


class SCoo:
    """coordinate view: enough for row/col/data readers and the way back"""
    __array_ufunc__ = None
    format = "coo"
    ndim = 2

    def __init__(self, m):
        m2 = m.asformat("csr") if m._fmt == "csr" else m
        self._m, self.shape, self.data = m2, m2.shape, m2.data
        s = m2._struct().tocoo()
        self.row, self.col = s.row.copy(), s.col.copy()

    @property
    def nnz(self):
        return len(self.row)

    def _s(self):
        return SSp.of_dict({}, self.shape) if not len(self.row) else build(None, (self.data, (self.row, self.col)), self.shape, "csc", self._m._mat)

    def __getattr__(self, k):
        return getattr(self._s(), k)

    def __matmul__(self, o):
        return self._s() @ o


def build(real, arg, shape, fmt, mat):
    if isinstance(arg, SCoo):
        arg = arg._s()
    if isinstance(arg, SSp):
        r = arg.asformat(fmt).copy()
        r._mat = mat
        return r
    if sps.issparse(arg):
        r = SSp.real(arg).asformat(fmt)
        r._mat = mat
        return r
    if isinstance(arg, tuple) and len(arg) == 3:
        d, i, p = arg
        if shape is None:
            major = len(p) - 1
            minor = int(np.max(i)) + 1 if len(i) else 0
            shape = (minor, major) if fmt == "csc" else (major, minor)
        i, p = np.asarray(i), np.asarray(p)
        i = i.astype(np.int32) if i.dtype != np.int32 else i
        p = p.astype(np.int32) if p.dtype != np.int32 else p
        r = SSp(d if isinstance(d, shim.SArr) else shim.sarr(d), i, p, shape, fmt, mat)
        _check(r)
        return r
    if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
        d, (i, j) = arg
        d = shim.sarr(d)
        i, j = np.asarray(i).astype(int), np.asarray(j).astype(int)
        if shape is None:
            shape = (int(i.max()) + 1, int(j.max()) + 1)
        e = {}
        v = d.view(np.ndarray)
        for k in range(len(i)):
            key = (int(i[k]), int(j[k]))
            if not (0 <= key[0] < shape[0] and 0 <= key[1] < shape[1]):
                raise ValueError("row or column index exceeds matrix dimensions")
            e[key] = e[key] + v[k] if key in e else v[k]
        return SSp.of_dict(e, shape, fmt, mat)
    if isinstance(arg, tuple) and len(arg) == 2:
        return SSp.of_dict({}, tuple(int(s) for s in arg), fmt, mat)
    a = shim.sarr(arg)
    if a.ndim == 1:
        a = a.reshape(1, -1)
    v = a.view(np.ndarray)
    return SSp.of_dict({(i, j): v[i, j] for i in range(a.shape[0]) for j in range(a.shape[1]) if not _iszero(v[i, j])}, a.shape, fmt, mat)


def _check(r):
    major = r.shape[1] if r._fmt == "csc" else r.shape[0]
    minor = r.shape[0] if r._fmt == "csc" else r.shape[1]
    if len(r.indptr) != major + 1:
        raise ValueError("index pointer size %d should be %d" % (len(r.indptr), major + 1))
    if r.indptr[0] != 0 or (np.diff(r.indptr) < 0).any():
        raise ValueError("index pointer not monotone from zero")
    n = int(r.indptr[-1])
    if len(r.indices) < n or len(r.data) < n:
        raise ValueError("last value of index pointer should be at most the number of entries")
    if n and (np.min(r.indices[:n]) < 0 or np.max(r.indices[:n]) >= minor):
        raise ValueError("indices out of range")


def _symb(x):
    return isinstance(x, (SSp, SCoo, Expr)) or (isinstance(x, np.ndarray) and x.dtype == object)


def anysym(*xs):
    return any(_symb(x) or (isinstance(x, (list, tuple)) and anysym(*x)) for x in xs)


class Ctor:
    def __init__(self, real, fmt, mat):
        self.real, self.fmt, self.mat = real, fmt, mat
        self.__name__ = real.__name__

    def __call__(self, arg, shape=None, dtype=None, copy=False, **k):
        if anysym(arg):
            return build(self.real, arg, shape, self.fmt, self.mat)
        return self.real(arg, shape=shape, dtype=dtype, copy=copy, **k)

    @staticmethod
    def dot(a, b):
        return a * b if isinstance(b, Expr) or np.isscalar(b) else a @ b

    def __getattr__(self, k):
        return getattr(self.real, k)

    def __instancecheck__(self, x):
        if isinstance(x, SSp):
            return self.fmt == x._fmt and (self.mat == x._mat)
        return isinstance(x, self.real)


def _sp_or(real, f):
    def g(*a, **k):
        if anysym(*a) or anysym(*k.values()):
            return f(*a, **k)
        return real(*a, **k)
    g.__name__ = real.__name__
    return g


def _as(m, fmt=None):
    if isinstance(m, SCoo):
        m = m._s()
    if isinstance(m, SSp):
        return m
    if sps.issparse(m):
        return SSp.real(m)
    return build(None, m, None, "csc", False)


def _fmt(r, format):
    return r.asformat(format) if format in ("csc", "csr") else r


def kron(A, B, format=None):
    A, B = _as(A), _as(B)
    q, s = B.shape
    db = B._dict()
    d = {(i * q + k, j * s + l): v * w for (i, j), v in A._dict().items() for (k, l), w in db.items()}
    return SSp.of_dict(d, (A.shape[0] * q, A.shape[1] * s), format if format in ("csc", "csr") else "csc", A._mat and B._mat)


def block_diag(mats, format=None, dtype=None):
    d, r, c = {}, 0, 0
    mat = True
    for m in mats:
        m = _as(m)
        mat = mat and m._mat
        for (i, j), v in m._dict().items():
            d[(i + r, j + c)] = v
        r, c = r + m.shape[0], c + m.shape[1]
    return SSp.of_dict(d, (r, c), format if format in ("csc", "csr") else "csc", mat)


def bmat(blocks, format=None, dtype=None):
    R, C = len(blocks), len(blocks[0])
    B = [[None if b is None else _as(b) for b in row] for row in blocks]
    rs = [next(b.shape[0] for b in row if b is not None) for row in B]
    cs = [next(B[i][j].shape[1] for i in range(R) if B[i][j] is not None) for j in range(C)]
    d = {}
    mat = True
    for i in range(R):
        for j in range(C):
            b = B[i][j]
            if b is None:
                continue
            if b.shape != (rs[i], cs[j]):
                raise ValueError("incompatible block dimensions")
            mat = mat and b._mat
            for (p, q), v in b._dict().items():
                d[(p + sum(rs[:i]), q + sum(cs[:j]))] = v
    fm = format if format in ("csc", "csr") else next((b._fmt for row in B for b in row if b is not None), "csc")
    return SSp.of_dict(d, (sum(rs), sum(cs)), fm, mat)


def hstack(blocks, format=None, dtype=None):
    return bmat([list(blocks)], format)


def vstack(blocks, format=None, dtype=None):
    return bmat([[b] for b in blocks], format)


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None, **k):
    if np.isscalar(offsets):
        if isinstance(diagonals, np.ndarray) and diagonals.ndim == 1:
            diagonals = [diagonals]
        elif isinstance(diagonals, (list, tuple)) and len(diagonals) and not hasattr(diagonals[0], "__len__"):
            diagonals = [diagonals]
        offsets = [offsets]
    offsets = [int(o) for o in offsets]
    if shape is None:
        m = len(diagonals[0]) + abs(offsets[0])
        shape = (m, m)
    d = {}
    for dg, o in zip(diagonals, offsets):
        dg = shim.sarr(dg)
        n = min(shape[0] + min(o, 0), shape[1] - max(o, 0))
        for i in range(n):
            d[(i + max(-o, 0), i + max(o, 0))] = dg[i] if dg.shape[0] > 1 else dg[0]
    return SSp.of_dict(d, shape, format if format in ("csc", "csr") else "csc", False)


def tri(A, k, lower, format=None):
    A = _as(A)
    return SSp.of_dict({(i, j): v for (i, j), v in A._dict().items() if (j - i <= k if lower else j - i >= k)}, A.shape, A._fmt, A._mat)


def find(A):
    c = _as(A)._struct().tocoo()
    A = _as(A)
    return c.row, c.col, shim.sarr(A.data.view(np.ndarray)[c.data.astype(int) - 1])


def spsolve(A, b, **k):
    return shim.solve(shim.sarr(A), b)


PERM = ["rev"]


class CholmodFactor:
    """exact model of sksparse's CholeskyFactor: P A P' = L L' for a fixed fill-reducing permutation P
    (which one is CHOLMOD's choice: PERM selects it); only the lower triangle of A is read"""

    def __init__(self, A, *args, **k):
        n = A.shape[0]
        self.n = n
        self.perm = np.arange(n)[::-1].copy() if PERM[0] == "rev" else np.roll(np.arange(n), 1) if PERM[0] == "roll" else np.arange(n)
        self.is_ll = True
        self._L = None

    def factorize(self, A):
        M = np.asarray(_as(A).toarray()).view(np.ndarray)
        M = np.tril(M) + np.tril(M, -1).T
        M = M[self.perm][:, self.perm]
        self._L = shim.cholesky(shim.sarr(M))
        return self

    def change_factor(self, kind="LL", **k):
        self.is_ll = kind == "LL"

    def _ld(self):
        L = self._L.view(np.ndarray)
        d = np.diag(L)
        return shim.sarr(L / d[None, :]), shim.sarr(d * d)

    def get_factor(self, kind="LL", lower=True):
        L = self._L if kind == "LL" else self._ld()[0]
        L = _as(L)
        return L if lower else L.T

    @property
    def D(self):
        d = self._ld()[1]

        class _D:
            def diagonal(self):
                return d
        return _D()

    def solve(self, b, system="A"):
        issp = isinstance(b, (SSp, SCoo)) or sps.issparse(b)
        r = _as(b).toarray() if issp else shim.sarr(b)
        one = r.ndim == 1
        if one:
            r = r.reshape(-1, 1)
        if system in (None, "A"):
            x = shim.cho_solve((self._L, True), r[self.perm])[np.argsort(self.perm)]
        else:
            L = self._L if self.is_ll else self._ld()[0]
            if system == "L":
                x = shim.solve_triangular(L, r, lower=True)
            elif system == "Lt":
                x = shim.solve_triangular(L.T, r, lower=False)
            else:
                raise E.NotEncodable(f"cholmod solve {system}")
        if one:
            return x.reshape(-1)
        return _as(x) if issp else x

    def slogdet(self):
        return 1.0, 2.0 * shim.sarr(np.array([E.fn("log", v) for v in np.diag(self._L.view(np.ndarray))], dtype=object)).sum()

    def inv(self):
        return _as(self.solve(shim.sarr(np.eye(self.n))))


def cho_factor(A, beta=0, sym_kind=None, **k):
    A = _as(A)
    if sym_kind == "row":
        A = A.dot(A.T)
    if beta != 0:
        A = A + SSp.real(sps.eye(A.shape[0], format="csc") * beta)
    return CholmodFactor(A).factorize(A)


def overrides():
    over, byid = {}, {}
    try:
        import sksparse.cholmod as ch
        byid[id(ch.CholeskyFactor)] = CholmodFactor
        byid[id(ch.cho_factor)] = cho_factor
    except Exception:
        pass
    for nm, fmt, mat in (("csc_matrix", "csc", True), ("csc_array", "csc", False), ("csr_matrix", "csr", True), ("csr_array", "csr", False),
                         ("coo_matrix", "csc", True), ("coo_array", "csc", False), ("lil_matrix", "csc", True)):
        over[nm] = Ctor(getattr(sps, nm), fmt, mat)
    fs = {"kron": kron, "block_diag": block_diag, "bmat": bmat, "block_array": bmat, "hstack": hstack, "vstack": vstack,
          "diags": diags, "diags_array": diags, "find": find,
          "tril": lambda A, k=0, format=None: tri(A, k, True, format), "triu": lambda A, k=0, format=None: tri(A, k, False, format)}
    for nm, f in fs.items():
        if hasattr(sps, nm):
            over[nm] = _sp_or(getattr(sps, nm), f)
    issp = sps.issparse
    over["issparse"] = lambda x: isinstance(x, (SSp, SCoo)) or issp(x)
    over["isspmatrix"] = lambda x: (isinstance(x, SSp) and x._mat) or sps.isspmatrix(x)
    over["isspmatrix_csc"] = lambda x: (isinstance(x, SSp) and x._mat and x._fmt == "csc") or sps.isspmatrix_csc(x)
    over["isspmatrix_csr"] = lambda x: (isinstance(x, SSp) and x._mat and x._fmt == "csr") or sps.isspmatrix_csr(x)
    la = {"spsolve": _sp_or(sps.linalg.spsolve, spsolve), "inv": _sp_or(sps.linalg.inv, lambda A: _as(shim.inv(shim.sarr(A))))}
    pla = shim.Proxy(sps.linalg, la)
    over["linalg"] = pla
    p = shim.Proxy(sps, over)
    byid[id(sps)] = p
    byid[id(sps.linalg)] = pla
    for k, v in over.items():
        r = getattr(sps, k, None)
        if r is not None and k != "linalg":
            byid[id(r)] = v
    return p, byid


shim.SSparse = SSp
