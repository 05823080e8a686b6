"""numpy / scipy stand-ins for symbolic execution.

SArr is an object-dtype ndarray of Expr which intercepts every ufunc and numpy
function; patched() replaces, inside the loaded pystatsm modules only, the array
creation routines, linear algebra and non-ufunc special functions.
"""
from fractions import Fraction
import contextlib
import itertools
import math
import sys
import types
import numpy as np
import scipy as sp
import scipy.special
import scipy.linalg
import scipy.stats
import scipy.sparse
import scipy.optimize
from . import expr as E
from .expr import Expr, NotEncodable, fn, lift

EAGER = [False]       # simplify every entry of products, inverses and triangular solves (harness option)
SIMPLIFY = [None]     # session's simplifier, used for pivots


class SArr(np.ndarray):
    __array_priority__ = 900

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return handle_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return handle_function(func, args, kwargs)

    @property
    def values(self):
        return self

    def astype(self, t, *a, **k):
        try:
            d = np.dtype(t)
        except TypeError:
            d = np.dtype(object)
        if d.kind in "iu":
            flat = [int(x) for x in self.ravel().tolist()]
            return np.array(flat, dtype=d).reshape(self.shape)
        if d.kind == "b":
            return np.array([bool(x != 0) for x in self.ravel().tolist()], dtype=bool).reshape(self.shape)
        return self.copy()

    def dot(self, o, out=None):
        return dot(self, o)

    def __matmul__(self, o):
        if not _arrlike(o):
            return NotImplemented
        return matmul(self, o)

    def __rmatmul__(self, o):
        if not _arrlike(o):
            return NotImplemented
        return matmul(o, self)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce("add", self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce("multiply", self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return mean(self, axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return var(self, axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return unary("sqrt", var(self, axis, ddof=ddof, keepdims=keepdims))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _reduce("maximum", self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _reduce("minimum", self, axis, keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return _accum("add", self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return _accum("multiply", self, axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _tobool(self).any(axis=axis)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _tobool(self).all(axis=axis)

    def trace(self, *a, **k):
        return trace(self)

    def argsort(self, axis=-1, kind=None, order=None):
        return argsort(self, axis)

    def argmax(self, axis=None, out=None):
        return argext(self, axis, 1)

    def argmin(self, axis=None, out=None):
        return argext(self, axis, -1)

    def sort(self, axis=-1, **k):
        ix = argsort(self, axis)
        self[...] = np.take_along_axis(np.asarray(self).view(np.ndarray), ix, axis)

    def round(self, *a, **k):
        return self.copy()

    def clip(self, lo=None, hi=None, **k):
        return clip(self, lo, hi)

    def conj(self):
        return self

    def nonzero(self):
        return _tobool(self).nonzero()

    @property
    def real(self):
        return self

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __bool__(self):
        if self.size != 1:
            raise ValueError("truth value of an array is ambiguous")
        return bool(self.ravel()[0] != 0)

    def __contains__(self, x):
        return bool((self == x).any())

    def __setitem__(self, k, v):
        if isinstance(k, SArr):
            k = _asindex(k)
        elif isinstance(k, tuple):
            k = tuple(_asindex(x) if isinstance(x, (SArr, Expr)) else x for x in k)
        elif isinstance(k, Expr):
            k = k.__index__()
        if isinstance(v, (Expr,)):
            np.ndarray.__setitem__(self, k, v)
            return
        if np.isscalar(v):
            np.ndarray.__setitem__(self, k, lift(v))
            return
        v = sarr(v)
        np.ndarray.__setitem__(self, k, v.view(np.ndarray))

    def __getitem__(self, k):
        if isinstance(k, SArr):
            k = _asindex(k)
        elif isinstance(k, tuple):
            k = tuple(_asindex(x) if isinstance(x, (SArr, Expr)) else x for x in k)
        elif isinstance(k, Expr):
            k = k.__index__()
        return np.ndarray.__getitem__(self, k)


def _arrlike(o):
    return isinstance(o, (np.ndarray, list, tuple, SSparse)) if SSparse is not None else isinstance(o, (np.ndarray, list, tuple))


SSparse = None


def _asindex(k):
    if isinstance(k, Expr):
        return k.__index__()
    flat = k.ravel().tolist()
    return np.array([x.__index__() for x in flat], dtype=int).reshape(k.shape)


def _tobool(a):
    a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
    if a.dtype == bool:
        return a.view(np.ndarray)
    if a.dtype != object:
        return a.astype(bool)
    out = np.empty(a.shape, dtype=bool)
    v = a.view(np.ndarray)
    for ix in np.ndindex(*a.shape):
        x = v[ix]
        out[ix] = bool(x != 0) if isinstance(x, Expr) else bool(x)
    return out


def sarr(x):
    """anything array-like of numbers -> SArr of Expr (fresh copy unless already SArr)"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, Expr):
        return sarr0(x)
    if SSparse is not None and isinstance(x, SSparse):
        return x.toarray()
    if sp.sparse.issparse(x):
        x = x.toarray()
    if not isinstance(x, np.ndarray):
        x = _to_obj(x)
    o = np.empty(x.shape, dtype=object)
    if x.dtype == object:
        for ix in np.ndindex(*x.shape):
            v = x[ix]
            o[ix] = v if isinstance(v, Expr) else _lift_any(v)
    else:
        for ix in np.ndindex(*x.shape):
            o[ix] = lift(x[ix])
    return o.view(SArr)


def _lift_any(v):
    if v is None:
        raise NotEncodable("None in array")
    return lift(v)


def _to_obj(x):
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return np.empty((0,), dtype=object)
        items = [_to_obj(i) if isinstance(i, (list, tuple)) else i for i in x]
        if any(isinstance(i, np.ndarray) for i in items):
            items = [i if isinstance(i, np.ndarray) else np.asarray(i) for i in items]
            shp = items[0].shape
            o = np.empty((len(items),) + shp, dtype=object)
            for j, i in enumerate(items):
                if i.shape != shp:
                    raise ValueError("inhomogeneous shape")
                o[j] = i.view(np.ndarray) if i.ndim else i.item()
            return o
        o = np.empty((len(items),), dtype=object)
        for j, i in enumerate(items):
            o[j] = i
        return o
    if isinstance(x, range):
        return np.array(x)
    import pandas as pd
    if isinstance(x, (pd.Series, pd.DataFrame, pd.Index)):
        return np.asarray(x.values)
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def sarr0(e):
    o = np.empty((), dtype=object)
    o[()] = lift(e)
    return o.view(SArr)


def wrap(r):
    """wrap results of object computations"""
    if isinstance(r, Expr):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if isinstance(r, SArr):
                return r
            try:
                return sarr(r)
            except NotEncodable:
                return r
        return r
    if isinstance(r, tuple):
        if hasattr(r, "_fields"):
            return type(r)(*[wrap(x) for x in r])
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def strip(a):
    if isinstance(a, SArr):
        return a.view(np.ndarray)
    if isinstance(a, Expr):
        o = np.empty((), dtype=object)
        o[()] = a
        return o
    if isinstance(a, tuple):
        return tuple(strip(x) for x in a)
    if isinstance(a, list):
        return [strip(x) for x in a]
    if isinstance(a, dict):
        return {k: strip(v) for k, v in a.items()}
    return a


def obj(x):
    """plain object ndarray"""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, Expr):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if SSparse is not None and isinstance(x, SSparse):
        return x.toarray().view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        return x.astype(object)
    return _to_obj(x)


def fin(o):
    """object ndarray -> Expr if 0-d else SArr"""
    if o.ndim == 0:
        return lift(o.item()) if not isinstance(o.item(), Expr) else o.item()
    return o.view(SArr)


# ---- elementwise functions ---------------------------------------------------------

def _sinh(x):
    return (fn("exp", x) - fn("exp", -x)) / 2


def _cosh(x):
    return (fn("exp", x) + fn("exp", -x)) / 2


def _asinh(x):
    return fn("log", x + E.ipow(x * x + 1, Fraction(1, 2)))


def _max(a, b):
    if a is b:
        return a
    return a if (a >= b) else b


def _min(a, b):
    if a is b:
        return a
    return a if (a <= b) else b


def _xlogy(x, y):
    if x.op == "C" and x.c == 0:
        return E.ZERO
    return x * fn("log", y)


def _rint(x):
    if x.op == "C":
        return E.const(round(x.c))
    if x.is_int:
        return x
    raise NotEncodable("rounding a symbolic value")


def _logaddexp(a, b):
    return fn("log", fn("exp", a) + fn("exp", b))


def _fabs(x):
    return E.abs_(x)


def _ceil(x):
    return -E.floor_(-x)


UNARY = {
    "exp": lambda x: fn("exp", x), "log": lambda x: fn("log", x),
    "log1p": lambda x: fn("log", 1 + x), "expm1": lambda x: fn("exp", x) - 1,
    "log2": lambda x: fn("log", x) / fn("log", E.TWO), "log10": lambda x: fn("log", x) / fn("log", E.const(10)),
    "exp2": lambda x: fn("exp", x * fn("log", E.TWO)),
    "sqrt": lambda x: E.ipow(x, Fraction(1, 2)), "cbrt": lambda x: E.ipow(x, Fraction(1, 3)),
    "square": lambda x: x * x, "reciprocal": lambda x: E.ONE / x,
    "negative": lambda x: -x, "positive": lambda x: x, "conjugate": lambda x: x,
    "absolute": E.abs_, "fabs": E.abs_, "sign": E.sign_,
    "sin": lambda x: fn("sin", x), "cos": lambda x: fn("cos", x), "tan": lambda x: fn("sin", x) / fn("cos", x),
    "arcsin": lambda x: fn("arcsin", x), "arccos": lambda x: E.PI / 2 - fn("arcsin", x),
    "arctan": lambda x: fn("arctan", x), "deg2rad": lambda x: x * E.PI / 180, "rad2deg": lambda x: x * 180 / E.PI,
    "sinh": _sinh, "cosh": _cosh, "tanh": E.tanh_,
    "arcsinh": _asinh, "arctanh": lambda x: (fn("log", 1 + x) - fn("log", 1 - x)) / 2,
    "arccosh": lambda x: fn("log", x + E.ipow(x * x - 1, Fraction(1, 2))),
    "floor": E.floor_, "ceil": _ceil, "rint": _rint, "trunc": _rint,
    # scipy.special
    "expit": lambda x: E.ONE / (1 + fn("exp", -x)), "logit": lambda x: fn("log", x) - fn("log", 1 - x),
    "log_expit": lambda x: -fn("log", 1 + fn("exp", -x)),
    "ndtr": lambda x: fn("ndtr", x), "ndtri": lambda x: fn("ndtri", x),
    "log_ndtr": lambda x: fn("log", fn("ndtr", x)),
    "erf": lambda x: 2 * fn("ndtr", x * E.ipow(E.TWO, Fraction(1, 2))) - 1,
    "erfc": lambda x: 2 * fn("ndtr", -x * E.ipow(E.TWO, Fraction(1, 2))),
    "erfinv": lambda x: fn("ndtri", (x + 1) / 2) * E.ipow(E.TWO, Fraction(-1, 2)),
    "erfcinv": lambda x: fn("ndtri", (2 - x) / 2) * E.ipow(E.TWO, Fraction(-1, 2)),
    "gammaln": lambda x: fn("gammaln", x), "gamma": lambda x: fn("exp", fn("gammaln", x)),
    "loggamma": lambda x: fn("gammaln", x),
    "psi": lambda x: fn("polygamma", E.ZERO, x), "digamma": lambda x: fn("polygamma", E.ZERO, x),
    "entr": lambda x: -x * fn("log", x),
}
BINARY = {
    "add": E.add, "subtract": E.sub, "multiply": E.mul, "divide": E.div, "true_divide": E.div,
    "power": E.power, "float_power": E.power, "floor_divide": E.floordiv,
    "remainder": lambda a, b: a % b, "mod": lambda a, b: a % b,
    "maximum": _max, "minimum": _min, "fmax": _max, "fmin": _min,
    "xlogy": _xlogy, "xlog1py": lambda x, y: _xlogy(x, 1 + y), "logaddexp": _logaddexp,
    "hypot": lambda a, b: E.ipow(a * a + b * b, Fraction(1, 2)),
    "owens_t": lambda h, a: fn("owens_t", h, a),
    "copysign": lambda a, b: E.abs_(a) if not (b < 0) else -E.abs_(a),
    "betaln": lambda a, b: fn("gammaln", a) + fn("gammaln", b) - fn("gammaln", a + b),
    "_zeta": None,
    "beta": lambda a, b: fn("exp", fn("gammaln", a) + fn("gammaln", b) - fn("gammaln", a + b)),
    "rel_entr": lambda x, y: _xlogy(x, x / y),
    "binom": lambda n, k: fn("exp", fn("gammaln", n + 1) - fn("gammaln", k + 1) - fn("gammaln", n - k + 1)),
    "arctan2": lambda y, x: _arctan2(y, x),
}
BINARY.pop("_zeta")


def _arctan2(y, x):
    if x > 0:
        return fn("arctan", y / x)
    raise NotEncodable("arctan2 outside the right half-plane")


COMP = {"less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b, "greater": lambda a, b: a > b,
        "greater_equal": lambda a, b: a >= b, "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b}


def _isnan(x):
    return isinstance(x, Expr) and x.op == "V" and x.name == "NAN"


def _isinf(x):
    return isinstance(x, Expr) and E._is_inf(x)


PRED = {"isfinite": lambda x: not (_isnan(x) or _isinf(x)), "isnan": _isnan, "isinf": _isinf,
        "signbit": lambda x: bool(x < 0)}


def unary(name, x):
    f = UNARY[name]
    if isinstance(x, Expr):
        return f(x)
    o = obj(x)
    r = np.empty(o.shape, dtype=object)
    for ix in np.ndindex(*o.shape):
        r[ix] = f(lift(o[ix]))
    return fin(r)


def binary(f, a, b, boolean=False, where=None, out=None):
    a, b = obj(a), obj(b)
    bc = np.broadcast(a, b)
    shp = bc.shape
    r = np.empty(shp, dtype=bool if boolean else object)
    a = np.broadcast_to(a, shp)
    b = np.broadcast_to(b, shp)
    if where is not None:
        where = np.broadcast_to(where, shp)
    for ix in np.ndindex(*shp):
        if where is not None and not where[ix]:
            r[ix] = out[ix] if out is not None else E.var("UNINIT")
            continue
        x, y = a[ix], b[ix]
        if not isinstance(x, Expr):
            if boolean and (x is None or isinstance(x, str)):
                r[ix] = bool(f(x, y))
                continue
            x = lift(x)
        if not isinstance(y, Expr):
            if boolean and (y is None or isinstance(y, str)):
                r[ix] = False
                continue
            y = lift(y)
        r[ix] = f(x, y)
    if boolean:
        return r if r.ndim else bool(r)
    return fin(r)


def _store(out, r):
    if out is None:
        return r
    o = out[0] if isinstance(out, tuple) else out
    if o is None:
        return r
    if isinstance(o, SArr) or o.dtype == object:
        o[...] = r
    elif o.dtype == bool and isinstance(r, (np.ndarray, bool)) and np.asarray(r).dtype == bool:
        o[...] = r
    else:
        # float array receiving symbolic values
        rr = sarr(r)
        if all(x.op == "C" for x in rr.ravel().tolist()):
            o[...] = np.array([float(x.c) for x in rr.ravel().tolist()]).reshape(rr.shape)
        else:
            raise NotEncodable("in-place update of a plain float array with symbolic values")
    return o


def _axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (int, np.integer)):
        axis = (int(axis),)
    return tuple(ax % a.ndim for ax in axis)


def _reduce(name, a, axis=None, keepdims=False, initial=None):
    a = obj(a)
    if name in ("logical_and", "logical_or"):
        b = _tobool(a)
        return (b.all if name == "logical_and" else b.any)(axis=axis, keepdims=keepdims)
    axs = _axes(a, axis)
    if a.ndim == 0:
        return lift(a.item())
    rest = [i for i in range(a.ndim) if i not in axs]
    t = a.transpose(rest + list(axs))
    shp = tuple(a.shape[i] for i in rest)
    t = t.reshape(shp + (-1,)) if a.size else t.reshape(shp + (int(np.prod([a.shape[i] for i in axs])),))
    r = np.empty(shp, dtype=object)
    for ix in np.ndindex(*shp):
        items = [lift(x) for x in t[ix].tolist()] if t[ix].ndim else [lift(t[ix])]
        if initial is not None:
            items = [lift(initial)] + items
        if name == "add":
            v = E.addn(items) if items else E.ZERO
        elif name == "multiply":
            v = E.ONE
            for x in items:
                v = v * x
        elif name in ("maximum", "minimum", "fmax", "fmin"):
            f = BINARY[name]
            v = items[0]
            for x in items[1:]:
                v = f(v, x)
        elif name == "subtract":
            v = items[0]
            for x in items[1:]:
                v = v - x
        elif name == "logaddexp":
            v = fn("log", E.addn([fn("exp", x) for x in items]))
        else:
            raise NotEncodable("reduce " + name)
        r[ix] = v
    if keepdims:
        kshp = tuple(1 if i in axs else a.shape[i] for i in range(a.ndim))
        return r.reshape(kshp).view(SArr)
    return fin(r)


def _accum(name, a, axis=None):
    a = obj(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    f = BINARY[name]
    r = a.copy()
    r = np.moveaxis(r, axis, 0)
    for i in range(r.shape[0]):
        if i == 0:
            for ix in np.ndindex(*r.shape[1:]):
                r[(0,) + ix] = lift(r[(0,) + ix])
        else:
            for ix in np.ndindex(*r.shape[1:]):
                r[(i,) + ix] = f(r[(i - 1,) + ix], lift(r[(i,) + ix]))
    return sarr(np.moveaxis(r, 0, axis))


def handle_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    if any(SSparse is not None and isinstance(i, SSparse) for i in inputs):
        return NotImplemented
    if method == "__call__":
        where = kw.get("where", None)
        if where is True:
            where = None
        if name in COMP:
            return _store(out, binary(COMP[name], inputs[0], inputs[1], boolean=True))
        if name in PRED:
            o = obj(inputs[0])
            r = np.empty(o.shape, dtype=bool)
            for ix in np.ndindex(*o.shape):
                r[ix] = PRED[name](lift(o[ix]))
            return _store(out, r if r.ndim else bool(r))
        if name in ("logical_and", "logical_or", "logical_xor"):
            return _store(out, ufunc(_tobool(obj(inputs[0])), _tobool(obj(inputs[1]))))
        if name == "logical_not":
            return _store(out, ~_tobool(obj(inputs[0])))
        if name == "matmul":
            return _store(out, matmul(inputs[0], inputs[1]))
        if name in UNARY and len(inputs) == 1:
            if where is not None:
                o = obj(inputs[0])
                w = np.broadcast_to(where, o.shape)
                r = np.empty(o.shape, dtype=object)
                base = obj(out[0]) if out is not None else None
                for ix in np.ndindex(*o.shape):
                    r[ix] = UNARY[name](lift(o[ix])) if w[ix] else (lift(base[ix]) if base is not None else E.var("UNINIT"))
                return _store(out, fin(r))
            return _store(out, unary(name, inputs[0]))
        if name in BINARY and len(inputs) == 2:
            base = obj(out[0]) if out is not None and where is not None else None
            return _store(out, binary(BINARY[name], inputs[0], inputs[1], where=where, out=base))
        if name in ("divmod",):
            q = binary(E.floordiv, *inputs)
            return q, inputs[0] - q * inputs[1]
        if name == "polygamma":
            return polygamma(*inputs)
        if name == "modf":
            raise NotEncodable("modf")
        if name == "clip":
            return _store(out, clip(*inputs))
        if name in ("ndtri_exp", "log_ndtr"):
            return unary(name, inputs[0])
        raise NotEncodable("ufunc " + name)
    if method == "reduce":
        kw.pop("dtype", None)
        ax = kw.pop("axis", 0)
        if len(inputs) > 1:
            ax = inputs[1]
        if "where" in kw and kw["where"] is not True:
            raise NotEncodable("reduce where")
        init = kw.get("initial", None)
        if init is np._NoValue:
            init = None
        return _store(out, _reduce(name, inputs[0], ax, kw.pop("keepdims", False) is True, init))
    if method == "accumulate":
        ax = kw.get("axis", 0)
        if len(inputs) > 1:
            ax = inputs[1]
        return _store(out, _accum(name, inputs[0], ax))
    if method == "outer":
        a, b = obj(inputs[0]), obj(inputs[1])
        return handle_ufunc(ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim).view(SArr), b.view(SArr) if b.ndim else b), kw)
    if method == "at":
        a, ix = inputs[0], inputs[1]
        if len(inputs) == 3:
            b = obj(inputs[2])
            idx = np.arange(a.shape[0])[ix] if not isinstance(ix, tuple) else ix
            f = BINARY[name]
            if isinstance(ix, tuple):
                ii = np.broadcast(*ix)
                bb = np.broadcast_to(b, ii.shape)
                for k, t in zip(np.ndindex(*ii.shape), ii):
                    a[tuple(t)] = f(lift(a[tuple(t)]), lift(bb[k]))
            else:
                idx = np.asarray(idx)
                bb = np.broadcast_to(b, idx.shape + a.shape[1:])
                for k in np.ndindex(*idx.shape):
                    a[idx[k]] = a[idx[k]] + wrap(np.asarray(bb[k], dtype=object)) if name == "add" else f(a[idx[k]], bb[k])
            return None
        raise NotEncodable("ufunc.at")
    if method == "reduceat":
        a = obj(inputs[0])
        ix = list(np.asarray(inputs[1]))
        ax = kw.get("axis", 0)
        a = np.moveaxis(a, ax, 0)
        parts = []
        for j, s in enumerate(ix):
            e = ix[j + 1] if j + 1 < len(ix) else a.shape[0]
            seg = a[s:e] if e > s else a[s:s + 1]
            parts.append(obj(_reduce(name, seg, 0)))
        return sarr(np.moveaxis(np.stack(parts), 0, ax))
    raise NotEncodable("ufunc method " + method)


# ---- linear algebra ----------------------------------------------------------------

def matmul(a, b):
    if SSparse is not None and (isinstance(a, SSparse) or isinstance(b, SSparse)):
        a2 = a.toarray() if isinstance(a, SSparse) else a
        b2 = b.toarray() if isinstance(b, SSparse) else b
        r = matmul(a2, b2)
        if isinstance(a, SSparse) and isinstance(b, SSparse):
            return SSparse(r)
        return r
    if sp.sparse.issparse(a):
        a = a.toarray()
    if sp.sparse.issparse(b):
        b = b.toarray()
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: scalar operand")
    if a.ndim == 1 and b.ndim == 1:
        return _dotv(a, b)
    if a.ndim == 1:
        return fin(obj(matmul(a[None, :], b))[..., 0, :])
    if b.ndim == 1:
        r = obj(matmul(a, b[:, None]))
        return fin(r[..., 0])
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: shape mismatch %s %s" % (a.shape, b.shape))
    batch = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, batch + a.shape[-2:])
    b = np.broadcast_to(b, batch + b.shape[-2:])
    r = np.empty(batch + (a.shape[-2], b.shape[-1]), dtype=object)
    for ix in np.ndindex(*batch):
        A, B = a[ix], b[ix]
        for i in range(A.shape[0]):
            Ai = A[i]
            for j in range(B.shape[1]):
                r[ix + (i, j)] = _dotv(Ai, B[:, j])
    return r.view(SArr)


def _dotv(a, b):
    if a.shape != b.shape:
        raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
    ts = []
    for x, y in zip(a.tolist(), b.tolist()):
        x, y = lift(x), lift(y)
        if x is E.ZERO or y is E.ZERO:
            continue
        ts.append(E.mul(x, y))
    return _ez(E.addn(ts)) if ts else E.ZERO


def dot(a, b, out=None):
    if SSparse is not None and (isinstance(a, SSparse) or isinstance(b, SSparse)):
        return _store(out, matmul(a, b))
    a_, b_ = obj(a), obj(b)
    if a_.ndim == 0 or b_.ndim == 0:
        return _store(out, handle_ufunc(np.multiply, "__call__", (a, b), {}))
    if b_.ndim > 2:
        return _store(out, wrap(np.tensordot(a_, b_, axes=(-1, -2))))
    if a_.ndim > 2:
        return _store(out, fin(obj(matmul(a_.reshape(-1, a_.shape[-1]), b_)).reshape(a_.shape[:-1] + b_.shape[1:])))
    return _store(out, matmul(a_, b_))


def trace(a, *args, **k):
    a = obj(a)
    return E.addn([lift(a[i, i]) for i in range(min(a.shape))])


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    o = obj(a)
    n = 1
    for ax in _axes(o, axis):
        n *= o.shape[ax]
    return _reduce("add", o, axis, keepdims) / n


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    o = obj(a)
    m = mean(o, axis, keepdims=True) if o.ndim else o
    n = 1
    for ax in _axes(o, axis):
        n *= o.shape[ax]
    d = sarr(o) - m
    return _reduce("add", d * d, axis, keepdims) / (n - ddof)


def clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))
    r = a
    if lo is not None:
        r = binary(_max, r, lo)
    if hi is not None:
        r = binary(_min, r, hi)
    return _store(out, r)


def argsort(a, axis=-1, **k):
    import functools
    o = obj(a)
    if axis is None:
        o, axis = o.ravel(), 0
    m = np.moveaxis(o, axis, -1)
    r = np.empty(m.shape, dtype=int)

    def cmp(x, y):
        if x[0] is y[0]:
            return 0
        return -1 if x[0] < y[0] else (1 if y[0] < x[0] else 0)
    for ix in np.ndindex(*m.shape[:-1]):
        items = [(lift(v), i) for i, v in enumerate(m[ix].tolist())]
        items.sort(key=functools.cmp_to_key(cmp))
        r[ix] = [i for _, i in items]
    return np.moveaxis(r, -1, axis)


def argext(a, axis, s):
    o = obj(a)
    if axis is None:
        o, axis = o.ravel(), 0
    m = np.moveaxis(o, axis, -1)
    r = np.empty(m.shape[:-1], dtype=int)
    for ix in np.ndindex(*m.shape[:-1]):
        v = [lift(x) for x in m[ix].tolist()]
        b = 0
        for i in range(1, len(v)):
            if (v[b] < v[i]) if s > 0 else (v[i] < v[b]):
                b = i
        r[ix] = b
    return r if r.ndim else int(r)


def _minors(A):
    """memoised determinant by Laplace expansion over column subsets"""
    n = A.shape[0]
    memo = {}

    def det(r, cols):
        if not cols:
            return E.ONE
        key = (r, cols)
        v = memo.get(key)
        if v is not None:
            return v
        ts = []
        s = 1
        for k, c in enumerate(cols):
            x = lift(A[r, c])
            if x is not E.ZERO:
                d = det(r + 1, cols[:k] + cols[k + 1:])
                t = E.mul(x, d)
                ts.append(t if s > 0 else E.neg(t))
            s = -s
        v = E.addn(ts) if ts else E.ZERO
        memo[key] = v
        return v
    return det


def _simp(e):
    if SIMPLIFY[0] is not None and e.op not in "CV":
        return SIMPLIFY[0](e)
    return e


def _ez(e):
    return _simp(e) if EAGER[0] and isinstance(e, Expr) else e


def _blocks(A):
    """connected components of the nonzero pattern (row/col index sets coincide), or None"""
    n = A.shape[0]
    par = list(range(n))

    def f(i):
        while par[i] != i:
            i = par[i]
        return i
    for i in range(n):
        for j in range(n):
            if lift(A[i, j]) is not E.ZERO:
                par[f(i)] = f(j)
    comp = {}
    for i in range(n):
        comp.setdefault(f(i), []).append(i)
    return list(comp.values())


def det(a):
    A = obj(a)
    if A.ndim > 2:
        r = np.empty(A.shape[:-2], dtype=object)
        for ix in np.ndindex(*A.shape[:-2]):
            r[ix] = det(A[ix])
        return r.view(SArr)
    v = E.ONE
    for b in _blocks(A):
        B = A[np.ix_(b, b)]
        v = v * _simp(_minors(B)(0, tuple(range(len(b)))))
    return v


MAXDIM = 7


def inv(a, *args, **k):
    A = obj(a)
    if A.ndim > 2:
        r = np.empty(A.shape, dtype=object)
        for ix in np.ndindex(*A.shape[:-2]):
            r[ix] = obj(inv(A[ix]))
        return r.view(SArr)
    n = A.shape[0]
    if A.shape != (n, n):
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    r = np.empty((n, n), dtype=object)
    r[...] = E.ZERO
    for b in _blocks(A):
        B = A[np.ix_(b, b)]
        m = len(b)
        if m > MAXDIM:
            raise NotEncodable("inverse of a %d x %d symbolic matrix" % (m, m))
        tri = _tri(B)
        if tri:
            R = _tri_inv(B, tri)
        elif m == 1:
            R = np.array([[E.ONE / lift(B[0, 0])]], dtype=object)
        else:
            d = E.ONE / _simp(_minors(B)(0, tuple(range(m))))
            R = np.empty((m, m), dtype=object)
            for i in range(m):
                for j in range(m):
                    M = np.delete(np.delete(B, j, 0), i, 1)
                    c = _minors(M)(0, tuple(range(m - 1)))
                    R[i, j] = _ez(E.mul(d, c if (i + j) % 2 == 0 else E.neg(c)))
        r[np.ix_(b, b)] = R
    return r.view(SArr)


def _tri(B):
    n = B.shape[0]
    lo = all(lift(B[i, j]) is E.ZERO for i in range(n) for j in range(i + 1, n))
    up = all(lift(B[i, j]) is E.ZERO for i in range(n) for j in range(i))
    return "L" if lo else "U" if up else None


def _tri_inv(B, which):
    n = B.shape[0]
    X = obj(solve_triangular(B, eye(n), lower=(which == "L")))
    return X


def solve(a, b, *args, **k):
    A, B = obj(a), obj(b)
    if k.get("assume_a") in ("pos", "sym", "her"):
        lower = k.get("lower", False)
        A = _symmetrise(A, lower)
    if k.get("transposed") or k.get("trans"):
        A = np.swapaxes(A, -1, -2)
    if A.ndim > 2 or (B.ndim > 2):
        batch = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
        A = np.broadcast_to(A, batch + A.shape[-2:])
        B = np.broadcast_to(B, batch + B.shape[-2:])
        r = np.empty(batch + (A.shape[-1], B.shape[-1]), dtype=object)
        for ix in np.ndindex(*batch):
            r[ix] = obj(solve(A[ix], B[ix]))
        return r.view(SArr)
    return dot(inv(A), B)


def _symmetrise(A, lower):
    n = A.shape[0]
    r = A.copy()
    for i in range(n):
        for j in range(i):
            if lower:
                r[j, i] = r[i, j]
            else:
                r[i, j] = r[j, i]
    return r


def slogdet(a):
    A = obj(a)
    if A.ndim > 2:
        s = np.empty(A.shape[:-2], dtype=object)
        l = np.empty(A.shape[:-2], dtype=object)
        for ix in np.ndindex(*A.shape[:-2]):
            s[ix], l[ix] = slogdet(A[ix])
        return SlogdetResult(s.view(SArr), l.view(SArr))
    d = det(A)
    if d.op == "C" and d.c == 0:
        return SlogdetResult(E.ZERO, E.NINF())
    if E.known_pos(d) or (d > 0):
        return SlogdetResult(E.ONE, fn("log", d))
    return SlogdetResult(E.MONE, fn("log", -d))


import collections
SlogdetResult = collections.namedtuple("SlogdetResult", "sign logabsdet")
EighResult = collections.namedtuple("EighResult", "eigenvalues eigenvectors")
SVDResult = collections.namedtuple("SVDResult", "U S Vh")
QRResult = collections.namedtuple("QRResult", "Q R")


def cholesky(a, lower=None, *args, **k):
    """numpy convention (lower) -- scipy wrapper below sets upper by default"""
    A = obj(a)
    if A.ndim > 2:
        r = np.empty(A.shape, dtype=object)
        for ix in np.ndindex(*A.shape[:-2]):
            r[ix] = obj(cholesky(A[ix]))
        return r.view(SArr)
    n = A.shape[0]
    L = np.empty((n, n), dtype=object)
    L[...] = E.ZERO
    for j in range(n):
        s = lift(A[j, j]) - E.addn([L[j, q] * L[j, q] for q in range(j)]) if j else lift(A[j, j])
        s = _simp(s)
        if s.op == "C" and s.c <= 0:
            raise np.linalg.LinAlgError("Matrix is not positive definite")
        L[j, j] = E.ipow(s, Fraction(1, 2))
        for i in range(j + 1, n):
            t = lift(A[i, j]) - E.addn([L[i, q] * L[j, q] for q in range(j)]) if j else lift(A[i, j])
            L[i, j] = _simp(t / L[j, j]) if t is not E.ZERO else E.ZERO
    return L.view(SArr)


def sp_cholesky(a, lower=False, overwrite_a=False, check_finite=True):
    A = obj(a)
    A = _symmetrise(A, lower)
    L = cholesky(A)
    return L if lower else L.T


def cho_factor(a, lower=False, overwrite_a=False, check_finite=True):
    return sp_cholesky(a, lower), lower


def cho_solve(cl, b, overwrite_b=False, check_finite=True):
    c, lower = cl
    c = obj(c)
    if lower:
        c = np.tril(c)
        y = solve_triangular(c, b, lower=True)
        return solve_triangular(c.T, y, lower=False)
    c = np.triu(c)
    y = solve_triangular(c.T, b, lower=True)
    return solve_triangular(c, y, lower=False)


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, check_finite=True):
    A, B = obj(a), obj(b)
    if trans in (1, 2, "T", "C"):
        A = A.T
        lower = not lower
    n = A.shape[0]
    one = B.ndim == 1
    B = B.reshape(n, -1) if one else B
    X = np.empty(B.shape, dtype=object)
    order = range(n) if lower else range(n - 1, -1, -1)
    for i in order:
        ks = range(i) if lower else range(i + 1, n)
        for j in range(B.shape[1]):
            s = lift(B[i, j])
            ts = [E.mul(lift(A[i, q]), X[q, j]) for q in ks if lift(A[i, q]) is not E.ZERO and X[q, j] is not E.ZERO]
            if ts:
                s = s - E.addn(ts)
            if not unit_diagonal and s is not E.ZERO:
                s = s / lift(A[i, i])
            X[i, j] = _ez(s)
    return (X[:, 0] if one else X).view(SArr)


def dtrtri(c, lower=0, unitdiag=0, overwrite_c=0):
    C = obj(c)
    C = np.tril(C) if lower else np.triu(C)
    return solve_triangular(C, eye(C.shape[0]), lower=bool(lower)), 0


def qr(a, mode="reduced", **k):
    A = obj(a)
    m, n = A.shape
    Q = np.empty((m, min(m, n)), dtype=object)
    R = np.empty((min(m, n), n), dtype=object)
    R[...] = E.ZERO
    if m < n:
        raise NotEncodable("wide QR")
    for j in range(n):
        v = [lift(x) for x in A[:, j]]
        for i in range(j):
            R[i, j] = _simp(E.addn([E.mul(Q[t, i], lift(A[t, j])) for t in range(m)]))
            v = [v[t] - Q[t, i] * R[i, j] for t in range(m)]
        nn = _simp(E.addn([x * x for x in v]))
        # full column rank is assumed (stated with the check's assumptions)
        if nn.op != "C" and hasattr(E.DECIDER[0], "known"):
            E.DECIDER[0].known.setdefault(("<=", nn.id), False)
        # LAPACK's Householder convention gives R[j,j] of the opposite sign to the pivot; use negative
        R[j, j] = -E.ipow(nn, Fraction(1, 2))
        for t in range(m):
            Q[t, j] = v[t] / R[j, j]
    if mode == "r":
        return R.view(SArr)
    if mode in ("complete",) or (mode == "full" and m > n):
        raise NotEncodable("complete QR")
    return QRResult(Q.view(SArr), R.view(SArr))


def sp_qr(a, overwrite_a=False, lwork=None, mode="full", pivoting=False, check_finite=True):
    if pivoting:
        raise NotEncodable("pivoted QR")
    if mode == "economic" or obj(a).shape[0] == obj(a).shape[1]:
        return qr(a)
    if mode == "r":
        return (qr(a)[1],)
    raise NotEncodable("full QR")


def pinv(a, *args, **k):
    A = obj(a)
    m, n = A.shape
    if m == n:
        return inv(A)
    if m > n:
        return dot(inv(dot(A.T, A)), A.T)
    return dot(A.T, inv(dot(A, A.T)))


def lstsq(a, b, *args, **k):
    return dot(pinv(a), b), E.ZERO, obj(a).shape[1], None


def la_norm(x, ord=None, axis=None, keepdims=False):
    o = obj(x)
    if ord is None or (ord == 2 and (o.ndim == 1 or axis is not None)) or ord == "fro":
        s = _reduce("add", sarr(o) * sarr(o), axis, keepdims)
        return unary("sqrt", s)
    if ord == 1 and o.ndim == 1:
        return _reduce("add", unary("absolute", o), axis)
    if ord in (np.inf, float("inf")) and o.ndim == 1:
        return _reduce("maximum", unary("absolute", o), axis)
    raise NotEncodable("norm ord %r" % (ord,))


def is_diag(A):
    n = A.shape[0]
    return all(lift(A[i, j]) is E.ZERO for i in range(n) for j in range(n) if i != j)


def eigh(a, *args, **k):
    A = obj(a)
    if A.ndim == 2 and is_diag(A):
        d = sarr([lift(A[i, i]) for i in range(A.shape[0])])
        ix = argsort(d)
        return EighResult(d[ix], sarr(np.eye(A.shape[0])[:, ix]))
    raise NotEncodable("eigendecomposition of a symbolic matrix")


def _noenc(name):
    def f(*a, **k):
        raise NotEncodable(name)
    return f


def block_diag(*arrs):
    arrs = [np.atleast_2d(obj(a)) for a in arrs]
    r = np.empty((sum(a.shape[0] for a in arrs), sum(a.shape[1] for a in arrs)), dtype=object)
    r[...] = E.ZERO
    i = j = 0
    for a in arrs:
        r[i:i + a.shape[0], j:j + a.shape[1]] = a
        i += a.shape[0]
        j += a.shape[1]
    return sarr(r)


def toeplitz(c, r=None):
    c = obj(c).ravel()
    r = c if r is None else obj(r).ravel()
    o = np.empty((len(c), len(r)), dtype=object)
    for i in range(len(c)):
        for j in range(len(r)):
            o[i, j] = c[i - j] if i >= j else r[j - i]
    return sarr(o)


def eye(n, m=None, k=0, dtype=float, **kw):
    n = int(n)
    m = n if m is None else int(m)
    if _plain_dtype(dtype):
        return np.eye(n, m, k, dtype=dtype)
    return sarr(np.eye(n, m, k))


def polygamma(n, x):
    n_ = obj(n)
    return binary(lambda a, b: fn("polygamma", a, b), n_, x)


def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    e = unary("exp", a)
    if b is not None:
        e = e * b
    return unary("log", _reduce("add", e, axis, keepdims))


def softmax(x, axis=None):
    e = unary("exp", x)
    return e / _reduce("add", e, axis, True if axis is not None else False)


def comb(N, k, exact=False, repetition=False):
    if any_sym(N, k):
        raise NotEncodable("comb of symbolic")
    return sp.special.comb(N, k, exact=exact, repetition=repetition)


import pandas as _pd
_PANDAS = (_pd.Series, _pd.DataFrame)


def any_sym(*xs):
    for x in xs:
        if isinstance(x, Expr):
            return True
        if isinstance(x, SArr):
            return True
        if isinstance(x, np.ndarray) and x.dtype == object:
            return True
        if isinstance(x, _PANDAS) and any_sym(x.values):
            return True
        if isinstance(x, (list, tuple)) and any_sym(*x):
            return True
        if SSparse is not None and isinstance(x, SSparse):
            return True
    return False


# ---- array functions (through __array_function__) -------------------------------------

def _zeros_like(a, dtype=None, **k):
    o = obj(a)
    if dtype is not None and _plain_dtype(dtype):
        return np.zeros(o.shape, dtype=dtype)
    return full(k.get("shape") or o.shape, 0)


def _ones_like(a, dtype=None, **k):
    o = obj(a)
    if dtype is not None and _plain_dtype(dtype):
        return np.ones(o.shape, dtype=dtype)
    return full(o.shape, 1)


def _empty_like(a, dtype=None, **k):
    o = obj(a)
    if dtype is not None and _plain_dtype(dtype):
        return np.zeros(o.shape, dtype=dtype)
    return full(o.shape, E.var("UNINIT"))


def _full_like(a, v, dtype=None, **k):
    return full(obj(a).shape, v)


def full(shape, v, dtype=None, **k):
    if dtype is not None and _plain_dtype(dtype):
        return np.full(shape, v, dtype=dtype)
    o = np.empty(shape, dtype=object)
    if isinstance(v, np.ndarray) and v.ndim:
        o[...] = obj(sarr(v))
    else:
        o[...] = lift(v)
    return o.view(SArr)


def _where(c, *xy, **k):
    c = _tobool(obj(c)) if not (isinstance(c, np.ndarray) and c.dtype == bool) else np.asarray(c)
    if not xy:
        return np.where(c)
    x, y = obj(sarr(xy[0])), obj(sarr(xy[1]))
    return fin(np.where(c, x, y))


def _einsum(subs, *ops, **k):
    k.pop("optimize", None)
    out = k.pop("out", None)
    if not isinstance(subs, str):
        raise NotEncodable("einsum sublist format")
    ops = [obj(o) for o in ops]
    subs = subs.replace(" ", "")
    if "..." in subs:
        lhs, arrow, rhs = subs.partition("->")
        ins = lhs.split(",")
        used = set(subs)
        extra = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in used]
        nd = max(o.ndim - len(s.replace("...", "")) for s, o in zip(ins, ops) if "..." in s)
        ell = "".join(extra[:nd])
        new = []
        for s, o in zip(ins, ops):
            if "..." in s:
                q = o.ndim - len(s.replace("...", ""))
                new.append(s.replace("...", ell[nd - q:]))
            else:
                new.append(s)
        if not arrow:
            raise NotEncodable("implicit einsum with ellipsis")
        subs = ",".join(new) + "->" + rhs.replace("...", ell)
    lhs, arrow, rhs = subs.partition("->")
    ins = lhs.split(",")
    if not arrow:
        allc = "".join(ins)
        rhs = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    if len(ops) == 1 and out is None and set(ins[0]) == set(rhs) and len(rhs) == len(set(rhs)) and ops[0].dtype == object:
        # nothing is summed: numpy returns a writable view
        r = np.einsum(subs, ops[0])
        return r.view(SArr) if np.shares_memory(r, ops[0]) else fin(r)
    # pairwise contraction
    terms = list(zip(ins, ops))
    while len(terms) > 1:
        (sa, a), (sb, b) = terms[0], terms[1]
        rest = "".join(s for s, _ in terms[2:]) + rhs
        keep = "".join(dict.fromkeys(c for c in sa + sb if c in rest))
        terms = [(keep, _contract(sa, a, sb, b, keep))] + terms[2:]
    s, a = terms[0]
    if s != rhs:
        a = _contract(s, a, "", None, rhs)
    r = fin(a) if isinstance(a, np.ndarray) else a
    return _store(out, r)


def _contract(sa, a, sb, b, keep):
    dims = {}
    for s, o in ((sa, a), (sb, b)):
        if o is None:
            continue
        for c, d in zip(s, o.shape):
            if c in dims and dims[c] != d:
                if dims[c] == 1:
                    dims[c] = d
                elif d != 1:
                    raise ValueError("einsum dimension mismatch")
            else:
                dims.setdefault(c, d)
    summed = [c for c in dims if c not in keep]
    r = np.empty(tuple(dims[c] for c in keep), dtype=object)
    for ix in np.ndindex(*r.shape):
        env = dict(zip(keep, ix))
        ts = []
        for sx in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, sx))
            x = lift(a[tuple(env[c] if a.shape[i] != 1 else 0 for i, c in enumerate(sa))])
            if x is E.ZERO:
                continue
            if b is not None:
                y = lift(b[tuple(env[c] if b.shape[i] != 1 else 0 for i, c in enumerate(sb))])
                if y is E.ZERO:
                    continue
                x = E.mul(x, y)
            ts.append(x)
        r[ix] = E.addn(ts) if ts else E.ZERO
    return r


def _kron(a, b):
    a, b = obj(a), obj(b)
    nd = max(a.ndim, b.ndim)
    a = a.reshape((1,) * (nd - a.ndim) + a.shape)
    b = b.reshape((1,) * (nd - b.ndim) + b.shape)
    r = np.empty(tuple(x * y for x, y in zip(a.shape, b.shape)), dtype=object)
    for i in np.ndindex(*a.shape):
        for j in np.ndindex(*b.shape):
            x, y = lift(a[i]), lift(b[j])
            r[tuple(p * s + q for p, s, q in zip(i, b.shape, j))] = E.mul(x, y)
    return fin(r)


def _outer(a, b, out=None):
    a, b = obj(a).ravel(), obj(b).ravel()
    return _store(out, binary(E.mul, a[:, None], b[None, :]))


def _diff(a, n=1, axis=-1, prepend=None, append=None):
    a = obj(a)
    parts = []
    if prepend is not None:
        p = obj(prepend)
        if p.ndim == 0:
            p = np.broadcast_to(p, a.shape[:axis % a.ndim] + (1,) + a.shape[axis % a.ndim + 1:])
        parts.append(p)
    parts.append(a)
    if append is not None:
        p = obj(append)
        if p.ndim == 0:
            p = np.broadcast_to(p, a.shape[:axis % a.ndim] + (1,) + a.shape[axis % a.ndim + 1:])
        parts.append(p)
    if len(parts) > 1:
        a = np.concatenate(parts, axis=axis)
    for _ in range(n):
        m = np.moveaxis(a, axis, 0)
        a = np.moveaxis(obj(binary(E.sub, m[1:], m[:-1])), 0, axis)
    return sarr(a)


def _allclose(a, b, *args, **k):
    raise NotEncodable("allclose on symbolic values")


def _average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    w = sarr(weights)
    a = sarr(a)
    if axis is not None and w.ndim == 1 and a.ndim > 1:
        shp = [1] * a.ndim
        shp[axis] = -1
        w2 = w.reshape(shp)
    else:
        w2 = w
    return _reduce("add", a * w2, axis) / _reduce("add", w, None if w.ndim == 1 else axis)


def _cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    X = sarr(m)
    if X.ndim == 1:
        X = X.reshape(1, -1)
    if not rowvar and X.shape[0] != 1:
        X = X.T
    n = X.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    D = X - mean(X, 1, keepdims=True)
    C = matmul(D, D.T) / (n - ddof)
    return C if C.shape != (1, 1) else C.reshape(())


def _corrcoef(m, y=None, rowvar=True, **k):
    C = obj(_cov(m, rowvar=rowvar))
    n = C.shape[0]
    d = [E.ipow(C[i, i], Fraction(1, 2)) for i in range(n)]
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            r[i, j] = E.ONE if i == j else C[i, j] / (d[i] * d[j])
    return r.view(SArr)


def _array_equal(a, b, **k):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    return all(bool(x == y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))


def _count_nonzero(a, axis=None, **k):
    return np.count_nonzero(_tobool(a), axis=axis)


def _sortf(a, axis=-1, **k):
    o = obj(a)
    if axis is None:
        o, axis = o.ravel(), 0
    return sarr(np.take_along_axis(o, argsort(o, axis), axis))


def _median(a, axis=None, **k):
    o = obj(a)
    if axis is None:
        o, axis = o.ravel(), 0
    n = o.shape[axis]
    o = np.moveaxis(obj(_sortf(o, axis)), axis, 0)
    r = (o[(n - 1) // 2] + o[n // 2]) / 2 if n % 2 == 0 else o[n // 2]
    if k.get("keepdims"):
        raise NotEncodable("median keepdims")
    return lift(r) if not isinstance(r, np.ndarray) else fin(r)


def _searchsorted(a, v, side="left", sorter=None):
    a = obj(a)
    vv = obj(v)
    r = np.empty(vv.shape, dtype=int)
    for ix in np.ndindex(*vv.shape):
        x = lift(vv[ix])
        k = 0
        for i, t in enumerate(a.tolist()):
            if (lift(t) < x) if side == "left" else (lift(t) <= x):
                k = i + 1
            else:
                break
        r[ix] = k
    return r if r.ndim else int(r)


def _unique(a, **k):
    o = obj(a).ravel()
    if all(lift(x).op == "C" for x in o.tolist()):
        return wrap_unique(np.unique(np.array([float(lift(x).c) for x in o.tolist()]), **k))
    if set(k) - {"return_index", "return_inverse", "return_counts"}:
        raise NotEncodable("unique with options on symbolic values")
    order = [int(i) for i in argsort(sarr(o))]
    out, first, inv, cnt = [], [], np.zeros(len(order), dtype=int), []
    for i in order:
        x = o[i]
        if not out or not (out[-1] == x):
            out.append(x)
            first.append(i)
            cnt.append(0)
        first[-1] = min(first[-1], i)
        inv[i] = len(out) - 1
        cnt[-1] += 1
    r = [sarr(out)]
    r += [np.array(first)] if k.get("return_index") else []
    r += [inv] if k.get("return_inverse") else []
    r += [np.array(cnt)] if k.get("return_counts") else []
    return tuple(r) if len(r) > 1 else r[0]


def wrap_unique(r):
    if isinstance(r, tuple):
        return (sarr(r[0]),) + tuple(r[1:])
    return sarr(r)


def _nan_to_num(x, *a, **k):
    return x


def _sign_fn(x):
    return unary("sign", x)


def _trapz(y, x=None, dx=1.0, axis=-1):
    y = sarr(y)
    if x is None:
        return _reduce("add", (y[1:] + y[:-1]) * dx / 2)
    x = sarr(x)
    return _reduce("add", (y[1:] + y[:-1]) * (x[1:] - x[:-1]) / 2)


def _diagf(v, k=0):
    o = obj(v)
    if o.ndim == 1:
        n = len(o) + abs(k)
        r = np.empty((n, n), dtype=object)
        r[...] = E.ZERO
        for i in range(len(o)):
            r[(i, i + k) if k >= 0 else (i - k, i)] = lift(o[i])
        return r.view(SArr)
    return sarr(np.diag(o, k).copy())


def _tensordot(a, b, axes=2):
    return wrap(np.tensordot(obj(a), obj(b), axes))


def _cross(*a, **k):
    raise NotEncodable("cross")


def _round(a, *args, **k):
    return a


FUNC = {
    np.einsum: _einsum, np.dot: dot, np.inner: lambda a, b: dot(a, sarr(b).T if obj(b).ndim > 1 else b),
    np.sum: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: _store(out, _reduce("add", a, axis, keepdims is True)),
    np.prod: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: _reduce("multiply", a, axis, keepdims is True),
    np.mean: mean, np.var: var,
    np.std: lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: unary("sqrt", var(a, axis, ddof=ddof, keepdims=keepdims is True)),
    np.cumsum: lambda a, axis=None, dtype=None, out=None: _accum("add", a, axis),
    np.cumprod: lambda a, axis=None, dtype=None, out=None: _accum("multiply", a, axis),
    np.max: lambda a, axis=None, out=None, keepdims=False, **k: _reduce("maximum", a, axis, keepdims is True),
    np.min: lambda a, axis=None, out=None, keepdims=False, **k: _reduce("minimum", a, axis, keepdims is True),
    np.any: lambda a, axis=None, **k: _tobool(a).any(axis=axis), np.all: lambda a, axis=None, **k: _tobool(a).all(axis=axis),
    np.argsort: argsort, np.argmax: lambda a, axis=None, **k: argext(a, axis, 1),
    np.argmin: lambda a, axis=None, **k: argext(a, axis, -1), np.sort: _sortf,
    np.clip: clip, np.where: _where, np.trace: trace, np.outer: _outer, np.kron: _kron, np.diff: _diff,
    np.allclose: _allclose, np.isclose: _allclose, np.average: _average, np.cov: _cov, np.corrcoef: _corrcoef,
    np.array_equal: _array_equal, np.count_nonzero: _count_nonzero, np.searchsorted: _searchsorted,
    np.unique: _unique, np.nan_to_num: _nan_to_num, np.zeros_like: _zeros_like, np.ones_like: _ones_like,
    np.empty_like: _empty_like, np.full_like: _full_like, np.diag: _diagf, np.tensordot: _tensordot,
    np.round: _round, np.around: _round, np.real: lambda a: a,
    np.linalg.inv: inv, np.linalg.det: det, np.linalg.slogdet: slogdet, np.linalg.cholesky: cholesky,
    np.linalg.solve: solve, np.linalg.qr: qr, np.linalg.pinv: pinv, np.linalg.lstsq: lstsq, np.linalg.norm: la_norm,
    np.linalg.eigh: eigh, np.linalg.svd: _noenc("svd"), np.linalg.eig: _noenc("eig"),
    np.linalg.eigvals: _noenc("eigvals"), np.linalg.eigvalsh: lambda a, *k: eigh(a)[0],
    np.linalg.multi_dot: lambda arrs, **k: _multidot(arrs), np.linalg.matrix_rank: lambda a, *x, **k: min(obj(a).shape),
    np.linalg.cond: _noenc("cond"),
    np.vdot: lambda a, b: _dotv(obj(a).ravel(), obj(b).ravel()),
    np.nonzero: lambda a: _tobool(a).nonzero(), np.flatnonzero: lambda a: np.flatnonzero(_tobool(a).ravel()),
    np.argwhere: lambda a: np.argwhere(_tobool(a)),
    np.ravel_multi_index: None,
    np.nansum: lambda a, axis=None, **k: _reduce("add", a, axis), np.nanmean: lambda a, axis=None, **k: mean(a, axis),
    np.linalg.matrix_power: lambda a, n: _matpow(a, n),
    np.median: _median, np.partition: lambda a, kth, axis=-1, **k: _sortf(a, axis), np.percentile: _noenc("percentile"), np.quantile: _noenc("quantile"),
    np.copyto: lambda dst, src, **k: dst.__setitem__(Ellipsis, src),
    np.isin: _noenc("isin"),
}
FUNC.pop(np.ravel_multi_index)
if hasattr(np, "trapezoid"):
    FUNC[np.trapezoid] = _trapz


def _multidot(arrs):
    r = arrs[0]
    for a in arrs[1:]:
        r = dot(r, a)
    return r


def _matpow(a, n):
    if n < 0:
        return _matpow(inv(a), -n)
    r = eye(obj(a).shape[0])
    for _ in range(n):
        r = dot(r, a)
    return r


def handle_function(func, args, kwargs):
    f = FUNC.get(func)
    if f is not None:
        kwargs = {k: v for k, v in kwargs.items() if v is not np._NoValue}
        return f(*args, **kwargs)
    if SSparse is not None and any(isinstance(a, SSparse) for a in args):
        raise NotEncodable("numpy function on sparse")
    a2 = strip(args)
    k2 = strip(kwargs)
    try:
        r = func(*a2, **k2)
    except TypeError as ex:
        raise NotEncodable("numpy function %s: %s" % (getattr(func, "__name__", func), ex))
    if k2.get("out") is not None:
        return kwargs["out"]
    return wrap(r)


# ---- patched module namespaces ----------------------------------------------------------

def _plain_dtype(d):
    if d is FLOAT:
        d = float
    if d is None:
        return False
    try:
        return np.dtype(d).kind in "iubSUM"
    except TypeError:
        return False


def _mk_creator(real, val):
    def f(shape, dtype=float, order="C", **k):
        if _plain_dtype(dtype):
            return real(_shape(shape), dtype=dtype)
        return full(_shape(shape), val() if callable(val) else val)
    f.__name__ = real.__name__
    return f


def _shape(s):
    if isinstance(s, (tuple, list)) or (isinstance(s, np.ndarray) and s.ndim == 1):
        return tuple(int(x) for x in s)
    return int(s)


def s_array(x, dtype=None, copy=True, order=None, ndmin=0, **k):
    dtype = float if dtype is s_float64 else dtype
    if isinstance(x, Expr) or isinstance(x, SArr):
        if dtype is not None and _plain_dtype(dtype):
            return (sarr(x)).astype(dtype)
        r = sarr(x)
        r = r.copy() if copy is not False else r
    elif any_sym(x) or _deep_sym(x):
        r = sarr(x)
        if r is x and copy:
            r = r.copy()
        if dtype is not None and _plain_dtype(dtype):
            r = r.astype(dtype)
    else:
        kw = {}
        if dtype is not None:
            kw["dtype"] = dtype
        if dtype is object:
            r = np.array(x, dtype=object)
            return r
        r = np.array(x, **kw)
        if r.dtype.kind == "f":
            r = sarr(r)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _deep_sym(x):
    if isinstance(x, (list, tuple)):
        return any(isinstance(i, (Expr, SArr)) or _deep_sym(i) for i in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(i, Expr) for i in x.ravel().tolist())
    return False


def s_asarray(x, dtype=None, *a, **k):
    dtype = float if dtype is s_float64 else dtype
    if isinstance(x, SArr):
        if dtype is not None and _plain_dtype(dtype):
            return x.astype(dtype)
        return x
    if isinstance(x, np.ndarray) and x.dtype != object:
        if dtype is None:
            return x
        return np.asarray(x, dtype=dtype)
    return s_array(x, dtype=dtype, copy=False)


def s_isscalar(x):
    return isinstance(x, Expr) or np.isscalar(x)


def s_float64(x=0.0):
    return x if isinstance(x, (Expr, SArr)) else np.float64(x)


def s_atleast_1d(*xs):
    r = [wrap(np.atleast_1d(obj(x) if any_sym(x) else x)) for x in xs]
    return r[0] if len(r) == 1 else r


def s_atleast_2d(*xs):
    r = [wrap(np.atleast_2d(obj(x) if any_sym(x) else x)) for x in xs]
    return r[0] if len(r) == 1 else r


def _sym_or(real, symf):
    def f(*a, **k):
        if any_sym(*a) or any_sym(*k.values()) or any(_deep_sym(x) for x in a):
            return symf(*a, **k)
        return real(*a, **k)
    f.__name__ = getattr(real, "__name__", "f")
    return f


def _unif(real):
    def f(*a, **k):
        r = real(*a, **k)
        return r
    return f


class Proxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over

    def __getattr__(self, k):
        o = self.__dict__["_over"]
        if k in o:
            v = o[k]
            return v() if isinstance(v, _Lazy) else v
        return getattr(self.__dict__["_real"], k)


class _Lazy:
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()


class _Norm:
    """scipy.stats.norm"""
    def _z(self, x, loc, scale):
        if loc == 0 and scale == 1:
            return sarr(x) if not isinstance(x, Expr) else x
        return (sarr(x) - loc) / scale

    def pdf(self, x, loc=0, scale=1):
        if not any_sym(x, loc, scale):
            return sp.stats.norm.pdf(x, loc, scale)
        z = self._z(x, loc, scale)
        return unary("exp", -z * z / 2) / E.ipow(2 * E.PI, Fraction(1, 2)) / scale

    def logpdf(self, x, loc=0, scale=1):
        if not any_sym(x, loc, scale):
            return sp.stats.norm.logpdf(x, loc, scale)
        z = self._z(x, loc, scale)
        return -z * z / 2 - fn("log", 2 * E.PI) / 2 - (unary("log", scale) if any_sym(scale) else fn("log", lift(scale)) if np.isscalar(scale) else unary("log", scale))

    def cdf(self, x, loc=0, scale=1):
        if not any_sym(x, loc, scale):
            return sp.stats.norm.cdf(x, loc, scale)
        return unary("ndtr", self._z(x, loc, scale))

    def sf(self, x, loc=0, scale=1):
        if not any_sym(x, loc, scale):
            return sp.stats.norm.sf(x, loc, scale)
        return unary("ndtr", -self._z(x, loc, scale))

    def logcdf(self, x, loc=0, scale=1):
        return unary("log", self.cdf(x, loc, scale))

    def ppf(self, x, loc=0, scale=1):
        if not any_sym(x, loc, scale):
            return sp.stats.norm.ppf(x, loc, scale)
        return unary("ndtri", x) * scale + loc

    def isf(self, x, loc=0, scale=1):
        if not any_sym(x, loc, scale):
            return sp.stats.norm.isf(x, loc, scale)
        return -unary("ndtri", x) * scale + loc

    def __getattr__(self, k):
        return getattr(sp.stats.norm, k)

    def __call__(self, *a, **k):
        if any_sym(*a) or any_sym(*k.values()):
            return _Frozen(self, a, k)
        return sp.stats.norm(*a, **k)


norm_stub = _Norm()


def _stfn(dist, kind, *args):
    os_ = np.broadcast_arrays(*[obj(v) for v in args])
    o = np.empty(os_[0].shape, dtype=object)
    for ix in np.ndindex(*o.shape):
        o[ix] = E._mk("F", name="st:%s:%s" % (dist, kind), args=tuple(lift(t[ix]) for t in os_))
    return fin(o)


class _Frozen:
    def __init__(self, d, a, k):
        self._d, self._a, self._k = d, a, k

    def __getattr__(self, m):
        f = getattr(self._d, m)
        if m in ("mean", "var", "std"):
            return lambda: f(*self._a, **self._k)
        if m == "rvs" or m not in ("sf", "cdf", "ppf", "isf", "pdf", "pmf", "logpdf", "logpmf", "logsf", "logcdf"):
            return getattr(self._d._real(*self._a, **self._k), m)
        return lambda x, **kw: f(x, *self._a, **dict(self._k, **kw))


class _Dist:
    """distribution functions kept as uninterpreted functions of the standardised argument and the shape parameters"""
    def __init__(self, real, name):
        self._real, self._name = real, name
        self._shapes = [q.strip() for q in real.shapes.split(",")] if real.shapes else []
        self._disc = not hasattr(real, "pdf")

    def _bind(self, a, k):
        names = self._shapes + (["loc"] if self._disc else ["loc", "scale"])
        if len(a) > len(names):
            raise TypeError("%s takes at most %d parameters" % (self._name, len(names)))
        v = dict(zip(names, a))
        for q, x in k.items():
            if q not in names or q in v:
                raise TypeError("%s: unexpected parameter %s" % (self._name, q))
            v[q] = x
        for q in self._shapes:
            if q not in v:
                raise TypeError("%s: missing parameter %s" % (self._name, q))
        return [v[q] for q in self._shapes], v.get("loc", 0), v.get("scale", 1)

    def __getattr__(self, k):
        r = getattr(self._real, k)
        if k not in ("sf", "cdf", "ppf", "isf", "pdf", "pmf", "logpdf", "logpmf", "logsf", "logcdf"):
            return r
        nm = self._name

        def f(x, *a, **kw):
            if not any_sym(x, *a) and not any_sym(*kw.values()):
                return r(x, *a, **kw)
            sh, loc, sc = self._bind(a, kw)
            z = sarr(x)
            if k in ("ppf", "isf"):
                return _stfn(nm, "ppf", z if k == "ppf" else 1 - z, *sh) * sc + loc
            z = z - loc if self._disc else (z - loc) / sc
            kind = k[3:] if k.startswith("log") else k
            if kind == "sf":
                v = 1 - _stfn(nm, "cdf", z, *sh)
            elif kind == "pdf":
                v = _stfn(nm, "pdf", z, *sh) / sc
            else:
                v = _stfn(nm, kind, z, *sh)
            return unary("log", v) if k.startswith("log") else v
        return f

    def __call__(self, *a, **k):
        self._bind(a, k)
        return _Frozen(self, a, k)


_DISTS = ["chi2", "t", "f", "gamma", "beta", "poisson", "nbinom", "binom", "invgauss", "bernoulli", "wald", "expon", "uniform"]


def build_overrides():
    la_np = {
        "inv": _sym_or(np.linalg.inv, inv), "det": _sym_or(np.linalg.det, det), "slogdet": _sym_or(np.linalg.slogdet, slogdet),
        "cholesky": _sym_or(np.linalg.cholesky, cholesky), "solve": _sym_or(np.linalg.solve, solve),
        "qr": _sym_or(np.linalg.qr, qr), "pinv": _sym_or(np.linalg.pinv, pinv), "lstsq": _sym_or(np.linalg.lstsq, lstsq),
        "norm": _sym_or(np.linalg.norm, la_norm), "eigh": _sym_or(np.linalg.eigh, eigh),
        "multi_dot": _sym_or(np.linalg.multi_dot, _multidot),
    }
    la_sp = {
        "inv": _sym_or(sp.linalg.inv, inv), "det": _sym_or(sp.linalg.det, det), "pinv": _sym_or(sp.linalg.pinv, pinv),
        "cholesky": _sym_or(sp.linalg.cholesky, sp_cholesky), "solve": _sym_or(sp.linalg.solve, solve),
        "solve_triangular": _sym_or(sp.linalg.solve_triangular, solve_triangular),
        "cho_factor": _sym_or(sp.linalg.cho_factor, cho_factor), "cho_solve": _sym_or(sp.linalg.cho_solve, cho_solve),
        "qr": _sym_or(sp.linalg.qr, sp_qr), "lstsq": _sym_or(sp.linalg.lstsq, lstsq), "norm": _sym_or(sp.linalg.norm, la_norm),
        "block_diag": _sym_or(sp.linalg.block_diag, block_diag), "toeplitz": _sym_or(sp.linalg.toeplitz, toeplitz),
        "eigh": _sym_or(sp.linalg.eigh, eigh), "svd": _sym_or(sp.linalg.svd, _noenc("svd")),
        "expm": _sym_or(sp.linalg.expm, _noenc("expm")), "sqrtm": _sym_or(sp.linalg.sqrtm, _noenc("sqrtm")),
    }
    if hasattr(sp.linalg, "kron"):
        la_sp["kron"] = _sym_or(sp.linalg.kron, _kron)
    over_np = {
        "zeros": _mk_creator(np.zeros, 0), "ones": _mk_creator(np.ones, 1),
        "empty": _mk_creator(np.empty, lambda: E.var("UNINIT")),
        "eye": eye, "identity": lambda n, dtype=float: eye(n, dtype=dtype), "full": full,
        "array": s_array, "asarray": s_asarray, "asanyarray": s_asarray, "ascontiguousarray": s_asarray,
        "asfortranarray": s_asarray, "asarray_chkfinite": s_asarray,
        "isscalar": s_isscalar, "float64": s_float64, "atleast_1d": s_atleast_1d, "atleast_2d": s_atleast_2d,
        "pi": _Lazy(lambda: E.PI),
        "block": _sym_or(np.block, lambda x: sarr(np.block(strip(x)))),
        "stack": _sym_or(np.stack, lambda x, axis=0, **k: sarr(np.stack([obj(i) for i in x], axis=axis))),
        "concatenate": _sym_or(np.concatenate, lambda x, axis=0, **k: sarr(np.concatenate([obj(i) for i in x], axis=axis))),
        "hstack": _sym_or(np.hstack, lambda x, **k: sarr(np.hstack([obj(i) for i in x]))),
        "vstack": _sym_or(np.vstack, lambda x, **k: sarr(np.vstack([obj(i) for i in x]))),
        "column_stack": _sym_or(np.column_stack, lambda x: sarr(np.column_stack([obj(i) for i in x]))),
        "where": _sym_or(np.where, _where), "r_": _RC(0), "c_": _RC(1),
        "sum": _sym_or(np.sum, FUNC[np.sum]), "mean": _sym_or(np.mean, mean), "prod": _sym_or(np.prod, FUNC[np.prod]),
        "diag": _sym_or(np.diag, _diagf), "maximum": np.maximum,
        "max": _sym_or(np.max, FUNC[np.max]), "min": _sym_or(np.min, FUNC[np.min]),
        "linalg": Proxy(np.linalg, la_np),
    }
    special = {"polygamma": _sym_or(sp.special.polygamma, polygamma), "logsumexp": _sym_or(sp.special.logsumexp, logsumexp),
               "softmax": _sym_or(sp.special.softmax, softmax), "comb": comb,
               "factorial": _sym_or(sp.special.factorial, lambda x, exact=False, **k: unary("gamma", sarr(x) + 1))}
    stats = {"norm": norm_stub}
    for d in _DISTS:
        stats[d] = _Dist(getattr(sp.stats, d), d)
    lapack = {"dtrtri": _sym_or(sp.linalg.lapack.dtrtri, dtrtri)}
    plapack = Proxy(sp.linalg.lapack, lapack)
    la_sp["lapack"] = plapack
    psp_special = Proxy(sp.special, special)
    psp_linalg = Proxy(sp.linalg, la_sp)
    psp_stats = Proxy(sp.stats, stats)
    pnp = Proxy(np, over_np)
    from . import sparse
    psparse, byid = sparse.overrides()
    psp = Proxy(sp, {"special": psp_special, "linalg": psp_linalg, "stats": psp_stats, "sparse": psparse})
    for real, p in ((np, pnp), (sp, psp), (sp.special, psp_special), (sp.linalg, psp_linalg), (sp.stats, psp_stats),
                    (np.linalg, over_np["linalg"]), (sp.linalg.lapack, plapack)):
        byid[id(real)] = p
    for real, table in ((np, over_np), (np.linalg, la_np), (sp.linalg, la_sp), (sp.special, special), (sp.stats, stats),
                        (sp.linalg.lapack, lapack)):
        for k, v in table.items():
            if isinstance(v, (_Lazy, Proxy)):
                continue
            r = getattr(real, k, None)
            if callable(r) and not isinstance(r, type):
                byid[id(r)] = v
    return byid


class _RC:
    def __init__(self, axis):
        self.axis = axis

    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        real = np.r_ if self.axis == 0 else np.c_
        if not any_sym(*k):
            return real[k]
        ks = []
        for x in k:
            if isinstance(x, slice):
                x = np.r_[x]
            o = obj(x)
            if o.ndim == 0:
                o = o.reshape(1)
            if self.axis == 1 and o.ndim == 1:
                o = o[:, None]
            ks.append(o)
        return sarr(np.concatenate(ks, axis=self.axis if self.axis == 0 else -1))


class _FloatOf:
    """float() for the analysed modules: keeps symbolic scalars symbolic"""
    dtype = np.dtype(float)
    __name__ = "float"

    def __call__(self, x=0.0):
        if isinstance(x, Expr):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return x.reshape(-1)[0]
        return float(x)

    def __instancecheck__(self, x):
        return isinstance(x, float)

    def __eq__(self, o):
        return o is self or o is float

    def __hash__(self):
        return hash(float)


FLOAT = _FloatOf()
_BYID = None


def _sparse_mul(real, right):
    """a concrete sparse matrix times a symbolic dense one"""
    def f(self, other):
        if isinstance(other, SSparse):
            return NotImplemented
        if isinstance(other, np.ndarray) and other.dtype == object:
            M = sarr(self.toarray())
            return dot(other, M) if right else dot(M, other)
        return real(self, other)
    return f


@contextlib.contextmanager
def patched(extra=None, prefix="pystatsm"):
    """Replace numpy/scipy in the globals of all loaded modules of the package."""
    global _BYID
    if _BYID is None:
        _BYID = build_overrides()
    byid = _BYID
    if prefix + ".utilities.python_wrappers" in sys.modules:
        from . import cfront
        byid = dict(byid)
        byid.update({k: v[0] for k, v in cfront.tables().items()})
    saved, fl = [], []
    for mn, m in list(sys.modules.items()):
        if m is None or not (mn == prefix or mn.startswith(prefix + ".")):
            continue
        g = m.__dict__
        if "float" not in g:
            fl.append(g)
            g["float"] = FLOAT
        for k, v in list(g.items()):
            r = byid.get(id(v))
            if r is not None:
                saved.append((g, k, v))
                g[k] = r
    if extra:
        for (g, k), v in extra.items():
            saved.append((g, k, g[k]))
            g[k] = v
    base = sp.sparse._base._spbase
    keep = base._matmul_dispatch, base._rmatmul_dispatch
    base._matmul_dispatch, base._rmatmul_dispatch = _sparse_mul(keep[0], False), _sparse_mul(keep[1], True)
    try:
        yield
    finally:
        base._matmul_dispatch, base._rmatmul_dispatch = keep
        for g, k, v in reversed(saved):
            g[k] = v
        for g in fl:
            g.pop("float", None)


@contextlib.contextmanager
def native(prefix="pystatsm"):
    """concrete runs: the compiled kernels are those of the current sources"""
    if prefix + ".utilities.python_wrappers" not in sys.modules:
        yield
        return
    from . import cfront
    t = cfront.tables()
    saved = []
    for mn, m in list(sys.modules.items()):
        if m is None or not mn.startswith(prefix + "."):
            continue
        for k, v in list(m.__dict__.items()):
            r = t.get(id(v))
            if r is not None and r[1] is not None:
                saved.append((m.__dict__, k, v))
                m.__dict__[k] = r[1]
    try:
        yield
    finally:
        for g, k, v in saved:
            g[k] = v
