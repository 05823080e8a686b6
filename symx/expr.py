"""Hash-consed symbolic real/integer terms with operator overloading.

A term is one of
  C  constant (Fraction)
  V  variable
  A  sum        const + sum coef_i * node_i
  M  product    prod node_i ** exp_i          (exp_i rational)
  F  function   name(args)
Sums and products are kept flat, so that trivially equal terms are the same
object.  Nothing is expanded here: expansion is norm.py's work.
"""
from fractions import Fraction
import math
import numpy as np

NODES = []          # id -> Expr (creation order is a topological order)
_TABLE = {}


class NotEncodable(Exception):
    """The real code did something the symbolic executor cannot represent."""


class PathAbort(Exception):
    """Current path is infeasible or beyond the bound."""


class Decider:
    """Replaced by explore.Explorer while a harness is running."""
    def decide(self, rel, e):
        raise NotEncodable("branch on a symbolic value outside an exploration")

    def concretise_int(self, e):
        raise NotEncodable("symbolic value used as an integer outside an exploration")

    def known_sign(self, e):
        return None


DECIDER = [Decider()]


def to_fraction(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    raise TypeError(type(x))


class Expr:
    __slots__ = ("op", "name", "args", "exps", "c", "id", "flags", "_pos", "_nn", "__weakref__")
    __array_priority__ = 1000

    # -- conversions
    def __hash__(self):
        return self.id * 2654435761 % (1 << 61)

    def __reduce__(self):
        raise NotEncodable("pickling a symbolic term")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    @property
    def is_const(self):
        return self.op == "C"

    @property
    def is_int(self):
        return bool(self.flags & 1)

    # numpy-scalar look-alike attributes
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return np.dtype(int) if self.is_int else np.dtype(float)

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def item(self, *a):
        return self

    def squeeze(self, *a):
        return self

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def ravel(self, *a):
        from .shim import sarr
        return sarr([self])

    def flatten(self, *a):
        return self.ravel()

    def reshape(self, *shape, **k):
        from .shim import sarr
        return sarr([self]).reshape(*shape)

    def astype(self, t, *a, **k):
        return self

    def __getitem__(self, ix):
        from .shim import sarr0
        return sarr0(self)[ix]

    def dot(self, o):
        return self * o

    def __float__(self):
        if self.op == "C":
            return float(self.c)
        if is_closed(self):
            return float(evalf(self, {}))
        raise NotEncodable("float() of a symbolic value")

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        if self.op == "C":
            return int(self.c)
        return DECIDER[0].concretise_int(self)

    def __index__(self):
        if self.op == "C":
            if self.c.denominator == 1:
                return int(self.c)
            raise TypeError("non-integer index")
        if self.is_int:
            return DECIDER[0].concretise_int(self)
        raise TypeError("real symbolic value as index")

    def __trunc__(self):
        return int(self)

    def __floor__(self):
        return floor_(self)

    def __bool__(self):
        return DECIDER[0].decide("!=", self)

    # -- arithmetic
    def __add__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else add(self, neg(o))

    def __rsub__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else add(o, neg(self))

    def __mul__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else div(self, o)

    def __rtruediv__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else div(o, self)

    def __floordiv__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else floordiv(self, o)

    def __rfloordiv__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else floordiv(o, self)

    def __mod__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else sub(self, mul(o, floordiv(self, o)))

    def __rmod__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else sub(o, mul(self, floordiv(o, self)))

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __pow__(self, o, mod=None):
        o = _coerce(o)
        return o if o is NotImplemented else power(self, o)

    def __rpow__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else power(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return abs_(self)

    def conjugate(self):
        return self

    conj = conjugate

    # -- comparisons decide now (fork)
    def __eq__(self, o):
        if o is self:
            return True
        o = _coerce(o)
        if o is NotImplemented:
            return False
        return DECIDER[0].decide("==", sub(self, o))

    def __ne__(self, o):
        if o is self:
            return False
        o = _coerce(o)
        if o is NotImplemented:
            return True
        return DECIDER[0].decide("!=", sub(self, o))

    def __lt__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else DECIDER[0].decide("<", sub(self, o))

    def __le__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else DECIDER[0].decide("<=", sub(self, o))

    def __gt__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else DECIDER[0].decide("<", sub(o, self))

    def __ge__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else DECIDER[0].decide("<=", sub(o, self))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .shim import handle_ufunc
        return handle_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .shim import handle_function
        return handle_function(func, args, kwargs)

    def __repr__(self):
        return to_str(self)


def _mk(op, name=None, args=(), exps=(), c=None, flags=0):
    key = (op, name, tuple(a.id for a in args), exps, c)
    e = _TABLE.get(key)
    if e is not None:
        return e
    e = object.__new__(Expr)
    e.op, e.name, e.args, e.exps, e.c = op, name, args, exps, c
    e.flags = flags
    e._pos = None
    e._nn = None
    e.id = len(NODES)
    NODES.append(e)
    _TABLE[key] = e
    return e


def const(x):
    if isinstance(x, Expr):
        return x
    if not isinstance(x, Fraction):
        x = to_fraction(x)
    return _mk("C", c=x, flags=1 if x.denominator == 1 else 0)


_VARS = {}


def var(name, pos=False, integer=False):
    e = _VARS.get(name)
    if e is None:
        e = _mk("V", name=name, flags=(1 if integer else 0) | (2 if pos else 0))
        _VARS[name] = e
    return e


def reset():
    """Forget every term (used between harnesses to bound memory)."""
    global ZERO, ONE, TWO, MONE, HALF, PI, INF
    NODES.clear()
    _TABLE.clear()
    _VARS.clear()
    _DCACHE.clear()
    _TS.clear()
    CUTS.clear()
    ZERO, ONE, TWO = const(0), const(1), const(2)
    MONE = const(-1)
    HALF = const(Fraction(1, 2))
    PI = var("PI", pos=True)


_DCACHE = {}
ZERO, ONE, TWO = const(0), const(1), const(2)
MONE = const(-1)
HALF = const(Fraction(1, 2))
PI = var("PI", pos=True)

# ---- floats -> exact terms --------------------------------------------------

_RECOG = None


def _recognise(x):
    """Irrational constants captured as floats (log(2 pi), sqrt(2 pi), ...)."""
    global _RECOG
    if _RECOG is None:
        p = math.pi
        _RECOG = []
        base = [
            (p, lambda: PI), (p * p, lambda: PI * PI),
            (1 / p, lambda: ONE / PI), (1 / (p * p), lambda: ONE / (PI * PI)),
            (math.sqrt(p), lambda: power(PI, HALF)), (1 / math.sqrt(p), lambda: power(PI, -HALF)),
            (math.sqrt(2 * p), lambda: power(PI * 2, HALF)),
            (1 / math.sqrt(2 * p), lambda: power(PI * 2, -HALF)),
            (math.sqrt(p / 2), lambda: power(PI / 2, HALF)),
            (1 / math.sqrt(p / 2), lambda: power(PI / 2, -HALF)),
            (math.log(2 * p), lambda: fn("log", const(2)) + fn("log", PI)),
            (math.log(p), lambda: fn("log", PI)),
            (math.log(2), lambda: fn("log", const(2))),
            (math.log(math.pi / 2), lambda: fn("log", PI) - fn("log", const(2))),
            (1 / math.log(2), lambda: ONE / fn("log", const(2))),
            (math.log(10), lambda: fn("log", const(10))),
            (math.sqrt(2), lambda: power(const(2), HALF)), (math.sqrt(0.5), lambda: power(const(2), -HALF)),
            (math.sqrt(3), lambda: power(const(3), HALF)),
            (math.e, lambda: fn("exp", ONE)),
        ]
        for mult in (Fraction(1), Fraction(2), Fraction(1, 2), Fraction(4), Fraction(1, 4), Fraction(3),
                     Fraction(1, 3), Fraction(2, 3), Fraction(1, 6), Fraction(1, 8), Fraction(8),
                     Fraction(3, 2), Fraction(5, 2), Fraction(3, 4)):
            for v, f in base:
                _RECOG.append((v * float(mult), mult, f))
    ax = abs(x)
    for v, mult, f in _RECOG:
        if abs(ax - v) <= 4e-16 * v:
            e = const(mult) * f()
            return e if x > 0 else -e
    return None


class Infinity:
    pass


def from_float(x):
    x = float(x)
    if x != x:
        return var("NAN")
    if x in (math.inf, -math.inf):
        return PINF() if x > 0 else NINF()
    r = repr(x)
    if len(r.replace("-", "").replace(".", "").lstrip("0").split("e")[0]) >= 15 and x != int(x):
        e = _recognise(x)
        if e is not None:
            return e
        f = Fraction(x).limit_denominator(100000)
        if f != 0 and abs(float(f) - x) <= 6e-16 * abs(x):
            return const(f)
    return const(Fraction(r))


def PINF():
    return _mk("V", name="+INF", flags=2)


def NINF():
    return _mk("V", name="-INF", flags=0)


def _coerce(o):
    if isinstance(o, Expr):
        return o
    if isinstance(o, (bool, np.bool_, int, np.integer)):
        return const(Fraction(int(o)))
    if isinstance(o, Fraction):
        return const(o)
    if isinstance(o, (float, np.floating)):
        return from_float(o)
    if isinstance(o, (complex, np.complexfloating)):
        if o.imag == 0:
            return from_float(o.real)
        raise NotEncodable("complex value")
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return _coerce(o.item())
    return NotImplemented


def lift(o):
    e = _coerce(o)
    if e is NotImplemented:
        raise NotEncodable("cannot lift %r" % type(o))
    return e


# ---- smart constructors ------------------------------------------------------

def _is_inf(e):
    return e.op == "V" and e.name in ("+INF", "-INF")


def _addterms(e):
    """(const, {node: coef})"""
    if e.op == "C":
        return e.c, {}
    if e.op == "A":
        return e.c, dict(zip(e.args, e.exps))
    return Fraction(0), {e: Fraction(1)}


def _mkadd(c, d):
    d = [(n, k) for n, k in d.items() if k]
    if not d:
        return const(c)
    if len(d) == 1 and c == 0 and d[0][1] == 1:
        return d[0][0]
    d.sort(key=lambda t: t[0].id)
    fl = 1 if (c.denominator == 1 and all(n.flags & 1 and k.denominator == 1 for n, k in d)) else 0
    return _mk("A", args=tuple(n for n, _ in d), exps=tuple(k for _, k in d), c=c, flags=fl)


def add(a, b):
    if a.op == "C" and a.c == 0:
        return b
    if b.op == "C" and b.c == 0:
        return a
    if a.op == "C" and b.op == "C":
        return const(a.c + b.c)
    if _is_inf(a) or _is_inf(b):
        if _is_inf(a) and _is_inf(b) and a is not b:
            return var("NAN")
        return a if _is_inf(a) else b
    ca, da = _addterms(a)
    cb, db = _addterms(b)
    if len(da) < len(db):
        da, db = db, da
        ca, cb = cb, ca
    for n, k in db.items():
        da[n] = da.get(n, 0) + k
    return _mkadd(ca + cb, da)


def addn(items):
    c = Fraction(0)
    d = {}
    for e in items:
        e = lift(e)
        if _is_inf(e):
            r = ZERO
            for x in items:
                r = add(r, lift(x))
            return r
        if e.op == "C":
            c += e.c
        elif e.op == "A":
            c += e.c
            for n, k in zip(e.args, e.exps):
                d[n] = d.get(n, 0) + k
        else:
            d[e] = d.get(e, 0) + 1
    d = {n: Fraction(k) for n, k in d.items()}
    return _mkadd(c, d)


def scale(e, k):
    if k == 0:
        return ZERO
    if k == 1:
        return e
    if e.op == "C":
        return const(e.c * k)
    if _is_inf(e):
        return e if k > 0 else (NINF() if e.name == "+INF" else PINF())
    c, d = _addterms(e)
    return _mkadd(c * k, {n: v * k for n, v in d.items()})


def neg(a):
    return scale(a, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def _mulfactors(e):
    """(coef, {node: exp})"""
    if e.op == "C":
        return e.c, {}
    if e.op == "M":
        return Fraction(1), dict(zip(e.args, e.exps))
    if e.op == "A" and e.c == 0 and len(e.args) == 1:
        k, d = _mulfactors(e.args[0])
        return k * e.exps[0], d
    return Fraction(1), {e: Fraction(1)}


def _mkmul(k, d):
    items = []
    for n, p in d.items():
        if p == 0:
            continue
        if n.op == "C":
            if p.denominator == 1:
                k = k * n.c ** int(p)
                continue
            # fold the integer part of the exponent of a rational base
            fl = p.numerator // p.denominator
            if fl:
                k = k * n.c ** fl
                p = p - fl
        items.append((n, p))
    if k == 0:
        return ZERO
    if not items:
        return const(k)
    if len(items) == 1 and items[0][1] == 1:
        r = items[0][0]
    else:
        # merge exp() factors
        es = [(n, p) for n, p in items if n.op == "F" and n.name == "exp"]
        if len(es) > 1 or (es and es[0][1] != 1):
            arg = addn([scale(n.args[0], p) for n, p in es])
            items = [(n, p) for n, p in items if not (n.op == "F" and n.name == "exp")]
            ex = fn("exp", arg)
            if ex.op == "C":
                k = k * ex.c
            else:
                k2, d2 = _mulfactors(ex)
                k = k * k2
                dd = dict(items)
                for n, p in d2.items():
                    dd[n] = dd.get(n, Fraction(0)) + p
                items = [(n, p) for n, p in dd.items() if p]
            if not items:
                return const(k)
        if len(items) == 1 and items[0][1] == 1:
            r = items[0][0]
        else:
            items.sort(key=lambda t: t[0].id)
            fl = 1 if all(n.flags & 1 and p.denominator == 1 and p > 0 for n, p in items) else 0
            r = _mk("M", args=tuple(n for n, _ in items), exps=tuple(p for _, p in items), flags=fl)
    return scale(r, k)


def mul(a, b):
    if a.op == "C":
        if a.c == 0 and _is_inf(b):
            return var("NAN")
        return scale(b, a.c)
    if b.op == "C":
        if b.c == 0 and _is_inf(a):
            return var("NAN")
        return scale(a, b.c)
    if _is_inf(a) or _is_inf(b):
        raise NotEncodable("product with infinity")
    ka, da = _mulfactors(a)
    kb, db = _mulfactors(b)
    if len(da) < len(db):
        da, db = db, da
    for n, p in db.items():
        q = da.get(n, 0) + p
        if q == 0:
            da.pop(n, None)
        else:
            da[n] = q
    return _mkmul(ka * kb, da)


def div(a, b):
    if b.op == "C":
        if b.c == 0:
            if a.op == "C":
                raise ZeroDivisionError("symbolic division by constant zero")
            return var("NAN")
        return scale(a, 1 / b.c)
    if _is_inf(b):
        return ZERO
    return mul(a, ipow(b, Fraction(-1)))


def is_pos(e):
    """Structurally positive."""
    p = e._pos
    if p is not None:
        return p
    if e.op == "C":
        r = e.c > 0
    elif e.op == "V":
        r = bool(e.flags & 2)
    elif e.op == "F":
        r = e.name in ("exp", "ndtr", "sqrtpos", "cosh") or (e.name == "log" and e.args[0].op == "C" and e.args[0].c > 1) \
            or (e.name == "log" and e.args[0] is PI)
    elif e.op == "M":
        r = all(is_pos(n) or (p.denominator == 1 and p.numerator % 2 == 0 and False) for n, p in zip(e.args, e.exps))
    else:
        r = (e.c >= 0 and all(k > 0 and is_nonneg(n) for n, k in zip(e.args, e.exps))
             and (e.c > 0 or any(is_pos(n) for n in e.args)))
    e._pos = r
    return r


def is_nonneg(e):
    p = e._nn
    if p is not None:
        return p
    if is_pos(e):
        r = True
    elif e.op == "C":
        r = e.c >= 0
    elif e.op == "M":
        r = all((p.denominator == 1 and p.numerator % 2 == 0) or p.denominator % 2 == 0 or is_nonneg(n)
                for n, p in zip(e.args, e.exps))
    elif e.op == "A":
        r = e.c >= 0 and all(k > 0 and is_nonneg(n) for n, k in zip(e.args, e.exps))
    elif e.op == "F":
        r = e.name == "abs"
    else:
        r = False
    e._nn = r
    return r


_TS = {}
# generalised intermediate values: variable name -> the expression it stands for
CUTS = {}


def treesize(e):
    """number of nodes of the expression written out as a tree"""
    r = _TS.get(e.id)
    if r is not None:
        return r
    stack = [e]
    while stack:
        x = stack[-1]
        if x.id in _TS:
            stack.pop()
            continue
        kids = x.args or ()
        todo = [k for k in kids if isinstance(k, Expr) and k.id not in _TS]
        if todo:
            stack.extend(todo)
            continue
        _TS[x.id] = 1 + sum(_TS[k.id] for k in kids if isinstance(k, Expr))
        stack.pop()
    return _TS[e.id]


def known_pos(e):
    return is_pos(e) or DECIDER[0].known_sign(e) == 1


def ipow(a, p):
    """a ** p, p rational constant."""
    p = Fraction(p)
    if p == 0:
        return ONE
    if p == 1:
        return a
    if a.op == "C":
        c = a.c
        if p.denominator == 1:
            if c == 0 and p < 0:
                raise ZeroDivisionError("symbolic 0 ** negative")
            return const(c ** int(p))
        if c == 0:
            return ZERO
        if c < 0:
            raise NotEncodable("fractional power of a negative constant")
        # exact root?
        rn, rd = _iroot(c.numerator, p.denominator), _iroot(c.denominator, p.denominator)
        if rn is not None and rd is not None:
            return const(Fraction(rn, rd) ** p.numerator)
        r = ONE
        for prime, mult in _factor(c):
            q = p * mult
            fl = q.numerator // q.denominator
            fr = q - fl
            k = Fraction(prime) ** fl
            m = _mk("M", args=(const(prime),), exps=(fr,), flags=0) if fr else ONE
            m._pos = True
            r = mul(r, scale(m, k))
        return r
    if _is_inf(a):
        if p < 0:
            return ZERO
        return a
    k, d = _mulfactors(a)
    if p.denominator == 1:
        return _mkmul(k ** int(p), {n: e * p for n, e in d.items()})
    # fractional: split off what is known positive
    if len(d) == 1 and k == 1 and list(d.values())[0] == 1:
        if a.op == "F" and a.name == "exp":
            return fn("exp", scale(a.args[0], p))
        return _mk("M", args=(a,), exps=(p,), flags=0)
    pos, rest = {}, {}
    for n, e in d.items():
        if is_pos(n) or known_pos(n):
            pos[n] = e
        else:
            rest[n] = e
    if k < 0:
        # if an odd-exponent factor has known negative sign, flip it
        rk = Fraction(-1)
        ak = -k
    else:
        rk = Fraction(1)
        ak = k
    r = mul(ipow(const(ak), p), _mkmul(Fraction(1), {n: e * p for n, e in pos.items()}))
    if rest or rk < 0:
        # pull even powers out as |x|^(2m p)
        base = _mkmul(rk, rest)
        if len(rest) == 1 and rk > 0:
            (n, e), = rest.items()
            if e.denominator == 1 and e % 2 == 0:
                return mul(r, ipow(abs_(n), e * p))
            if e.denominator != 1 or e == 1:
                return mul(r, _mkmul(Fraction(1), {n: e * p})) if e.denominator % 2 == 0 else \
                    mul(r, _mk("M", args=(base,), exps=(p,), flags=0))
            if e == -1:
                return mul(r, _mkmul(Fraction(1), {n: -p}))
        if base.op == "C":
            if base.c < 0:
                raise NotEncodable("fractional power of a negative value")
            return r
        return mul(r, _mk("M", args=(base,), exps=(p,), flags=0))
    return r


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 10 ** 15 else int(round(math.exp(math.log(n) / k)))
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** k == n:
            return c
    return None


def _factor(c):
    """prime factorisation of a positive Fraction as [(prime, mult)]"""
    out = []
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        while p * p <= n and p < 100000:
            m = 0
            while n % p == 0:
                n //= p
                m += 1
            if m:
                out.append((p, s * m))
            p += 1
        if n > 1:
            out.append((n, s))
    return out


def power(a, b):
    if b.op == "C":
        return ipow(a, b.c)
    if a.op == "C":
        if a.c == 1:
            return ONE
        if a.c == 0:
            return ZERO
    return fn("exp", mul(b, fn("log", a)))


def abs_(a):
    if a.op == "C":
        return const(abs(a.c))
    if is_nonneg(a):
        return a
    s = DECIDER[0].known_sign(a)
    if s == 1:
        return a
    if s == -1:
        return neg(a)
    k, d = _mulfactors(a)
    if k != 1:
        return scale(abs_(_mkmul(Fraction(1), d)), abs(k))
    # force a decision: value semantics by path forking
    if DECIDER[0].decide("<", a):
        return neg(a)
    return a


def sign_(a):
    if a.op == "C":
        return const((a.c > 0) - (a.c < 0))
    if is_pos(a):
        return ONE
    if DECIDER[0].decide("<", a):
        return MONE
    if DECIDER[0].decide("==", a):
        return ZERO
    return ONE


def floordiv(a, b):
    if a.op == "C" and b.op == "C":
        return const(a.c // b.c)
    if b.op == "C" and b.c == 1 and a.is_int:
        return a
    return _mk("F", name="floordiv", args=(a, b), flags=1)


def floor_(a):
    if a.op == "C":
        return const(a.c.numerator // a.c.denominator)
    if a.is_int:
        return a
    return _mk("F", name="floordiv", args=(a, ONE), flags=1)


# ---- functions ---------------------------------------------------------------
# name -> (derivative rule giving list of partials, float implementation, mp implementation)

def _sc(name):
    import scipy.special as s
    return getattr(s, name)


def fn(name, *args):
    args = tuple(lift(a) for a in args)
    h = _FSIMP.get(name)
    if h is not None:
        r = h(*args)
        if r is not None:
            return r
    return _mk("F", name=name, args=args, flags=0)


def _s_exp(x):
    if x.op == "C" and x.c == 0:
        return ONE
    if _is_inf(x):
        return x if x.name == "+INF" else ZERO
    if x.op == "F" and x.name == "log":
        return x.args[0]
    # exp(k*log(u) + rest) -> u**k exp(rest)
    if x.op == "A":
        out = ONE
        rest = {}
        hit = False
        for n, k in zip(x.args, x.exps):
            if n.op == "F" and n.name == "log":
                out = mul(out, ipow(n.args[0], k))
                hit = True
            else:
                rest[n] = k
        if hit:
            return mul(out, fn("exp", _mkadd(x.c, rest)))
    return None


def _s_log(x):
    if x.op == "C":
        if x.c <= 0:
            if x.c == 0:
                return NINF()
            return var("NAN")
        if x.c == 1:
            return ZERO
        f = _factor(x.c)
        if len(f) == 1 and f[0][1] == 1:
            return None
        return addn([scale(_mk("F", name="log", args=(const(p),)), Fraction(m)) for p, m in f])
    if _is_inf(x):
        return x
    if x.op == "F" and x.name == "exp":
        return x.args[0]
    k, d = _mulfactors(x)
    if len(d) == 1 and k == 1:
        (n, e), = d.items()
        if e == 1:
            return None
        if is_pos(n) or e.denominator % 2 == 0 or known_pos(n):
            return scale(fn("log", n), e)
        if e.denominator == 1 and e.numerator % 2 == 0:
            return scale(fn("log", abs_(n)), e)
        return scale(fn("log", n), e)  # odd power: x must be positive for log to be real
    terms = []
    rest = {}
    for n, e in d.items():
        if is_pos(n) or known_pos(n):
            terms.append(scale(fn("log", n), e))
        else:
            rest[n] = e
    if not terms and k == 1:
        return None
    if rest:
        if k < 0:
            terms.append(_mk("F", name="log", args=(_mkmul(Fraction(-1), rest),)))
        else:
            terms.append(fn("log", _mkmul(Fraction(1), rest)) if len(rest) < len(d) or len(rest) == 1 or k != 1
                         else _mk("F", name="log", args=(_mkmul(Fraction(1), rest),)))
    elif k < 0:
        return var("NAN")
    if abs(k) != 1:
        terms.append(fn("log", const(abs(k))))
    return addn(terms)


def _s_ndtr(x):
    if _is_inf(x):
        return ONE if x.name == "+INF" else ZERO
    if x.op == "C" and x.c == 0:
        return HALF
    if x.op == "F" and x.name == "ndtri":
        return x.args[0]


def _s_ndtri(x):
    if x.op == "F" and x.name == "ndtr":
        return x.args[0]
    if x.op == "C" and x.c == Fraction(1, 2):
        return ZERO


def _s_gammaln(x):
    if x.op == "C" and x.c.denominator == 1 and 0 < x.c < 200:
        return fn("log", const(math.factorial(int(x.c) - 1)))


def _s_sin(x):
    if x.op == "C" and x.c == 0:
        return ZERO
    k, d = _mulfactors(x)
    if k < 0:
        return neg(fn("sin", neg(x)))
    if x.op == "F" and x.name == "arcsin":
        return x.args[0]
    if x.op == "F" and x.name == "arccos":
        return ipow(ONE - x.args[0] * x.args[0], Fraction(1, 2))


def _s_cos(x):
    if x.op == "C" and x.c == 0:
        return ONE
    k, d = _mulfactors(x)
    if k < 0:
        return fn("cos", neg(x))
    if x.op == "F" and x.name == "arccos":
        return x.args[0]
    if x.op == "F" and x.name == "arcsin":
        return ipow(ONE - x.args[0] * x.args[0], Fraction(1, 2))


def _s_asin(x):
    if x.op == "C" and x.c == 0:
        return ZERO


def _s_uf(x):
    return None


_FSIMP = {"exp": _s_exp, "log": _s_log, "ndtr": _s_ndtr, "ndtri": _s_ndtri, "gammaln": _s_gammaln,
          "sin": _s_sin, "cos": _s_cos, "arcsin": _s_asin, "arctan": _s_asin}


def npdf(x):
    return fn("exp", scale(x * x, Fraction(-1, 2))) * ipow(scale(PI, Fraction(2)), Fraction(-1, 2))


def tanh_(x):
    e = fn("exp", scale(x, Fraction(2)))
    if e.op == "V" and _is_inf(e):
        return ONE
    return (e - 1) / (e + 1)


# uninterpreted functions: registered with name -> (float callable giving k-th derivative)
UF = {}


def uf(name, order, x):
    """k-th derivative of an uninterpreted scalar function at x."""
    return _mk("F", name="uf:%s:%d" % (name, order), args=(lift(x),), flags=0)


def partials(e):
    """Partial derivatives of an F node with respect to its args."""
    n, a = e.name, e.args
    if n == "exp":
        return (e,)
    if n == "log":
        return (ONE / a[0],)
    if n == "ndtr":
        return (npdf(a[0]),)
    if n == "ndtri":
        return (ONE / npdf(e),)
    if n == "gammaln":
        return (fn("polygamma", ZERO, a[0]),)
    if n == "polygamma":
        return (ZERO, fn("polygamma", a[0] + 1, a[1]))
    if n == "sin":
        return (fn("cos", a[0]),)
    if n == "cos":
        return (-fn("sin", a[0]),)
    if n == "arcsin":
        return (ipow(ONE - a[0] * a[0], Fraction(-1, 2)),)
    if n == "arccos":
        return (-ipow(ONE - a[0] * a[0], Fraction(-1, 2)),)
    if n == "arctan":
        return (ONE / (ONE + a[0] * a[0]),)
    if n == "owens_t":
        h, t = a
        dT_dh = -(fn("ndtr", h * t) - HALF) * npdf(h)
        dT_da = fn("exp", scale(h * h * (1 + t * t), Fraction(-1, 2))) / (2 * PI * (1 + t * t))
        return (dT_dh, dT_da)
    if n.startswith("uf:"):
        _, nm, k = n.split(":")
        return (uf(nm, int(k) + 1, a[0]),)
    if n == "bvncdf":
        x, y, r = a
        s = ipow(ONE - r * r, Fraction(-1, 2))
        return (npdf(x) * fn("ndtr", (y - r * x) * s), npdf(y) * fn("ndtr", (x - r * y) * s),
                fn("exp", -(x * x - 2 * r * x * y + y * y) / (2 * (1 - r * r))) * s / (2 * PI))
    if n == "floordiv":
        return (ZERO, ZERO)
    if n.startswith("st:") and n.endswith(":cdf"):
        return (_mk("F", name=n[:-3] + "pdf", args=a),) + (None,) * (len(a) - 1)
    raise NotEncodable("no derivative rule for " + n)


def diff(e, v):
    """d e / d v for a variable v (memoised)."""
    cache = _DCACHE.setdefault(v.id, {})
    stack = [e]
    while stack:
        n = stack[-1]
        if n.id in cache:
            stack.pop()
            continue
        if n.op == "V" and n.name in CUTS and n is not v:
            d = CUTS[n.name]
            if d.id in cache:
                cache[n.id] = cache[d.id]
                stack.pop()
            else:
                stack.append(d)
            continue
        if n.op in "CV":
            cache[n.id] = ONE if n is v else ZERO
            stack.pop()
            continue
        todo = [a for a in n.args if a.id not in cache]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        if n.op == "A":
            r = addn([scale(cache[a.id], k) for a, k in zip(n.args, n.exps)])
        elif n.op == "M":
            ts = []
            for a, p in zip(n.args, n.exps):
                da = cache[a.id]
                if da is ZERO:
                    continue
                ts.append(mul(mul(scale(da, p), n), ipow(a, Fraction(-1))))
            r = addn(ts)
        else:
            if all(cache[a.id] is ZERO for a in n.args):
                r = ZERO
            else:
                ps = partials(n)
                if any(p is None and cache[a.id] is not ZERO for p, a in zip(ps, n.args)):
                    raise NotEncodable("no derivative rule for an argument of " + n.name)
                r = addn([mul(p, cache[a.id]) for p, a in zip(ps, n.args) if cache[a.id] is not ZERO])
        cache[n.id] = r
    return cache[e.id]


def subs(e, mapping):
    """Substitute {var_expr: expr}."""
    cache = {k.id: lift(v) for k, v in mapping.items()}
    for n in topo([e]):
        if n.id in cache:
            continue
        cache[n.id] = rebuild(n, [cache[a.id] for a in n.args])
    return cache[e.id]


def rebuild(n, args):
    if n.op in "CV":
        return n
    if n.op == "A":
        return add(const(n.c), addn([scale(a, k) for a, k in zip(args, n.exps)]))
    if n.op == "M":
        r = ONE
        for a, p in zip(args, n.exps):
            r = mul(r, ipow(a, p))
        return r
    if n.name == "floordiv":
        return floordiv(*args)
    return fn(n.name, *args)


def topo(exprs):
    seen = set()
    st = list(exprs)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        st.extend(n.args)
    return [NODES[i] for i in sorted(seen)]


def variables(exprs):
    return [n for n in topo(exprs) if n.op == "V" and n.name not in ("PI", "+INF", "-INF")]


def is_closed(e):
    return all(n.op != "V" or n.name == "PI" for n in topo([e])) and not any(
        n.op == "F" and n.name.startswith("uf:") for n in topo([e]))


# ---- numeric evaluation --------------------------------------------------------

def _ffun(name):
    import scipy.special as s
    if name.startswith("st:"):
        import scipy.stats
        _, d, k = name.split(":")
        return getattr(getattr(scipy.stats, d), k)
    return {
        "exp": math.exp, "log": math.log, "ndtr": s.ndtr, "ndtri": s.ndtri, "gammaln": s.gammaln,
        "polygamma": lambda n, x: s.polygamma(int(n), x), "sin": math.sin, "cos": math.cos,
        "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan, "owens_t": s.owens_t,
        "floordiv": lambda a, b: math.floor(a / b), "bvncdf": _bvn,
    }.get(name)


def _bvn(x, y, r):
    from scipy.stats import multivariate_normal
    from scipy.integrate import quad
    import scipy.special as s
    # Phi2(x,y;r) = Phi(x)Phi(y) + int_0^r phi2(x,y;t) dt
    f = lambda t: math.exp(-(x * x - 2 * t * x * y + y * y) / (2 * (1 - t * t))) / (2 * math.pi * math.sqrt(1 - t * t))
    return s.ndtr(x) * s.ndtr(y) + quad(f, 0, r, epsabs=1e-14, epsrel=1e-13)[0]


def evalf(e, env, ufimpl=None):
    """Evaluate to a float; env maps variable names to numbers."""
    return evalf_many([e], env, ufimpl)[0]


def evalf_many(es, env, ufimpl=None):
    val = {}
    for n in topo(es):
        op = n.op
        try:
            if op == "C":
                v = float(n.c)
            elif op == "V":
                v = math.pi if n.name == "PI" else math.inf if n.name == "+INF" else \
                    -math.inf if n.name == "-INF" else math.nan if n.name == "NAN" else \
                    float(env[n.name]) if n.name in env or n.name not in CUTS else evalf(CUTS[n.name], env, ufimpl)
            elif op == "A":
                v = math.fsum([float(n.c)] + [float(k) * val[a.id] for a, k in zip(n.args, n.exps)])
            elif op == "M":
                v = 1.0
                for a, p in zip(n.args, n.exps):
                    x = val[a.id]
                    v *= x ** int(p) if p.denominator == 1 else (x ** float(p) if x >= 0 else math.nan)
            elif n.name.startswith("uf:"):
                _, nm, k = n.name.split(":")
                v = float((ufimpl or UF)[nm](int(k), val[n.args[0].id]))
            else:
                f = _ffun(n.name)
                if f is None:
                    raise NotEncodable("no float implementation for " + n.name)
                v = float(f(*[val[a.id] for a in n.args]))
        except (ZeroDivisionError, ValueError, OverflowError):
            v = math.nan
        val[n.id] = v
    return [val[e.id] for e in es]


def evalmp_many(es, env, dps=50, ufimpl=None):
    import mpmath as mp
    with mp.workdps(dps):
        val = {}
        F = {
            "exp": mp.exp, "log": mp.log, "ndtr": mp.ncdf, "gammaln": mp.loggamma,
            "ndtri": lambda p: mp.sqrt(2) * mp.erfinv(2 * p - 1),
            "polygamma": lambda n, x: mp.polygamma(int(n), x), "sin": mp.sin, "cos": mp.cos,
            "arcsin": mp.asin, "arccos": mp.acos, "arctan": mp.atan,
            "floordiv": lambda a, b: mp.floor(a / b),
            "owens_t": lambda h, a: mp.quad(lambda t: mp.exp(-h * h * (1 + t * t) / 2) / (1 + t * t), [0, a]) / (2 * mp.pi),
            "bvncdf": lambda x, y, r: mp.ncdf(x) * mp.ncdf(y) + mp.quad(
                lambda t: mp.exp(-(x * x - 2 * t * x * y + y * y) / (2 * (1 - t * t))) / (2 * mp.pi * mp.sqrt(1 - t * t)), [0, r]),
        }
        for n in topo(es):
            op = n.op
            try:
                if op == "C":
                    v = mp.mpf(n.c.numerator) / n.c.denominator
                elif op == "V":
                    if n.name == "PI":
                        v = +mp.pi
                    elif n.name in ("+INF", "-INF"):
                        v = mp.inf if n.name == "+INF" else -mp.inf
                    else:
                        x = env[n.name]
                        v = mp.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else mp.mpf(x)
                elif op == "A":
                    v = mp.mpf(n.c.numerator) / n.c.denominator
                    for a, k in zip(n.args, n.exps):
                        v += val[a.id] * k.numerator / k.denominator
                elif op == "M":
                    v = mp.mpf(1)
                    for a, p in zip(n.args, n.exps):
                        x = val[a.id]
                        v *= x ** int(p) if p.denominator == 1 else mp.power(x, mp.mpf(p.numerator) / p.denominator)
                elif n.name.startswith("uf:"):
                    _, nm, k = n.name.split(":")
                    v = mp.mpf((ufimpl or UF)[nm](int(k), float(val[n.args[0].id])))
                elif n.name.startswith("st:"):
                    v = mp.mpf(float(_ffun(n.name)(*[float(val[a.id]) for a in n.args])))
                else:
                    v = F[n.name](*[val[a.id] for a in n.args])
                    if isinstance(v, mp.mpc):
                        v = v.real if v.imag == 0 else mp.nan
            except (ZeroDivisionError, ValueError):
                v = mp.nan
            if isinstance(v, mp.mpc):
                v = v.real if abs(v.imag) < mp.mpf(10) ** (-dps + 10) else mp.nan
            val[n.id] = v
        return [val[e.id] for e in es]


def to_str(e, depth=6):
    if e.op == "C":
        return str(e.c)
    if e.op == "V":
        return e.name
    if depth == 0:
        return "#%d" % e.id
    if e.op == "A":
        s = [str(e.c)] if e.c else []
        for n, k in zip(e.args, e.exps):
            s.append(("%s*" % k if k != 1 else "") + to_str(n, depth - 1))
        return "(" + " + ".join(s) + ")"
    if e.op == "M":
        return "*".join(to_str(n, depth - 1) + ("^%s" % p if p != 1 else "") for n, p in zip(e.args, e.exps))
    return "%s(%s)" % (e.name, ", ".join(to_str(a, depth - 1) for a in e.args))
