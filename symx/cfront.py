"""The C kernels of pystatsm/utilities/src, executed from their current source.

clang parses every kernel (-ast-dump=json) and the AST is interpreted over the values of the shim:
ints are Python ints, doubles are Expr (symbolic) or floats, pointers carry their buffer and offset
and every access is bounds checked; reading memory that was never written is an error.
The Cython wrappers are read from cython_wrappers.pyx, so the argument order they pass counts too.
For replays the same sources are compiled with gcc and called through ctypes."""
import atexit
import ctypes
import json
import os
import re
import shutil
import subprocess
import tempfile
import numpy as np

from . import expr as E
from .expr import Expr


class CError(Exception):
    pass


class MemoryFault(IndexError):
    """the kernel touches memory outside its buffers, or memory it never wrote"""


class Ptr:
    __slots__ = ("buf", "off", "name")

    def __init__(self, buf, off=0, name="?"):
        self.buf, self.off, self.name = buf, off, name

    def get(self, i):
        k = self.off + i
        if not 0 <= k < len(self.buf):
            raise MemoryFault("C kernel reads %s[%d], buffer of %d" % (self.name, k, len(self.buf)))
        v = self.buf[k]
        if v is UNINIT:
            raise MemoryFault("C kernel reads uninitialised memory")
        if isinstance(v, np.generic):
            return v.item()
        return v

    def put(self, i, v):
        k = self.off + i
        if not 0 <= k < len(self.buf):
            raise MemoryFault("C kernel writes %s[%d], buffer of %d" % (self.name, k, len(self.buf)))
        self.buf[k] = E.lift(v) if isinstance(self.buf, np.ndarray) and self.buf.dtype == object else v

    def add(self, n):
        return Ptr(self.buf, self.off + n, self.name)


UNINIT = object()


class Raw:
    def __init__(self, nbytes, zero):
        self.n, self.zero = nbytes, zero


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Ret(Exception):
    pass


SIZE = {"int": 4, "double": 8, "float": 4, "size_t": 8, "unsigned long": 8, "long": 8, "char": 1, "unsigned int": 4, "_Complex double": 16, "double _Complex": 16}


def _idx(v):
    if isinstance(v, Expr):
        return v.__index__()
    return v


def _int(v):
    if isinstance(v, Expr):
        return v if False else v.__index__()
    return int(v)


def _truth(v):
    return bool(v)


class Comp:
    """AST node -> closure(env)"""

    def __init__(self, calls):
        self.calls = calls

    def kids(self, n):
        return [k for k in n.get("inner", []) if k]

    def expr(self, n):
        k = n["kind"]
        if k in ("ParenExpr", "ConstantExpr"):
            return self.expr(self.kids(n)[0])
        if k == "IntegerLiteral":
            v = int(n["value"])
            return lambda e: v
        if k == "FloatingLiteral":
            v = float(n["value"])
            return lambda e: v
        if k == "ImplicitCastExpr" or k == "CStyleCastExpr":
            c = n.get("castKind")
            f = self.expr(self.kids(n)[0])
            if c in ("LValueToRValue", "NoOp", "IntegralToFloating", "FloatingCast", "FunctionToPointerDecay", "ToVoid", "FloatingRealToComplex"):
                return f
            if c == "IntegralCast":
                t = n["type"]["qualType"]
                if "size_t" in t or "unsigned" in t:
                    def g(e):
                        v = f(e)
                        if isinstance(v, int) and v < 0:
                            raise CError("negative value converted to unsigned")
                        return v
                    return g
                return f
            if c == "FloatingToIntegral":
                return lambda e: _int(f(e))
            if c == "BitCast":
                t = n["type"]["qualType"].replace("*", "").replace("const", "").replace("restrict", "").strip()

                def h(e):
                    v = f(e)
                    if isinstance(v, Raw):
                        m = v.n // SIZE[t]
                        return Ptr([(0 if t != "double" else 0.0) if v.zero else UNINIT] * m, 0, "malloc")
                    return v
                return h
            if c == "NullToPointer":
                return lambda e: None
            raise E.NotEncodable("C cast " + str(c))
        if k == "DeclRefExpr":
            nm = n["referencedDecl"]["id"]
            fn = n["referencedDecl"]["name"]
            if n["referencedDecl"]["kind"] == "FunctionDecl":
                return lambda e: fn
            return lambda e: e[nm]
        if k == "ArraySubscriptExpr":
            a, b = [self.expr(x) for x in self.kids(n)]
            return lambda e: a(e).get(_idx(b(e)))
        if k == "UnaryExprOrTypeTraitExpr":
            t = n.get("argType", {}).get("qualType")
            if t is None:
                t = self.kids(n)[0]["type"]["qualType"]
            s = SIZE[t.strip()]
            return lambda e: s
        if k == "ConditionalOperator":
            c, a, b = [self.expr(x) for x in self.kids(n)]
            return lambda e: a(e) if _truth(c(e)) else b(e)
        if k == "UnaryOperator":
            return self.unary(n)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            return self.binary(n)
        if k == "CallExpr":
            return self.call(n)
        raise E.NotEncodable("C expression " + k)

    def lval(self, n):
        """-> (get, set) closures taking env"""
        k = n["kind"]
        if k == "ParenExpr":
            return self.lval(self.kids(n)[0])
        if k == "DeclRefExpr":
            nm = n["referencedDecl"]["id"]

            def st(e, v):
                e[nm] = v
            return (lambda e: (nm, 0)), (lambda e, r: e[nm]), (lambda e, r, v: e.__setitem__(nm, v))
        if k == "ArraySubscriptExpr":
            a, b = [self.expr(x) for x in self.kids(n)]
            return (lambda e: (a(e), _idx(b(e)))), (lambda e, r: r[0].get(r[1])), (lambda e, r, v: r[0].put(r[1], v))
        if k == "UnaryOperator" and n["opcode"] == "*":
            a = self.expr(self.kids(n)[0])
            return (lambda e: (a(e), 0)), (lambda e, r: r[0].get(0)), (lambda e, r, v: r[0].put(0, v))
        raise E.NotEncodable("C lvalue " + k)

    def unary(self, n):
        o = n["opcode"]
        x = self.kids(n)[0]
        if o in ("++", "--"):
            loc, get, put = self.lval(x)
            d = 1 if o == "++" else -1
            post = n.get("isPostfix", False)

            def f(e):
                r = loc(e)
                v = get(e, r)
                w = v.add(d) if isinstance(v, Ptr) else v + d
                put(e, r, w)
                return v if post else w
            return f
        if o == "&":
            if x["kind"] == "ArraySubscriptExpr":
                a, b = [self.expr(y) for y in self.kids(x)]
                return lambda e: a(e).add(_idx(b(e)))
            raise E.NotEncodable("C address of")
        f = self.expr(x)
        if o == "*":
            return lambda e: f(e).get(0)
        if o == "-":
            return lambda e: -f(e)
        if o == "+":
            return f
        if o == "!":
            return lambda e: int(not _truth(f(e)))
        raise E.NotEncodable("C unary " + o)

    def binary(self, n):
        o = n["opcode"]
        l, r = self.kids(n)
        isint = n["type"]["qualType"] in ("int", "size_t", "unsigned long", "long", "unsigned int")
        if o == "=":
            loc, get, put = self.lval(l)
            g = self.expr(r)

            def f(e):
                v = g(e)
                put(e, loc(e), v)
                return v
            return f
        if n["kind"] == "CompoundAssignOperator":
            loc, get, put = self.lval(l)
            g = self.expr(r)
            op = self.op(o[:-1], l["type"]["qualType"] in ("int", "size_t", "unsigned long", "long"))

            def f(e):
                v = g(e)
                q = loc(e)
                w = op(get(e, q), v)
                put(e, q, w)
                return w
            return f
        a, b = self.expr(l), self.expr(r)
        if o == "&&":
            return lambda e: int(_truth(a(e)) and _truth(b(e)))
        if o == "||":
            return lambda e: int(_truth(a(e)) or _truth(b(e)))
        if o == ",":
            return lambda e: (a(e), b(e))[1]
        op = self.op(o, isint)
        return lambda e: op(a(e), b(e))

    def op(self, o, isint):
        def add(a, b):
            if isinstance(a, Ptr):
                return a.add(_idx(b))
            if isinstance(b, Ptr):
                return b.add(_idx(a))
            return a + b

        def sub(a, b):
            if isinstance(a, Ptr):
                return a.off - b.off if isinstance(b, Ptr) else a.add(-_idx(b))
            return a - b

        def div(a, b):
            if isint:
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b >= 0) else -q
            return a / b

        def mod(a, b):
            m = abs(a) % abs(b)
            return m if a >= 0 else -m
        t = {"+": add, "-": sub, "*": lambda a, b: a * b, "/": div, "%": mod, "<": lambda a, b: a < b, ">": lambda a, b: a > b,
             "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b,
             "&": lambda a, b: a & b, "|": lambda a, b: a | b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b}
        if o not in t:
            raise E.NotEncodable("C operator " + o)
        return t[o]

    def call(self, n):
        ks = self.kids(n)
        f = self.expr(ks[0])
        args = [self.expr(x) for x in ks[1:]]

        def g(e):
            nm = f(e)
            a = [x(e) for x in args]
            if nm == "malloc":
                return Raw(a[0], False)
            if nm == "calloc":
                return Raw(a[0] * a[1], True)
            if nm == "free":
                return None
            if nm == "memset":
                if a[1] != 0:
                    raise E.NotEncodable("memset")
                raise E.NotEncodable("memset")
            if nm in ("fabs",):
                return abs(a[0])
            if nm == "sqrt":
                return E.fn("sqrt", a[0]) if isinstance(a[0], Expr) else a[0] ** 0.5
            if nm in self.calls:
                return self.calls[nm](*a)
            raise E.NotEncodable("C call " + nm)
        return g

    def stmt(self, n):
        k = n["kind"]
        if k == "CompoundStmt":
            ss = [self.stmt(x) for x in self.kids(n)]

            def f(e):
                for s in ss:
                    s(e)
            return f
        if k == "NullStmt":
            return lambda e: None
        if k == "DeclStmt":
            ds = []
            for d in self.kids(n):
                if d["kind"] != "VarDecl":
                    raise E.NotEncodable("C declaration " + d["kind"])
                i = self.kids(d)
                ds.append((d["id"], self.expr(i[0]) if i and "init" in d else None))

            def f(e):
                for nm, g in ds:
                    e[nm] = g(e) if g else UNINIT
            return f
        if k == "ForStmt":
            inner = n["inner"]
            init = self.stmt(inner[0]) if inner[0] else None
            cond = self.expr(inner[2]) if inner[2] else None
            inc = self.expr(inner[3]) if inner[3] else None
            body = self.stmt(inner[4])

            def f(e):
                if init:
                    init(e)
                while cond is None or _truth(cond(e)):
                    try:
                        body(e)
                    except Brk:
                        break
                    except Cnt:
                        pass
                    if inc:
                        inc(e)
            return f
        if k == "WhileStmt":
            c, b = self.kids(n)[-2:]
            c, b = self.expr(c), self.stmt(b)

            def f(e):
                while _truth(c(e)):
                    try:
                        b(e)
                    except Brk:
                        break
                    except Cnt:
                        pass
            return f
        if k == "DoStmt":
            b, c = self.kids(n)
            c, b = self.expr(c), self.stmt(b)

            def f(e):
                while True:
                    try:
                        b(e)
                    except Brk:
                        break
                    except Cnt:
                        pass
                    if not _truth(c(e)):
                        break
            return f
        if k == "IfStmt":
            ks = self.kids(n)
            c, a = self.expr(ks[0]), self.stmt(ks[1])
            b = self.stmt(ks[2]) if len(ks) > 2 else None

            def f(e):
                if _truth(c(e)):
                    a(e)
                elif b:
                    b(e)
            return f
        if k == "ReturnStmt":
            ks = self.kids(n)
            g = self.expr(ks[0]) if ks else None

            def f(e):
                r = Ret()
                r.value = g(e) if g else None
                raise r
            return f
        if k == "BreakStmt":
            def f(e):
                raise Brk()
            return f
        if k == "ContinueStmt":
            def f(e):
                raise Cnt()
            return f
        g = self.expr(n)
        return lambda e: g(e)


def repo():
    import pystatsm
    return os.path.dirname(os.path.abspath(pystatsm.__file__))


SRC = None


def src():
    return os.path.join(repo(), "utilities", "src")


_FILES = None
_AST = {}
INC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cinc")


def defined():
    """{kernel name: file} of the functions defined in the C sources"""
    global _FILES
    if _FILES is None:
        _FILES = {}
        for fn in sorted(os.listdir(src())):
            if fn.endswith(".c"):
                t = re.sub(r"/\*.*?\*/|//[^\n]*", " ", open(os.path.join(src(), fn)).read(), flags=re.S)
                for m in re.finditer(r"^\s*(?:static\s+|inline\s+)*(?:void|int|double|size_t)\s+(\w+)\s*\([^)]*\)\s*(?:#pragma[^\n]*\s*)?\{", t, re.M):
                    _FILES.setdefault(m.group(1), fn)
    return _FILES


def ast(name):
    """FunctionDecl with a body of a kernel, as clang reads the current source"""
    if name not in _AST:
        f = os.path.join(src(), defined()[name])
        p = subprocess.run(["clang", "-I", src(), "-I", INC, "-w", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + name, "-fsyntax-only", f],
                           capture_output=True, text=True)
        if p.returncode:
            raise E.NotEncodable("clang cannot parse " + f + ": " + p.stderr[:200])
        t = re.sub(r"^Dumping .*$", "", p.stdout, flags=re.M)
        dec, i = json.JSONDecoder(), 0
        while i < len(t):
            while i < len(t) and t[i].isspace():
                i += 1
            if i >= len(t):
                break
            n, i = dec.raw_decode(t, i)
            if n.get("kind") == "FunctionDecl" and any(k.get("kind") == "CompoundStmt" for k in n.get("inner", [])):
                _AST[n["name"]] = n
    return _AST[name]


_KERN = {}


def kernel(name):
    """the kernel as a Python callable over Ptr / numbers"""
    if name in _KERN:
        return _KERN[name]
    n = ast(name)
    ps = [k for k in n["inner"] if k["kind"] == "ParmVarDecl"]
    body = [k for k in n["inner"] if k["kind"] == "CompoundStmt"][0]
    c = Comp(_Calls())
    run = c.stmt(body)
    ids = [p["id"] for p in ps]
    names = [p.get("name", "?") for p in ps]

    def f(*a):
        if len(a) != len(ids):
            raise TypeError("%s takes %d arguments" % (name, len(ids)))
        env = {}
        for i, nm, v in zip(ids, names, a):
            if isinstance(v, Ptr):
                v = Ptr(v.buf, v.off, nm)
            env[i] = v
        try:
            run(env)
        except Ret as r:
            return r.value
    f.__name__ = name
    _KERN[name] = f
    return f


class _Calls:
    def __contains__(self, nm):
        return nm in defined()

    def __getitem__(self, nm):
        return kernel(nm)


# ---- the Cython wrappers -----------------------------------------------------------------
def _split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([":
            d += 1
        if ch in ")]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def wrappers():
    """{name: (params [(name, dtype, ndim, mode)], python body)} parsed from the pyx"""
    text = open(os.path.join(repo(), "utilities", "cython_wrappers.pyx")).read()
    out = {}
    for m in re.finditer(r"^def (\w+)\(", text, re.M):
        i = m.end()
        d = 1
        j = i
        while d:
            d += {"(": 1, ")": -1}.get(text[j], 0)
            j += 1
        params = []
        for p in _split(" ".join(text[i:j - 1].split())):
            nm = re.sub(r"\s*not None$", "", p).split()[-1]
            b = re.search(r"np\.ndarray\[(.*?)\]", p)
            if b:
                parts = [x.strip() for x in b.group(1).split(",")]
                opts = dict(x.replace('"', "").replace("'", "").split("=") for x in parts[1:])
                params.append((nm, parts[0], int(opts.get("ndim", 1)), opts.get("mode", "strided")))
            else:
                params.append((nm, p.split()[0], 0, None))
        k = text.index(":", j) + 1
        lines = []
        rest = text[k:].split("\n")
        for ln in rest[1:]:
            if ln.strip() and not ln.startswith((" ", "\t")):
                break
            lines.append(ln)
        body = "\n".join(lines)
        body = re.sub(r"<[^>]*>", "", body)
        body = re.sub(r"\bcdef\s+(int|double)\s+(\w+)\s*=", r"\2 =", body)
        scal = {p[0] for p in params if not p[2]}
        body = re.sub(r"&(\w+)\[[0, ]+\]", r"_p('\1', \1)", body)
        body = re.sub(r"&(\w+)", lambda q: "_addr('%s', _env)" % q.group(1), body)
        boxed = set(re.findall(r"_addr\('(\w+)'", body))
        body = re.sub(r"return (\w+)\s*$", lambda q: "return _env['%s'][0]" % q.group(1) if q.group(1) in boxed else q.group(0), body, flags=re.M)
        pre = "    _env = {%s}\n" % ", ".join("'%s': [%s]" % (b, b) for b in sorted(boxed))
        out[m.group(1)] = (params, "def %s(%s):\n%s%s\n" % (m.group(1), ", ".join(p[0] for p in params), pre, body))
    return out


NP = {"int": "i4", "double": "f8", "np.complex128_t": "c16"}


def _check(name, p, v):
    nm, dt, nd, mode = p
    if not nd:
        return
    if not isinstance(v, np.ndarray):
        raise TypeError("Argument '%s' has incorrect type (%s)" % (nm, type(v).__name__))
    if v.ndim != nd:
        raise ValueError("Buffer has wrong number of dimensions (expected %d, got %d)" % (nd, v.ndim))
    if v.dtype == object:
        if dt == "int":
            raise ValueError("Buffer dtype mismatch, expected 'int'")
    elif v.dtype.str[1:] != NP[dt]:
        raise ValueError("Buffer dtype mismatch, expected '%s' but got '%s'" % (dt, v.dtype))


def symbolic():
    """{wrapper name: function over SArr} interpreting the current C sources"""
    out = {}
    for name, (params, text) in wrappers().items():
        modes = {p[0]: p for p in params}

        def mk(name=name, params=params, text=text, modes=modes):
            back = []

            def _p(nm, v):
                p = modes[nm]
                a = v.view(np.ndarray)
                if p[2] == 2:
                    order = "F" if p[3] == "fortran" else "C"
                    buf = a.ravel(order=order).copy()
                    back.append((a, buf, order))
                    return Ptr(buf, 0, nm)
                if v.size == 0:
                    raise IndexError("Out of bounds on buffer access (axis 0)")
                return Ptr(a, 0, nm)

            def _addr(nm, env):
                return Ptr(env[nm], 0, nm)
            ns = {"_p": _p, "_addr": _addr}
            for fn in re.findall(r"\b(\w+)\(", text):
                if fn in defined():
                    ns[fn] = lambda *a, fn=fn: kernel(fn)(*a)
            exec(text, ns)
            real = ns[name]

            def f(*args, **kw):
                del back[:]
                names = [p[0] for p in params]
                a = dict(zip(names, args))
                a.update(kw)
                for p in params:
                    _check(name, p, a[p[0]])
                r = real(**a)
                for arr, buf, order in back:
                    arr[...] = buf.reshape(arr.shape, order=order)
                return r
            f.__name__ = name
            return f
        out[name] = mk()
    return out


# ---- compiled kernels, for replays ---------------------------------------------------------
_LIB = None


def lib():
    global _LIB
    if _LIB is None:
        d = tempfile.mkdtemp(prefix="symx_c_")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        so = os.path.join(d, "k.so")
        files = [os.path.join(src(), f) for f in sorted(os.listdir(src())) if f.endswith(".c") and f in set(defined().values()) and f not in ("cs_add.c", "cs_kron_inplace.c")]
        subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-I", src(), "-I", INC, "-o", so] + files + ["-lm"], check=True, capture_output=True)
        _LIB = ctypes.CDLL(so)
        shutil.rmtree(d, ignore_errors=True)
    return _LIB


def ctype(q):
    q = q.replace("const", "").replace("restrict", "").strip()
    if q.endswith("*"):
        return ctypes.c_void_p
    return {"int": ctypes.c_int, "double": ctypes.c_double, "size_t": ctypes.c_size_t, "unsigned long": ctypes.c_size_t}.get(q)


def native():
    out = {}
    for name, (params, text) in wrappers().items():
        if "complex" in name:
            continue

        def mk(name=name, params=params, text=text):
            state = {}

            def ready():
                def _p(nm, v):
                    if v.size == 0:
                        raise IndexError("Out of bounds on buffer access (axis 0)")
                    return v.ctypes.data

                def _addr(nm, env):
                    b = (ctypes.c_double * 1)(env[nm][0])
                    env[nm] = b
                    return ctypes.addressof(b)
                ns = {"_p": _p, "_addr": _addr}
                L = lib()
                for fn in re.findall(r"\b(\w+)\(", text):
                    if fn in defined():
                        c = getattr(L, fn)
                        c.restype = None
                        c.argtypes = [ctype(k["type"]["qualType"]) for k in ast(fn)["inner"] if k["kind"] == "ParmVarDecl"]
                        ns[fn] = c
                exec(text, ns)
                state["f"] = ns[name]

            def f(*args, **kw):
                if not state:
                    ready()
                names = [p[0] for p in params]
                a = dict(zip(names, args))
                a.update(kw)
                for p in params:
                    _check(name, p, a[p[0]])
                    v = a[p[0]]
                    if p[2] and ((p[3] == "c" and not v.flags.c_contiguous) or (p[3] == "fortran" and not v.flags.f_contiguous)):
                        raise ValueError("ndarray is not %s contiguous" % p[3])
                # memory safety first, on the interpreter: a wild access must not take this process down
                symbolic_table()[name](**{k: v.copy(order="K") if isinstance(v, np.ndarray) else v for k, v in a.items()})
                return state["f"](**a)
            f.__name__ = name
            return f
        out[name] = mk()
    return out


def symbolic_table():
    global _SYM
    if _SYM is None:
        _SYM = symbolic()
    return _SYM


_SYM = None
_NAT = None


def tables():
    """ids of the compiled wrappers -> (symbolic, native)"""
    global _SYM, _NAT
    from pystatsm.utilities import cython_wrappers as cw
    symbolic_table()
    if _NAT is None:
        _NAT = native()
    ids = {}
    for k in _SYM:
        r = getattr(cw, k, None)
        if r is not None:
            ids[id(r)] = (_SYM[k], _NAT.get(k))
    return ids
