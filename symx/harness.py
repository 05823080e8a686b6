"""Harnesses: one body, run symbolically (claims decided by z3) and on real floats (replay)."""
from fractions import Fraction
import importlib
import json
import math
import multiprocessing as mp
import os
import signal
import random
import sys
import time
import traceback
import warnings
import numpy as np
from . import expr as E
from . import norm as N
from . import solve, shim
from .explore import Explorer

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1"))


class Claim:
    def __init__(self, kind, name, lhs, rhs=None, wrt=None, tol=None):
        self.kind, self.name, self.lhs, self.rhs, self.wrt, self.tol = kind, name, lhs, rhs, wrt, tol


class SkipClaims(Exception):
    pass


class FloatInvalid(Exception):
    """the float point does not satisfy the harness assumptions"""


def _same(a, b):
    a, b = shim.obj(a), shim.obj(b)
    return a.shape == b.shape and all(a[i] is b[i] for i in np.ndindex(*a.shape))


class _Base:
    def __init__(self):
        self.claims = []
        self._names = set()
        self.groups = {}
        self.specs = {}

    # helpers common to both modes
    def _claim(self, kind, name, *a, **k):
        n, base = 1, name
        while name in self._names:
            n += 1
            name = "%s #%d" % (base, n)
        self._names.add(name)
        self.claims.append(Claim(kind, name, *a, **k))

    def eq(self, name, a, b, tol=None):
        self._claim("eq", name, a, b, tol=tol)

    def deriv(self, name, claimed, of, wrt, tol=None):
        self._claim("deriv", name, claimed, of, wrt, tol=tol)

    def lt(self, name, a, b, tol=None):
        self._claim("lt", name, a, b, tol=tol)

    def le(self, name, a, b, tol=None):
        self._claim("le", name, a, b, tol=tol)

    def true(self, name, cond):
        self._claim("true", name, bool(cond))

    def names(self, wrt):
        if isinstance(wrt, str):
            return self.groups.get(wrt, [wrt])
        out = []
        for w in wrt:
            out += self.names(w)
        return out

    def array(self, name, shape, lo=None, hi=None, sample=None, integer=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        nm = []
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            n = name + "_" + "_".join(map(str, ix))
            nm.append(n)
            o[ix] = self.integer(n, lo, hi) if integer else self.real(n, lo, hi, sample)
        self.groups[name] = nm
        return self._arr(o)

    def symm(self, name, n, sample=(-1, 1)):
        """unrestricted symmetric matrix"""
        o = np.empty((n, n), dtype=object)
        nm = []
        for j in range(n):
            for i in range(j, n):
                v = self.real("%s_%d_%d" % (name, i, j), None, None, sample)
                nm.append("%s_%d_%d" % (name, i, j))
                o[i, j] = o[j, i] = v
        self.groups[name] = nm
        return self._arr(o)

    def lower(self, name, n, diag=(0.5, 2.0)):
        """lower triangular matrix with positive diagonal"""
        o = np.empty((n, n), dtype=object)
        nm = []
        for i in range(n):
            for j in range(n):
                if j > i:
                    o[i, j] = self.num(0)
                else:
                    k = "%s_%d_%d" % (name, i, j)
                    nm.append(k)
                    o[i, j] = self.real(k, 0, None, diag) if i == j else self.real(k, None, None, (-1, 1))
        self.groups[name] = nm
        return self._arr(o)

    def posdef(self, name, n):
        """positive definite A = L L' with L symbolic; returns (A, L)"""
        L = self.lower(name, n)
        return self.matmul(L, L.T), L

    def cut_method(self, obj, meth, name, pos=False, cls=None):
        """generalise the result of obj.meth(...); returns the list of (args, kwargs, real result, generalised result)"""
        real = getattr(obj, meth)
        calls = []

        def w(*a, **k):
            v = real(*a, **k)
            for c in calls:
                if _same(c[2], v):
                    return c[3]
            g = self.cut(name, v, pos)
            calls.append((a, k, v, g))
            return g
        setattr(obj, meth, w)
        return calls

    def matmul(self, a, b):
        return shim.dot(a, b) if self.sym else np.dot(a, b)


class Sym(_Base):
    sym = True

    def __init__(self, explorer):
        super().__init__()
        self.ex = explorer

    def num(self, x):
        return E.lift(x)

    def _arr(self, o):
        return o.view(shim.SArr) if o.ndim else o.item()

    def const(self, x):
        return shim.sarr(np.asarray(x, dtype=float)) if not np.isscalar(x) else E.lift(x)

    def real(self, name, lo=None, hi=None, sample=None):
        v = E.var(name, pos=(lo is not None and lo >= 0))
        first = name not in self.specs
        self.specs[name] = ("real", lo, hi, sample)
        if first:
            if lo is not None:
                if lo > 0:
                    self.ex.assume("<", E.lift(lo) - v)
                elif lo == 0:
                    self.ex.assume("<", -v)
                else:
                    self.ex.assume("<", E.lift(lo) - v)
            if hi is not None:
                self.ex.assume("<", v - E.lift(hi))
        return v

    def zero(self, name):
        """a variable equal to 0 that claims may differentiate in: derivatives along a path at its start"""
        v = E.var(name)
        self.specs[name] = ("real", None, None, (0, 0))
        self.ex.assume("<=", v)
        self.ex.assume("<=", -v)
        return v

    def integer(self, name, lo, hi):
        v = E.var(name, integer=True)
        self.specs[name] = ("int", lo, hi, None)
        if lo is not None:
            self.ex.assume("<=", E.const(int(lo)) - v)
        if hi is not None:
            self.ex.assume("<=", v - E.const(int(hi)))
        return v

    def assume_lt(self, a, b):
        d = E.lift(a) - E.lift(b)
        self.ex.assume("<", d)

    def assume_le(self, a, b):
        self.ex.assume("<=", E.lift(a) - E.lift(b))

    def assume_ne(self, a, b):
        self.ex.assume("!=", E.lift(a) - E.lift(b))

    def cut(self, name, value, pos=False):
        """replace a computed value by fresh variables: later claims are shown for every value of it (real runs keep the value)"""
        o = shim.obj(value)
        r = np.empty(o.shape, dtype=object)
        for ix in np.ndindex(*o.shape):
            e = E.lift(o[ix])
            if e.op == "C":
                r[ix] = e
                continue
            nm = "cut%d_%s" % (len(E.CUTS), name)
            r[ix] = E.var(nm, pos=pos)
            E.CUTS[nm] = e
        return shim.fin(r)

    def func(self, name, impl, sign=None):
        """uninterpreted function with float implementation impl(k, x) of its k-th derivative"""
        E.UF[name] = impl
        if not hasattr(E, "UF_SIGN"):
            E.UF_SIGN = {}
        if sign:
            for k, s in sign.items():
                E.UF_SIGN["uf:%s:%d" % (name, k)] = s

        def f(k, x):
            if isinstance(x, E.Expr):
                return _ufx(name, k, x)
            o = shim.obj(x)
            r = np.empty(o.shape, dtype=object)
            for ix in np.ndindex(*o.shape):
                r[ix] = _ufx(name, k, E.lift(o[ix]))
            return shim.fin(r)
        return f


UF_INF = {}   # (name) -> (value at -inf, value at +inf) for k = 0


def _ufx(name, k, x):
    if E._is_inf(x):
        lo, hi = UF_INF[name]
        return E.lift(0 if k > 0 else (hi if x.name == "+INF" else lo))
    return E.uf(name, k, x)


class Flt(_Base):
    sym = False

    def __init__(self, values):
        super().__init__()
        self.values = values
        self.valid = True

    def num(self, x):
        return float(x)

    def _arr(self, o):
        a = o.astype(float) if o.size == 0 or not all(isinstance(x, (int, np.integer)) for x in o.ravel().tolist()) else o.astype(int)
        return a if a.ndim else a.item()

    def const(self, x):
        return np.asarray(x, dtype=float) if not np.isscalar(x) else x

    def real(self, name, lo=None, hi=None, sample=None):
        self.specs[name] = ("real", lo, hi, sample)
        return np.float64(self.values[name])

    def zero(self, name):
        self.specs[name] = ("real", None, None, (0, 0))
        return np.float64(self.values[name])

    def integer(self, name, lo, hi):
        self.specs[name] = ("int", lo, hi, None)
        return int(self.values[name])

    def assume_lt(self, a, b):
        if not a < b:
            self.valid = False

    def assume_le(self, a, b):
        if not a <= b:
            self.valid = False

    def assume_ne(self, a, b):
        if a == b:
            self.valid = False

    def cut(self, name, value, pos=False):
        return value

    def func(self, name, impl, sign=None):
        return lambda k, x: np.vectorize(lambda t: impl(k, float(t)), otypes=[float])(x) if np.ndim(x) else impl(k, float(x))


# ------------------------------------------------------------------------------------

class Harness:
    def __init__(self, name, body, paths=32, points=3, timeout=240, tier="quick", note="", fd=1e-4, extra=None,
                 feas_ms=500, maxops=None, float_only=False, known=None, eager=False):
        self.name, self.body = name, body
        self.eager = eager
        self.paths, self.points, self.timeout, self.tier = paths, points, timeout, tier
        self.note, self.fd, self.extra, self.feas_ms = note, fd, extra, feas_ms
        self.maxops = maxops


REG = {}


def harness(reg, name, **k):
    def deco(f):
        reg.append(Harness(name, f, **k))
        return f
    return deco


def flat(x):
    """claim operand -> (list of items, shape)"""
    if isinstance(x, E.Expr):
        return [x], ()
    if shim.SSparse is not None and isinstance(x, shim.SSparse):
        x = x.toarray()
    import scipy.sparse as sps
    if sps.issparse(x):
        x = x.toarray()
    if isinstance(x, (list, tuple)) and any(isinstance(i, (np.ndarray, list, tuple)) for i in x):
        out = []
        for i in x:
            out += flat(i)[0]
        return out, (len(out),)
    if isinstance(x, np.ndarray):
        return list(x.ravel().tolist()), x.shape
    if isinstance(x, (list, tuple)):
        return list(x), (len(x),)
    try:
        import pandas as pd
        if isinstance(x, (pd.DataFrame, pd.Series)):
            return flat(np.asarray(x.values))
    except ImportError:
        pass
    return [x], ()


def pairs(c, sess):
    """eq/lt/le claim -> list of (index, lhs, rhs)"""
    a, sa = flat(c.lhs)
    b, sb = flat(c.rhs)
    if len(a) != len(b):
        if len(b) == 1:
            b = b * len(a)
        elif len(a) == 1:
            a = a * len(b)
        else:
            raise ShapeMismatch("%s: %s vs %s" % (c.name, sa, sb))
    return list(zip(range(len(a)), a, b))


class ShapeMismatch(Exception):
    pass


def rat(rng, a, b):
    return Fraction(round(rng.uniform(float(a), float(b)) * 1024), 1024)


def draw(specs, rng):
    out = {}
    for n, (t, lo, hi, sample) in specs.items():
        if t == "int":
            out[n] = rng.randint(int(lo if lo is not None else -5), int(hi if hi is not None else 5))
            continue
        if sample is None:
            if lo is not None and hi is not None:
                w = (hi - lo) * 0.05
                sample = (lo + w, hi - w)
            elif lo is not None:
                sample = (lo + 0.1, lo + 2.5)
            elif hi is not None:
                sample = (hi - 2.5, hi - 0.1)
            else:
                sample = (-1.5, 1.5)
        out[n] = rat(rng, *sample)
    return out


def holds(conds, env, slack=0.0):
    if not conds:
        return True
    vals = E.evalf_many([e for _, e in conds], {k: float(v) for k, v in env.items()})
    for (rel, _), v in zip(conds, vals):
        if v != v:
            return False
        if rel == "<" and not v < -slack:
            return False
        if rel == "<=" and not v <= -slack if slack else rel == "<=" and not v <= 1e-12:
            return False
        if rel == "==" and abs(v) > 1e-12:
            return False
        if rel == "!=" and not abs(v) > slack:
            return False
    return True


def shortfall(conds, env):
    t = 0.0
    vals = E.evalf_many([e for _, e in conds], {k: float(v) for k, v in env.items()})
    for (rel, _), v in zip(conds, vals):
        if v != v:
            t += 1e6
        elif rel == "<" and not v < 0:
            t += 1e-9 + v
        elif rel == "<=" and v > 1e-12:
            t += v
        elif rel == "==":
            t += 0 if abs(v) <= 1e-12 else abs(v)
        elif rel == "!=" and v == 0:
            t += 1e-9
    return t


def witnesses(specs, ctx, rng, k, tries=200):
    """points satisfying the path conditions, solver-generated when sampling fails"""
    out = []
    for _ in range(tries):
        if len(out) >= k:
            break
        env = draw(specs, rng)
        try:
            if holds(ctx.conds, env):
                out.append(env)
        except Exception:
            pass
    # local search: resample coordinates while the total violation decreases
    t0 = time.time()
    while len(out) < k and specs and time.time() - t0 < 6 and not any(r == "==" for r, _ in ctx.conds):
        env = draw(specs, rng)
        try:
            cur = shortfall(ctx.conds, env)
            for _ in range(150):
                if cur == 0 or time.time() - t0 > 6:
                    break
                e2 = draw(specs, rng)
                nm = rng.sample(list(specs), min(len(specs), rng.choice((1, 1, 2, 3))))
                cand = dict(env)
                for q in nm:
                    cand[q] = e2[q]
                v = shortfall(ctx.conds, cand)
                if v <= cur:
                    env, cur = cand, v
            if cur == 0 and holds(ctx.conds, env):
                out.append(env)
        except Exception:
            break
    if len(out) < k:
        import z3
        t1 = time.time()
        for j in range(2 * k):
            if len(out) >= k:
                break
            extra = []
            guess = draw(specs, rng)
            names = list(ctx.trans.vars)
            rng.shuffle(names)
            cand = [n for n in names if n in guess and specs[n][0] == "real"]
            # keep as many sampled coordinates as stay consistent
            if time.time() - t1 > 15:
                break
            for frac in (0.6, 0.0):
                extra = []
                for n in cand[:int(len(cand) * frac)]:
                    v = ctx.trans.vars[n]
                    extra.append(v == z3.RealVal(str(guess[n])))
                for n in cand[int(len(cand) * frac):]:
                    extra.append(z3.And(ctx.trans.vars[n] > -20, ctx.trans.vars[n] < 20))
                r, m = ctx.model(extra)
                if m is not None:
                    env = dict(guess)
                    env.update({a: b for a, b in m.items() if a in specs})
                    for a in specs:
                        if specs[a][0] == "int":
                            env[a] = int(env[a])
                    if holds(ctx.conds, env):
                        out.append(env)
                    break
    return out


class FloatRunError(Exception):
    pass


def float_run(h, values):
    """body on the real code with floats -> Flt session"""
    s = Flt(values)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"), shim.native():
            h.body(s)
    return s


def float_check(h, values, only=None):
    """Run all claims at a float point on the real code.
    -> list of dict(claim, index, lhs, rhs, diff)   (violations), plus number of comparisons."""
    viol = []
    ncmp = 0
    try:
        s = float_run(h, values)
    except FloatInvalid:
        return [], 0
    except Exception as ex:
        # does the harness hold its own assumption at this point?
        tb = traceback.extract_tb(sys.exc_info()[2])
        # an exception raised by the harness itself (a stand-in called in an unexpected way) is no verdict on the code
        own = [f for f in tb if "/pystatsm/" in f.filename or "/checks/" in f.filename or "/symx/" in f.filename]
        inrepo = own and ("/pystatsm/" in own[-1].filename or type(ex).__name__ == "MemoryFault")
        where = "%s:%s" % (tb[-1].filename, tb[-1].lineno)
        return [dict(claim="runs", index=0, lhs=repr(ex)[:300], rhs="no exception", where=where,
                     inrepo=bool(inrepo), exc=True)], 1
    if not s.valid:
        return [], 0
    fdcache = {}

    def shifted(name, d):
        key = (name, d)
        if key not in fdcache:
            v2 = dict(values)
            v2[name] = float(values[name]) + d
            fdcache[key] = {c.name: c for c in float_run(h, v2).claims}
        return fdcache[key]

    for c in s.claims:
        if only is not None and c.name not in only:
            continue
        try:
            if c.kind == "true":
                ncmp += 1
                if not c.lhs:
                    viol.append(dict(claim=c.name, index=0, lhs="False", rhs="True"))
            elif c.kind in ("eq", "lt", "le"):
                ps = pairs(c, s)
                vals = [abs(float(x)) for _, a, b in ps for x in (a, b) if np.isfinite(float(x))]
                scale = max(vals) if vals else 0.0
                tol = c.tol if c.tol is not None else 1e-7
                for i, a, b in ps:
                    ncmp += 1
                    a, b = float(a), float(b)
                    if c.kind == "eq":
                        if a == b or (a != a and b != b):
                            continue
                        bad = not abs(a - b) <= tol * (abs(a) + abs(b)) + tol * 1e-2 * scale + 1e-12
                    elif c.kind == "lt":
                        bad = not a < b + 1e-13 * (1 + abs(b))
                    else:
                        bad = not a <= b + 1e-9 * (1 + abs(b))
                    if bad:
                        viol.append(dict(claim=c.name, index=i, lhs=a, rhs=b))
            else:
                names = s.names(c.wrt)
                a, _ = flat(c.lhs)
                of, _ = flat(c.rhs)
                if len(a) != len(of) * len(names):
                    viol.append(dict(claim=c.name, index=0, lhs="shape %d" % len(a), rhs="%d x %d" % (len(of), len(names))))
                    continue
                tol = c.tol if c.tol is not None else 1e-5
                scale = max([abs(float(x)) for x in a if np.isfinite(float(x))] + [0.0])
                for j, nm in enumerate(names):
                    v = float(values[nm])
                    hstep = h.fd * max(1.0, abs(v)) if abs(v) > 50 * h.fd or v == 0 else h.fd * max(abs(v), 1e-3)
                    ds = []
                    for hh in (hstep, hstep / 2):
                        fp = flat(shifted(nm, hh)[c.name].rhs)[0]
                        fm = flat(shifted(nm, -hh)[c.name].rhs)[0]
                        ds.append([(float(p) - float(m)) / (2 * hh) for p, m in zip(fp, fm)])
                    for i in range(len(of)):
                        ncmp += 1
                        d1, d2 = ds[0][i], ds[1][i]
                        best = (4 * d2 - d1) / 3
                        err = abs(d2 - d1) + 1e-15 * (1 + abs(float(of[i]))) / hstep * 40
                        x = float(a[i * len(names) + j])
                        if x != x and best != best:
                            continue
                        bad = not abs(x - best) <= tol * (abs(x) + abs(best)) + 3 * err + 1e-3 * tol * scale + 1e-9
                        if bad:
                            viol.append(dict(claim=c.name, index=i * len(names) + j, lhs=x, rhs=best, fd_error=err))
        except ShapeMismatch as ex:
            viol.append(dict(claim=c.name, index=0, lhs="shape", rhs=str(ex)))
    return viol, ncmp


def jsonable(env):
    return {k: (str(v) if isinstance(v, Fraction) else v) for k, v in env.items()}


def _alarm(sig, frame):
    raise TimeoutError("time limit")


def arm(sec):
    """raise TimeoutError in this process after sec seconds (0: disarm)"""
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, max(sec, 0.001) if sec else 0)
    except ValueError:
        pass


def run_harness(h, seed=1, thorough=False):
    try:
        return _run_harness(h, seed, thorough)
    finally:
        arm(0)


def _run_harness(h, seed=1, thorough=False):
    """-> result dict"""
    t0 = time.time()
    per_ob = 300 if thorough else 45
    for k in list(solve.STATS):
        solve.STATS[k] = 0
    res = dict(name=h.name, paths=0, decisions=0, obligations=0, discharged=0, cross=0, inconclusive=[], violations=[],
               points=0, float_comparisons=0, validated=0, mismatch=[], vacuity=0, samples=[], truncated=False, engine=None)
    rng = random.Random(seed * 1000003 + 17)
    deadline = t0 + h.timeout
    specs_seen = {}
    E.reset()
    ex = Explorer(max_paths=h.paths * (3 if thorough else 1), timeout_ms=h.feas_ms, deadline=deadline)

    prng = random.Random(seed + 5)

    def sampler(specs, conds, old):
        out = [e for e in old if holds(conds, e)]
        tries = 0
        while len(out) < 6 and tries < 60:
            tries += 1
            env = draw(specs, prng)
            try:
                if holds(conds, env):
                    out.append({k: float(v) for k, v in env.items()})
            except Exception:
                break
        return out
    ex.sampler = sampler

    def body(explorer):
        s = Sym(explorer)
        explorer.specs = s.specs
        s.norm = explorer.norm = N.Norm(known_sign=explorer.known_sign)
        if h.maxops:
            s.norm.maxops = h.maxops
        shim.SIMPLIFY[0] = lambda e: _safe_simplify(s.norm, e)
        shim.EAGER[0] = h.eager
        arm(max(deadline - time.time(), 5))
        try:
            with shim.patched():
                h.body(s)
        finally:
            arm(0)
            shim.SIMPLIFY[0] = None
            shim.EAGER[0] = False
            specs_seen.update(s.specs)
        return s

    allpoints = []
    try:
        for s, ctx in ex.run(body):
            res["paths"] += 1
            res["decisions"] += len(ex.trace)
            pts = witnesses(s.specs, ctx, rng, h.points)
            allpoints += pts
            suspects = {}       # claim -> list of (residual expr)
            syms = []           # (claim, idx, lhs expr) for validation
            nf = s.norm
            nf.known_sign = ex.known_sign
            eqs = equalities(ctx)
            for c in s.claims:
                todo = []
                if c.kind == "true":
                    res["obligations"] += 1
                    if c.lhs:
                        res["discharged"] += 1
                    else:
                        suspects.setdefault(c.name, []).append(None)
                    continue
                if c.kind == "deriv":
                    names = s.names(c.wrt)
                    a, _ = flat(c.lhs)
                    of, _ = flat(c.rhs)
                    if len(a) != len(of) * len(names):
                        suspects.setdefault(c.name, []).append(None)
                        res["obligations"] += 1
                        continue
                    vs = [E.var(n) for n in names]
                    for i, f in enumerate(of):
                        for j, v in enumerate(vs):
                            x = E.lift(a[i * len(vs) + j])
                            syms.append((c.name, i * len(vs) + j, x))
                            todo.append((x, E.diff(E.lift(f), v)))
                else:
                    try:
                        ps = pairs(c, s)
                    except ShapeMismatch:
                        suspects.setdefault(c.name, []).append(None)
                        res["obligations"] += 1
                        continue
                    for i, a, b in ps:
                        a, b = E.lift(a), E.lift(b)
                        syms.append((c.name, i, a))
                        todo.append((a, b))
                for a, b in todo:
                    res["obligations"] += 1
                    if time.time() > deadline:
                        suspects.setdefault(c.name, []).append(("timeout", None))
                        continue
                    arm(min(per_ob, deadline - time.time() + 1))
                    try:
                        if c.kind in ("eq", "deriv"):
                            if a is b:
                                d = E.ZERO
                            else:
                                d = a - b
                                for v, x in eqs:
                                    d = E.subs(d, {v: x})
                            st, num = solve.decide_zero(nf, d)
                            if st == "proved":
                                res["discharged"] += 1
                                # vacuity twin: the same claim off by one must be refutable
                                if res["vacuity"] < 2:
                                    st2, _ = solve.decide_zero(nf, d + 1)
                                    if st2 == "refuted":
                                        res["vacuity"] += 1
                                if res["cross"] < 4 and d.op not in "C" and res.get("cross_t", 0) < 4:
                                    tt = time.time()
                                    try:
                                        r = solve.cross_check(nf, d, 700)
                                        if str(r) == "unsat":
                                            res["cross"] += 1
                                    except Exception:
                                        pass
                                    res["cross_t"] = res.get("cross_t", 0) + time.time() - tt
                            else:
                                suspects.setdefault(c.name, []).append((st, d))
                        else:
                            st = decide_ineq(nf, ctx, "<=" if c.kind == "le" else "<", a - b)
                            if st == "proved":
                                res["discharged"] += 1
                            else:
                                suspects.setdefault(c.name, []).append((st, a - b))
                    except (N.TooBig, E.NotEncodable, TimeoutError, ZeroDivisionError, RecursionError) as exn:
                        suspects.setdefault(c.name, []).append(("unknown: %s" % exn, a - b if not (a is b) else None))
                    finally:
                        arm(0)
            # translator validation
            validate(h, pts[:1], syms, res)
            # suspects -> replay on the real code
            if suspects:
                handle_suspects(h, s, ctx, suspects, pts, rng, res)
                if res["violations"] and len(res["violations"]) > 3:
                    break
            if not res["samples"] and pts:
                res["samples"].append(dict(path=ex.npaths, witness=jsonable(dict(list(pts[0].items())[:12]))))
            if time.time() > deadline:
                res["inconclusive"].append("time budget of %ds reached after %d paths" % (h.timeout, res["paths"]))
                break
        res["truncated"] = ex.truncated
    except Exception as exn:
        tb = traceback.extract_tb(sys.exc_info()[2])
        fr = [f for f in tb if "/pystatsm/" in f.filename]
        loc = "%s:%d" % (os.path.basename(fr[-1].filename), fr[-1].lineno) if fr else "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        res["engine"] = "%s: %s @ %s" % (type(exn).__name__, str(exn)[:200], loc)
        if os.environ.get("SYMX_DEBUG"):
            traceback.print_exc()
        if not specs_seen:
            specs_seen.update(collect_specs(h))
        # fall back: the claims at solver/sampler points on the real code
        pts = []
        try:
            if ex.ctx is not None:
                pts = witnesses(specs_seen, ex.ctx, rng, 4)
        except Exception:
            pass
        for _ in range(8):
            try:
                pts.append(draw(specs_seen, rng))
            except Exception:
                break
        fallback(h, pts, res)
        res["inconclusive"].append("not encodable: " + res["engine"])
    if res["paths"] == 0 and not res["engine"]:
        res["inconclusive"].append("no feasible path reached (vacuous)")
    # real-code replay of the claims at the path witnesses (validates harness + oracle)
    if not res["violations"]:
        for p in allpoints[:h.points * 3]:
            v, n = float_check(h, p)
            res["points"] += 1
            res["float_comparisons"] += n
            v = [x for x in v]
            if v:
                confirm(h, p, v, res)
                if res["violations"]:
                    break
    res["queries"] = dict(solve.STATS)
    res["wall"] = round(time.time() - t0, 2)
    return res


def _safe_simplify(nf, e):
    try:
        return nf.simplify(e)
    except (N.TooBig, E.NotEncodable, ZeroDivisionError):
        return e


def collect_specs(h):
    class Probe(Flt):
        def real(self, name, lo=None, hi=None, sample=None):
            self.specs[name] = ("real", lo, hi, sample)
            return np.float64(float(draw({name: self.specs[name]}, random.Random(hash(name) & 0xffff))[name]))

        def integer(self, name, lo, hi):
            self.specs[name] = ("int", lo, hi, None)
            return int(lo)
    p = Probe({})
    try:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h.body(p)
    except Exception:
        pass
    return p.specs


def equalities(ctx):
    """substitutions implied by the linear equalities of the path condition"""
    out = []
    les = {e.id for rel, e in ctx.conds if rel == "<="}
    for rel, e in ctx.conds:
        if rel != "==" and not (rel == "<=" and (-e).id in les):
            continue
        for v, x in out:
            e = E.subs(e, {v: x})
        if e.op == "V":
            out.append((e, E.ZERO))
        elif e.op == "A":
            for v, k in zip(e.args, e.exps):
                if v.op == "V" and v.name not in ("PI", "+INF", "-INF", "NAN"):
                    rest = E.add(e, E.scale(v, -k))
                    if all(u is not v for u in E.variables([rest])):
                        out.append((v, E.scale(rest, -1 / k)))
                        break
    return out


def decide_ineq(nf, ctx, rel, d):
    """d rel 0 on this path? normal form first, then z3 on numerator with denominators' signs"""
    st, _ = solve.decide_rel(ctx, rel, d, 3000)
    if st == "proved":
        return st
    try:
        num, den = nf.combine(nf.norm(d))
        if not num:
            return "proved" if rel == "<=" else "refuted"
        sg = 1
        for f, e in den:
            s = nf.factor_sign(f)
            if s == 0 and e % 2:
                sg = None
                break
            if e % 2:
                sg *= s
        if sg is not None:
            c, m, q = nf.content(num)
            ok = True
            if c < 0:
                sg = -sg
            for i, e in nf.unpack(m):
                g = nf.gens[i]
                if not g.pos:
                    k = ctx.sign(g.expr)
                    if k is None:
                        ok = False
                    elif e % (2 * N.SCALE):
                        sg *= k
            if ok:
                ps = nf.poly_pos(q) if len(q) > 1 else 1
                if ps is not None and ps * sg < 0:
                    return "proved"
                if ps is None:
                    pe = nf.poly_expr({k: v * sg for k, v in q.items()})
                    st2, _ = solve.decide_rel(ctx, rel, pe, 4000)
                    return st2
    except (N.TooBig, E.NotEncodable):
        pass
    return st


def validate(h, pts, syms, res):
    """translator validation: symbolic left-hand sides against the real code at a witness"""
    for p in pts:
        try:
            s = float_run(h, p)
        except Exception:
            continue
        if not s.valid:
            continue
        fl = {c.name: flat(c.lhs)[0] for c in s.claims if c.kind != "true"}
        env = {k: float(v) for k, v in p.items()}
        try:
            vals = E.evalf_many([e for _, _, e in syms], env)
        except E.NotEncodable:
            continue
        for (nm, i, _), v in zip(syms, vals):
            if nm not in fl or i >= len(fl[nm]):
                continue
            x = float(fl[nm][i])
            if v != v or x != x or math.isinf(x):
                continue
            res["validated"] += 1
            if abs(v - x) > 1e-5 * (abs(v) + abs(x)) + 1e-7:
                if len(res["mismatch"]) < 5:
                    res["mismatch"].append(dict(claim=nm, index=i, symbolic=v, real=x, point=jsonable(p)))


def handle_suspects(h, s, ctx, suspects, pts, rng, res):
    more = pts + witnesses(s.specs, ctx, rng, 8, tries=100)
    scored = []
    for p in more:
        env = {k: float(v) for k, v in p.items()}
        sc = 0.0
        for nm, lst in suspects.items():
            for it in lst[:10]:
                if it is None or it[1] is None:
                    continue
                try:
                    v = E.evalf(it[1], env)
                    if v == v:
                        sc = max(sc, min(abs(v), 1e6))
                except Exception:
                    pass
        scored.append((sc, p))
    scored.sort(key=lambda t: -t[0])
    found = set()
    for sc, p in scored[:5]:
        v, n = float_check(h, p, only=set(suspects))
        res["points"] += 1
        res["float_comparisons"] += n
        if v:
            new = [x for x in v if x["claim"] not in found]
            if new:
                confirm(h, p, new, res)
                found |= {x["claim"] for x in res["violations"]}
        if set(suspects) <= found:
            break
    for nm in suspects:
        if nm not in found:
            big = max([sc for sc, _ in scored] + [0])
            why = sorted({(it[0] if it else "false claim") for it in suspects[nm]})
            res["inconclusive"].append("claim %s: %d obligation(s) %s, not reproduced on the real code (max residual %.3g)" % (
                nm, len(suspects[nm]), why[:2], big))


def fallback(h, pts, res):
    for p in pts:
        v, n = float_check(h, p)
        res["points"] += 1
        res["float_comparisons"] += n
        if v:
            confirm(h, p, v, res)
            if res["violations"]:
                break


def confirm(h, p, viol, res):
    """a violation must reproduce (deterministically) on the real code"""
    again, _ = float_check(h, p)
    names = {x["claim"] for x in again}
    have = {x["claim"] for x in res["violations"]}
    for x in viol:
        if x["claim"] in names and x["claim"] not in have:
            if x.get("exc") and not x.get("inrepo"):
                # the exception comes from harness code or a library call made by it directly
                m = "harness raised at a witness: %s (%s)" % (x["lhs"], x["where"])
                if m not in res["inconclusive"]:
                    res["inconclusive"].append(m)
                continue
            have.add(x["claim"])
            res["violations"].append(dict(claim=x["claim"], detail=x, point=jsonable(p)))


# ------------------------------------------------------------------------------------

def _worker(conn, h, seed, thorough):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        r = run_harness(h, seed, thorough)
    except BaseException as ex:
        r = dict(name=h.name, crash="%s: %s" % (type(ex).__name__, str(ex)[:300]))
        if os.environ.get("SYMX_DEBUG"):
            traceback.print_exc()
    try:
        conn.send(r)
    except Exception as ex:
        conn.send(dict(name=h.name, crash="send: %s" % ex))
    conn.close()


def run_all(hs, seed=1, thorough=False, jobs=8, budget=800):
    ctx = mp.get_context("fork")
    pending = list(hs)
    running = []
    out = []
    t0 = time.time()
    while pending or running:
        while pending and len(running) < jobs:
            h = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(b, h, seed, thorough))
            p.start()
            b.close()
            running.append((p, a, h, time.time()))
        for it in list(running):
            p, a, h, ts = it
            if a.poll(0.02):
                try:
                    out.append(a.recv())
                    p.join()
                except EOFError:
                    p.join()
                    out.append(dict(name=h.name, crash="worker died (code %s)" % p.exitcode))
                running.remove(it)
            elif time.time() - ts > h.timeout + 120 or time.time() - t0 > budget:
                p.kill()
                p.join()
                out.append(dict(name=h.name, crash="killed after %ds" % (time.time() - ts)))
                running.remove(it)
            elif not p.is_alive() and not a.poll(0):
                out.append(dict(name=h.name, crash="worker died (code %s)" % p.exitcode))
                running.remove(it)
        if time.time() - t0 > budget:
            for h in pending:
                out.append(dict(name=h.name, crash="not started: check budget"))
            pending = []
        time.sleep(0.01)
    order = {h.name: i for i, h in enumerate(hs)}
    out.sort(key=lambda r: order.get(r["name"], 0))
    return out


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


SIGNALS = {-11: "SIGSEGV", -6: "SIGABRT", -7: "SIGBUS", -8: "SIGFPE"}


def crash_fallback(h, r, seed):
    """the worker was lost: float claims only, in a child, point by point; real code that kills the child is a violation"""
    ctx = mp.get_context("fork")

    def child(k):
        a, b = ctx.Pipe(False)

        def go():
            x = _crash_fallback(h, r, seed, k)
            b.send(x)
        p = ctx.Process(target=go)
        p.start()
        b.close()
        x = None
        if a.poll(120):
            try:
                x = a.recv()
            except EOFError:
                pass
        else:
            p.kill()
        p.join()
        return x, p.exitcode
    x, code = child(4)
    if x is not None:
        return x
    res = _crash_fallback(h, r, seed, 0)
    res["inconclusive"].append("float run lost (code %s)" % code)
    if code in SIGNALS:
        again = child(4)[1]
        if again == code:
            res["violations"].append(dict(claim="runs", detail=dict(lhs="process killed by " + SIGNALS[code], rhs="no crash"), point={}))
    return res


def _crash_fallback(h, r, seed, k):
    rng = random.Random(seed)
    res = dict(r)
    for k, v in dict(paths=0, decisions=0, obligations=0, discharged=0, cross=0, inconclusive=[], violations=[], points=0,
                     float_comparisons=0, validated=0, mismatch=[], vacuity=0, samples=[], truncated=False, engine=r["crash"],
                     queries={}, wall=0).items():
        res.setdefault(k, v)
    try:
        if k:
            specs = collect_specs(h)
            pts = [draw(specs, rng) for _ in range(k)]
            fallback(h, pts, res)
    except Exception as ex:
        res["inconclusive"].append("fallback: %r" % ex)
    res["inconclusive"].append("no symbolic verdict: " + r["crash"])
    return res


def main_check(pid, mod, tier):
    t0 = time.time()
    thorough = tier == "thorough"
    hs = [h for h in mod.HARNESSES if thorough or h.tier == "quick"]
    results = run_all(hs, SEED, thorough, budget=780 if not thorough else 3600 * 3)
    byname = {h.name: h for h in hs}
    results = [crash_fallback(byname[r["name"]], r, SEED) if "crash" in r else r for r in results]
    extra = getattr(mod, "extra_checks", None)
    if extra:
        for r in extra(thorough):
            results.append(r)
    return report(pid, mod, tier, results, time.time() - t0)


def report(pid, mod, tier, results, wall):
    known = [k for k in known_findings() if k["property"] == pid and k.get("status", "open") == "open"]
    nviol = 0
    lines = []
    repdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(repdir, f))
    seen_known = set()
    for r in results:
        for v in r["violations"]:
            kf = [k for k in known if k["harness"] == r["name"] and k["claim"] == v["claim"]]
            if kf:
                seen_known.add(kf[0]["what"])
                continue
            path = os.path.join(repdir, "%s-%d.json" % (pid, nviol))
            json.dump(dict(property=pid, harness=r["name"], claim=v["claim"], detail=v["detail"], point=v["point"],
                           how="/verif/bin/check %s --replay %s" % (pid, path)), open(path, "w"), indent=1, default=str)
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s / %s: real code gives %s, required %s at %s" % (
                r["name"], v["claim"], v["detail"].get("lhs"), v["detail"].get("rhs"), str(v["point"])[:300]))
            nviol += 1
    for k in known:
        if k["what"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    tot = lambda k: sum(r.get(k, 0) for r in results)
    q = {}
    for r in results:
        for k, v in (r.get("queries") or {}).items():
            q[k] = q.get(k, 0) + v
    inc = [(r["name"], i) for r in results for i in r["inconclusive"]]
    mm = [(r["name"], m) for r in results for m in r["mismatch"]]
    for n, i in inc:
        print("INCONCLUSIVE %s: %s" % (n, i))
    for n, m in mm[:10]:
        print("ENGINE-MISMATCH %s: %s" % (n, str(m)[:300]))
    ev = dict(
        property=pid, tier=tier, seed=SEED, level=getattr(mod, "LEVEL", "model_checking"),
        coverage=dict(
            states=tot("paths"), transitions=tot("decisions") + tot("paths"),
            traces_validated_against_impl=tot("points"),
            samples=[dict(harness=r["name"], **s) for r in results for s in r["samples"]][:8],
            harnesses=len(results), obligations=tot("obligations"), discharged=tot("discharged"),
            obligations_confirmed_directly_by_z3_without_preprocessing=tot("cross"),
            vacuity_twins_refuted=tot("vacuity"), translator_values_compared=tot("validated"),
            real_code_comparisons=tot("float_comparisons"), solver_queries=q.get("queries", 0),
            solver_seconds=round(q.get("time", 0), 2), solver_verdicts={k: q.get(k, 0) for k in ("unsat", "sat", "unknown")},
            functions_encoded=getattr(mod, "FUNCTIONS", []), bounds=getattr(mod, "BOUNDS", ""),
            per_harness=[dict(name=r["name"], paths=r["paths"], obligations=r["obligations"], discharged=r["discharged"],
                              wall=r.get("wall"), truncated=r.get("truncated", False)) for r in results],
            inconclusive=["%s: %s" % t for t in inc], engine_mismatches=len(mm),
            exhaustive=False),
        assumptions=getattr(mod, "ASSUMPTIONS", []) + [
            "floating-point rounding, overflow and underflow are outside the claim: arithmetic is over the reals",
            "numpy/scipy library routines behave as their mathematical definitions (stand-ins in symx/shim.py)"],
        wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    print("%s: %d harnesses, %d paths, %d/%d obligations discharged, %d real-code comparisons, %d violations, %d inconclusive, %.1fs" % (
        pid, len(results), tot("paths"), tot("discharged"), tot("obligations"), tot("float_comparisons"), nviol, len(inc), wall))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if nviol else 0


def replay(path, mod):
    d = json.load(open(path))
    hs = {h.name: h for h in mod.HARNESSES}
    h = hs[d["harness"]]
    if str(d["detail"].get("lhs", "")).startswith("process killed"):
        r = crash_fallback(h, dict(name=h.name, crash="replay"), SEED)
        print(r["violations"])
        return 1 if r["violations"] else 0
    pt = {k: (Fraction(v) if isinstance(v, str) else v) for k, v in d["point"].items()}
    v, n = float_check(h, pt)
    for x in v:
        print(x)
    print("replayed %s: %d disagreement(s) in %d comparisons" % (d["harness"], len(v), n))
    return 1 if v else 0
