"""z3 bridge: path conditions, signs, obligations."""
from fractions import Fraction
import time
import z3
from . import expr as E
from . import norm as N

STATS = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0}


def _rv(fr):
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)


class Trans:
    """Expr -> z3, function atoms abstracted to variables with sound axioms."""

    def __init__(self):
        self.memo = {}
        self.axioms = []
        self.fresh = 0
        self.byname = {}
        self.vars = {}

    def new(self, pre):
        self.fresh += 1
        return z3.Real("%s!%d" % (pre, self.fresh))

    def tr(self, e):
        memo = self.memo
        if e.id in memo:
            return memo[e.id]
        for n in E.topo([e]):
            if n.id not in memo:
                memo[n.id] = self._tr1(n)
        return memo[e.id]

    def real(self, t):
        return z3.ToReal(t) if z3.is_int(t) else t

    def _tr1(self, n):
        m = self.memo
        op = n.op
        if op == "C":
            return _rv(n.c) if n.c.denominator != 1 else z3.RealVal(n.c.numerator)
        if op == "V":
            if n.flags & 1:
                v = z3.Int(n.name)
                self.vars[n.name] = v
                return v
            v = z3.Real(n.name)
            self.vars[n.name] = v
            if n.name == "PI":
                self.axioms += [v > z3.RealVal("3.141592653"), v < z3.RealVal("3.141592654")]
            elif n.flags & 2:
                self.axioms.append(v > 0)
            return v
        if op == "A":
            if n.flags & 1:
                s = z3.IntVal(int(n.c))
                for a, k in zip(n.args, n.exps):
                    s = s + int(k) * self._int(m[a.id])
                return s
            s = [_rv(n.c)] if n.c else []
            for a, k in zip(n.args, n.exps):
                t = self.real(m[a.id])
                s.append(t if k == 1 else _rv(k) * t)
            return z3.Sum(s) if len(s) > 1 else s[0]
        if op == "M":
            if n.flags & 1:
                t = None
                for a, p in zip(n.args, n.exps):
                    for _ in range(int(p)):
                        x = self._int(m[a.id])
                        t = x if t is None else t * x
                return t
            t = None
            for a, p in zip(n.args, n.exps):
                x = self.real(m[a.id])
                f = self.pw(x, p, a)
                t = f if t is None else t * f
            return t
        return self._fun(n)

    def _int(self, t):
        if z3.is_int(t):
            return t
        if z3.is_rational_value(t):
            return z3.IntVal(t.numerator_as_long())
        return z3.ToInt(t)

    def pw(self, x, p, a):
        num, den = p.numerator, p.denominator
        key = ("pw", a.id, den)
        if den != 1:
            r = self.byname.get(key)
            if r is None:
                r = self.new("root")
                self.byname[key] = r
                q = r
                for _ in range(den - 1):
                    q = q * r
                self.axioms += [q == x, r >= 0]
            x = r
        if num < 0:
            key = ("inv", a.id, den)
            i = self.byname.get(key)
            if i is None:
                i = self.new("inv")
                self.byname[key] = i
                self.axioms.append(i * x == 1)
            x, num = i, -num
        t = x
        for _ in range(num - 1):
            t = t * x
        return t

    def _fun(self, n):
        m = self.memo
        name = n.name
        if name == "floordiv":
            a, b = m[n.args[0].id], m[n.args[1].id]
            if n.args[0].is_int and n.args[1].is_int:
                a, b = self._int(a), self._int(b)
                if n.args[1].op == "C" and n.args[1].c > 0:
                    return a / b
                return z3.If(b > 0, a / b, (-a) / (-b))
            q = z3.Int("fl!%d" % self.fresh)
            self.fresh += 1
            a, b = self.real(a), self.real(b)
            self.axioms += [z3.Implies(b > 0, z3.And(z3.ToReal(q) * b <= a, a < z3.ToReal(q) * b + b)),
                            z3.Implies(b < 0, z3.And(z3.ToReal(q) * b >= a, a > z3.ToReal(q) * b + b))]
            return q
        v = self.new(name.replace(":", "_"))
        x = self.real(m[n.args[-1].id]) if n.args else None
        ax = self.axioms
        prev = self.byname.setdefault(("f", name), [])
        if name == "exp":
            ax += [v > 0, v >= 1 + x, z3.Implies(x < 0, v < 1), z3.Implies(x == 0, v == 1), z3.Implies(x < 1, v * (1 - x) <= 1)]
            for x2, v2 in prev[:6]:
                ax += [(x < x2) == (v < v2)]
        elif name == "log":
            ax += [v <= x - 1, (x > 1) == (v > 0), (x < 1) == (v < 0), z3.Implies(x > 0, v * x >= x - 1)]
            for x2, v2 in prev[:6]:
                ax += [(x < x2) == (v < v2)]
            if n.args[0].op == "C" and n.args[0].c > 0:
                import math
                f = math.log(float(n.args[0].c))
                ax += [v > z3.RealVal(repr(f - 1e-9)), v < z3.RealVal(repr(f + 1e-9))]
        elif name == "ndtr":
            ax += [v > 0, v < 1, (x > 0) == (v > z3.RealVal("1/2")), (x < 0) == (v < z3.RealVal("1/2"))]
            for x2, v2 in prev[:6]:
                ax += [(x < x2) == (v < v2)]
        elif name == "ndtri":
            ax += [(x > z3.RealVal("1/2")) == (v > 0), (x < z3.RealVal("1/2")) == (v < 0)]
        elif name in ("sin", "cos"):
            ax += [v >= -1, v <= 1]
        elif name == "arctan":
            ax += [(x > 0) == (v > 0), (x < 0) == (v < 0)]
            for x2, v2 in prev[:6]:
                ax += [(x < x2) == (v < v2)]
        elif name == "arcsin":
            ax += [(x > 0) == (v > 0), (x < 0) == (v < 0)]
        elif name == "polygamma" and n.args[0].op == "C" and n.args[0].c == 1:
            ax += [z3.Implies(x > 0, v > 0)]
        elif name.startswith("uf:"):
            sg = E.UF_SIGN.get(name) if hasattr(E, "UF_SIGN") else None
            if sg == 1:
                ax.append(v > 0)
            if sg == 2:   # in (0, 1)
                ax += [v > 0, v < 1]
        prev.append((x, v))
        return v


def rel_z3(rel, t):
    z = z3.RealVal(0) if not z3.is_int(t) else z3.IntVal(0)
    return {"<": t < z, "<=": t <= z, "==": t == z, "!=": t != z}[rel]


def negate(rel, e):
    """negation of (e rel 0) as (rel, e)"""
    if rel == "==":
        return ("!=", e)
    if rel == "!=":
        return ("==", e)
    if rel == "<":       # not e<0  ->  -e <= 0
        return ("<=", E.neg(e))
    return ("<", E.neg(e))


_DOG = {"pid": None, "until": None}


def _watch(pid):
    import os
    while os.getpid() == pid:
        u = _DOG["until"]
        if u is not None and time.time() > u:
            try:
                z3.main_ctx().interrupt()
            except Exception:
                pass
        time.sleep(0.25)


def zcheck(s, timeout):
    """check() with a watchdog: z3 does not always honour its own time limit"""
    import os
    import threading
    if _DOG["pid"] != os.getpid():
        _DOG["pid"] = os.getpid()
        threading.Thread(target=_watch, args=(os.getpid(),), daemon=True).start()
    _DOG["until"] = time.time() + timeout / 1000 + 1.0
    try:
        return s.check()
    except z3.Z3Exception:
        return z3.unknown
    finally:
        _DOG["until"] = None


class Context:
    """A set of assumptions (rel, Expr) with incremental feasibility queries."""

    def __init__(self, timeout=600):
        self.trans = Trans()
        self.conds = []
        self.nax = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout)
        self.signs = {}
        self.timeout = timeout

    def assume(self, rel, e):
        self.conds.append((rel, e))
        t = self.trans.tr(e)
        self._flush()
        self.solver.add(rel_z3(rel, t))
        self.signs.clear()

    def _flush(self):
        ax = self.trans.axioms
        if self.nax < len(ax):
            self.solver.add(*ax[self.nax:])
            self.nax = len(ax)

    def feasible(self, rel, e):
        """True / False / None (unknown)"""
        if E.treesize(e) > 3000:
            return None
        t = self.trans.tr(e)
        self._flush()
        t0 = time.time()
        self.solver.push()
        self.solver.add(rel_z3(rel, t))
        r = zcheck(self.solver, self.timeout)
        self.solver.pop()
        _count(r, time.time() - t0)
        return True if r == z3.sat else False if r == z3.unsat else None

    def probe(self, e):
        """(seen nonpositive... lo: a sample with e > 0, hi: a sample with e < 0): which signs occur at sampled points of the path"""
        pts = self.points() if self.points else []
        lo = hi = False
        for env in pts:
            try:
                v = E.evalf(e, env)
            except Exception:
                continue
            if v != v:
                continue
            if v > 0:
                lo = True
            elif v < 0:
                hi = True
        return lo, hi

    points = None

    def sign(self, e):
        """1, -1 or None when provable"""
        if e.op == "C":
            return (e.c > 0) - (e.c < 0) or None
        s = self.signs.get(e.id)
        if s is not None:
            return s or None
        r = 0
        if E.is_pos(e):
            r = 1
        else:
            lo, hi = self.probe(e)
            if not hi and lo is not None and self.feasible("<=", e) is False:
                r = 1
            elif not lo and self.feasible("<=", E.neg(e)) is False:
                r = -1
        self.signs[e.id] = r
        return r or None

    def model(self, extra=(), timeout=2000):
        s = self.solver
        s.push()
        s.set("timeout", timeout)
        for c in extra:
            s.add(c)
        t0 = time.time()
        r = zcheck(s, timeout)
        _count(r, time.time() - t0)
        out = None
        if r == z3.sat:
            m = s.model()
            out = {}
            for nm, v in self.trans.vars.items():
                x = m.eval(v, model_completion=True)
                out[nm] = _num(x)
        s.pop()
        s.set("timeout", self.timeout)
        return r, out


def _num(x):
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        y = x.approx(20)
        return Fraction(y.numerator_as_long(), y.denominator_as_long())
    return Fraction(0)


def _count(r, dt):
    STATS["queries"] += 1
    STATS["time"] += dt
    STATS[str(r)] += 1


# ---- obligations -----------------------------------------------------------------

def poly_z3(nf, num, gv):
    """polynomial with nonnegative exponents -> z3 term; roots: g = r**L"""
    terms = []
    for m, c in num.items():
        t = _rv(Fraction(c))
        for i, e in nf.unpack(m):
            b, step = gv(i)
            k = e // step
            for _ in range(k):
                t = t * b
        terms.append(t)
    return z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))


def gens_z3(nf, polys):
    """z3 variable for every generator used (as its 1/L-th root when fractional exponents occur)
    together with the generators' sign and root relations."""
    import math
    steps = {}
    todo = list(polys)
    done = set()
    while todo:
        p = todo.pop()
        for m in p:
            for i, e in nf.unpack(m):
                steps[i] = math.gcd(steps.get(i, N.SCALE), abs(e))
                g = nf.gens[i]
                if i not in done:
                    done.add(i)
                    if g.kind in ("root", "oroot"):
                        todo.append(g.base)
    zs = {}
    cons = []

    def gv(i):
        if i not in zs:
            g = nf.gens[i]
            v = z3.Real("g%d_%s" % (i, g.name))
            zs[i] = v
            if g.pos:
                cons.append(v > 0)
            if g.kind == "prime":
                t = v
                for _ in range(N.SCALE // steps[i] - 1):
                    t = t * v
                cons.append(t == g.key)
        return zs[i], steps[i]

    for i in sorted(steps):
        gv(i)
    for i in sorted(steps):
        g = nf.gens[i]
        if g.kind in ("root", "oroot"):
            v, st = gv(i)
            t = v
            for _ in range(N.SCALE // st - 1):
                t = t * v
            b = g.base
            mins = [min((dict(nf.unpack(m)).get(j, 0) for m in b)) for j in steps]
            if all(x >= 0 for x in mins):
                cons.append(t == poly_z3(nf, b, gv))
    return gv, cons


def decide_zero(nf, e, timeout=4000):
    """Is e identically zero (over all generator values satisfying the relations)?
    -> ('proved'|'refuted'|'unknown', residual polynomial)"""
    num = nf.residual(e)
    gv, cons = gens_z3(nf, [num])
    s = z3.Solver()
    s.set("timeout", timeout)
    if len(num) > 3000:
        # too large to hand over; non-zero in normal form
        return "refuted", num
    s.add(*cons)
    s.add(poly_z3(nf, num, gv) != 0)
    t0 = time.time()
    r = zcheck(s, 4000)
    _count(r, time.time() - t0)
    if r == z3.unsat:
        return "proved", num
    if r == z3.sat:
        return "refuted", num
    return "refuted" if num else "unknown", num


def cross_check(nf, e, timeout=1500):
    """Independent discharge: un-normalised term to z3 directly (division as inverse variables)."""
    t = Trans()
    z = t.tr(e)
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*t.axioms)
    s.add(z != 0)
    t0 = time.time()
    r = zcheck(s, 4000)
    _count(r, time.time() - t0)
    return r


def decide_rel(ctx, rel, e, timeout=5000):
    """Does (e rel 0) hold under ctx?  Asks z3 for a model of the negation."""
    nrel, ne = negate(rel, e)
    t = ctx.trans.tr(ne)
    ctx._flush()
    s = ctx.solver
    s.push()
    s.set("timeout", timeout)
    s.add(rel_z3(nrel, t))
    t0 = time.time()
    r = zcheck(s, 4000)
    _count(r, time.time() - t0)
    out = None
    if r == z3.sat:
        m = s.model()
        out = {nm: _num(m.eval(v, model_completion=True)) for nm, v in ctx.trans.vars.items()}
    s.pop()
    s.set("timeout", ctx.timeout)
    if r == z3.unsat:
        return "proved", None
    if r == z3.sat:
        return "refuted", out
    return "unknown", None
