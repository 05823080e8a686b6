"""Depth-first path exploration by re-execution with decision prefixes."""
import time
from fractions import Fraction
from . import expr as E
from . import solve


class Explorer(E.Decider):
    def __init__(self, max_paths=64, timeout_ms=500, deadline=None):
        self.max_paths = max_paths
        self.prefix = []
        self.trace = []
        self.ctx = None
        self.timeout_ms = timeout_ms
        self.npaths = 0
        self.truncated = False
        self.deadline = deadline
        self.max_decisions = 4000

    specs = None
    sampler = None      # (specs, conds, n) -> environments satisfying conds

    def points(self):
        if self.specs is None or self.sampler is None:
            return []
        key = (len(self.ctx.conds), len(self.specs))
        if self._pts[0] != key:
            old = [e for e in self._pts[1] if len(e) == key[1]]
            self._pts = (key, self.sampler(dict(self.specs), self.ctx.conds, old))
        return self._pts[1]

    # trace: list of [choice, alternatives_left]
    def begin(self):
        self.ctx = solve.Context(self.timeout_ms)
        self.ctx.points = self.points
        self._pts = (None, [])
        self.pos = 0
        self.trace = []
        self.known = {}
        self.hyps = []

    def assume(self, rel, e):
        if e.op == "C":
            c = e.c
            ok = {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[rel]
            if not ok:
                raise E.PathAbort("assumption false")
            return
        self.ctx.assume(rel, e)
        self._note(rel, e, True)
        if rel in ("<", "<="):
            self.hyps.append((rel, e))

    norm = None         # normaliser, for recognising an assumption written differently

    def match(self, rel, e):
        """decide e rel 0 from an assumption that is the same expression up to a constant factor and rewriting"""
        pts = self.points()[:2] if self.hyps and self.norm is not None else []
        if len(pts) < 2:
            return None
        try:
            ev = [E.evalf(e, p) for p in pts]
        except Exception:
            return None
        for hr, h in self.hyps:
            try:
                hv = [E.evalf(h, p) for p in pts]
                ks = [a / b for a, b in zip(ev, hv)]
            except Exception:
                continue
            if not all(abs(k) < 1e6 for k in ks) or abs(ks[0] - ks[1]) > 1e-7 * abs(ks[0]) or ks[0] == 0:
                continue
            k = Fraction(ks[0]).limit_denominator(1000)
            if k == 0 or abs(float(k) - ks[0]) > 1e-6 * abs(ks[0]):
                continue
            try:
                if solve.decide_zero(self.norm, e - h * k)[0] != "proved":
                    continue
            except Exception:
                continue
            if k > 0:
                if hr == "<":
                    return rel != "=="
                if rel == "<=":
                    return True
            else:
                if hr == "<":
                    return rel == "!="
                if rel == "<":
                    return False
        return None

    def _note(self, rel, e, val):
        self.known[(rel, e.id)] = val
        ne = E.neg(e)
        if rel == "<":
            self.known[("<=", ne.id)] = not val
            if val:
                self.known[("<=", e.id)] = True
                self.known[("==", e.id)] = False
                self.known[("!=", e.id)] = True
                self.known[("<", ne.id)] = False
                self.known[("==", ne.id)] = False
                self.known[("!=", ne.id)] = True
        elif rel == "<=":
            self.known[("<", ne.id)] = not val
            if not val:   # e > 0
                self.known[("<", e.id)] = False
                for x in (e, ne):
                    self.known[("==", x.id)] = False
                    self.known[("!=", x.id)] = True
                self.known[("<=", ne.id)] = True
        elif rel in ("==", "!="):
            v = val if rel == "==" else not val
            for x in (e, ne):
                self.known[("==", x.id)] = v
                self.known[("!=", x.id)] = not v
            if v:
                for x in (e, ne):
                    self.known[("<", x.id)] = False
                    self.known[("<=", x.id)] = True

    def decide(self, rel, e):
        if e.op == "C":
            c = e.c
            return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[rel]
        if e.op == "V" and e.name in ("+INF", "-INF"):
            p = e.name == "+INF"
            return {"<": not p, "<=": not p, "==": False, "!=": True}[rel]
        if e.op == "V" and e.name == "NAN":
            return rel == "!="
        if E.is_pos(e):
            return rel == "!="
        k = self.known.get((rel, e.id))
        if k is not None:
            return k
        if E.is_closed(e):
            v = E.evalmp_many([e], {}, 40)[0]
            if abs(v) > 1e-20:
                return bool({"<": v < 0, "<=": v <= 0, "==": False, "!=": True}[rel])
        if E.is_pos(E.neg(e)):
            return rel in ("<", "<=", "!=")
        if self.deadline and time.time() > self.deadline:
            raise TimeoutError("exploration deadline")
        nrel, ne = solve.negate(rel, e)
        if self.pos < len(self.prefix):
            choice, left, _ = self.prefix[self.pos]
        else:
            if len(self.trace) > self.max_decisions:
                raise E.PathAbort("decision bound")
            ft = self.ctx.feasible(rel, e)
            ff = self.ctx.feasible(nrel, ne) if ft is not False else True
            if ft is not False and ff is not False:
                m = self.match(rel, e)
                if m is not None:
                    ft, ff = (True, False) if m else (False, True)
            if ft is False and ff is False:
                raise E.PathAbort("infeasible")
            if ft is False:
                choice, left = False, False
            elif ff is False:
                choice, left = True, False
            else:
                choice, left = True, True
                if rel == "==":
                    choice = False
        self.pos += 1
        self.trace.append((choice, left, None))
        if choice:
            self.ctx.assume(rel, e)
        else:
            self.ctx.assume(nrel, ne)
        self._note(rel, e, choice)
        return choice

    def concretise_int(self, e):
        """choose an integer value for e (forks over all feasible values)"""
        k = self.known.get(("int", e.id))
        if k is not None:
            return k
        import z3
        for _ in range(400):
            if self.pos < len(self.prefix):
                choice, left, v = self.prefix[self.pos]
            else:
                t = self.ctx.trans.tr(e)
                self.ctx._flush()
                s = self.ctx.solver
                r = solve.zcheck(s, self.timeout_ms)
                solve._count(r, 0.0)
                if r != z3.sat:
                    raise E.PathAbort("infeasible")
                v = int(solve._num(s.model().eval(t, model_completion=True)))
                choice, left = True, True
            self.pos += 1
            self.trace.append((choice, left, v))
            self.ctx.assume("==" if choice else "!=", e - v)
            if choice:
                self.known[("int", e.id)] = v
                return v
        raise E.PathAbort("too many integer values")

    def known_sign(self, e):
        if e.op == "C":
            return (e.c > 0) - (e.c < 0) or None
        if self.known.get(("<", e.id)):
            return -1
        if self.known.get(("<=", e.id)) is False:
            return 1
        if self.ctx is None:
            return None
        return self.ctx.sign(e)

    def run(self, body):
        """yield (result, ctx) for every feasible path"""
        old = E.DECIDER[0]
        E.DECIDER[0] = self
        try:
            while True:
                self.begin()
                try:
                    res = body(self)
                    ok = True
                except E.PathAbort:
                    res, ok = None, False
                if ok:
                    self.npaths += 1
                    yield res, self.ctx
                # next prefix
                tr = self.trace
                while tr and not tr[-1][1]:
                    tr.pop()
                if not tr:
                    break
                c, _, v = tr.pop()
                self.prefix = tr + [(not c, False, v)]
                if self.npaths >= self.max_paths:
                    self.truncated = True
                    break
        finally:
            E.DECIDER[0] = old
