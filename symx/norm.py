"""Normal form: sums of (Laurent/Puiseux polynomial) / (product of named factors)
over a growing set of generators (variables, exp-monomials, roots, function atoms).

Polynomials are dicts {packed exponent vector: coefficient}.  Exponents are
stored times SCALE, each in a signed BITS-wide field, so that multiplying
monomials is integer addition.
"""
from fractions import Fraction
import math
from math import gcd
import random
from . import expr as E

SCALE = 12
BITS = 24
HALFW = 1 << (BITS - 1)
P = (1 << 61) - 1


class TooBig(Exception):
    pass


class Gen:
    __slots__ = ("ix", "kind", "key", "pos", "expr", "base", "val", "deg", "name")


class Norm:
    def __init__(self, known_sign=None, limit=400000, seed=7):
        self.gens = []
        self.gkey = {}
        self.factors = []       # list of poly
        self.fkey = {}
        self.fval = []
        self.fsign = []
        self.logpos = set()
        self.memo = {}
        self.known_sign = known_sign or (lambda e: None)
        self.limit = limit
        self.rng = random.Random(seed)
        self.ops = 0
        self.maxops = 60_000_000
        self.atoms = {}         # name -> list of (args, gen)

    # ---- generators
    def gen(self, kind, key, expr, pos=False, base=None, name=None):
        k = (kind, key)
        g = self.gkey.get(k)
        if g is None:
            g = Gen()
            g.ix = len(self.gens)
            g.kind, g.key, g.expr, g.pos, g.base = kind, key, expr, pos, base
            g.val = self.rng.randrange(2, P)
            g.name = name or kind
            self.gens.append(g)
            self.gkey[k] = g
        return g

    def mono(self, g, e):
        e = Fraction(e) * SCALE
        if e.denominator != 1:
            raise E.NotEncodable("exponent %s not a multiple of 1/%d" % (e / SCALE, SCALE))
        return int(e) << (BITS * g.ix) if e >= 0 else -(int(-e) << (BITS * g.ix))

    def unpack(self, m):
        """packed -> list of (gen index, scaled exponent)"""
        out = []
        i = 0
        mask = (1 << BITS) - 1
        while m:
            # skip zero fields fast
            low = m & -m
            sh = (low.bit_length() - 1) // BITS
            i += sh
            m >>= sh * BITS
            d = m & mask
            if d >= HALFW:
                d -= 1 << BITS
            m = (m - d) >> BITS
            if d:
                out.append((i, d))
            i += 1
        return out

    # ---- polynomials
    def padd(self, a, b, k=1):
        if len(a) < len(b):
            if k == 1:
                a, b = b, a
            else:
                r = {m: c * k for m, c in b.items()}
                for m, c in a.items():
                    s = r.get(m, 0) + c
                    if s:
                        r[m] = s
                    else:
                        r.pop(m, None)
                return r
        r = dict(a)
        for m, c in b.items():
            s = r.get(m, 0) + c * k
            if s:
                r[m] = s
            else:
                r.pop(m, None)
        return r

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        n = len(a) * len(b)
        self.ops += n
        if self.ops > self.maxops:
            raise TooBig("polynomial work bound")
        if not a:
            return {}
        if len(a) == 1:
            (m1, c1), = a.items()
            if c1 == 1:
                return {m1 + m: c for m, c in b.items()}
            return {m1 + m: c1 * c for m, c in b.items()}
        r = {}
        get = r.get
        da = db = 1
        if n > 40:
            a, da = self._intscale(a)
            b, db = self._intscale(b)
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        if da != 1 or db != 1:
            d = da * db
            q = {}
            for m, c in r.items():
                if c:
                    f = Fraction(c, d)
                    q[m] = f if f.denominator != 1 else int(f)
            r = q
        else:
            r = {m: c for m, c in r.items() if c}
        if len(r) > self.limit:
            raise TooBig("polynomial size %d" % len(r))
        return r

    @staticmethod
    def _intscale(a):
        den = 1
        for c in a.values():
            if type(c) is not int:
                d = c.denominator
                den = den * d // gcd(den, d)
        if den == 1:
            return {m: int(c) for m, c in a.items()}, 1
        return {m: int(c * den) for m, c in a.items()}, den

    def ppow(self, a, n):
        r = {0: 1}
        while n:
            if n & 1:
                r = self.pmul(r, a)
            n >>= 1
            if n:
                a = self.pmul(a, a)
        return r

    def content(self, p):
        """(coef, monomial, primitive) with primitive having nonnegative exponents,
        min 0, and coprime integer coefficients, the leading one positive (unless p is a monomial: primitive {0:1})."""
        if len(p) == 1:
            (m, c), = p.items()
            return c, m, {0: 1}
        mins = None
        for m in p:
            u = dict(self.unpack(m))
            if mins is None:
                mins = u
            else:
                for k in list(mins):
                    v = min(mins[k], u.get(k, 0))
                    mins[k] = v
                for k, v in u.items():
                    if k not in mins and v < 0:
                        mins[k] = v
        mm = 0
        for k, v in mins.items():
            if v > 0:
                mm += v << (BITS * k)
            elif v < 0:
                mm -= (-v) << (BITS * k)
        # integer primitive part with positive leading coefficient
        den = 1
        g = 0
        for c in p.values():
            if type(c) is int:
                g = gcd(g, c)
            else:
                d = c.denominator
                den = den * d // gcd(den, d)
                g = gcd(g, c.numerator)
        # gcd of the rationals: gcd of numerators over lcm of denominators (numerators and denominators are coprime pairwise per term)
        if den != 1:
            g = 0
            for c in p.values():
                g = gcd(g, int(c * den))
        if p[max(p)] < 0:
            g = -g
        if den == 1:
            if g == 1:
                return 1, mm, ({m - mm: c for m, c in p.items()} if mm else dict(p))
            return g, mm, {m - mm: c // g for m, c in p.items()}
        lead = Fraction(g, den)
        if lead.denominator == 1:
            lead = int(lead)
        return lead, mm, {m - mm: int(c * den) // g for m, c in p.items()}

    def peval(self, p):
        s = 0
        cache = {}
        for m, c in p.items():
            t = self._cmod(c)
            for i, e in self.unpack(m):
                k = (i, e)
                v = cache.get(k)
                if v is None:
                    v = pow(self.gens[i].val, e % (P - 1), P)
                    cache[k] = v
                t = t * v % P
            s += t
        return s % P

    @staticmethod
    def _cmod(c):
        if isinstance(c, Fraction):
            return c.numerator % P * pow(c.denominator, P - 2, P) % P
        return c % P

    def pdiv(self, a, d):
        """exact quotient a/d or None; a, d with arbitrary exponents; d primitive."""
        if not a:
            return {}
        if len(d) == 1:
            (m1, c1), = d.items()
            return {m - m1: self._q(c, c1) for m, c in a.items()}
        ca, ma, pa = self.content(a)
        if len(pa) < 2:
            return None
        if not self._maydiv(pa, d):
            return None
        ld = max(d)
        cd = d[ld]
        r = dict(pa)
        q = {}
        import heapq
        heap = [-m for m in r]
        heapq.heapify(heap)
        steps = 0
        while r:
            while heap and -heap[0] not in r:
                heapq.heappop(heap)
            m = -heap[0]
            t = m - ld
            if any(e < 0 for _, e in self.unpack(t)):
                return None
            c = self._q(r[m], cd)
            q[t] = c
            for md, kd in d.items():
                mm = md + t
                old = r.get(mm)
                if old is None:
                    r[mm] = -c * kd
                    heapq.heappush(heap, -mm)
                else:
                    s = old - c * kd
                    if s:
                        r[mm] = s
                    else:
                        del r[mm]
            steps += len(d)
            self.ops += len(d)
            if len(q) > 4 * len(pa) + 50:
                return None
        return {m + ma: c * ca for m, c in q.items()}

    @staticmethod
    def _q(a, b):
        if b == 1:
            return a
        v = Fraction(a) / b
        return int(v) if v.denominator == 1 else v

    def _maydiv(self, a, d):
        """cheap necessary test: find a generator in which d is linear, put it on d's root"""
        deg = {}
        for m in d:
            for i, e in self.unpack(m):
                deg[i] = max(deg.get(i, 0), e)
        da = set()
        for m in a:
            da.update(i for i, _ in self.unpack(m))
            if len(da) >= len(deg) and set(deg) <= da:
                break
        if not set(deg) <= da:
            return False
        for i, dg in deg.items():
            es = {dict(self.unpack(m)).get(i, 0) for m in d}
            if es == {0, dg}:
                hi = self.peval({m - (dg << (BITS * i)): c for m, c in d.items() if dict(self.unpack(m)).get(i, 0) == dg})
                lo = self.peval({m: c for m, c in d.items() if dict(self.unpack(m)).get(i, 0) == 0})
                if hi == 0:
                    return True
                root = -lo * pow(hi, P - 2, P) % P   # value of g^(dg/SCALE) making d vanish
                s = 0
                for m, c in a.items():
                    t = self._cmod(c)
                    for j, e in self.unpack(m):
                        if j == i:
                            if e % dg:
                                return True  # cannot test
                            t = t * pow(root, e // dg, P) % P
                        else:
                            t = t * pow(self.gens[j].val, e % (P - 1), P) % P
                    s += t
                return s % P == 0
        return True

    # ---- factors
    def factor_ids(self, q):
        """primitive poly -> list of (factor id, exp), trying known factors first."""
        key = frozenset(q.items())
        f = self.fkey.get(key)
        if f is not None:
            return [(f, 1)]
        out = {}
        if len(q) <= 400:
            for i in range(len(self.factors) - 1, -1, -1):
                fi = self.factors[i]
                while len(fi) <= len(q) * 4:
                    r = self.pdiv(q, fi)
                    if r is None:
                        break
                    c, m, r2 = self.content(r)
                    if c != 1 or m != 0:
                        break
                    out[i] = out.get(i, 0) + 1
                    q = r2
                    if len(q) == 1:
                        break
                if len(q) == 1:
                    break
        if len(q) > 1:
            key = frozenset(q.items())
            f = self.fkey.get(key)
            if f is None:
                f = len(self.factors)
                self.factors.append(q)
                self.fkey[key] = f
                self.fsign.append(None)
            out[f] = out.get(f, 0) + 1
        return list(out.items())

    # ---- fractions: {denkey: poly}
    def fadd(self, a, b, k=1):
        r = dict(a)
        for d, p in b.items():
            q = r.get(d)
            q = self.padd(q, p, k) if q is not None else ({m: c * k for m, c in p.items()} if k != 1 else p)
            if q:
                r[d] = q
            else:
                r.pop(d, None)
        return r

    def dmul(self, d1, d2):
        if not d1:
            return d2
        if not d2:
            return d1
        r = dict(d1)
        for f, e in d2:
            r[f] = r.get(f, 0) + e
        return tuple(sorted(r.items()))

    def fmul(self, a, b):
        r = {}
        for d1, p1 in a.items():
            for d2, p2 in b.items():
                d = self.dmul(d1, d2)
                p = self.pmul(p1, p2)
                q = r.get(d)
                q = self.padd(q, p) if q is not None else p
                if q:
                    r[d] = q
                else:
                    r.pop(d, None)
        return r

    def reduce_one(self, d, p):
        """cancel den factors dividing p"""
        d = dict(d)
        for f in list(d):
            while d.get(f, 0) > 0:
                q = self.pdiv(p, self.factors[f])
                if q is None:
                    break
                p = q
                d[f] -= 1
                if d[f] == 0:
                    del d[f]
        return tuple(sorted(d.items())), p

    def combine(self, fr, reduce=True):
        """-> (num, denkey)"""
        if not fr:
            return {}, ()
        if len(fr) == 1:
            (d, p), = fr.items()
            if d and reduce:
                d, p = self.reduce_one(d, p)
            return p, d
        groups = list(fr.items())
        # reduce first, then merge smallest dens first
        acc = {}
        for d, p in groups:
            if d and reduce:
                d, p = self.reduce_one(d, p)
            q = acc.get(d)
            q = self.padd(q, p) if q is not None else p
            if q:
                acc[d] = q
            else:
                acc.pop(d, None)
        while len(acc) > 1:
            # pick the pair with the largest overlap (sharing factors), else smallest
            items = sorted(acc.items(), key=lambda t: (-sum(e for _, e in t[0]), len(t[1])))
            d1, p1 = items[0]
            best, bi = None, None
            s1 = dict(d1)
            for j in range(1, len(items)):
                d2 = dict(items[j][0])
                ov = sum(min(e, s1.get(f, 0)) for f, e in d2.items())
                miss = sum(max(0, e - s1.get(f, 0)) for f, e in d2.items()) + sum(max(0, e - d2.get(f, 0)) for f, e in s1.items())
                sc = (miss - ov, miss)
                if best is None or sc < best:
                    best, bi = sc, j
            d2, p2 = items[bi]
            del acc[d1]
            del acc[d2]
            a, b = dict(d1), dict(d2)
            cm = {f: max(a.get(f, 0), b.get(f, 0)) for f in set(a) | set(b)}
            for f, e in cm.items():
                if e > a.get(f, 0):
                    p1 = self.pmul(p1, self.ppow(self.factors[f], e - a.get(f, 0)))
                if e > b.get(f, 0):
                    p2 = self.pmul(p2, self.ppow(self.factors[f], e - b.get(f, 0)))
            p = self.padd(p1, p2)
            if not p:
                continue
            d = tuple(sorted(cm.items()))
            if reduce:
                d, p = self.reduce_one(d, p)
            q = acc.get(d)
            q = self.padd(q, p) if q is not None else p
            if q:
                acc[d] = q
            else:
                acc.pop(d, None)
        if not acc:
            return {}, ()
        (d, p), = acc.items()
        return p, d

    def poly_expr(self, p):
        """back to an Expr (for sign queries)"""
        ts = []
        for m, c in p.items():
            t = E.const(Fraction(c))
            for i, e in self.unpack(m):
                t = E.mul(t, E.ipow(self.gens[i].expr, Fraction(e, SCALE)))
            ts.append(t)
        return E.addn(ts)

    def poly_pos(self, p):
        """sign of polynomial known? 1, -1 or None"""
        if all(c > 0 for c in p.values()) and all(self.gens[i].pos or e % (2 * SCALE) == 0 for m in p for i, e in self.unpack(m)):
            return 1
        if all(c < 0 for c in p.values()) and all(self.gens[i].pos or e % (2 * SCALE) == 0 for m in p for i, e in self.unpack(m)):
            return -1
        if len(p) > 60:
            return None
        return self.known_sign(self.poly_expr(p))

    def factor_sign(self, f):
        s = self.fsign[f]
        if s is None:
            s = self.poly_pos(self.factors[f]) or 0
            self.fsign[f] = s
        return s

    def finv(self, fr):
        num, d = self.combine(fr)
        if not num:
            raise ZeroDivisionError("inverse of a term that is identically zero")
        c, m, q = self.content(num)
        np_ = {-m: self._q(1, c)}
        for f, e in d:
            np_ = self.pmul(np_, self.ppow(self.factors[f], e))
        if len(q) == 1:
            return {(): np_}
        ids = self.factor_ids(q)
        return {tuple(sorted(ids)): np_}

    def fpow(self, fr, n):
        if n < 0:
            fr = self.finv(fr)
            n = -n
        if len(fr) == 1:
            (d, p), = fr.items()
            return {tuple((f, e * n) for f, e in d): self.ppow(p, n)}
        r = {(): {0: 1}}
        for _ in range(n):
            r = self.fmul(r, fr)
        return r

    # ---- positive constant to a rational power
    def const_pow(self, c, p):
        """positive rational c ** p as poly"""
        c = Fraction(c)
        coef = Fraction(1)
        m = 0
        for prime, mult in E._factor(c):
            q = Fraction(p) * mult
            fl = q.numerator // q.denominator
            coef *= Fraction(prime) ** fl
            if q - fl:
                g = self.gen("prime", prime, E.const(prime), pos=True)
                m += self.mono(g, q - fl)
        return {m: int(coef) if coef.denominator == 1 else coef}

    def froot(self, fr, p):
        """fr ** p, p non-integer rational"""
        num, d = self.combine(fr)
        if not num:
            return {}
        c, m, q = self.content(num)
        out = {(): {0: 1}}
        # sign bookkeeping: everything not known positive stays in `opaque`
        sgn = 1
        if c < 0:
            sgn, c = -1, -c
        parts = []   # (poly primitive factor, exponent)
        if len(q) > 1:
            ids = self.factor_ids(q)
            # factor_ids guarantees product equals q (leading coef 1 each)
            parts += [(f, e) for f, e in ids]
        parts += [(f, -e) for f, e in d]
        opaque_m = 0
        opaque_f = []
        mm = 0
        for i, e in self.unpack(m):
            g = self.gens[i]
            if g.pos:
                e2 = Fraction(e) * p
                if e2.denominator != 1:
                    raise E.NotEncodable("root exponent")
                mm += int(e2) << (BITS * i) if e2 > 0 else -(int(-e2) << (BITS * i))
            else:
                s = self.known_sign(g.expr)
                if s == 1:
                    g.pos = True
                    e2 = Fraction(e) * p
                    mm += int(e2) << (BITS * i) if e2 > 0 else -(int(-e2) << (BITS * i))
                elif s == -1 and e % SCALE == 0 and (e // SCALE) % 2 == 0 and (Fraction(e) * p / SCALE).denominator == 1:
                    e2 = int(Fraction(e) * p)
                    sg = -1 if (e2 // SCALE) % 2 else 1
                    out = self.fmul(out, {(): {0: sg}})
                    mm += e2 << (BITS * i) if e2 > 0 else -(-e2 << (BITS * i))
                else:
                    opaque_m += e << (BITS * i) if e > 0 else -((-e) << (BITS * i))
        out = self.fmul(out, {(): self.const_pow(c, p)})
        out = self.fmul(out, {(): {mm: 1}})
        known = []
        for f, e in parts:
            s = self.factor_sign(f)
            if s == 1:
                known.append((f, e))
            elif s == -1:
                # use -f
                known.append((-f - 1, e))
                if e % 2:
                    sgn = -sgn
            elif (Fraction(e) * p).denominator == 1 and e % 2 == 0 and p.denominator == 2 and (Fraction(e) * p) % 2 == 0:
                known.append((f, e))
            else:
                opaque_f.append((f, e))
        for f, e in known:
            neg = f < 0
            fi = -f - 1 if neg else f
            q = Fraction(e) * p
            fl = q.numerator // q.denominator
            frc = q - fl
            base = self.factors[fi]
            sg = (-1 if neg and fl % 2 else 1)
            if fl > 0:
                out = self.fmul(out, {(): self.ppow(base, fl)})
            elif fl < 0:
                out = self.fmul(out, {((fi, -fl),): {0: 1}})
            if sg != 1:
                out = self.fmul(out, {(): {0: -1}})
            if frc:
                b = {k: -v for k, v in base.items()} if neg else base
                g = self.gen("root", (fi, neg), None, pos=True, base=b)
                if g.expr is None:
                    g.expr = self.poly_expr(b)
                out = self.fmul(out, {(): {self.mono(g, frc): 1}})
        if opaque_m or opaque_f or sgn < 0:
            # opaque base polynomial: monomial * factors (odd den exponents moved up by squaring)
            n2 = {0: sgn}
            up = 0
            dn = []
            for i, e in self.unpack(opaque_m):
                if e < 0:
                    k = -(-e // SCALE)
                    ee = 2 * (-e) if p.denominator == 2 else None
                    if ee is None:
                        raise E.NotEncodable("opaque odd root with denominators")
                    dn.append(("m", i, -e))
                    n2 = self.pmul(n2, {(-e) << (BITS * i): 1})
                else:
                    n2 = self.pmul(n2, {e << (BITS * i): 1})
            for f, e in opaque_f:
                n2 = self.pmul(n2, self.ppow(self.factors[f], abs(e)))
                if e < 0:
                    if p.denominator != 2:
                        raise E.NotEncodable("opaque odd root with denominators")
                    dn.append(("f", f, -e))
            if dn:
                raise E.NotEncodable("root of a quotient of unknown sign")
            fl = p.numerator // p.denominator
            frc = p - fl
            key = frozenset(n2.items())
            pe = self.poly_expr(n2)
            # the value itself is assumed nonnegative (real code takes its root)
            g = self.gen("oroot", key, pe, pos=True, base=n2)
            out = self.fmul(out, {(): {self.mono(g, frc): 1}})
            if fl > 0:
                out = self.fmul(out, {(): self.ppow(n2, fl)})
            elif fl < 0:
                out = self.fmul(out, self.fpow({(): n2}, fl))
        return out

    # ---- main recursion
    def norm(self, e):
        memo = self.memo
        if e.id in memo:
            return memo[e.id]
        for n in E.topo([e]):
            if n.id in memo:
                continue
            memo[n.id] = self._norm1(n)
        return memo[e.id]

    def _norm1(self, n):
        op = n.op
        if op == "C":
            if n.c == 0:
                return {}
            return {(): {0: int(n.c) if n.c.denominator == 1 else n.c}}
        if op == "V":
            if n.name == "NAN":
                raise E.NotEncodable("NaN in a claim")
            if n.name in ("+INF", "-INF"):
                raise E.NotEncodable("infinity in a claim")
            pos = E.is_pos(n)
            g = self.gen("var", n.name, n, pos=pos, name=n.name)
            return {(): {self.mono(g, 1): 1}}
        if op == "A":
            r = {}
            if n.c:
                r = {(): {0: int(n.c) if n.c.denominator == 1 else n.c}}
            for a, k in zip(n.args, n.exps):
                if k.denominator == 1:
                    k = int(k)
                r = self.fadd(r, self.memo[a.id], k)
            return r
        if op == "M":
            r = {(): {0: 1}}
            for a, p in zip(n.args, n.exps):
                f = self.memo[a.id]
                if p.denominator == 1:
                    f = self.fpow(f, int(p)) if p != 1 else f
                else:
                    f = self.froot(f, p)
                r = self.fmul(r, f)
            return r
        return self._fnorm(n)

    def _argkey(self, num, d):
        return (frozenset(num.items()), d)

    def _exp(self, fr):
        num, d = self.combine(fr)
        out = {(): {0: 1}}
        dk = d
        if len(d) > 1 or (d and d[0][1] != 1):
            # the same denominator may be known under several factorisations
            q = {0: 1}
            for f, e in d:
                for _ in range(e):
                    q = self.pmul(q, self.factors[f]) if len(q) <= 400 else None
                    if q is None:
                        break
                if q is None:
                    break
            dk = d if q is None else frozenset(q.items())
        elif d:
            dk = frozenset(self.factors[d[0][0]].items())
        for m, c in num.items():
            if d == ():
                u = self.unpack(m)
                # exp(c*log(x)) = x**c
                if len(u) == 1 and u[0][1] == SCALE and self.gens[u[0][0]].kind == "log":
                    g = self.gens[u[0][0]]
                    base = g.base   # fraction
                    c = Fraction(c)
                    out = self.fmul(out, self.fpow(base, int(c)) if c.denominator == 1 else self.froot(base, c))
                    continue
            c = Fraction(c)
            s = 1
            if (c * SCALE).denominator != 1:
                s = Fraction(1, c.denominator)
                c = c / s
            key = (m, dk, s)
            if ("exp", key) not in self.gkey:
                ex = self.poly_expr({m: s})
                for f, e in d:
                    ex = ex * E.ipow(self.poly_expr(self.factors[f]), -e)
                self.gen("exp", key, E.fn("exp", ex), pos=True)
            g = self.gkey[("exp", key)]
            out = self.fmul(out, {(): {self.mono(g, c): 1}})
        return out

    def _log(self, fr):
        """log of a fraction, splitting what is known positive"""
        num, d = self.combine(fr)
        if not num:
            raise E.NotEncodable("log of zero")
        c, m, q = self.content(num)
        out = {}
        rest_m = 0
        rest_f = []
        sgn = 1
        if c < 0:
            sgn, c = -1, -c
        if c != 1:
            for prime, mult in E._factor(Fraction(c)):
                out = self.fadd(out, {(): {self.mono(self._logatom({(): {0: prime}}), 1): mult}})
        for i, e in self.unpack(m):
            g = self.gens[i]
            pos = g.pos
            if not pos and self.known_sign(g.expr) == 1:
                pos = g.pos = True
            if pos:
                k = Fraction(e, SCALE)
                k = int(k) if k.denominator == 1 else k
                if g.kind == "exp":
                    mm, dd, s = g.key
                    out = self.fadd(out, {dd: {mm: s}}, k)
                elif g.kind in ("root", "oroot"):
                    out = self.fadd(out, self._log({(): g.base}), k)
                else:
                    out = self.fadd(out, {(): {self.mono(self._logatom({(): {self.mono(g, 1): 1}}), 1): 1}}, k)
            else:
                rest_m += e << (BITS * i) if e > 0 else -((-e) << (BITS * i))
        fs = []
        if len(q) > 1:
            fs += self.factor_ids(q)
        fs += [(f, -e) for f, e in d]
        for f, e in fs:
            s = self.factor_sign(f)
            if not s and f in self.logpos:
                s = 1       # its own logarithm was taken: positive wherever the computation is defined
            if s == 1 or (s == -1):
                b = self.factors[f] if s == 1 else {k: -v for k, v in self.factors[f].items()}
                if s == -1 and e % 2:
                    sgn = -sgn
                out = self.fadd(out, {(): {self.mono(self._logatom({(): b}), 1): 1}}, e)
            else:
                rest_f.append((f, e))
        if rest_m or rest_f or sgn < 0:
            if not rest_m and len(rest_f) == 1 and sgn > 0:
                f, e = rest_f[0]
                # argument positive => factor**e positive; for odd e factor positive
                if e % 2:
                    self.logpos.add(f)
                out = self.fadd(out, {(): {self.mono(self._logatom({(): self.factors[f]}), 1): 1}}, e)
            elif not rest_f and sgn > 0 and len(self.unpack(rest_m)) == 1:
                (i, e), = self.unpack(rest_m)
                k = Fraction(e, SCALE)
                out = self.fadd(out, {(): {self.mono(self._logatom({(): {SCALE << (BITS * i): 1}}), 1): 1}},
                                int(k) if k.denominator == 1 else k)
            else:
                pn = {rest_m: sgn}
                dd = []
                for f, e in rest_f:
                    if e > 0:
                        pn = self.pmul(pn, self.ppow(self.factors[f], e))
                    else:
                        dd.append((f, -e))
                out = self.fadd(out, {(): {self.mono(self._logatom({tuple(sorted(dd)): pn}), 1): 1}})
        return out

    def _logatom(self, fr):
        num, d = self.combine(fr)
        key = self._argkey(num, d)
        g = self.gkey.get(("log", key))
        if g is None:
            ex = self.poly_expr(num)
            for f, e in d:
                ex = ex * E.ipow(self.poly_expr(self.factors[f]), -e)
            g = self.gen("log", key, E._mk("F", name="log", args=(ex,)), base=fr,
                         pos=(len(num) == 1 and d == () and 0 in num and num[0] > 1))
        return g

    def _atom(self, name, fracs, extra=(), pos=False):
        args = [self.combine(f) for f in fracs]
        key = (name, extra) + tuple(self._argkey(n, d) for n, d in args)
        g = self.gkey.get(("fn", key))
        if g is not None:
            return g
        fp = tuple(self._fp(n, d) for n, d in args)
        for oargs, ofp, og, oex in self.atoms.get(name, []):
            if ofp == fp and oex == extra:
                self.gkey[("fn", key)] = og
                return og
        exs = []
        for n, d in args:
            ex = self.poly_expr(n)
            for f, e in d:
                ex = ex * E.ipow(self.poly_expr(self.factors[f]), -e)
            exs.append(ex)
        g = self.gen("fn", key, E._mk("F", name=name, args=tuple(E.lift(x) for x in extra) + tuple(exs)), pos=pos, name=name)
        self.atoms.setdefault(name, []).append((args, fp, g, extra))
        return g

    def _fp(self, n, d):
        v = self.peval(n)
        for f, e in d:
            v = v * pow(self.peval(self.factors[f]), (P - 1 - e), P) % P
        return v

    def _fnorm(self, n):
        name = n.name
        fr = [self.memo[a.id] for a in n.args]
        if name == "exp":
            return self._exp(fr[0])
        if name == "log":
            return self._log(fr[0])
        if name in ("ndtr", "sin", "cos", "arcsin", "arctan", "ndtri"):
            num, d = self.combine(fr[0])
            if not num:
                v = {"ndtr": Fraction(1, 2), "sin": 0, "cos": 1, "arcsin": 0, "arctan": 0}.get(name)
                return {(): {0: v}} if v else {}
            lead = num[max(num)]
            flip = lead < 0
            arg = {d: {m: -c for m, c in num.items()} if flip else num}
            if name == "ndtr" and d == () and len(num) == 1:
                g0 = self._is_atom(num, "ndtri")
                if g0 is not None:
                    return g0
            if name == "ndtri":
                # ndtri(1-p) = -ndtri(p): canonicalise on sign of p's leading coefficient
                if flip:
                    arg1 = self.fadd({(): {0: 1}}, fr[0], -1)
                    g = self._atom("ndtri", [arg1])
                    return {(): {self.mono(g, 1): -1}}
                g = self._atom("ndtri", [fr[0]])
                return {(): {self.mono(g, 1): 1}}
            g = self._atom(name, [arg], pos=(name == "ndtr"))
            r = {(): {self.mono(g, 1): 1}}
            if name == "sin":
                # sin^2 = 1 - cos^2 is imposed in relations
                pass
            if flip:
                if name == "ndtr":
                    return self.fadd({(): {0: 1}}, r, -1)
                if name != "cos":
                    return {k: {m: -c for m, c in p.items()} for k, p in r.items()}
            return r
        if name in ("gammaln", "polygamma"):
            a = fr[-1]
            num, d = self.combine(a)
            c0 = Fraction(num.get(0, 0)) if d == () else Fraction(0)
            k = 0
            if d == ():
                # constant part into (0, 1]
                k = -((-c0.numerator) // c0.denominator) - 1
            base = self.fadd(a, {(): {0: -k}}) if k else a
            order = None
            if name == "polygamma":
                o = self.combine(fr[0])[0]
                if o and list(o) != [0]:
                    raise E.NotEncodable("polygamma of symbolic order")
                order = int(o.get(0, 0))
            if not base:
                raise E.NotEncodable("gamma pole")
            g = self._atom(name, [base], extra=() if order is None else (order,))
            r = {(): {self.mono(g, 1): 1}}
            if abs(k) > 60:
                raise E.NotEncodable("gamma shift too large")
            # f(base + k)
            rng = range(0, k) if k > 0 else range(k, 0)
            s = 1 if k > 0 else -1
            for i in rng:
                x = self.fadd(base, {(): {0: i}}) if i else base
                if name == "gammaln":
                    r = self.fadd(r, self._log(x), s)
                else:
                    co = (-1) ** order * math.factorial(order)
                    r = self.fadd(r, self.fpow(x, -(order + 1)), s * co)
            return r
        g = self._atom(name, fr, pos=False)
        return {(): {self.mono(g, 1): 1}}

    def _is_atom(self, num, name):
        (m, c), = num.items()
        u = self.unpack(m)
        if c == 1 and len(u) == 1 and u[0][1] == SCALE:
            g = self.gens[u[0][0]]
            if g.kind == "fn" and g.name == name:
                args = [a for a in self.atoms[name] if a[2] is g][0][0]
                n, d = args[0]
                return {d: n}
        return None

    # ---- final zero test
    def residual(self, e):
        """numerator polynomial (nonnegative exponents) of e with root relations applied"""
        num, d = self.combine(self.norm(e), reduce=True)
        return self.clean(num)

    def clean(self, num):
        for _ in range(50):
            if not num:
                return {}
            c, m, num = self.content(num)
            num, changed = self._subst_relations(num)
            if not changed:
                break
        return num

    def _subst_relations(self, num):
        changed = False
        # roots: latest first
        used = set()
        for m in num:
            used.update(i for i, e in self.unpack(m))
        for i in sorted(used, reverse=True):
            g = self.gens[i]
            if g.kind in ("root", "oroot"):
                if any(dict(self.unpack(m)).get(i, 0) >= SCALE for m in num):
                    r = {}
                    for m, c in num.items():
                        e = dict(self.unpack(m)).get(i, 0)
                        k = e // SCALE
                        if k > 0:
                            t = self.pmul({m - ((k * SCALE) << (BITS * i)): c}, self.ppow(g.base, k))
                        else:
                            t = {m: c}
                        r = self.padd(r, t)
                    num = r
                    changed = True
            elif g.kind == "prime":
                if any(dict(self.unpack(m)).get(i, 0) >= SCALE for m in num):
                    r = {}
                    for m, c in num.items():
                        e = dict(self.unpack(m)).get(i, 0)
                        k = e // SCALE
                        t = {m - ((k * SCALE) << (BITS * i)): c * g.key ** k} if k else {m: c}
                        r = self.padd(r, t)
                    num = r
                    changed = True
            elif g.kind == "fn" and g.name == "sin":
                # reduce sin^2 -> 1 - cos^2
                if any(dict(self.unpack(m)).get(i, 0) >= 2 * SCALE for m in num):
                    a = g.expr.args[0]
                    cosf = self.norm(E.fn("cos", a))
                    c2 = self.fmul(cosf, cosf)
                    rep = self.fadd({(): {0: 1}}, c2, -1)
                    (dd, rp), = rep.items()
                    r = {}
                    for m, c in num.items():
                        e = dict(self.unpack(m)).get(i, 0)
                        k = e // (2 * SCALE)
                        t = self.pmul({m - ((2 * k * SCALE) << (BITS * i)): c}, self.ppow(rp, k)) if k else {m: c}
                        r = self.padd(r, t)
                    num = r
                    changed = True
        return num, changed

    def simplify(self, e):
        """re-expressed combined normal form (used by stubs, e.g. Cholesky pivots)"""
        num, d = self.combine(self.norm(e))
        if not num:
            return E.ZERO
        c, m, q = self.content(num)
        r = self.poly_expr({m: c})
        if len(q) > 1:
            for f, k in self.factor_ids(q):
                r = r * E.ipow(self.poly_expr(self.factors[f]), k)
        for f, k in d:
            r = r * E.ipow(self.poly_expr(self.factors[f]), -k)
        return r
