"""Polynomial normal form of z3 real terms (atoms: variables, UF values, ite ...).

Quotients become products with inverse atoms, squares of square-root atoms are
replaced by their arguments, so that algebraically equal expressions get the same
normal form and the solver is only asked about real differences."""
from fractions import Fraction
import z3


class TooBig(Exception):
    pass


LIMIT = 600
ONE = ()


class Canon:
    """one per path (atoms refer to the path's auxiliary variables)"""

    def __init__(self, eng):
        self.e = eng
        self.memo = {}
        self.atoms = {}      # id -> z3 expr (keeps ids alive)
        self.inv_of = {}     # atom id of 1/x -> atom id of x
        self.den_of = {}     # atom id of 1/(sum) -> the sum
        self.inv = {}        # key of denominator -> atom id
        self.sqarg = {}      # atom id of sqrt -> polynomial argument
        self.sqrts = {}      # key -> z3 var

    # -- building
    def atom(self, t):
        k = t.get_id()
        self.atoms[k] = t
        return {((k, 1),): Fraction(1)}

    def add(self, p, q, c=1):
        r = dict(p)
        for m, v in q.items():
            s = r.get(m, 0) + c * v
            if s == 0:
                r.pop(m, None)
            else:
                r[m] = s
        if len(r) > LIMIT:
            raise TooBig()
        return r

    def scale(self, p, c):
        return {m: v * c for m, v in p.items()} if c != 0 else {}

    def mul(self, p, q):
        if len(p) * len(q) > 4 * LIMIT:
            raise TooBig()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                for m, c in self.mono(m1, m2).items():
                    s = r.get(m, 0) + c * c1 * c2
                    if s == 0:
                        r.pop(m, None)
                    else:
                        r[m] = s
        if len(r) > LIMIT:
            raise TooBig()
        return r

    def mono(self, m1, m2):
        """product of two monomials, reduced"""
        d = dict(m1)
        for a, k in m2:
            d[a] = d.get(a, 0) + k
        # x * (1/x)
        for a in list(d):
            b = self.inv_of.get(a)
            if b is not None and b in d and d.get(a, 0) > 0 and d[b] > 0:
                k = min(d[a], d[b])
                for z in (a, b):
                    d[z] -= k
                    if not d[z]:
                        del d[z]
        extra = None
        for a in list(d):
            if a in self.sqarg and d[a] >= 2:
                k = d[a] // 2
                d[a] -= 2 * k
                if not d[a]:
                    del d[a]
                for _ in range(k):
                    extra = self.mul(extra, self.sqarg[a]) if extra is not None else dict(self.sqarg[a])
            elif a in self.inv_of and self.inv_of[a] in self.sqarg and d.get(a, 0) >= 2:
                k = d[a] // 2
                d[a] -= 2 * k
                if not d[a]:
                    del d[a]
                iv = self.inverse(self.sqarg[self.inv_of[a]])
                for _ in range(k):
                    extra = self.mul(extra, iv) if extra is not None else dict(iv)
        base = {tuple(sorted(d.items())): Fraction(1)}
        return base if extra is None else self.mul(base, extra)

    def key(self, p):
        def rd(c):
            f = float(c)
            return float("%.11g" % f)
        return tuple(sorted((m, rd(c)) for m, c in p.items()))

    def clean(self, p, eps=1e-11):
        return {m: c for m, c in p.items() if m == ONE or abs(c) > eps}

    def const(self, p):
        if not p:
            return Fraction(0)
        if len(p) == 1 and ONE in p:
            return p[ONE]
        return None

    def inverse(self, p):
        """polynomial of 1/p (p known to be non zero on this path)"""
        if len(p) == 1:
            (m, c), = p.items()
            r = {ONE: 1 / c}
            for a, k in m:
                ia = self._inv_atom(a)
                for _ in range(k):
                    r = self.mul(r, ia)
            return r
        lead = min(p)
        c = p[lead]
        n = self.scale(p, 1 / c)
        k = self.key(n)
        if k not in self.inv:
            v = self.e.fresh("inv")
            t = self.term(n)
            self.inv[k] = v
            self.atoms[v.get_id()] = v
            self.den_of[v.get_id()] = n
            self.e.define(v * t == 1)
            self.e.define(z3.Implies(t > 0, v > 0))
            self.e.define(z3.Implies(t < 0, v < 0))
        return self.scale(self.atom(self.inv[k]), 1 / c)

    def vanishes(self, p, eps=1e-10):
        """p times its (non zero) denominators is the null polynomial"""
        try:
            for _ in range(4):
                vs = {a for m in p for a, k in m if a in self.den_of}
                if not vs:
                    break
                for v in vs:
                    n = self.den_of[v]
                    deg = max((k for m in p for a, k in m if a == v), default=0)
                    pw = [{ONE: Fraction(1)}]
                    for _ in range(deg):
                        pw.append(self.mul(pw[-1], n))
                    r = {}
                    for m, c in p.items():
                        k = dict(m).get(v, 0)
                        r = self.add(r, self.mul({tuple(x for x in m if x[0] != v): c}, pw[deg - k]))
                    p = self.clean(r, eps)
        except TooBig:
            return False
        return not p or (len(p) == 1 and ONE in p and abs(p[ONE]) <= eps)

    def _inv_atom(self, a):
        if a in self.inv_of:                 # 1/(1/x)
            return {((self.inv_of[a], 1),): Fraction(1)}
        k = ("a", a)
        if k not in self.inv:
            v = self.e.fresh("inv")
            self.inv[k] = v
            self.atoms[v.get_id()] = v
            self.inv_of[v.get_id()] = a
            t = self.atoms[a]
            self.e.define(v * t == 1)
            self.e.define(z3.Implies(t > 0, v > 0))
            self.e.define(z3.Implies(t < 0, v < 0))
        return self.atom(self.inv[k])

    def poly(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = (self._poly(t), t)
            self.memo[k] = r
        return r[0]

    def _poly(self, t):
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return {ONE: f} if f else {}
        if z3.is_int_value(t):
            f = Fraction(t.as_long())
            return {ONE: f} if f else {}
        if z3.is_app(t):
            kd = t.decl().kind()
            if kd == z3.Z3_OP_ADD:
                r = {}
                for c in t.children():
                    r = self.add(r, self.poly(c))
                return r
            if kd == z3.Z3_OP_SUB:
                cs = t.children()
                r = self.poly(cs[0])
                for c in cs[1:]:
                    r = self.add(r, self.poly(c), -1)
                return r
            if kd == z3.Z3_OP_UMINUS:
                return self.scale(self.poly(t.arg(0)), Fraction(-1))
            if kd == z3.Z3_OP_MUL:
                r = {ONE: Fraction(1)}
                for c in t.children():
                    r = self.mul(r, self.poly(c))
                return r
            if kd == z3.Z3_OP_DIV:
                a, b = self.poly(t.arg(0)), self.poly(t.arg(1))
                c = self.const(b)
                if c is not None and c != 0:
                    return self.scale(a, 1 / c)
                if c is None:
                    return self.atom(t)
            if kd == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)) or kd == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
                e = t.arg(1)
                e = e.as_long() if z3.is_int_value(e) else Fraction(e.numerator_as_long(), e.denominator_as_long())
                if e == int(e) and 0 <= e <= 8:
                    r = {ONE: Fraction(1)}
                    b = self.poly(t.arg(0))
                    for _ in range(int(e)):
                        r = self.mul(r, b)
                    return r
        return self.atom(t)

    def term(self, p):
        out = []
        for m in sorted(p):
            c = p[m]
            f = [self.atoms[a] if not z3.is_int(self.atoms[a]) else z3.ToReal(self.atoms[a]) for a, k in m for _ in range(k)]
            cc = z3.RealVal("%d/%d" % (c.numerator, c.denominator))
            if not f:
                out.append(cc)
            else:
                x = f[0]
                for y in f[1:]:
                    x = x * y
                out.append(x if c == 1 else cc * x)
        if not out:
            return z3.RealVal(0)
        return z3.Sum(*out) if len(out) > 1 else out[0]

    def sqrt(self, p, mkvar):
        k = self.key(p)
        if k not in self.sqrts:
            v = mkvar(self.term(p))
            self.sqrts[k] = v
            self.atoms[v.get_id()] = v
            self.sqarg[v.get_id()] = p
        return self.sqrts[k]
