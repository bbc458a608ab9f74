"""Symbolic values and the path-exploring engine.

SymNum wraps a z3 Int/Real term, SymBool a z3 Bool term.  The real code of
otpod runs on these values; a branch on a SymBool asks the solver which sides
are feasible and forks (depth first, by re-execution with a decision trail).
"""
import sys
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import math
import operator
import time
from fractions import Fraction
import numpy as _np
import z3
from . import poly

z3.set_param("verbose", 0)


class Control(BaseException):
    """engine control flow; never caught by code under test"""


class PathInfeasible(Control):
    pass


class PathBudget(Control):
    pass


class SolverUnknown(Control):
    pass


class Unsupported(Control):
    """the symbolic model does not cover this operation"""


E = None      # current engine


def engine():
    if E is None:
        raise RuntimeError("no engine active")
    return E


# ---------------------------------------------------------------- z3 helpers
def frac_to_z3(fr):
    return z3.RealVal(str(fr.numerator) + "/" + str(fr.denominator)
                      if fr.denominator != 1 else str(fr.numerator))


_const_cache = {}


def const(x):
    """python number -> z3 numeral"""
    if isinstance(x, bool) or isinstance(x, _np.bool_):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, (int, _np.integer)):
        k = ("i", int(x))
        if k not in _const_cache:
            _const_cache[k] = z3.IntVal(int(x))
        return _const_cache[k]
    if isinstance(x, Fraction):
        return frac_to_z3(x)
    x = float(x)
    k = ("f", x)
    if k not in _const_cache:
        if not math.isfinite(x):
            raise Unsupported("non finite constant")
        _const_cache[k] = frac_to_z3(Fraction(x))
    return _const_cache[k]


def z3num(t):
    """numeric z3 term -> Fraction if it is a numeral"""
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_algebraic_value(t):
        a = t.approx(40)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


NUMERIC = (int, float, bool, Fraction, _np.integer, _np.floating, _np.bool_)


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def is_number(x):
    return isinstance(x, NUMERIC) or is_sym(x)


def nonfinite(x):
    return isinstance(x, (float, _np.floating)) and not math.isfinite(x)


def term(x):
    if isinstance(x, SymNum):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.b, z3.IntVal(1), z3.IntVal(0))
    return const(x)


def rterm(x):
    t = term(x)
    if z3.is_int(t):
        v = z3num(t)
        if v is not None:
            return frac_to_z3(v)
        return z3.ToReal(t)
    return t


def _pair(a, b):
    a, b = term(a), term(b)
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    return rterm(SymNum(a)) if z3.is_int(a) else a, rterm(SymNum(b)) if z3.is_int(b) else b


def simp(t):
    return z3.simplify(t)


def mk(t):
    """term -> SymNum, folding numerals back to python numbers"""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        fl = float(f)
        if Fraction(fl) == f:
            return fl
        return SymNum(t)
    return SymNum(t)


def mkb(b):
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SymBool(b)


def bterm(x):
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, SymNum):
        return (x != 0).b if isinstance(x != 0, SymBool) else z3.BoolVal(bool(x != 0))
    return z3.BoolVal(bool(x))


def s_and(*xs):
    xs = [bterm(x) for x in xs]
    return mkb(simp(z3.And(*xs))) if xs else True


def s_or(*xs):
    xs = [bterm(x) for x in xs]
    return mkb(simp(z3.Or(*xs))) if xs else False


def s_not(x):
    return mkb(simp(z3.Not(bterm(x))))


def s_ite(c, a, b):
    if not is_sym(c):
        return a if c else b
    if isinstance(a, SymBool) or isinstance(b, SymBool) or isinstance(a, bool):
        return mkb(simp(z3.If(bterm(c), bterm(a), bterm(b))))
    if nonfinite(a) or nonfinite(b):
        return a if bool(c) else b
    x, y = _pair(a, b)
    return mk(simp(z3.If(bterm(c), x, y)))


def s_max(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if a >= b else b
    if nonfinite(a) or nonfinite(b):
        return a if bool(a >= b) else b
    return s_ite(a >= b, a, b)


def s_min(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if a <= b else b
    if nonfinite(a) or nonfinite(b):
        return a if bool(a <= b) else b
    return s_ite(a <= b, a, b)


# ---------------------------------------------------------------- SymBool
class SymBool:
    __slots__ = ("b",)
    __array_priority__ = 1000.0

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return engine().branch(self.b)

    def __invert__(self):
        return s_not(self)

    def __and__(self, o):
        if _arr(o):
            return NotImplemented
        return s_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if _arr(o):
            return NotImplemented
        return s_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        if _arr(o):
            return NotImplemented
        return mkb(simp(z3.Xor(self.b, bterm(o))))

    __rxor__ = __xor__

    def _n(self):
        return SymNum(term(self))

    def __add__(self, o): return self._n() + o
    def __radd__(self, o): return o + self._n()
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    def __rmul__(self, o): return o * self._n()
    def __truediv__(self, o): return self._n() / o
    def __rtruediv__(self, o): return o / self._n()
    def __neg__(self): return -self._n()
    def __pow__(self, o): return self._n() ** o
    def __lt__(self, o): return self._n() < o
    def __le__(self, o): return self._n() <= o
    def __gt__(self, o): return self._n() > o
    def __ge__(self, o): return self._n() >= o

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return mkb(simp(self.b == bterm(o))) if isinstance(o, (bool, SymBool, _np.bool_)) else self._n() == o

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __hash__(self):
        return hash(self.b)

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def __repr__(self):
        return engine().token(self) if E is not None else "<symbool>"

    def __format__(self, spec):
        return format(bool(self), spec)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import snp
        return snp.ufunc_dispatch(ufunc, method, inputs, kw)


def _arr(o):
    return isinstance(o, _np.ndarray) and o.ndim > 0 or hasattr(o, "_sym_container")


# ---------------------------------------------------------------- SymNum
def _binop(fn, nf):
    """fn(z3,z3)->z3, nf(float-semantics) when one side is non finite"""
    def op(self, o):
        if _arr(o) or not is_number(o):
            if isinstance(o, _np.ndarray) and o.ndim == 0:
                o = o.item()
                if not is_number(o):
                    return NotImplemented
            else:
                return NotImplemented
        if nonfinite(o):
            return nf(self, float(o))
        a, b = _pair(self, o)
        return mk(simp(fn(a, b)))

    def rop(self, o):
        if _arr(o) or not is_number(o):
            if isinstance(o, _np.ndarray) and o.ndim == 0:
                o = o.item()
                if not is_number(o):
                    return NotImplemented
            else:
                return NotImplemented
        if nonfinite(o):
            return nf(float(o), self)
        a, b = _pair(o, self)
        return mk(simp(fn(a, b)))
    return op, rop


def _nf_add(a, b):
    return a if isinstance(a, float) else b


def _nf_sub(a, b):
    return a if isinstance(a, float) else -b


def _sgn(x):
    if isinstance(x, float):
        return 0 if x == 0 else (1 if x > 0 else -1)
    if bool(x > 0):
        return 1
    return -1 if bool(x < 0) else 0


def _nf_mul(a, b):
    inf, s = (a, b) if isinstance(a, float) else (b, a)
    if math.isnan(inf):
        return inf
    k = _sgn(s)
    return float("nan") if k == 0 else inf * k


def _cmp(fn, nf):
    def op(self, o):
        if o is None or isinstance(o, str):
            if nf in ("eq", "ne"):
                return nf == "ne"
            return NotImplemented
        if _arr(o) or not is_number(o):
            if isinstance(o, _np.ndarray) and o.ndim == 0:
                return op(self, o.item())
            if nf in ("eq", "ne") and not _arr(o):
                return nf == "ne"
            return NotImplemented
        if nonfinite(o):
            o = float(o)
            if math.isnan(o):
                return nf == "ne"
            pos = o > 0
            return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos, "eq": False, "ne": True}[nf]
        a, b = _pair(self, o)
        a, b = _unroot(a, b)
        return mkb(simp(fn(a, b)))
    return op


def _unroot(a, b):
    """square roots are compared through their arguments: sqrt(x) < sqrt(y) <=> x < y, sqrt(x) < c <=> x < c^2 (c >= 0)"""
    c = engine().canon
    ia, ib = a.get_id() in c.sqarg, b.get_id() in c.sqarg
    if not (ia or ib) or a.get_id() == b.get_id():
        return a, b

    def sq(t, i):
        if i:
            return c.term(c.sqarg[t.get_id()])
        if z3.is_rational_value(t) and t.numerator_as_long() >= 0:
            return z3.simplify(t * t)
        return None
    x, y = sq(a, ia), sq(b, ib)
    return (a, b) if x is None or y is None else (x, y)


class SymNum:
    __slots__ = ("t",)
    __array_priority__ = 1000.0

    def __init__(self, t):
        self.t = t

    # arithmetic
    __add__, __radd__ = _binop(operator.add, _nf_add)
    __sub__, __rsub__ = _binop(operator.sub, _nf_sub)
    __mul__, __rmul__ = _binop(operator.mul, _nf_mul)

    def __truediv__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim == 0:
            o = o.item()
        if _arr(o) or not is_number(o):
            return NotImplemented
        return s_div(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim == 0:
            o = o.item()
        if _arr(o) or not is_number(o):
            return NotImplemented
        return s_div(o, self)

    def __floordiv__(self, o):
        return s_floor(s_div(self, o))

    def __rfloordiv__(self, o):
        return s_floor(s_div(o, self))

    def __mod__(self, o):
        if not is_number(o):
            return NotImplemented
        a, b = _pair(self, o)
        if z3.is_int(a):
            if not is_sym(o) and o > 0:
                return mk(simp(a % b))
            if bool(SymNum(b) == 0):
                raise ZeroDivisionError("integer modulo by zero")
            # python sign convention follows the divisor
            if bool(SymNum(b) > 0):
                return mk(simp(a % b))
            return mk(simp(-((-a) % (-b))))
        return self - o * s_floor(s_div(self, o))

    def __rmod__(self, o):
        return SymNum(const(o)) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return mk(simp(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        if z3.is_int(self.t):
            return s_ite(self >= 0, self, -self)
        return engine().abs_of(self.t)

    def __pow__(self, o, mod=None):
        return s_pow(self, o)

    def __rpow__(self, o):
        return s_pow(o, self)

    # comparisons
    __lt__ = _cmp(operator.lt, "lt")
    __le__ = _cmp(operator.le, "le")
    __gt__ = _cmp(operator.gt, "gt")
    __ge__ = _cmp(operator.ge, "ge")
    __eq__ = _cmp(operator.eq, "eq")
    __ne__ = _cmp(lambda a, b: a != b, "ne")

    def __hash__(self):
        return self.t.hash()

    def __bool__(self):
        r = self != 0
        return bool(r)

    # conversions
    def __index__(self):
        return engine().enum_int(self)

    def __int__(self):
        return engine().enum_int(s_trunc(self))

    def __trunc__(self):
        return s_trunc(self)

    def __float__(self):
        return engine().concretize(self, "float()")

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        return s_round(self, n)

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return -s_floor(-self)

    def __repr__(self):
        return engine().token(self) if E is not None else "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        return engine().token(self, spec)

    # numpy object-dtype protocol
    def sqrt(self): return s_sqrt(self)
    def exp(self): return s_exp(self)
    def log(self): return s_log(self)
    def conjugate(self): return self
    def item(self): return self
    def floor(self): return s_floor(self)
    def ceil(self): return -s_floor(-self)
    def is_integer(self): return self == s_floor(self)

    @property
    def real(self): return self

    @property
    def imag(self): return 0.0

    @property
    def shape(self): return ()

    @property
    def ndim(self): return 0

    @property
    def size(self): return 1

    @property
    def dtype(self): return _np.dtype(float)

    def any(self): return self != 0
    def all(self): return self != 0
    def tolist(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import snp
        return snp.ufunc_dispatch(ufunc, method, inputs, kw)


# ---------------------------------------------------------------- arithmetic kernels
def s_div(a, b):
    if nonfinite(a):
        a = float(a)
        return _nf_mul(a, b if is_sym(b) else float(b)) if not (not is_sym(b) and b == 0) else a
    if nonfinite(b):
        return float("nan") if math.isnan(b) else 0.0
    if not is_sym(b):
        if b == 0:
            return _div0(a)
        if not is_sym(a):
            return a / b
        return mk(simp(rterm(a) / rterm(b)))
    if isinstance(b, SymBool):
        b = b._n()
    if bool(b == 0):
        return _div0(a)
    e = engine()
    try:
        iv = e.canon.term(e.canon.inverse(e.canon.poly(rterm(b))))
    except poly.TooBig:
        return mk(simp(rterm(a) / rterm(b)))
    return mk(simp(rterm(a) * iv))


def _div0(a):
    k = _sgn(a if is_sym(a) else float(a))
    return float("nan") if k == 0 else (float("inf") if k > 0 else float("-inf"))


def s_floor(x):
    if not is_sym(x):
        return math.floor(x)
    t = term(x)
    if z3.is_int(t):
        return x
    return mk(simp(z3.ToInt(t)))


def s_trunc(x):
    if not is_sym(x):
        return math.trunc(x)
    t = term(x)
    if z3.is_int(t):
        return mk(t)
    return mk(simp(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))


def s_round(x, n=None):
    if not is_sym(x):
        return round(x, n) if n is not None else round(x)
    t = term(x)
    if z3.is_int(t):
        return x
    if n is None:
        # half to even, on the reals
        f = z3.ToInt(t)
        d = t - z3.ToReal(f)
        h = frac_to_z3(Fraction(1, 2))
        r = z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))
        return mk(simp(r))
    n = int(n)
    # decimal rounding of a double: some value within half a unit of the last place
    name = "round_%d" % n
    from . import sot
    if sot.OPTS.get("round_loose"):
        # no relation between roundings of different values: one function per argument
        name += "!%s" % (engine().normal(t)[0],)
    return uf(name, [x], bounds=lambda r, a: [
        z3.And(r - a <= frac_to_z3(Fraction(1, 2) / 10 ** n),
               a - r <= frac_to_z3(Fraction(1, 2) / 10 ** n))],
        mono="weak", concrete=lambda v: round(v, n))


def s_sqrt(x):
    if not is_sym(x):
        if isinstance(x, (float, _np.floating)) and math.isnan(x):
            return x
        return math.sqrt(x) if x >= 0 else float("nan")
    if isinstance(x, SymBool):
        return x._n()
    if bool(x < 0):
        return float("nan")
    # exact squares
    return engine().sqrt_of(rterm(x))


def s_pow(a, b):
    if not is_sym(b):
        if nonfinite(b):
            raise Unsupported("pow")
        fb = float(b)
        if fb == int(fb) and abs(fb) <= 8:
            k = int(fb)
            if k == 0:
                return 1.0
            r = a
            for _ in range(abs(k) - 1):
                r = r * a
            return r if k > 0 else s_div(1.0, r)
        if fb == 0.5:
            return s_sqrt(a)
        return uf("pow_c", [a, b], bounds=lambda r, x, y: [z3.Implies(x > 0, r > 0), z3.Implies(x == 1, r == 1),
                                                          z3.Implies(z3.And(y > 0, x > 0, x < 1), r < 1),
                                                          z3.Implies(z3.And(y > 0, x > 1), r > 1)],
                  concrete=lambda x, y: x ** y)
    return uf("pow", [a, b], bounds=lambda r, x, y: [z3.Implies(x > 0, r > 0), z3.Implies(x == 1, r == 1),
                                                     z3.Implies(z3.And(y > 0, x > 0, x < 1), r < 1)],
              concrete=lambda x, y: x ** y)


def s_exp(x):
    if not is_sym(x):
        return math.exp(x) if x < 700 else float("inf")
    return uf("exp", [x], bounds=lambda r, a: [r > 0, r >= a + 1], mono="strict", concrete=math.exp,
              anchors=[0])


def s_log(x):
    if not is_sym(x):
        if x == 0:
            return float("-inf")
        return math.log(x) if x > 0 else float("nan")
    if bool(x <= 0):
        return float("-inf") if bool(x == 0) else float("nan")
    return uf("log", [x], bounds=lambda r, a: [r <= a - 1], mono="strict", concrete=math.log, anchors=[1])


def uf(name, args, bounds=None, mono=None, concrete=None, anchors=(), key=()):
    """uninterpreted function application, ackermannised.

    mono: None | 'strict' | 'weak' | 'anti' (strict decreasing) on the first
    argument (other arguments equal).  concrete: used when all args are numbers.
    """
    if not any(is_sym(a) for a in args):
        if concrete is not None and E is None:
            return concrete(*args)
        if concrete is not None:
            v = concrete(*args)
            if nonfinite(v):
                return v
            engine().uf_register(name, key, [rterm(a) for a in args], rterm(v), bounds, mono)
            return v
    if any(nonfinite(a) for a in args):
        raise Unsupported(name + " on a non finite value")
    for x in anchors:
        uf(name, [x], bounds, mono, concrete, (), key)
    return engine().uf_apply(name, key, [rterm(a) for a in args], bounds, mono)


# ---------------------------------------------------------------- engine
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.branches = 0
        self.infeasible = 0
        self.concretised = 0
        self.unknown = 0
        self.checks = 0
        self.discharged = 0
        self.trivial = 0


class Engine:
    """one path at a time; explore() drives the depth-first search"""

    def __init__(self, timeout_ms=20000, max_paths=100000, max_branches=4000, deadline=None):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_branches = max_branches
        self.deadline = deadline
        self.stats = Stats()
        self.trail = []          # list of [choice, has_alternative]
        self._reset_path()

    def _reset_path(self):
        self.pos = 0
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.inputs = {}         # name -> z3 const
        self.input_kind = {}
        self.ufs = {}
        self.ufmemo = {}
        self.sqrtmemo = {}
        self.canon = poly.Canon(self)
        self.defs = []
        self.varmemo = {}
        self.absmemo = {}
        self.keep = []
        self.ntok = {}
        self.toks = []
        self.fresh_n = 0
        self.concretisations = []
        self.assumed = []
        self.inconsistent = False

    # --- solver access
    def _check(self, *assumps):
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise PathBudget("deadline")
        self.stats.queries += 1
        self.last_solver = self.solver
        r = self.solver.check(*assumps)
        if r == z3.unknown:
            r = self._retry(assumps)
        self.stats.solver_s += time.time() - t0
        return r

    # --- independence slicing
    def vars_of(self, t):
        k = t.get_id()
        r = self.varmemo.get(k)
        if r is not None:
            return r[0]
        out, seen, st = set(), set(), [t]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                if x.num_args() == 0:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
                else:
                    st.extend(x.children())
        self.varmemo[k] = (frozenset(out), t)
        return self.varmemo[k][0]

    def slice(self, assumps):
        """path constraints connected to the assumptions through shared variables"""
        cur = set()
        for a in assumps:
            cur |= self.vars_of(a)
        rest = [(b, self.vars_of(b)) for b in self.pc]
        take = []
        while True:
            hit = [x for x in rest if x[1] & cur]
            if not hit:
                break
            for b, v in hit:
                cur |= v
                take.append(b)
            rest = [x for x in rest if not (x[1] & cur) and not any(x is h for h in hit)] + \
                   [x for x in rest if (x[1] & cur) and not any(x is h for h in hit)]
        return take

    def components(self, extra=()):
        """independent groups of constraints"""
        items = [(b, self.vars_of(b)) for b in list(self.pc) + list(extra)]
        parent = {}

        def find(x):
            while parent[x] != x:
                parent[x] = parent[parent[x]]
                x = parent[x]
            return x
        for _, v in items:
            v = list(v)
            for x in v:
                parent.setdefault(x, x)
            for x in v[1:]:
                parent[find(x)] = find(v[0])
        groups = {}
        for b, v in items:
            k = find(next(iter(v))) if v else ""
            groups.setdefault(k, [[], set()])
            groups[k][0].append(b)
            groups[k][1] |= v
        return list(groups.values())

    def query(self, *assumps, timeout=None):
        """sliced satisfiability of path and assumptions (the rest of the path is independent)"""
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise PathBudget("deadline")
        timeout = timeout or self.timeout_ms
        sl = self.slice(assumps)
        dd = set(self.defs)
        nd = [b for b in sl if b.get_id() not in dd]
        try:
            self.stats.queries += 1
            s = z3.SimpleSolver()
            if len(nd) < len(sl):
                s.set("timeout", 1000)
                s.add(*nd)
                s.add(*assumps)
                if s.check() == z3.unsat:
                    return z3.unsat
                s = z3.SimpleSolver()
            s.set("timeout", timeout)
            s.add(*sl)
            s.add(*assumps)
            r = s.check()
            if r == z3.unknown:
                r = self._retry_with(list(sl) + list(assumps), timeout)
            return r
        finally:
            self.stats.solver_s += time.time() - t0

    def solve_all(self, extra=(), box=None, timeout=3000):
        """values of all variables satisfying path and extra, component by component; None when not found"""
        t0 = time.time()
        vals = {}
        try:
            for cons, names in self.components(extra):
                s = z3.SimpleSolver()
                s.set("timeout", timeout)
                s.add(*cons)
                ins = [(n, self.inputs[n]) for n in names if n in self.inputs and self.input_kind[n] != "bool"]
                if box is not None:
                    for _, c in ins:
                        s.add(c <= box, c >= -box)
                self.stats.queries += 1
                r = s.check()
                if r == z3.unknown:
                    extra_c = [z3.And(c <= box, c >= -box) for _, c in ins] if box is not None else []
                    r = self._retry_with(cons + extra_c, timeout)
                    if r == z3.sat:
                        s = self.last_solver
                if r != z3.sat:
                    self.inconsistent = r == z3.unsat
                    return None
                m = s.model()
                reals = [(c, z3num(m.eval(c, model_completion=True))) for n, c in ins if self.input_kind[n] == "real"]
                reals = [(c, v) for c, v in reals if v is not None]
                if not all(v.denominator in (1, 2, 4, 8, 16, 32, 64, 128, 256) and abs(v) < 2 ** 20 for _, v in reals):
                    for den in (4, 64, 4096):
                        s2 = z3.Solver()
                        s2.set("timeout", 700)
                        s2.add(*cons)
                        s2.add(*[c == frac_to_z3(Fraction(round(v * den), den)) for c, v in reals])
                        self.stats.queries += 1
                        if s2.check() == z3.sat:
                            m = s2.model()
                            break
                for d in m.decls():
                    if d.arity() == 0:
                        vals[d.name()] = m[d]
        finally:
            self.stats.solver_s += time.time() - t0
        return vals

    def _retry(self, assumps):
        return self._retry_with(self.pc + list(assumps), self.timeout_ms)

    def _retry_with(self, cons, timeout):
        for tac in ("qfnra", "qfnra-nlsat"):
            s = z3.Tactic(tac).solver() if tac != "qfnra-nlsat" else z3.Then("simplify", "purify-arith", "solve-eqs", "elim-term-ite", "tseitin-cnf", "nlsat").solver()
            try:
                s.set("timeout", timeout)
                s.add(*cons)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r != z3.unknown:
                self.last_solver = s
                return r
        return z3.unknown

    def add(self, b):
        b = z3.simplify(b) if z3.is_expr(b) else z3.BoolVal(b)
        if z3.is_true(b):
            return
        if z3.is_false(b):
            raise PathInfeasible()
        self.pc.append(b)
        self.solver.add(b)

    def define(self, b):
        """definition of an auxiliary variable (nonlinear): left out of first, cheap queries"""
        self.pc.append(b)
        self.solver.add(b)
        self.defs.append(b.get_id())

    def normal(self, t):
        """(key, term) of the polynomial normal form"""
        try:
            p = self.canon.clean(self.canon.poly(t), 1e-13)
            return self.canon.key(p), self.canon.term(p)
        except poly.TooBig:
            t = z3.simplify(t, som=True)
            self.keep.append(t)
            return ("t", t.get_id()), t

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.add(cond.b)
        elif not cond:
            raise PathInfeasible()

    def feasible(self):
        return self._check() != z3.unsat

    # --- branching
    def branch(self, b):
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        ids = {p.get_id() for p in self.pc}
        if b.get_id() in ids:
            return True
        nb = z3.simplify(z3.Not(b))
        if nb.get_id() in ids:
            return False
        if self.pos < len(self.trail):
            c = self.trail[self.pos][0]
            self.pos += 1
            self.add(b if c else z3.Not(b))
            return c
        self.stats.branches += 1
        if self.pos > self.max_branches:
            raise PathBudget("too many branches on a path")
        tb = min(self.timeout_ms, 3000)
        rt = self.query(b, timeout=tb)
        if rt == z3.unsat:
            self.trail.append([False, False])
            self.pos += 1
            self.add(z3.Not(b))
            return False
        rf = self.query(z3.Not(b), timeout=tb)
        if rf == z3.unsat:
            self.trail.append([True, False])
            self.pos += 1
            self.add(b)
            return True
        # unknown on a side counts as feasible (over-approximation)
        self.trail.append([True, True])
        self.pos += 1
        self.add(b)
        return True

    def choose(self, n):
        """nondeterministic concrete choice in range(n)"""
        for i in range(n - 1):
            v = z3.Bool("choice!%d!%d" % (self.fresh_n, i))
            if self.branch(v):
                self.fresh_n += 1
                return i
        self.fresh_n += 1
        return n - 1

    def enum_int(self, x):
        """all feasible integer values of x, one per path (complete)"""
        if not isinstance(x, SymNum):
            return int(x)
        t = x.t
        for _ in range(200):
            v = z3num(simp(t))
            if v is not None:
                return int(v)
            if self.pos < len(self.trail) and len(self.trail[self.pos]) == 3:
                c, alt, val = self.trail[self.pos]
                self.pos += 1
                if c:
                    self.add(t == val)
                    return val
                self.add(t != val)
                continue
            r = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r == z3.unknown:
                raise SolverUnknown()
            mv = z3num(self.solver.model().eval(t, model_completion=True))
            if mv is None or mv.denominator != 1:
                if z3.is_real(t):
                    raise TypeError("'float' object cannot be interpreted as an integer")
                raise SolverUnknown()
            mv = int(mv)
            other = self._check(t != mv)
            self.trail.append([True, other != z3.unsat, mv])
            self.pos += 1
            self.add(t == mv)
            return mv
        raise PathBudget("integer enumeration")

    def concretize(self, x, why):
        v = z3num(simp(x.t))
        if v is not None:
            return float(v)
        r = self._check()
        if r == z3.unsat:
            raise PathInfeasible()
        if r == z3.unknown:
            raise SolverUnknown()
        mv = z3num(self.solver.model().eval(x.t, model_completion=True))
        if mv is None:
            raise SolverUnknown()
        f = float(mv)
        self.stats.concretised += 1
        self.concretisations.append(why)
        self.add(x.t == frac_to_z3(mv))
        return f

    # --- values
    def fresh(self, prefix="v", sort="real"):
        self.fresh_n += 1
        n = "%s!%d" % (prefix, self.fresh_n)
        return z3.Real(n) if sort == "real" else (z3.Int(n) if sort == "int" else z3.Bool(n))

    def input(self, name, sort="real"):
        if name in self.inputs:
            raise RuntimeError("duplicate input " + name)
        c = z3.Real(name) if sort == "real" else (z3.Int(name) if sort == "int" else z3.Bool(name))
        self.inputs[name] = c
        self.input_kind[name] = sort
        return SymBool(c) if sort == "bool" else SymNum(c)

    def abs_of(self, t):
        """|t|, one term per normal form up to scale"""
        try:
            p = self.canon.clean(self.canon.poly(t), 1e-13)
        except poly.TooBig:
            return s_ite(SymNum(t) >= 0, SymNum(t), -SymNum(t))
        v = self.canon.const(p)
        if v is not None:
            return mk(frac_to_z3(abs(v)))
        c = p[min(p)]
        n = self.canon.scale(p, 1 / c)
        k = self.canon.key(n)
        if k not in self.absmemo:
            x = self.canon.term(n)
            self.absmemo[k] = z3.If(x >= 0, x, -x)
        return mk(simp(self.absmemo[k] * frac_to_z3(abs(c))))

    def sqrt_of(self, t):
        def var(tt):
            s = self.fresh("sqrt")
            self.add(s >= 0)
            self.define(s * s == tt)
            self.define(z3.Implies(tt > 0, s > 0))
            for t2, s2 in self.sqrtmemo.values():
                self.define(z3.Implies(tt == t2, s == s2))
            self.sqrtmemo[len(self.sqrtmemo)] = (tt, s)
            return s
        try:
            p = self.canon.poly(t)
        except poly.TooBig:
            t = z3.simplify(t, som=True)
            self.keep.append(t)
            k = t.get_id()
            if k not in self.canon.sqrts:
                self.canon.sqrts[k] = var(t)
            return SymNum(self.canon.sqrts[k])
        v = self.canon.const(p)
        if v is not None:
            n, d = v.numerator, v.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return mk(frac_to_z3(Fraction(rn, rd)))
            return math.sqrt(float(v))          # a constant: the double the code would get
        return SymNum(self.canon.sqrt(p, var))

    def uf_register(self, name, key, args, val, bounds, mono):
        fam = self.ufs.setdefault((name,) + tuple(key), [])
        for a2, _ in fam:
            if all(x.eq(y) for x, y in zip(args, a2)):
                return
        buf = []
        self._uf_axioms(fam, args, val, bounds, mono, buf.append)
        if any(z3.is_false(z3.simplify(ax)) for ax in buf):
            return          # a saturated double (e.g. a probability rounded to 0): no exact value to learn
        for ax in buf:
            self.add(ax)
        fam.append((args, val))

    def _uf_axioms(self, fam, args, r, bounds, mono, add=None):
        add = add or self.add
        if bounds is not None:
            for ax in bounds(r, *args):
                add(ax)
        for a2, r2 in fam:
            same = z3.And(*[x == y for x, y in zip(args, a2)])
            add(z3.Implies(same, r == r2))
            if mono:
                rest = [x == y for x, y in zip(args[1:], a2[1:])]
                if mono == "strict":
                    add(z3.Implies(z3.And(args[0] < a2[0], *rest), r < r2))
                    add(z3.Implies(z3.And(args[0] > a2[0], *rest), r > r2))
                elif mono == "weak":
                    add(z3.Implies(z3.And(args[0] <= a2[0], *rest), r <= r2))
                    add(z3.Implies(z3.And(args[0] >= a2[0], *rest), r >= r2))
                elif mono == "anti":
                    add(z3.Implies(z3.And(args[0] < a2[0], *rest), r > r2))
                    add(z3.Implies(z3.And(args[0] > a2[0], *rest), r < r2))

    def uf_apply(self, name, key, args, bounds, mono):
        nf = [self.normal(a) for a in args]
        args = [b for _, b in nf]
        mk_ = (name,) + tuple(key) + tuple(a for a, _ in nf)
        if mk_ in self.ufmemo:
            return SymNum(self.ufmemo[mk_][1])
        fam = self.ufs.setdefault((name,) + tuple(key), [])
        r = self.fresh(name)
        self._uf_axioms(fam, args, r, bounds, mono)
        fam.append((args, r))
        self.ufmemo[mk_] = (args, r)
        return SymNum(r)

    # --- printing
    def token(self, x, spec=""):
        t = x.b if isinstance(x, SymBool) else x.t
        if z3.is_bool(t) or z3.is_int(t):
            t = z3.simplify(t, som=True)
            k = t.get_id()
        else:
            k, t = self.normal(t)
        if k not in self.ntok:
            self.ntok[k] = len(self.toks)
            self.toks.append(t)
        body = "\u27e6%d%s\u27e7" % (self.ntok[k], ("|" + spec) if spec else "")
        return body

    # --- search
    def next_path(self):
        while self.trail:
            last = self.trail[-1]
            if last[0] and last[1]:
                last[0] = False
                last[1] = False
                return True
            self.trail.pop()
        return False


def activate(e):
    global E
    E = e
