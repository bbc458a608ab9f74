"""The two worlds a scenario runs in.

SymWorld: inputs and environment draws are z3 variables; a check() is a solver
query over the path.  ConWorld: the same scenario on the real numpy/openturns
with every input and draw taken from a solver model (replay / validation).
"""
import io
import math
import random
import sys
import types
import zlib
from fractions import Fraction
import numpy as np
import z3
from . import core, snp, load
from .core import (SymNum, SymBool, is_sym, s_and, s_or, s_not, s_ite, Control, Unsupported, PathInfeasible)

EPS = z3.Real("eps!")


class EnvGap(Control):
    """the environment stub lacks something the code asked for (never an alarm)"""


class Candidate(Control):
    def __init__(self, label, models, info=""):
        super().__init__(label)
        self.label, self.models, self.info = label, models, info


class CheckFailed(Control):
    """concrete world: an assertion of the scenario is false"""

    def __init__(self, label, info=""):
        super().__init__(label)
        self.label, self.info = label, info


class Skip(Control):
    """concrete world: the model does not satisfy an assumption (rounding)"""


class _FakeFile(io.StringIO):
    def __init__(self, world, name, mode):
        super().__init__()
        self._w, self._name = world, name

    def close(self):
        self._w.files.setdefault(self._name, "")
        if not self.closed:
            self._w.files[self._name] += self.getvalue()
        super().close()

    def __exit__(self, *a):
        self.close()


class _Stdout:
    def __init__(self, w):
        self.w = w

    def write(self, s):
        self.w.stdout.append(s)

    def flush(self):
        pass


class _SysShim(types.ModuleType):
    def __init__(self, w):
        super().__init__("sys")
        self.stdout = _Stdout(w)
        self.stderr = _Stdout(w)

    def __getattr__(self, n):
        return getattr(sys, n)


class _LogShim(types.ModuleType):
    def __init__(self, w):
        super().__init__("logging")
        self._w = w
        for lv in ("info", "warning", "debug", "error", "critical", "warn", "exception"):
            self.__dict__[lv] = (lambda lv: lambda msg, *a, **k: w.logs.append((lv, (msg % a) if a else msg)))(lv)
        self.INFO = 20
        self.__dict__["getLogger"] = lambda *a: self
        self.__dict__["setLevel"] = lambda *a: None

    def __getattr__(self, n):
        import logging
        return getattr(logging, n)


class Base:
    symbolic = False

    def __init__(self):
        self.files = {}
        self.stdout = []
        self.printed = []
        self.logs = []
        self.events = []
        self.counters = {}
        self.gaps = []
        self.covered = set()
        self.opts = {}
        self.pkgs = None

    # -- plumbing for the loaded package
    def print_(self, *a, sep=" ", end="\n", file=None, flush=False):
        self.printed.append(sep.join(str(x) for x in a) + ("" if end == "\n" else end))

    def open_(self, name, mode="r", *a, **k):
        if "w" in mode or "a" in mode or "x" in mode:
            if "w" in mode:
                self.files[str(name)] = ""
            return _FakeFile(self, str(name), mode)
        raise EnvGap("open(%r, %r)" % (name, mode))

    def gap(self, msg):
        self.gaps.append(msg)
        raise EnvGap(msg)

    def log(self, kind, **kw):
        e = types.SimpleNamespace(kind=kind, **kw)
        self.events.append(e)
        return e

    def ev(self, kind):
        return [e for e in self.events if e.kind == kind]

    def tag(self, t):
        k = self.counters.get(t, 0)
        self.counters[t] = k + 1
        return "%s#%d" % (t, k)

    def mod(self, name):
        return self.pkg.mod(name)

    def cls(self, mod, name):
        return getattr(self.pkg.mod(mod), name)

    def strs(self, d):
        return [str(x) for x in d]

    def isnum(self, v):
        import numpy as np
        return core.is_sym(v) or isinstance(v, (int, float, np.floating, np.integer)) and not isinstance(v, bool)

    def nums(self, text):
        """the numbers shown in a text, in order"""
        import re
        return [float(t) for t in re.findall(r"(?<![\w.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan|inf)(?![\w])", text)]

    def cover(self, label):
        self.covered.add(label)

    # -- values
    def reals(self, name, n, lo=None, hi=None, **k):
        return [self.real("%s%d" % (name, i), lo, hi, **k) for i in range(n)]

    def draw(self, t, lo=None, hi=None, lo_open=False, hi_open=False):
        h = self.opts.get("draw")
        if h:
            v = h(t)
            if v is not None:
                return v
        return self.real(self.tag("env." + t), lo, hi, lo_open, hi_open)

    # -- comparison of structures
    def flat(self, x):
        """list of scalars and the shape skeleton"""
        if isinstance(x, (list, tuple)):
            r, sh = [], []
            for y in x:
                a, s = self.flat(y)
                r += a
                sh.append(s)
            return r, tuple(sh)
        if x is None or isinstance(x, (str, bool)):
            return [x], "s"
        if hasattr(x, "_sym_container") or (not is_sym(x) and not isinstance(x, (int, float, np.generic, Fraction))):
            a = self.to_list(x)
            return self.flat(a)
        return [x], "s"

    def to_list(self, x):
        """nested python lists of scalars from Sample/Point/ndarray/Matrix/number"""
        if is_sym(x) or isinstance(x, (int, float, str, bool)) or x is None:
            return x
        if isinstance(x, (np.generic,)):
            return x.item()
        if hasattr(x, "_sym_array"):
            return x._sym_array().tolist()
        if isinstance(x, np.ndarray):
            return snp.plain(x).tolist()
        if isinstance(x, (list, tuple)):
            return [self.to_list(y) for y in x]
        try:
            return np.array(x).tolist()
        except Exception:
            return [self.to_list(y) for y in x]

    def vec(self, x):
        """flat list of scalars"""
        def rec(v):
            if isinstance(v, (list, tuple)):
                r = []
                for y in v:
                    r += rec(y)
                return r
            return [v]
        return rec(self.to_list(x))

    def mat(self, x):
        return self.to_list(x)

    def eqv(self, xs, ys):
        """element-wise equality of two structures, ignoring nesting"""
        a, b = self.vec(xs), self.vec(ys)
        if len(a) != len(b):
            return False
        return self.and_(*[self.eq(p, q) for p, q in zip(a, b)])

    def raises(self, f, *a, **k):
        """(exception or None, value)"""
        try:
            return None, f(*a, **k)
        except Control:
            raise
        except Exception as e:
            if self.gaps:
                raise EnvGap(self.gaps[-1])
            return e, None

    def q(self, a, b=1):
        """exact ratio"""
        return Fraction(a) / Fraction(b) if self.symbolic else float(a) / float(b)

    def summ(self, xs):
        r = 0.0
        for x in xs:
            r = r + x
        return r


# ====================================================================== symbolic
class SymWorld(Base):
    symbolic = True

    def __init__(self, eng, ctx=None):
        super().__init__()
        self.e = eng
        self.ctx = ctx
        from . import sot
        sot.OPTS = self.opts
        self.np = snp.make(rand=None)
        from . import env
        env.install(self)
        self.pkg = load.Package(self)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        x = self.e.input(name, "real")
        self._bound(x, lo, hi, lo_open, hi_open)
        return x

    def int(self, name, lo=None, hi=None):
        x = self.e.input(name, "int")
        self._bound(x, lo, hi, False, False)
        return x

    def _bound(self, x, lo, hi, lo_open, hi_open):
        if lo is not None and not core.nonfinite(lo):
            self.assume(x > lo if lo_open else x >= lo)
        if hi is not None and not core.nonfinite(hi):
            self.assume(x < hi if hi_open else x <= hi)

    def bool(self, name):
        return self.e.input(name, "bool")

    def flag(self, name):
        """a concrete boolean, both values explored"""
        return bool(self.e.input(name, "bool"))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        x = self.e.input(name, "int")
        self.assume(s_and(x >= 0, x < len(options)))
        return options[self.e.enum_int(x)]

    def assume(self, c):
        self.e.assume(c)

    def ufunc(self, name, args, lo=None, hi=None, lo_open=False, hi_open=False, mono=None, key=()):
        def bounds(r, *a):
            ax = []
            if lo is not None:
                ax.append(r > core.rterm(lo) if lo_open else r >= core.rterm(lo))
            if hi is not None:
                ax.append(r < core.rterm(hi) if hi_open else r <= core.rterm(hi))
            return ax
        return core.uf("u." + name, list(args), bounds=bounds, mono=mono, key=tuple(key)) if any(is_sym(a) for a in args) else \
            self.e.uf_apply("u." + name, tuple(key), [core.rterm(a) for a in args], bounds, mono)

    # logic
    def and_(self, *c): return s_and(*c)
    def or_(self, *c): return s_or(*c)
    def not_(self, c): return s_not(c)
    def ite(self, c, a, b): return s_ite(c, a, b)
    def implies(self, a, b): return s_or(s_not(a), b)
    def iff(self, a, b): return core.mkb(core.simp(core.bterm(a) == core.bterm(b)))
    def max(self, *xs):
        xs = self.vec(xs)
        r = xs[0]
        for x in xs[1:]:
            r = core.s_max(r, x)
        return r

    def min(self, *xs):
        xs = self.vec(xs)
        r = xs[0]
        for x in xs[1:]:
            r = core.s_min(r, x)
        return r

    def sqrt(self, x): return core.s_sqrt(x)
    def div(self, a, b): return core.s_div(a, b)

    def eq(self, a, b):
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return a == b
        if core.nonfinite(a) or core.nonfinite(b):
            if core.nonfinite(a) and core.nonfinite(b):
                return float(a) == float(b) or (math.isnan(a) and math.isnan(b))
            return False
        d = self.diff(a, b)
        v = core.z3num(d)
        if v is not None:
            return v == 0 or bool(abs(v) < Fraction(1, 10 ** 7) * (1 + abs(Fraction(a) if not is_sym(a) else 0)))
        return core.mkb(z3.And(d <= EPS, d >= -EPS))

    def le(self, a, b):
        if core.nonfinite(a) or core.nonfinite(b):
            if math.isnan(a) if core.nonfinite(a) else False:
                return False
            r = a <= b
            return r
        d = self.diff(a, b)
        v = core.z3num(d)
        if v is not None:
            return v <= Fraction(1, 10 ** 7)
        return core.mkb(d <= EPS)

    def ge(self, a, b): return self.le(b, a)

    def diff(self, a, b):
        t = core.rterm(a) - core.rterm(b)
        try:
            c = self.e.canon
            p = c.clean(c.poly(t), 1e-10)
            if p and c.vanishes(p):
                return z3.RealVal(0)
            return c.term(p)
        except core.poly.TooBig:
            return z3.simplify(t, som=True)

    def check(self, cond, label, info=None):
        st = self.e.stats
        st.checks += 1
        if cond is True or (isinstance(cond, np.bool_) and bool(cond)):
            st.trivial += 1
            return
        b = core.bterm(cond)
        neg = z3.simplify(z3.Not(b))
        r = self.e.query(neg, EPS == 0)
        if r == z3.unsat:
            st.discharged += 1
            # a proved fact may be used on the rest of the path (eps = 0)
            return
        if r == z3.unknown:
            st.unknown += 1
            if self.ctx is not None:
                self.ctx.note_unknown(label)
            return
        if label in getattr(self, "known", ()):
            self.known_hit.append(label)
            return
        models = self.models_for(neg)
        if not models and self.e._check(neg, EPS == 0) == z3.unsat:
            st.discharged += 1
            return
        raise Candidate(label, models, info() if callable(info) else "")

    def nums(self, text):
        import re
        out, pos = [], 0
        for m in re.finditer("\u27e6(\\d+)(?:\\|([^\u27e7]*))?\u27e7", text):
            out += Base.nums(self, text[pos:m.start()])
            v = core.mk(self.e.toks[int(m.group(1))])
            d = re.search(r"\.(\d+)f", m.group(2) or "")
            out.append(core.s_round(v, int(d.group(1))) if d else v)
            pos = m.end()
        return out + Base.nums(self, text[pos:])

    def models_for(self, neg, n=5):
        """several concrete models of pc and neg, widest margin first"""
        out = []
        e = self.e
        for q in (Fraction(1), Fraction(1, 8), Fraction(1, 200), Fraction(1, 20000), Fraction(0)):
            for box in (8, 200, None):
                v = e.solve_all((neg, EPS == core.frac_to_z3(q)), box)
                if v is not None:
                    out.append(extract(e, v))
                    break
            if len(out) >= n:
                break
        return out

    def path_model(self):
        """a model of the whole path (for validation against the real code)"""
        e = self.e
        for box in (8, None):
            v = e.solve_all((EPS == 0,), box)
            if v is not None:
                return extract(e, v)
        return None


def extract(e, vals):
    """concrete inputs and function tables from the variables' values"""
    out = {}
    sub = []
    for nme, c in e.inputs.items():
        kind = e.input_kind[nme]
        v = vals.get(nme)
        if v is None:
            v = z3.BoolVal(False) if kind == "bool" else (z3.IntVal(0) if kind == "int" else core.frac_to_z3(
                Fraction(zlib.crc32(nme.encode()) % 64, 32)))
        sub.append((c, v))
        if kind == "bool":
            out[nme] = z3.is_true(v)
        else:
            f = core.z3num(v)
            if f is None:
                continue
            out[nme] = int(f) if kind == "int" else float(f)
    known = set(e.inputs)
    for n, v in vals.items():
        if n not in known:
            c = z3.Bool(n) if z3.is_bool(v) else (z3.Int(n) if z3.is_int(v) else z3.Real(n))
            sub.append((c, v))

    def val(t):
        return core.z3num(z3.simplify(z3.substitute(t, *sub)))
    ufs = {}
    for key, fam in e.ufs.items():
        if not key[0].startswith("u."):
            continue
        rows = []
        for args, r in fam:
            av = [val(a) for a in args]
            rv = val(r)
            if rv is None or any(a is None for a in av):
                continue
            rows.append(([float(a) for a in av], float(rv)))
        ufs[repr(key)] = rows
    return {"inputs": out, "ufs": ufs}


# ====================================================================== concrete
class ConWorld(Base):
    def __init__(self, model, seed=1):
        super().__init__()
        self.model = model
        self.vals = model["inputs"]
        self.ufs = model["ufs"]
        self.seed = seed
        self.missing = []
        self.np = np
        self.failures = []
        self.checked = 0
        from . import env
        env.install(self)
        self.pkg = load.Package(self)

    def _default(self, name, lo, hi):
        self.missing.append(name)
        r = random.Random(zlib.crc32(name.encode()) ^ self.seed)
        a = -2.0 if lo is None or math.isinf(lo) else float(lo)
        b = 2.0 if hi is None or math.isinf(hi) else float(hi)
        if lo is None and hi is not None:
            a = b - 4.0
        if hi is None and lo is not None:
            b = a + 4.0
        return round((a + (b - a) * r.random()) * 64) / 64.0 if b - a > 0.1 else a + (b - a) * r.random()

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self.vals.get(name)
        if v is None:
            v = self._default(name, lo, hi)
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return float(v)

    def int(self, name, lo=None, hi=None):
        v = self.vals.get(name)
        if v is None:
            self.missing.append(name)
            v = lo if lo is not None else 0
        return int(v)

    def bool(self, name):
        return bool(self.vals.get(name, False))

    flag = bool

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.vals.get(name, 0)) % len(options)]

    def assume(self, c):
        if not builtin_bool(c):
            raise Skip()

    def ufunc(self, name, args, lo=None, hi=None, lo_open=False, hi_open=False, mono=None, key=()):
        rows = self.ufs.get(repr(("u." + name,) + tuple(key)), [])
        args = [float(a) for a in args]
        if mono and args:
            return self._mono(rows, args, lo, hi, mono, name, key)
        best, bd = None, None
        for a, r in rows:
            if len(a) != len(args):
                continue
            d = max([abs(x - y) / (1.0 + abs(x)) for x, y in zip(a, args)] or [0.0])
            if bd is None or d < bd:
                best, bd = r, d
        if best is None or bd > 1e-6:
            # smooth default, consistent with the bounds
            s = sum((0.37 + 0.11 * i) * a for i, a in enumerate(args)) + (zlib.crc32(repr((name, key)).encode()) % 97) / 97.0
            if lo is not None and hi is not None:
                best = lo + (hi - lo) * (0.5 + 0.45 * math.sin(s))
            elif lo is not None:
                best = lo + 0.5 + 0.4 * math.sin(s)
            elif hi is not None:
                best = hi - 0.5 - 0.4 * math.sin(s)
            else:
                best = s
        return float(best)

    def _mono(self, rows, args, lo, hi, mono, name, key):
        """monotone in the first argument, through the solver's values"""
        pts = []
        for a, r in rows:
            if len(a) == len(args) and all(abs(x - y) <= 1e-6 * (1 + abs(x)) for x, y in zip(a[1:], args[1:])):
                pts.append((a[0], r))
        pts.sort()
        sg = -1.0 if mono == "anti" else 1.0
        x = args[0]
        if not pts:
            s = sum((0.37 + 0.11 * i) * a for i, a in enumerate(args[1:])) + (zlib.crc32(repr((name, key)).encode()) % 97) / 97.0
            u = 0.5 + math.atan(sg * (x - math.sin(s))) / math.pi
            if lo is not None and hi is not None:
                return lo + (hi - lo) * u
            return sg * x + math.sin(s)
        for p, r in pts:
            if abs(p - x) <= 1e-6 * (1 + abs(p)):
                return float(r)
        if x < pts[0][0]:
            k, (p, r) = -1.0, pts[0]
        elif x > pts[-1][0]:
            k, (p, r) = 1.0, pts[-1]
        else:
            for (p, r), (p2, r2) in zip(pts, pts[1:]):
                if p <= x <= p2:
                    return r + (r2 - r) * (x - p) / (p2 - p)
        d = abs(x - p)
        lim = (hi if k * sg > 0 else lo)
        if lim is None:
            return r + k * sg * d
        return r + (lim - r) * d / (1 + d)

    def and_(self, *c): return all(builtin_bool(x) for x in c)
    def or_(self, *c): return any(builtin_bool(x) for x in c)
    def not_(self, c): return not c
    def ite(self, c, a, b): return a if c else b
    def implies(self, a, b): return (not a) or builtin_bool(b)
    def iff(self, a, b): return builtin_bool(a) == builtin_bool(b)
    def max(self, *xs): return max(self.vec(xs))
    def min(self, *xs): return min(self.vec(xs))
    def sqrt(self, x): return math.sqrt(x) if x >= 0 else float("nan")

    def div(self, a, b):
        with np.errstate(all="ignore"):
            return float(np.float64(a) / np.float64(b))

    tol = 2e-6

    def eq(self, a, b):
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return a == b
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= self.tol * (1.0 + max(abs(a), abs(b)))

    def le(self, a, b):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        return a <= b + self.tol * (1.0 + max(abs(a), abs(b)) if not (math.isinf(a) or math.isinf(b)) else 1.0)

    def ge(self, a, b): return self.le(b, a)

    def check(self, cond, label, info=None):
        self.checked += 1
        if not builtin_bool(cond):
            if label in getattr(self, "known", ()):
                self.known_hit.append(label)
                return
            raise CheckFailed(label, info() if callable(info) else "")


builtin_bool = bool
