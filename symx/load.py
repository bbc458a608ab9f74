"""Load /repo/otpod from source, fresh, into a world (symbolic or concrete).

The package is executed from the current text of /repo/otpod; only the names it
imports from outside (numpy, openturns, scipy, ...) are supplied by the world.
"""
import builtins
import os
import sys
import types
import numbers
import numpy as _np
from . import core, snp
from .core import SymNum, SymBool, is_sym

REPO = os.environ.get("OTPOD_REPO", "/repo")
_code = {}


def source_files():
    d = os.path.join(REPO, "otpod")
    return sorted(f for f in os.listdir(d) if f.endswith(".py"))


def code_of(modname):
    path = os.path.join(REPO, "otpod", modname + ".py")
    if path not in _code:
        with builtins.open(path) as f:
            _code[path] = compile(f.read(), path, "exec")
    return _code[path]


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, SymNum) and not core.z3.is_int(x.t))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        if is_sym(x):
            return snp.to_float(x)
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            return snp.to_float(snp.plain(x).ravel()[0])
        return float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class sfloat(metaclass=_FloatMeta):
    _sx_name = "float"
    __name__ = "float"
    fromhex = staticmethod(float.fromhex)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, SymNum) and core.z3.is_int(x.t))

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SymNum):
            return core.s_trunc(x)
        if isinstance(x, SymBool):
            return x._n()
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            return cls(snp.plain(x).ravel()[0])
        return int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class sint(metaclass=_IntMeta):
    _sx_name = "int"
    __name__ = "int"


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __call__(cls, x=False):
        return bool(x)

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)


class sbool(metaclass=_BoolMeta):
    _sx_name = "bool"
    __name__ = "bool"


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SymBool):
                return sbool
            if isinstance(x, SymNum):
                return sint if core.z3.is_int(x.t) else sfloat
            t = type(x)
            return {float: sfloat, int: sint, bool: sbool}.get(t, t)
        return type(*a, **k)


class stype(metaclass=_TypeMeta):
    pass


numbers.Real.register(SymNum)


def s_minmax(pick, name):
    real = getattr(builtins, name)

    def f(*a, **k):
        key = k.get("key")
        xs = list(a[0]) if len(a) == 1 else list(a)
        if key is None and xs and any(is_sym(x) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = pick(r, x)
            return r
        if len(a) == 1:
            return real(xs, **k)
        return real(*a, **k)
    return f


def s_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def s_abs(x):
    return abs(x)


def s_round(x, n=None):
    if is_sym(x):
        return core.s_round(x, n)
    if isinstance(x, _np.ndarray) and x.dtype == object and x.ndim == 0:
        return core.s_round(x.item(), n)
    return round(x) if n is None else round(x, n)


def s_pow(a, b, *m):
    return core.s_pow(a, b) if is_sym(a) or is_sym(b) else pow(a, b, *m)


class MathShim(types.ModuleType):
    def __init__(self):
        import math
        super().__init__("math")
        for n in dir(math):
            if not n.startswith("__"):
                self.__dict__[n] = self._w(n, getattr(math, n))
        self.__dict__.update(fsum=lambda xs: s_sum(xs))

    def _w(self, n, f):
        sym = {"sqrt": core.s_sqrt, "exp": core.s_exp, "log": core.s_log, "floor": core.s_floor,
               "ceil": lambda x: -core.s_floor(-x), "trunc": core.s_trunc, "pow": core.s_pow, "fabs": abs,
               "isnan": lambda x: False, "isinf": lambda x: False, "isfinite": lambda x: True,
               "log10": lambda x: core.s_log(x) / 2.302585092994046}
        if not callable(f):
            return f

        def g(*a, **k):
            a = [x.item() if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1 else x for x in a]
            if any(is_sym(x) for x in a):
                if n == "isclose":
                    rt, at = k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0)
                    return abs(a[0] - a[1]) <= core.s_max(rt * core.s_max(abs(a[0]), abs(a[1])), at)
                if n not in sym:
                    raise core.Unsupported("math." + n)
                r = sym[n](*a)
                if core.nonfinite(r) and n in ("sqrt", "log"):
                    raise ValueError("math domain error")
                return r
            return f(*a, **k)
        return g


class Package:
    """one fresh instance of the otpod package"""

    def __init__(self, world):
        self.world = world
        self.mods = {}
        b = types.ModuleType("builtins")
        b.__dict__.update(builtins.__dict__)
        d = b.__dict__
        d["__import__"] = self._import
        d["print"] = world.print_
        d["open"] = world.open_
        if world.symbolic:
            d.update(float=sfloat, int=sint, bool=sbool, type=stype, max=s_minmax(core.s_max, "max"), min=s_minmax(core.s_min, "min"),
                     sum=s_sum, round=s_round, pow=s_pow)
        self.builtins = d
        self.pkg = types.ModuleType("otpod")
        self.pkg.__path__ = []
        self.pkg.__package__ = "otpod"

    def mod(self, name):
        if name in self.mods:
            return self.mods[name]
        m = types.ModuleType("otpod." + name)
        m.__dict__["__builtins__"] = self.builtins
        m.__package__ = "otpod"
        m.__file__ = os.path.join(REPO, "otpod", name + ".py")
        self.mods[name] = m
        try:
            exec(code_of(name), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        setattr(self.pkg, name, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name == "otpod" or name.startswith("otpod."):
            base = name if level > 0 else name[6:]
            if base:
                first = base.split(".")[0]
                m = self.mod(first)
                if not fromlist and level == 0:
                    return self.pkg
                return m
            for f in fromlist or ():
                self.mod(f)
            return self.pkg
        w = self.world
        ext = w.modules
        if name in ext:
            if fromlist or "." not in name:
                return ext[name]
            return ext[name.split(".")[0]]
        top = name.split(".")[0]
        if top in ext:
            return ext[top]
        return builtins.__import__(name, globals, locals, fromlist, level)
