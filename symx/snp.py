"""numpy for symbolic values: object arrays with merged comparisons.

SymArray is an ndarray subclass (object dtype).  Ufuncs and array functions are
intercepted, so the real numpy does shapes/strides/broadcasting and only the
element operations are symbolic.  `snp` (instance of Shim) stands for the
`numpy` module inside the code under test.
"""
import math
import operator
import types
import numpy as np
from . import core
from .core import (SymNum, SymBool, is_sym, s_and, s_or, s_not, s_ite, s_max, s_min, s_div, s_floor,
                   s_sqrt, s_exp, s_log, s_pow, Unsupported, nonfinite)


class SymArray(np.ndarray):
    __array_priority__ = 500.0

    def __new__(cls, data, copy=True):
        return wrap(np.array(data, dtype=object, copy=copy))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        h = FUNCS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        args = _strip(args)
        kwargs = _strip(kwargs)
        return out(func(*args, **kwargs))

    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, fix_index(idx))
        return r

    def __setitem__(self, idx, val):
        if hasattr(val, "_sym_container"):
            val = val._sym_array()
        np.ndarray.__setitem__(self, fix_index(idx), val)

    # reductions that numpy would do in C with bool()
    def min(self, axis=None, **kw): return amin(self, axis=axis, **kw)
    def max(self, axis=None, **kw): return amax(self, axis=axis, **kw)
    def mean(self, axis=None, **kw): return mean(self, axis=axis, **kw)
    def sum(self, axis=None, **kw): return sum_(self, axis=axis, **kw)
    def var(self, axis=None, ddof=0, **kw): return var(self, axis=axis, ddof=ddof, **kw)
    def std(self, axis=None, ddof=0, **kw): return std(self, axis=axis, ddof=ddof, **kw)
    def all(self, axis=None, **kw): return all_(self, axis=axis, **kw)
    def any(self, axis=None, **kw): return any_(self, axis=axis, **kw)
    def prod(self, axis=None, **kw): return _reduce(operator.mul, self, axis, 1, **kw)
    def argmax(self, axis=None, **kw): return argmax(self, axis)
    def argmin(self, axis=None, **kw): return argmin(self, axis)
    def dot(self, o): return dot(self, o)
    def round(self, decimals=0, **kw): return elementwise(lambda x: core.s_round(x, decimals), self)
    def nonzero(self): return nonzero(self)
    def clip(self, a_min=None, a_max=None, **kw): return clip(self, a_min, a_max)

    def astype(self, dtype, **kw):
        if isinstance(dtype, type) and dtype is bool or dtype in ("bool", np.bool_):
            return out(np.array([bool(x) for x in plain(self).ravel()], dtype=bool).reshape(self.shape))
        k = _dtkind(dtype)
        if k == "i":
            return elementwise(to_int, self)
        if k == "f":
            return elementwise(to_float, self)
        if k == "O":
            return wrap(plain(self).copy())
        return plain(self).astype(dtype)

    def tolist(self):
        return plain(self).tolist()

    def item(self, *a):
        return plain(self).item(*a)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(plain(self).ravel()[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return float(plain(self).ravel()[0])

    def __format__(self, spec):
        if self.ndim == 0:
            return format(plain(self).item(), spec)
        return str(self)

    def __round__(self, n=None):
        if self.size == 1:
            return core.s_round(plain(self).ravel()[0], n)
        return self.round(n)

    def __repr__(self):
        return str(plain(self).tolist())

    __str__ = __repr__


def _dtkind(dtype):
    if dtype is None:
        return None
    if isinstance(dtype, type) and getattr(dtype, "_sx_name", None):
        return {"float": "f", "int": "i"}[dtype._sx_name]
    try:
        return np.dtype(dtype).kind
    except TypeError:
        return "O"


def to_int(x):
    if isinstance(x, SymBool):
        return SymNum(core.term(x))
    if is_sym(x):
        return core.s_trunc(x)
    return int(x)


def to_float(x):
    if isinstance(x, SymBool):
        return SymNum(core.rterm(x))
    if isinstance(x, SymNum):
        return SymNum(core.rterm(x))
    return float(x)


def plain(a):
    if isinstance(a, SymArray):
        return a.view(np.ndarray)
    return a


def wrap(a):
    return a.view(SymArray)


def out(r):
    """result of a numpy call on object arrays"""
    if isinstance(r, np.ndarray):
        if r.dtype == object and not isinstance(r, SymArray):
            return r.view(SymArray)
        return r
    if isinstance(r, tuple):
        return type(r)(*[out(x) for x in r]) if hasattr(r, "_fields") else tuple(out(x) for x in r)
    if isinstance(r, list):
        return [out(x) for x in r]
    return r


def has_sym(x, depth=0):
    if is_sym(x) or isinstance(x, SymArray) or hasattr(x, "_sym_container"):
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    return False


def conv(x):
    """containers -> SymArray / lists of such; numbers untouched"""
    if hasattr(x, "_sym_array"):
        return x._sym_array()
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        return wrap(x) if x.dtype == object else x
    if isinstance(x, list) and has_sym(x):
        return [conv(y) for y in x]
    if isinstance(x, tuple) and has_sym(x):
        return tuple(conv(y) for y in x)
    if isinstance(x, types.GeneratorType):
        return [conv(y) for y in x]
    return x


def arr(x, copy=False):
    """anything -> object ndarray (SymArray)"""
    x = conv(x)
    if isinstance(x, SymArray):
        return wrap(plain(x).copy()) if copy else x
    if isinstance(x, np.ndarray):
        return wrap(x.astype(object))
    if isinstance(x, (list, tuple)):
        return wrap(_from_list(x))
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return wrap(a)
    return wrap(np.asarray(x).astype(object))


def _from_list(x):
    xs = [conv(y) for y in x]
    xs = [_from_list(y) if isinstance(y, (list, tuple)) else (plain(y) if isinstance(y, np.ndarray) else y) for y in xs]
    if any(isinstance(y, np.ndarray) for y in xs):
        ys = [np.asarray(y, dtype=object) if not isinstance(y, np.ndarray) else y.astype(object) for y in xs]
        sh = ys[0].shape
        if any(y.shape != sh for y in ys):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        r = np.empty((len(ys),) + sh, dtype=object)
        for i, y in enumerate(ys):
            r[i] = y
        return r
    r = np.empty(len(xs), dtype=object)
    for i, y in enumerate(xs):
        r[i] = y
    return r


def _strip(x):
    """SymArray -> plain object ndarray for default numpy implementations"""
    if isinstance(x, SymArray):
        return plain(x)
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(_strip(y) for y in x)
    if isinstance(x, list):
        return [_strip(y) for y in x]
    if isinstance(x, dict):
        return {k: _strip(v) for k, v in x.items()}
    return x


def fix_index(idx):
    if isinstance(idx, tuple):
        return tuple(_fix1(i) for i in idx)
    return _fix1(idx)


def _fix1(i):
    if hasattr(i, "_sym_array"):
        i = i._sym_array()
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, SymNum):
        return i.__index__()
    if isinstance(i, list) and has_sym(i):
        i = arr(i)
    if isinstance(i, SymArray):
        p = plain(i)
        flat = list(p.ravel())
        if flat and all(isinstance(x, (SymBool, bool, np.bool_)) for x in flat):
            return np.array([bool(x) for x in flat], dtype=bool).reshape(p.shape)
        if not flat:
            return np.zeros(p.shape, dtype=int)
        return np.array([operator.index(x) for x in flat], dtype=int).reshape(p.shape)
    if isinstance(i, slice):
        f = lambda v: v.__index__() if isinstance(v, SymNum) else v
        return slice(f(i.start), f(i.stop), f(i.step))
    return i


def elementwise(f, *arrays):
    arrays = [plain(arr(a)) for a in arrays]
    n = len(arrays)
    r = np.frompyfunc(f, n, 1)(*arrays)
    if not isinstance(r, np.ndarray):
        return r
    return wrap(r)


def _isnan(x):
    return (not is_sym(x)) and isinstance(x, (float, np.floating)) and math.isnan(x)


def _isfin(x):
    return is_sym(x) or not nonfinite(x)


def _add(a, b):
    if isinstance(a, (bool, np.bool_)):
        a = int(a)
    if isinstance(b, (bool, np.bool_)):
        b = int(b)
    return a + b


def _sub(a, b):
    return (int(a) if isinstance(a, (bool, np.bool_)) else a) - (int(b) if isinstance(b, (bool, np.bool_)) else b)


def _mul(a, b):
    return (int(a) if isinstance(a, (bool, np.bool_)) else a) * (int(b) if isinstance(b, (bool, np.bool_)) else b)


def _sign(x):
    if is_sym(x):
        return s_ite(x > 0, 1.0, s_ite(x < 0, -1.0, 0.0))
    return float(np.sign(x))


UF = {
    np.add: _add, np.subtract: _sub, np.multiply: _mul,
    np.true_divide: s_div, np.floor_divide: lambda a, b: s_floor(s_div(a, b)),
    np.negative: operator.neg, np.positive: lambda x: x, np.power: s_pow, np.float_power: s_pow,
    np.square: lambda x: x * x, np.absolute: abs, np.fabs: abs, np.sign: _sign,
    np.sqrt: s_sqrt, np.exp: s_exp, np.log: s_log,
    np.less: operator.lt, np.less_equal: operator.le, np.greater: operator.gt, np.greater_equal: operator.ge,
    np.equal: operator.eq, np.not_equal: operator.ne,
    np.logical_and: s_and, np.logical_or: s_or, np.logical_not: s_not,
    np.bitwise_and: lambda a, b: s_and(a, b), np.bitwise_or: lambda a, b: s_or(a, b),
    np.logical_xor: lambda a, b: s_not(core.mkb(core.simp(core.bterm(a) == core.bterm(b)))),
    np.invert: s_not, np.maximum: s_max, np.minimum: s_min, np.fmax: s_max, np.fmin: s_min,
    np.floor: lambda x: to_float(s_floor(x)), np.ceil: lambda x: to_float(-s_floor(-x)),
    np.rint: lambda x: to_float(core.s_round(x)), np.trunc: lambda x: to_float(core.s_trunc(x)),
    np.isnan: _isnan, np.isfinite: _isfin, np.isinf: lambda x: not _isfin(x) and not _isnan(x),
    np.log10: lambda x: s_div(s_log(x), math.log(10)), np.log2: lambda x: s_div(s_log(x), math.log(2)),
    np.log1p: lambda x: s_log(1 + x), np.expm1: lambda x: s_exp(x) - 1,
    np.remainder: operator.mod, np.reciprocal: lambda x: s_div(1.0, x), np.conjugate: lambda x: x,
    np.hypot: lambda a, b: s_sqrt(a * a + b * b),
}
IDENT = {np.add: 0, np.multiply: 1, np.logical_and: True, np.logical_or: False}


def ufunc_dispatch(ufunc, method, inputs, kw):
    out_ = kw.pop("out", None)
    kw.pop("casting", None)
    kw.pop("subok", None)
    dt = kw.pop("dtype", None)
    if ufunc is np.matmul and method == "__call__":
        r = dot(inputs[0], inputs[1])
    else:
        f = UF.get(ufunc)
        if f is None:
            raise Unsupported("ufunc " + ufunc.__name__)
        if method == "__call__":
            where = kw.pop("where", True)
            if where is not True:
                raise Unsupported("ufunc where")
            r = elementwise(f, *[conv(i) for i in inputs])
        elif method == "reduce":
            axis = kw.get("axis", 0)
            r = _reduce(f, inputs[0], axis, IDENT.get(ufunc), keepdims=kw.get("keepdims", False))
        elif method == "accumulate":
            a = plain(arr(inputs[0]))
            r = wrap(np.frompyfunc(f, 2, 1).accumulate(a, axis=kw.get("axis", 0), dtype=object))
        elif method == "outer":
            a, b = plain(arr(inputs[0])), plain(arr(inputs[1]))
            r = wrap(np.frompyfunc(f, 2, 1).outer(a, b))
        else:
            raise Unsupported("ufunc method " + method)
    if isinstance(r, np.ndarray) and r.dtype == object:
        r = settle(r)
    if out_ is not None:
        o = out_[0]
        if isinstance(o, SymArray) or o.dtype == object:
            np.ndarray.__setitem__(o, Ellipsis, r)
            return o
        raise Unsupported("out= on a float array")
    return r


def settle(r):
    """an all-bool object array becomes a real bool array"""
    p = plain(r)
    if p.size and p.ndim and all(isinstance(x, (bool, np.bool_)) for x in p.ravel()):
        return p.astype(bool)
    return r


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, tuple):
        return tuple(a % nd for a in axis)
    return (axis % nd,) if nd else ()


def _reduce(f, a, axis=None, ident=None, keepdims=False, **kw):
    a = plain(arr(a))
    nd = a.ndim
    axs = _axes(axis, nd)
    if nd == 0:
        return a.item()
    rest = [i for i in range(nd) if i not in axs]
    b = a.transpose(rest + list(axs)).reshape([a.shape[i] for i in rest] + [-1])
    res = np.empty(b.shape[:-1], dtype=object)
    for idx in np.ndindex(*res.shape):
        col = list(b[idx])
        if not col:
            if ident is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            acc = ident
        else:
            acc = col[0]
            if isinstance(acc, (bool, np.bool_, SymBool)) and f is _add:
                acc = _add(acc, 0)
            for x in col[1:]:
                acc = f(acc, x)
        res[idx] = acc
    if keepdims:
        return wrap(res.reshape([1 if i in axs else a.shape[i] for i in range(nd)]))
    if res.ndim == 0:
        return res.item()
    return wrap(res)


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, **kw):
    r = _reduce(_add, a, axis, 0, keepdims)
    return r if initial is None else r + initial


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = arr(a)
    n = 1
    for i in _axes(axis, a.ndim):
        n *= a.shape[i]
    if n == 0:
        return float("nan")
    return sum_(a, axis, keepdims=keepdims) / n


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    a = arr(a)
    m = mean(a, axis, keepdims=True) if a.ndim else a
    n = 1
    for i in _axes(axis, a.ndim):
        n *= a.shape[i]
    d = a - m
    if n - ddof <= 0:
        return float("nan")
    return sum_(d * d, axis, keepdims=keepdims) / (n - ddof)


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    v = var(a, axis, ddof=ddof, keepdims=keepdims)
    return elementwise(s_sqrt, v) if isinstance(v, np.ndarray) else s_sqrt(v)


def amin(a, axis=None, out=None, keepdims=False, **kw):
    return _reduce(s_min, a, axis, None, keepdims)


def amax(a, axis=None, out=None, keepdims=False, **kw):
    return _reduce(s_max, a, axis, None, keepdims)


def all_(a, axis=None, out=None, keepdims=False, **kw):
    r = _reduce(s_and, elementwise(_truth, a), axis, True, keepdims)
    return r


def any_(a, axis=None, out=None, keepdims=False, **kw):
    return _reduce(s_or, elementwise(_truth, a), axis, False, keepdims)


def _truth(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return x != 0
    return bool(x)


def argmax(a, axis=None, **kw):
    if axis is not None and np.ndim(plain(arr(a))) > 1:
        raise Unsupported("argmax axis")
    xs = list(plain(arr(a)).ravel())
    best = 0
    for i in range(1, len(xs)):
        if xs[i] > xs[best]:
            best = i
    return best


def argmin(a, axis=None, **kw):
    if axis is not None and np.ndim(plain(arr(a))) > 1:
        raise Unsupported("argmin axis")
    xs = list(plain(arr(a)).ravel())
    best = 0
    for i in range(1, len(xs)):
        if xs[i] < xs[best]:
            best = i
    return best


def dot(a, b, out=None):
    a, b = plain(arr(a)), plain(arr(b))
    if a.ndim == 0 or b.ndim == 0:
        return wrap(np.multiply(a, b))
    if a.shape[-1] != (b.shape[0] if b.ndim == 1 else b.shape[-2]):
        raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
    A = a.reshape(1, -1) if a.ndim == 1 else a
    B = b.reshape(-1, 1) if b.ndim == 1 else b
    if A.ndim != 2 or B.ndim != 2:
        raise Unsupported("nd dot")
    r = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            acc = 0
            for k in range(A.shape[1]):
                acc = acc + A[i, k] * B[k, j]
            r[i, j] = acc
    if a.ndim == 1 and b.ndim == 1:
        return r[0, 0]
    if a.ndim == 1:
        r = r[0]
    elif b.ndim == 1:
        r = r[:, 0]
    return wrap(r)


def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    r = a
    if a_min is not None:
        r = elementwise(s_max, r, a_min)
    if a_max is not None:
        r = elementwise(s_min, r, a_max)
    return r


def where(cond, *xy):
    if not xy:
        return nonzero(cond)
    return elementwise(s_ite, cond, xy[0], xy[1])


def nonzero(a):
    a = plain(arr(a))
    mask = np.array([bool(_truth(x)) for x in a.ravel()], dtype=bool).reshape(a.shape)
    return np.nonzero(mask)


def linspace(start, stop, num=50, endpoint=True, **kw):
    num = int(num)
    if not is_sym(start) and not is_sym(stop):
        return np.linspace(start, stop, num, endpoint, **kw)
    r = np.empty(num, dtype=object)
    div = (num - 1) if endpoint else num
    for i in range(num):
        if i == 0:
            r[i] = to_float(start) if is_sym(start) else float(start)
        elif endpoint and i == num - 1:
            r[i] = to_float(stop)
        else:
            r[i] = start + (stop - start) * core.SymNum(core.frac_to_z3(core.Fraction(i, div)))
    return wrap(r)


def inv(a):
    a = plain(arr(a))
    n = a.shape[0]
    return solve(a, np.eye(n))


def minor_det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    acc = 0
    for j in range(n):
        x = M[0][j]
        if not is_sym(x) and x == 0:
            continue
        sub = [row[:j] + row[j + 1:] for row in M[1:]]
        c = x * minor_det(sub)
        acc = acc + c if j % 2 == 0 else acc - c
    return acc


def det(a):
    a = plain(arr(a))
    return minor_det([list(r) for r in a])


def solve(a, b):
    """exact linear solve: fraction-free for numbers, Cramer for symbols"""
    a, b = plain(arr(a)), plain(arr(b))
    n = a.shape[0]
    vec = b.ndim == 1
    B = b.reshape(n, 1) if vec else b
    if not any(is_sym(x) for x in a.ravel()):
        X = _gauss([[core.Fraction(x) for x in row] for row in a], B)
    else:
        M = [list(r) for r in a]
        d = minor_det(M)
        if bool(d == 0):
            raise np.linalg.LinAlgError("Singular matrix")
        adj = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                sub = [row[:i] + row[i + 1:] for k, row in enumerate(M) if k != j]
                m_ = minor_det(sub) if sub else 1.0
                adj[i][j] = m_ if (i + j) % 2 == 0 else -m_
        X = np.empty(B.shape, dtype=object)
        for i in range(n):
            for c in range(B.shape[1]):
                acc = 0
                for j in range(n):
                    acc = acc + adj[i][j] * B[j, c]
                X[i, c] = s_div(acc, d)
    X = wrap(X)
    return X[:, 0] if vec else X


def _gauss(A, B):
    n = len(A)
    A = [row[:] for row in A]
    X = [[B[i, c] for c in range(B.shape[1])] for i in range(n)]
    for i in range(n):
        p = next((r for r in range(i, n) if A[r][i] != 0), None)
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        A[i], A[p] = A[p], A[i]
        X[i], X[p] = X[p], X[i]
        iv = 1 / A[i][i]
        A[i] = [v * iv for v in A[i]]
        X[i] = [_fm(v, iv) for v in X[i]]
        for r in range(n):
            if r != i and A[r][i] != 0:
                f = A[r][i]
                A[r] = [x - f * y for x, y in zip(A[r], A[i])]
                X[r] = [_fs(x, _fm(y, f)) for x, y in zip(X[r], X[i])]
    R = np.empty(B.shape, dtype=object)
    for i in range(n):
        for c in range(B.shape[1]):
            R[i, c] = core.mk(core.frac_to_z3(X[i][c])) if isinstance(X[i][c], core.Fraction) else X[i][c]
    return R


def _fr(v):
    return v if isinstance(v, core.Fraction) or is_sym(v) else core.Fraction(v)


def _fm(v, f):
    v = _fr(v)
    if is_sym(v):
        return v * core.SymNum(core.frac_to_z3(f)) if is_sym(v) else v * f
    return v * f


def _fs(x, y):
    x, y = _fr(x), _fr(y)
    if is_sym(x) or is_sym(y):
        a = x if is_sym(x) else core.SymNum(core.frac_to_z3(x))
        b = y if is_sym(y) else core.SymNum(core.frac_to_z3(y))
        return a - b
    return x - y


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False, like=None):
    if not has_sym(x):
        x2 = conv(x)
        k = dtype
        if isinstance(dtype, type) and getattr(dtype, "_sx_name", None):
            k = {"float": float, "int": int}[dtype._sx_name]
        r = np.array(x2, dtype=k, ndmin=ndmin)
        return out(r)
    a = arr(x, copy=True)
    if dtype is not None:
        a = a.astype(dtype)
        if not isinstance(a, np.ndarray):
            a = arr(a)
    p = plain(a)
    while p.ndim < ndmin:
        p = p[None, ...]
    return settle(out(p)) if p.dtype == object else p


def asarray(x, dtype=None, **kw):
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    return array(x, dtype=dtype)


def zeros(shape, dtype=None, order="C"):
    return full(shape, 0.0)


def ones(shape, dtype=None, order="C"):
    return full(shape, 1.0)


def full(shape, v, dtype=None, order="C"):
    shape = tuple(shape) if isinstance(shape, (list, tuple)) else (shape,)
    shape = tuple(operator.index(s) for s in shape)
    r = np.empty(shape, dtype=object)
    r[...] = v
    return wrap(r)


def zeros_like(a, dtype=None, **kw):
    return full(np.shape(plain(arr(a))), 0.0)


def ones_like(a, dtype=None, **kw):
    return full(np.shape(plain(arr(a))), 1.0)


def full_like(a, v, **kw):
    return full(np.shape(plain(arr(a))), v)


def eye(n, M=None, k=0, **kw):
    return wrap(np.eye(n, M, k).astype(object))


def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    return elementwise(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    return all_(isclose(a, b, rtol, atol))


def array_equal(a, b, **kw):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return False
    return all_(elementwise(operator.eq, a, b))


def interp(x, xp, fp, left=None, right=None, **kw):
    xp, fp = list(plain(arr(xp)).ravel()), list(plain(arr(fp)).ravel())

    def one(v):
        if bool(v <= xp[0]):
            return fp[0] if left is None or bool(v == xp[0]) else left
        if bool(v >= xp[-1]):
            return fp[-1] if right is None or bool(v == xp[-1]) else right
        for i in range(1, len(xp)):
            if i == len(xp) - 1 or bool(v <= xp[i]):
                return fp[i - 1] + s_div((fp[i] - fp[i - 1]) * (v - xp[i - 1]), xp[i] - xp[i - 1])
    return elementwise(one, x)


def count_nonzero(a, axis=None, **kw):
    return sum_(elementwise(lambda x: to_int(_truth(x)), a), axis)


def diff(a, n=1, axis=-1, **kw):
    a = arr(a)
    if a.ndim != 1:
        p = plain(a)
        p = np.moveaxis(p, axis, -1)
        r = wrap(p[..., 1:]) - wrap(p[..., :-1])
        return wrap(np.moveaxis(plain(r), -1, axis))
    return a[1:] - a[:-1]


def cumsum(a, axis=None, **kw):
    p = plain(arr(a))
    if axis is None:
        p, axis = p.ravel(), 0
    return wrap(np.frompyfunc(_add, 2, 1).accumulate(p, axis=axis, dtype=object))


def quantile(a, q, axis=None, **kw):
    p = plain(arr(a))
    if axis is not None and p.ndim > 1:
        p = np.moveaxis(p, axis, 0)
        return wrap(np.array([quantile(p[:, i], q) for i in range(p.shape[1])], dtype=object))
    xs = sorted(p.ravel().tolist())
    n = len(xs)
    pos = q * (n - 1)
    for i in range(n - 1):
        if i == n - 2 or bool(pos <= i + 1):
            return xs[i] + (xs[i + 1] - xs[i]) * (pos - i)
    return xs[0]


def percentile(a, q, axis=None, **kw):
    return quantile(a, q / 100.0, axis, **kw)


def median(a, axis=None, **kw):
    return quantile(a, 0.5, axis)


def ravel(a, order="C"):
    return wrap(plain(arr(a)).ravel(order))


def sort(a, axis=-1, **kw):
    p = plain(arr(a)).copy()
    p.sort(axis=axis)
    return wrap(p)


def argsort(a, axis=-1, kind=None, **kw):
    p = plain(arr(a))
    if p.ndim == 1:
        xs = list(p)
        # stable insertion sort; forks on comparisons
        idx = []
        for i in range(len(xs)):
            j = len(idx)
            while j > 0 and bool(xs[i] < xs[idx[j - 1]]):
                j -= 1
            idx.insert(j, i)
        return np.array(idx, dtype=int)
    return p.argsort(axis=axis)


def nan_to_num(a, **kw):
    return elementwise(lambda x: 0.0 if _isnan(x) else x, a)


def real_unique(a, **kw):
    xs = list(plain(arr(a)).ravel())
    outl = []
    for x in xs:
        if not any(bool(x == y) for y in outl):
            outl.append(x)
    outl.sort()
    return wrap(np.array(outl, dtype=object))


def nanmax(a, axis=None, **kw):
    p = plain(arr(a))
    if axis is None:
        xs = [x for x in p.ravel() if not _isnan(x)]
        return _reduce(s_max, xs, None)
    raise Unsupported("nanmax axis")


def average(a, axis=None, weights=None, **kw):
    if weights is None:
        return mean(a, axis)
    return sum_(arr(a) * arr(weights), axis) / sum_(weights, axis)


def einsum_unsupported(*a, **k):
    raise Unsupported("einsum")


FUNCS = {
    np.sum: sum_, np.mean: mean, np.var: var, np.std: std, np.min: amin, np.max: amax, np.amin: amin, np.amax: amax,
    np.all: all_, np.any: any_, np.argmax: argmax, np.argmin: argmin, np.dot: dot, np.clip: clip, np.where: where,
    np.nonzero: nonzero, np.flatnonzero: lambda a: nonzero(ravel(a))[0], np.argwhere: lambda a: np.transpose(nonzero(a)),
    np.isclose: isclose, np.allclose: allclose, np.array_equal: array_equal, np.interp: interp,
    np.count_nonzero: count_nonzero, np.diff: diff, np.cumsum: cumsum, np.quantile: quantile,
    np.percentile: percentile, np.median: median, np.sort: sort, np.argsort: argsort,
    np.zeros_like: zeros_like, np.ones_like: ones_like, np.full_like: full_like, np.nan_to_num: nan_to_num,
    np.unique: real_unique, np.nanmax: nanmax, np.average: average, np.prod: lambda a, axis=None, **k: _reduce(_mul, a, axis, 1),
    np.linalg.inv: inv, np.linalg.solve: solve, np.linalg.det: det, np.outer: lambda a, b, **k: wrap(np.frompyfunc(_mul, 2, 1).outer(plain(arr(a)).ravel(), plain(arr(b)).ravel())),
    np.inner: lambda a, b: dot(a, np.transpose(plain(arr(b)))), np.vdot: lambda a, b: dot(ravel(a), ravel(b)),
    np.linspace: linspace, np.einsum: einsum_unsupported,
    np.round: lambda a, decimals=0, **k: elementwise(lambda x: core.s_round(x, decimals), a),
    np.trace: lambda a, **k: _reduce(_add, np.diagonal(plain(arr(a))), None, 0),
}


def _scalar(r):
    if isinstance(r, np.ndarray) and r.ndim == 0 and r.dtype == object:
        return r.item()
    return r


class Shim(types.ModuleType):
    """`numpy` as seen by the code under test"""

    def __init__(self, name="numpy"):
        super().__init__(name)
        self._over = {}

    def __getattr__(self, name):
        if name.startswith("_") and name != "__version__":
            return getattr(np, name)
        o = self.__dict__["_over"].get(name)
        if o is not None:
            return o
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            w = _wrap_ufunc(v)
        elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) or type(v).__name__ == "_ArrayFunctionDispatcher":
            w = _wrap_func(v)
        else:
            w = v
        self.__dict__["_over"][name] = w
        return w


def _wrap_ufunc(u):
    class U:
        __name__ = u.__name__

        def __call__(self, *a, **k):
            if any(has_sym(x) for x in a):
                return ufunc_dispatch(u, "__call__", [conv(x) if not isinstance(x, (list, tuple)) else arr(x) for x in a], dict(k))
            return u(*[conv(x) for x in a], **k)

        def reduce(self, a, axis=0, **k):
            return ufunc_dispatch(u, "reduce", [a], dict(k, axis=axis)) if has_sym(a) else u.reduce(a, axis=axis, **k)

        def outer(self, a, b, **k):
            return ufunc_dispatch(u, "outer", [a, b], dict(k)) if has_sym(a) or has_sym(b) else u.outer(a, b, **k)

        def accumulate(self, a, axis=0, **k):
            return ufunc_dispatch(u, "accumulate", [a], dict(k, axis=axis)) if has_sym(a) else u.accumulate(a, axis=axis, **k)
    return U()


LISTY = {"hstack", "vstack", "concatenate", "stack", "column_stack", "dstack", "row_stack", "block", "r_", "c_", "append"}


def _wrap_func(f):
    name = f.__name__

    def w(*a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            h = FUNCS.get(f)
            if h is not None:
                return _scalar(h(*a, **k))
            if name in LISTY:
                if name == "append":
                    a2 = [plain(arr(a[0])), plain(arr(a[1]))] + list(a[2:])
                    return out(f(*a2, **k))
                seq = a[0]
                if isinstance(seq, np.ndarray) or hasattr(seq, "_sym_array"):
                    seq = list(arr(seq)) if np.ndim(plain(arr(seq))) else [seq]
                    seq = [plain(x) if isinstance(x, np.ndarray) else x for x in seq]
                else:
                    seq = [plain(arr(x)) for x in seq]
                seq = [np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x.astype(object) for x in seq]
                return settle(out(f(seq, *_strip(list(a[1:])), **_strip(k))))
            a = [arr(x) if isinstance(x, (list, tuple)) and has_sym(x) else conv(x) for x in a]
            return _scalar(out(f(*_strip(a), **_strip({kk: conv(v) for kk, v in k.items()}))))
        return f(*[conv(x) for x in a], **k)
    w.__name__ = name
    w.__wrapped__ = f
    return w


class _Sub(types.ModuleType):
    def __init__(self, name, base, over):
        super().__init__(name)
        self.__dict__["_base"] = base
        self.__dict__["_over"] = over

    def __getattr__(self, n):
        if n in self.__dict__["_over"]:
            return self.__dict__["_over"][n]
        v = getattr(self.__dict__["_base"], n)
        if callable(v) and not isinstance(v, type):
            def w(*a, **k):
                if any(has_sym(x) for x in a):
                    h = FUNCS.get(v)
                    if h is not None:
                        return h(*a, **k)
                    raise Unsupported("numpy." + self.__name__ + "." + n)
                return v(*a, **k)
            return w
        return v


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.float64) or isinstance(x, SymNum)

    def __call__(cls, x=0.0):
        if is_sym(x):
            return to_float(x)
        return np.float64(x)


class float64(metaclass=_FloatMeta):
    _sx_name = "float"


def make(rand=None):
    s = Shim()
    s._over.update(array=array, asarray=asarray, asanyarray=asarray, zeros=zeros, ones=ones, full=full, eye=eye, identity=eye,
                   empty=zeros, zeros_like=zeros_like, ones_like=ones_like, empty_like=zeros_like,
                   linspace=linspace, atleast_1d=_wrap_func(np.atleast_1d), ravel=_wrap_func(np.ravel))
    s._over["linalg"] = _Sub("linalg", np.linalg, {"inv": inv, "solve": solve, "det": det})
    s._over["random"] = _Sub("random", np.random, rand or {})
    s._over["nditer"] = np.nditer
    return s
