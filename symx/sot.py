"""Deterministic part of openturns re-stated over symbolic values.

Only data structures, exact algebra and documented contracts; differentially
tested against the real openturns on concrete values (selftest.py).
Random/fitting classes live in env.py.
"""
import math
import numpy as np
import z3
from . import core, snp
from .core import (SymNum, SymBool, is_sym, s_and, s_or, s_not, s_ite, s_max, s_min, s_div, s_sqrt, uf, Unsupported)
from .snp import SymArray, arr, plain, wrap


def num(x):
    """accepted as an OT scalar"""
    if is_sym(x):
        return snp.to_float(x)
    if isinstance(x, (np.ndarray,)) and x.ndim == 0:
        return num(x.item())
    if isinstance(x, (int, float, np.integer, np.floating, np.bool_)):
        return float(x)
    raise TypeError("InvalidArgumentException : not a scalar: %r" % type(x))


def is_scalar(x):
    return is_sym(x) or isinstance(x, (int, float, np.integer, np.floating)) or (isinstance(x, np.ndarray) and x.ndim == 0)


def seq(x):
    """sequence of scalars"""
    if isinstance(x, Point):
        return list(x._v)
    if isinstance(x, np.ndarray):
        if x.ndim != 1:
            raise TypeError("InvalidArgumentException : Object passed as argument is not a sequence object")
        return [num(v) for v in plain(x).tolist()] if x.dtype == object else [float(v) for v in x]
    if isinstance(x, (list, tuple)):
        return [num(v) for v in x]
    if hasattr(x, "_seq"):
        return x._seq()
    raise TypeError("InvalidArgumentException : Object passed as argument is not a sequence object")


class Description(list):
    def getSize(self):
        return len(self)

    @staticmethod
    def BuildDefault(n, base):
        return Description([base + str(i) for i in range(n)])


class Point:
    _sym_container = True

    def __init__(self, *a):
        if not a:
            self._v = []
        elif len(a) == 2:
            self._v = [num(a[1])] * int(a[0])
        elif isinstance(a[0], (int, np.integer)):
            self._v = [0.0] * int(a[0])
        else:
            self._v = seq(a[0])

    def _sym_array(self):
        return arr(list(self._v))

    def __array__(self, dtype=None, copy=None):
        return np.array([x for x in self._v], dtype=object)

    def getDimension(self): return len(self._v)
    getSize = getDimension
    def __len__(self): return len(self._v)
    def __iter__(self): return iter(list(self._v))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Point(self._v[i])
        i = i.__index__()
        if i >= len(self._v) or i < -len(self._v):
            raise IndexError("OutOfBoundException : Index (%d) is not less than size" % i)
        return self._v[i]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self._v[i] = seq(v)
        else:
            self._v[i.__index__()] = num(v)

    def add(self, x):
        if is_scalar(x):
            self._v.append(num(x))
        else:
            self._v.extend(seq(x))

    def _z(self, o, f):
        if is_scalar(o):
            raise TypeError("unsupported operand type(s): 'Point' and scalar")
        o = seq(o)
        if len(o) != len(self._v):
            raise TypeError("InvalidArgumentException : Points of different dimensions")
        return Point([f(a, b) for a, b in zip(self._v, o)])

    def __add__(self, o): return self._z(o, lambda a, b: a + b)
    def __sub__(self, o): return self._z(o, lambda a, b: a - b)
    def __radd__(self, o): return self._z(o, lambda a, b: b + a)
    def __rsub__(self, o): return self._z(o, lambda a, b: b - a)

    def __mul__(self, k):
        return Point([a * num(k) for a in self._v])

    __rmul__ = __mul__

    def __truediv__(self, k):
        return Point([s_div(a, num(k)) for a in self._v])

    def __neg__(self):
        return Point([-a for a in self._v])

    def dot(self, o):
        r = 0.0
        o = seq(o)
        if len(o) != len(self._v):
            raise TypeError("InvalidArgumentException : Points of different dimensions")
        for a, b in zip(self._v, o):
            r = r + a * b
        return r

    def normSquare(self): return self.dot(self._v)
    def norm(self): return s_sqrt(self.normSquare())
    def norm1(self): return sum((abs(a) for a in self._v), 0.0)

    def __eq__(self, o):
        try:
            o = seq(o)
        except TypeError:
            return False
        if len(o) != len(self._v):
            return False
        return s_and(*[a == b for a, b in zip(self._v, o)])

    def __ne__(self, o):
        return s_not(self == o)

    __hash__ = None

    def __repr__(self):
        return "[" + ",".join(str(x) for x in self._v) + "]"


class PointWithDescription(Point):
    def __init__(self, *a):
        self._d = []
        if len(a) == 1 and isinstance(a[0], (list, tuple)) and a[0] and isinstance(a[0][0], (list, tuple)):
            self._v = [num(v) for _, v in a[0]]
            self._d = [k for k, _ in a[0]]
        elif len(a) == 1 and isinstance(a[0], PointWithDescription):
            self._v, self._d = list(a[0]._v), list(a[0]._d)
        else:
            super().__init__(*a)

    def setDescription(self, d):
        d = [str(x) for x in d]
        if len(d) != len(self._v):
            raise TypeError("InvalidArgumentException : Description has incorrect dimension")
        self._d = d

    def getDescription(self):
        return Description(self._d)


class Sample:
    _sym_container = True

    def __init__(self, *a):
        self._d = None
        if not a:
            self._a = wrap(np.empty((0, 1), dtype=object))
            return
        if len(a) == 2:
            x, y = a
            if isinstance(x, (int, np.integer, SymNum)) and isinstance(y, (int, np.integer, SymNum)):
                self._a = snp.full((x, y), 0.0)
                return
            if isinstance(x, (int, np.integer, SymNum)):
                row = seq(y)
                n = x.__index__()
                r = np.empty((n, len(row)), dtype=object)
                for i in range(n):
                    r[i] = row
                self._a = wrap(r)
                return
            if isinstance(y, (int, np.integer)):        # (flat array, dim)
                v = seq(x)
                self._a = wrap(np.array(v, dtype=object).reshape(-1, int(y)))
                return
            raise TypeError("Sample constructor")
        self._a = wrap(as2d(a[0]))
        if isinstance(a[0], Sample):
            self._d = None if a[0]._d is None else list(a[0]._d)

    def _sym_array(self):
        return wrap(plain(self._a).copy())

    def __array__(self, dtype=None, copy=None):
        return plain(self._a).copy()

    def getSize(self): return self._a.shape[0]
    def getDimension(self): return self._a.shape[1]
    def __len__(self): return self._a.shape[0]
    def __iter__(self): return iter([Point(list(r)) for r in plain(self._a)])

    @property
    def shape(self): return self._a.shape

    def getDescription(self):
        return Description(self._d if self._d is not None else ["v%d" % i for i in range(self.getDimension())])

    def setDescription(self, d):
        if len(d) != self.getDimension():
            raise TypeError("InvalidArgumentException : Description has incorrect dimension")
        self._d = [str(x) for x in d]

    def _chk(self, i, n):
        if i >= n or i < -n:
            raise IndexError("OutOfBoundException : Index (%d) is not less than size (%d)" % (i, n))

    def __getitem__(self, idx):
        idx = snp.fix_index(idx)
        p = plain(self._a)
        if isinstance(idx, tuple):
            i, j = idx
            si, sj = _isint(i), _isint(j)
            if si:
                self._chk(int(i), p.shape[0])
            if sj:
                self._chk(int(j), p.shape[1])
            if si and sj:
                return p[i, j]
            if si:
                return Point(list(p[i, j]))
            if sj:
                return _mkS(p[i, :][:, [j]])
            return _mkS(p[i, :][:, j])
        if _isint(idx):
            self._chk(int(idx), p.shape[0])
            return Point(list(p[idx]))
        return _mkS(p[idx])

    def __setitem__(self, idx, val):
        idx = snp.fix_index(idx)
        p = plain(self._a)
        if isinstance(idx, tuple):
            i, j = idx
            si, sj = _isint(i), _isint(j)
            if si:
                self._chk(int(i), p.shape[0])
            if sj:
                self._chk(int(j), p.shape[1])
            if si and sj:
                p[i, j] = num(val)
                return
            if si:
                v = seq(val)
                if len(v) != p[i, j].shape[0]:
                    raise TypeError("InvalidArgumentException : wrong size")
                p[i, j] = v
                return
            v = as2d(val)
            jj = [int(j) % p.shape[1]] if sj else list(range(p.shape[1]))[j] if isinstance(j, slice) else list(j)
            ii = list(range(p.shape[0]))[i] if isinstance(i, slice) else list(i)
            if v.shape != (len(ii), len(jj)):
                raise TypeError("InvalidArgumentException : wrong shape in Sample.__setitem__")
            for a, r in enumerate(ii):
                for b, c in enumerate(jj):
                    p[r, c] = v[a, b]
            return
        if _isint(idx):
            self._chk(int(idx), p.shape[0])
            v = seq(val)
            if len(v) != p.shape[1]:
                raise TypeError("InvalidArgumentException : wrong dimension")
            p[idx] = v
            return
        v = as2d(val)
        if p[idx].shape != v.shape:
            raise TypeError("InvalidArgumentException : wrong shape in Sample.__setitem__")
        p[idx] = v

    def add(self, x):
        if isinstance(x, Sample) or (isinstance(x, np.ndarray) and x.ndim == 2):
            v = as2d(x)
        else:
            s = seq(x)
            v = np.empty((1, len(s)), dtype=object)
            v[0] = s
        if v.shape[1] != self._a.shape[1]:
            raise TypeError("InvalidArgumentException : Point has invalid dimension")
        self._a = wrap(np.vstack([plain(self._a), v]))

    def stack(self, o):
        v = as2d(o)
        if v.shape[0] != self._a.shape[0]:
            raise TypeError("InvalidArgumentException")
        self._a = wrap(np.hstack([plain(self._a), v]))

    def erase(self, i, j=None):
        n = self.getSize()
        if j is None:
            if isinstance(i, (list, tuple)):
                self._a = wrap(np.delete(plain(self._a), list(i), axis=0))
                return
            i = i.__index__()
            self._chk(i, n)
            self._a = wrap(np.delete(plain(self._a), i, axis=0))
        else:
            self._a = wrap(np.delete(plain(self._a), list(range(i, j)), axis=0))

    def _col(self, f):
        if self.getSize() == 0:
            raise RuntimeError("InternalException : empty sample")
        return Point([f(list(plain(self._a)[:, j])) for j in range(self.getDimension())])

    def getMin(self): return self._col(lambda c: snp._reduce(s_min, c))
    def getMax(self): return self._col(lambda c: snp._reduce(s_max, c))
    def computeMean(self): return self._col(lambda c: s_div(snp._reduce(snp._add, c), len(c)))

    def computeVariance(self):
        n = self.getSize()
        if n == 0:
            raise RuntimeError("InternalException : empty sample")
        if n == 1:
            return Point([0.0] * self.getDimension())
        return self._col(lambda c: snp.var(c, ddof=1))

    def computeStandardDeviation(self):
        return Point([s_sqrt(v) for v in self.computeVariance()])

    computeStandardDeviationPerComponent = computeStandardDeviation

    def computeCovariance(self):
        n, d = self._a.shape
        if n == 0:
            raise RuntimeError("InternalException : empty sample")
        m = self.computeMean()
        r = np.empty((d, d), dtype=object)
        for i in range(d):
            for j in range(d):
                acc = 0.0
                for k in range(n):
                    acc = acc + (self._a[k, i] - m[i]) * (self._a[k, j] - m[j])
                r[i, j] = s_div(acc, n - 1) if n > 1 else 0.0
        return CovarianceMatrix(r)

    def computeQuantilePerComponent(self, q):
        if not is_scalar(q):
            qs = seq(q)
            return Sample([list(self.computeQuantilePerComponent(x)) for x in qs])
        q = num(q)
        if bool(s_or(q < 0, q > 1)):
            raise TypeError("InvalidArgumentException : Error: cannot compute a quantile for a probability level outside of [0, 1]")
        return self._col(lambda c: quantile_ot(c, q))

    def computeMedian(self): return self.computeQuantilePerComponent(0.5)

    def computeEmpiricalCDF(self, x, tail=False):
        x = seq(x)
        if len(x) != 1 or self.getDimension() != 1:
            raise Unsupported("multivariate empirical CDF")
        n = self.getSize()
        c = [(v > x[0]) if tail else (v <= x[0]) for v in plain(self._a)[:, 0]]
        return s_div(snp.sum_(arr(c)), n)

    def getMarginal(self, i):
        if isinstance(i, (list, tuple)):
            return _mkS(plain(self._a)[:, list(i)])
        i = i.__index__()
        if i < 0 or i >= self.getDimension():
            raise IndexError("OutOfBoundException")
        return _mkS(plain(self._a)[:, [i]])

    def asPoint(self):
        if self.getDimension() != 1:
            raise RuntimeError("NotDefinedException : the conversion to Point is defined only for a sample of dimension=1")
        return Point(list(plain(self._a)[:, 0]))

    def sort(self, j=None):
        if self.getDimension() == 1:
            c = list(plain(self._a)[:, 0])
            c.sort()
            return Sample([[v] for v in c])
        raise Unsupported("multivariate sort")

    def sortAccordingToAComponent(self, j):
        o = snp.argsort(self._a[:, j])
        return _mkS(plain(self._a)[o])

    def getImplementation(self): return self
    def getClassName(self): return "Sample"

    def _op(self, o, f, flip=False):
        if is_scalar(o):
            o = num(o)
            return _mkS(np.frompyfunc(lambda a: f(o, a) if flip else f(a, o), 1, 1)(plain(self._a)))
        if isinstance(o, (list, tuple, Point)) and not (isinstance(o, (list, tuple)) and o and isinstance(o[0], (list, tuple))):
            o = np.array(seq(o), dtype=object)
            if o.shape[0] != self.getDimension():
                raise TypeError("InvalidArgumentException : wrong dimension")
        else:
            o = as2d(o)
            if o.shape != self._a.shape:
                raise TypeError("InvalidArgumentException : Samples of different shapes %s %s" % (o.shape, self._a.shape))
        return _mkS(np.frompyfunc((lambda a, b: f(b, a)) if flip else f, 2, 1)(plain(self._a), o))

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __mul__(self, o):
        if isinstance(o, Sample):
            raise TypeError("unsupported operand type(s) for *: 'Sample' and 'Sample'")
        return self._op(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._op(o, lambda a, b: s_div(a, b))

    def __radd__(self, o):
        if type(o) in (int, float):
            raise TypeError("unsupported operand type(s) for +: 'float' and 'Sample'")
        return self._op(o, lambda a, b: a + b, True)

    def __rsub__(self, o):
        if type(o) in (int, float):
            raise TypeError("unsupported operand type(s) for -: 'float' and 'Sample'")
        return self._op(o, lambda a, b: a - b, True)

    def __rmul__(self, o): return self._op(o, lambda a, b: a * b, True)

    def __lt__(self, o): raise TypeError("'<' not supported between instances of 'Sample' and '%s'" % type(o).__name__)
    def __gt__(self, o): raise TypeError("'>' not supported between instances of 'Sample' and '%s'" % type(o).__name__)
    def __le__(self, o): raise TypeError("'<=' not supported")
    def __ge__(self, o): raise TypeError("'>=' not supported")

    def __eq__(self, o):
        if not isinstance(o, Sample) or o._a.shape != self._a.shape:
            return False
        return s_and(*[a == b for a, b in zip(plain(self._a).ravel(), plain(o._a).ravel())])

    def __ne__(self, o): return s_not(self == o)
    __hash__ = None
    def __repr__(self): return "Sample" + str(plain(self._a).tolist())

    @staticmethod
    def ImportFromTextFile(*a):
        raise Unsupported("ImportFromTextFile")


def _isint(i):
    return isinstance(i, (int, np.integer)) and not isinstance(i, bool)


def _mkS(p):
    s = Sample.__new__(Sample)
    s._d = None
    s._a = wrap(np.array(p, dtype=object))
    return s


def as2d(x):
    if isinstance(x, Sample):
        return plain(x._a).copy()
    if isinstance(x, Matrix):
        return plain(x._m).copy()
    if isinstance(x, np.ndarray):
        if x.ndim != 2:
            raise TypeError("InvalidArgumentException : Invalid array dimension %d is ambiguous, please set the dimension explicitly" % x.ndim)
        p = plain(x).astype(object)
        return np.frompyfunc(num, 1, 1)(p) if p.size else p
    if isinstance(x, (list, tuple)):
        rows = [seq(r) for r in x]
        if not rows:
            return np.empty((0, 1), dtype=object)
        if any(len(r) != len(rows[0]) for r in rows):
            raise TypeError("InvalidArgumentException : Points have different dimensions")
        r = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, row in enumerate(rows):
            r[i] = row
        return r
    if hasattr(x, "_sym_array"):
        return as2d(x._sym_array())
    raise TypeError("InvalidArgumentException : Object passed as argument is not a sequence object")


def quantile_ot(c, q):
    """openturns' empirical quantile: linear interpolation at n*q - 0.5, clamped"""
    xs = sort_network(list(c))
    n = len(xs)
    pos = q * n - 0.5
    if bool(pos <= 0):
        return xs[0]
    if bool(pos >= n - 1):
        return xs[-1]
    for i in range(n - 1):
        if i == n - 2 or bool(pos <= i + 1):
            w = pos - i
            return xs[i] + (xs[i + 1] - xs[i]) * w
    return xs[-1]


def sort_network(xs):
    """sorted list by compare-exchange (no forking)"""
    xs = list(xs)
    n = len(xs)
    if not any(is_sym(x) for x in xs):
        return sorted(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = s_min(a, b), s_max(a, b)
    return xs


# ------------------------------------------------------------------ matrices
class Matrix:
    _sym_container = True

    def __init__(self, *a):
        if not a:
            self._m = wrap(np.empty((0, 0), dtype=object))
        elif len(a) == 1 and isinstance(a[0], (int, np.integer)):
            self._m = snp.full((a[0], a[0]), 0.0)
        elif len(a) == 1:
            self._m = wrap(as2d(a[0]))
        elif len(a) == 2 and isinstance(a[1], (int, np.integer)):
            self._m = snp.full((a[0], a[1]), 0.0)
        elif len(a) == 2:
            n = int(a[0])
            self._m = wrap(np.array(seq(a[1]), dtype=object).reshape((n, -1), order="F"))
        else:
            n, m = int(a[0]), int(a[1])
            self._m = wrap(np.array(seq(a[2]), dtype=object).reshape((n, m), order="F"))
        self._post()

    def _post(self):
        pass

    def _sym_array(self): return wrap(plain(self._m).copy())
    def __array__(self, dtype=None, copy=None): return plain(self._m).copy()
    def getNbRows(self): return self._m.shape[0]
    def getNbColumns(self): return self._m.shape[1]
    def getDimension(self): return self._m.shape[0]
    def getImplementation(self): return self

    @property
    def shape(self): return self._m.shape

    def __getitem__(self, idx):
        idx = snp.fix_index(idx)
        if not isinstance(idx, tuple):
            raise TypeError("Matrix index")
        i, j = idx
        if _isint(i) and _isint(j):
            if i >= self._m.shape[0] or j >= self._m.shape[1]:
                raise IndexError("OutOfBoundException")
            return plain(self._m)[i, j]
        p = plain(self._m)
        p = p[[i], :] if _isint(i) else p[i, :]
        p = p[:, [j]] if _isint(j) else p[:, j]
        return Matrix(p)

    def __setitem__(self, idx, v):
        i, j = snp.fix_index(idx)
        if _isint(i) and _isint(j):
            self._m[i, j] = num(v)
            return
        p = plain(self._m)
        v = as2d(v)
        ri = [i] if _isint(i) else list(range(p.shape[0]))[i]
        rj = [j] if _isint(j) else list(range(p.shape[1]))[j]
        if v.shape != (len(ri), len(rj)):
            raise TypeError("Matrix setitem shape")
        for a, r in enumerate(ri):
            for b, c in enumerate(rj):
                p[r, c] = v[a, b]

    def transpose(self): return Matrix(plain(self._m).T)

    def computeGram(self, transpose=True):
        m = self._m
        mt = wrap(plain(m).T)
        return CovarianceMatrix(plain(snp.dot(mt, m) if transpose else snp.dot(m, mt)))

    def solveLinearSystem(self, b, keep=True):
        if isinstance(b, (Point, list, tuple)):
            return Point(list(snp.solve(self._m, arr(seq(b)))))
        return Matrix(plain(snp.solve(self._m, as2d(b))))

    solveLinearSystemInPlace = solveLinearSystem

    def inverse(self): return Matrix(plain(snp.inv(self._m)))
    def computeTrace(self): return snp._reduce(snp._add, np.diagonal(plain(self._m)), None, 0)
    def computeDeterminant(self): return snp.det(self._m)

    def __mul__(self, o):
        if is_scalar(o):
            return type(self)._raw(np.frompyfunc(lambda a: a * o, 1, 1)(plain(self._m)))
        if isinstance(o, (Point, list, tuple)):
            return Point(list(snp.dot(self._m, arr(seq(o)))))
        return Matrix(plain(snp.dot(self._m, as2d(o))))

    def __rmul__(self, o): return self * o
    def __truediv__(self, o): return self * s_div(1.0, o)
    def __add__(self, o): return Matrix(plain(self._m + arr(o)))
    def __sub__(self, o): return Matrix(plain(self._m - arr(o)))

    def getDiagonalAsPoint(self): return Point(list(np.diagonal(plain(self._m))))

    @classmethod
    def _raw(cls, p):
        m = Matrix(p)
        return m


class SquareMatrix(Matrix):
    def _post(self):
        if self._m.shape[0] != self._m.shape[1]:
            raise TypeError("InvalidArgumentException : not square")


class SymmetricMatrix(SquareMatrix):
    pass


class CovarianceMatrix(SymmetricMatrix):
    pass


class CorrelationMatrix(CovarianceMatrix):
    pass


class IdentityMatrix(CovarianceMatrix):
    def __init__(self, n=1):
        self._m = snp.eye(n)


# ------------------------------------------------------------------ functions
def tosample(x):
    return Sample(x)


class FuncBase:
    """a function R^n -> R^p on symbolic points"""
    _in = 1
    _out = 1

    def __call__(self, *args):
        x = args[0] if len(args) == 1 else list(args)
        if is_scalar(x) and len(args) == 1:
            raise TypeError("Wrong number or type of arguments for overloaded function 'Function___call__'.")
        if isinstance(x, Sample) or (isinstance(x, np.ndarray) and x.ndim == 2) or isinstance(x, Matrix) or \
                (isinstance(x, (list, tuple)) and x and not is_scalar(x[0])):
            s = Sample(x)
            if s.getSize() and s.getDimension() != self._in:
                raise TypeError("InvalidArgumentException : Incorrect input dimension %d expected %d" % (s.getDimension(), self._in))
            r = self._evals(s)
            return r
        p = seq(x)
        if len(p) != self._in:
            raise TypeError("InvalidArgumentException : Incorrect input dimension %d expected %d" % (len(p), self._in))
        return Point(self._eval(p))

    def _evals(self, s):
        rows = [self._eval(list(r)) for r in s]
        if not rows:
            return Sample(0, self._out)
        return Sample([list(r) for r in rows])

    def getInputDimension(self): return self._in
    def getOutputDimension(self): return self._out
    def getMarginal(self, i): return _Marg(self, i)
    def getEvaluation(self): return self
    def getImplementation(self): return self
    def setInputDescription(self, d): pass
    def setOutputDescription(self, d): pass

    def draw(self, *a):
        return Graph(("draw", self) + a)


class _Marg(FuncBase):
    def __init__(self, f, i):
        self._f, self._i, self._in, self._out = f, i, f._in, 1

    def _eval(self, x):
        return [self._f._eval(x)[self._i]]


def _result(r, p):
    if isinstance(r, (Point, list, tuple)):
        v = seq(r)
    elif isinstance(r, np.ndarray) and r.ndim >= 1:
        v = seq(r)
    else:
        raise TypeError("InvalidArgumentException : Output value for OpenTURNSPythonFunction._exec() method is not a sequence object")
    if len(v) != p:
        raise RuntimeError("InvalidDimensionException : Output point has incorrect dimension. Got %d. Expected %d" % (len(v), p))
    return v


class OpenTURNSPythonFunction:
    def __init__(self, n=0, p=0):
        self.__n, self.__p = int(n), int(p)

    def setInputDescription(self, d): self._sx_id = list(d)
    def setOutputDescription(self, d): self._sx_od = list(d)
    def getInputDimension(self): return self.__n
    def getOutputDimension(self): return self.__p

    def _sx_dims(self):
        return self.__n, self.__p


class _FromPy(FuncBase):
    def __init__(self, obj):
        self._o = obj
        self._in, self._out = obj._sx_dims()

    def _eval(self, x):
        return _result(self._o._exec(tuple(x)), self._out)

    def _evals(self, s):
        if hasattr(self._o, "_exec_sample"):
            r = self._o._exec_sample(s)
            r = Sample(r if not isinstance(r, np.ndarray) else r)
            if r.getDimension() != self._out or r.getSize() != s.getSize():
                raise RuntimeError("InvalidDimensionException : exec_sample result")
            return r
        return super()._evals(s)


def Function(*a):
    if not a:
        return _NoFunc()
    f = a[0]
    if isinstance(f, OpenTURNSPythonFunction):
        return _FromPy(f)
    if isinstance(f, FuncBase):
        return f
    if hasattr(f, "__call__") and hasattr(f, "_in"):
        return f
    raise NotImplementedError("Function(%r)" % (f,))


class _NoFunc(FuncBase):
    pass


class PythonFunction(FuncBase):
    def __init__(self, n, p, func=None, func_sample=None, gradient=None, hessian=None, n_cpus=None, copy=False,
                 functionLinearity=None, variablesLinearity=None):
        self._in, self._out = int(n), int(p)
        if func is None and func_sample is None:
            raise RuntimeError("no func nor func_sample given.")
        self._func, self._fs, self._grad, self._hess = func, func_sample, gradient, hessian

    def _eval(self, x):
        if self._func is None:
            return _result(list(Sample(self._fs(Sample([x])))[0]), self._out)
        return _result(self._func(tuple(x)), self._out)

    def _evals(self, s):
        if self._fs is not None:
            r = Sample(self._fs(s))
            return r
        return super()._evals(s)


class ComposedFunction(FuncBase):
    def __init__(self, f, g):
        self._f, self._g = f, g
        if g._out != f._in:
            raise TypeError("InvalidArgumentException : The left function must have an input dimension compatible with the right function output dimension.")
        self._in, self._out = g._in, f._out

    def _eval(self, x):
        return list(self._f(Point(list(self._g(Point(x))))))


class AggregatedFunction(FuncBase):
    def __init__(self, fs):
        self._fs = list(fs)
        self._in, self._out = self._fs[0]._in, sum(f._out for f in self._fs)

    def _eval(self, x):
        r = []
        for f in self._fs:
            r += list(f(Point(x)))
        return r


class LinearCombinationFunction(FuncBase):
    def __init__(self, fs, coefs):
        self._fs, self._c = list(fs), seq(coefs)
        if len(self._c) != len(self._fs):
            raise TypeError("InvalidArgumentException : Incompatible number of functions and coefficients")
        self._in, self._out = self._fs[0]._in, self._fs[0]._out

    def _eval(self, x):
        r = [0.0] * self._out
        for f, c in zip(self._fs, self._c):
            v = list(f(Point(x)))
            r = [a + c * b for a, b in zip(r, v)]
        return r


class LinearFunction(FuncBase):
    def __init__(self, center, constant, linear):
        self._c, self._k = seq(center), seq(constant)
        self._m = as2d(linear)
        self._in, self._out = len(self._c), len(self._k)
        if self._m.shape != (self._out, self._in):
            raise TypeError("InvalidArgumentException : linear term shape")

    def _eval(self, x):
        d = [a - b for a, b in zip(x, self._c)]
        r = []
        for i in range(self._out):
            acc = self._k[i]
            for j in range(self._in):
                m = self._m[i, j]
                if not is_sym(m) and m == 0:
                    continue
                acc = acc + m * d[j]
            r.append(acc)
        return r

    def getCenter(self): return Point(self._c)
    def getConstant(self): return Point(self._k)
    def getLinear(self): return Matrix(self._m)


class IdentityFunction(FuncBase):
    def __init__(self, n):
        self._in = self._out = int(n)

    def _eval(self, x):
        return list(x)


class ParametricFunction(FuncBase):
    def __init__(self, f, indices, values, parametersSet=True):
        self._f = f
        self._idx = [int(i) for i in indices]
        self._val = seq(values)
        if not parametersSet:
            raise Unsupported("ParametricFunction(parametersSet=False)")
        if len(self._idx) != len(self._val):
            raise TypeError("InvalidArgumentException")
        self._in, self._out = f._in - len(self._idx), f._out

    def _eval(self, x):
        full, it = [], iter(x)
        d = dict(zip(self._idx, self._val))
        for i in range(self._f._in):
            full.append(d[i] if i in d else next(it))
        return list(self._f(Point(full)))


class SymbolicFunction(FuncBase):
    """only what otpod needs: constants, variables, log(var)"""

    def __init__(self, inp, out):
        inp = [inp] if isinstance(inp, str) else list(inp)
        out = [out] if isinstance(out, str) else list(out)
        self._n, self._e = inp, out
        self._in, self._out = len(inp), len(out)
        import ast as _ast
        self._code = [compile(_ast.parse(e.replace("^", "**"), mode="eval"), "<sym>", "eval") for e in out]

    def _eval(self, x):
        env = {"log": core.s_log, "exp": core.s_exp, "sqrt": s_sqrt, "abs": abs}
        env.update(zip(self._n, x))
        return [eval(c, {"__builtins__": {}}, env) for c in self._code]


class MemoizeFunction(FuncBase):
    def __init__(self, f):
        if isinstance(f, MemoizeFunction):
            self._f, self._hi, self._ho = f._f, f._hi, f._ho
            self._in, self._out = f._in, f._out
            return
        self._f = f
        self._in, self._out = f._in, f._out
        self._hi, self._ho = [], []

    def _eval(self, x):
        r = list(self._f(Point(x)))
        self._hi.append(list(x))
        self._ho.append(list(r))
        return r

    def getInputHistory(self): return Sample(self._hi) if self._hi else Sample(0, self._in)
    def getOutputHistory(self): return Sample(self._ho) if self._ho else Sample(0, self._out)
    def enableHistory(self): pass
    def clearHistory(self): del self._hi[:], self._ho[:]
    def clearCache(self): pass


class Graph:
    def __init__(self, *what):
        self._what = what
        self._items = []

    def add(self, x): self._items.append(x)
    def getTitle(self): return "title"
    def setGrid(self, b): pass
    def setTitle(self, t): pass
    def setColors(self, c): pass
    def __getattr__(self, n):
        if n.startswith("set"):
            return lambda *a: None
        raise AttributeError(n)


class Interval:
    def __init__(self, lo, up=None):
        self._lo, self._up = (seq(lo), seq(up)) if not is_scalar(lo) else ([num(lo)], [num(up)])

    def getLowerBound(self): return Point(self._lo)
    def getUpperBound(self): return Point(self._up)
    def getDimension(self): return len(self._lo)


class Log:
    NONE, WARN, INFO, ALL, DBG, ERROR, USER = 0, 4, 2, 7, 1, 8, 16
    _log = []

    @staticmethod
    def Show(*a): pass
    @staticmethod
    def Warn(m): Log._log.append(m)
    @staticmethod
    def Info(m): pass
    @staticmethod
    def Flush(*a): pass


class SpecFunc:
    MaxScalar = 1.7976931348623157e+308
    LogMaxScalar = 709.782712893384
    Precision = 2.220446049250313e-16


# ------------------------------------------------------------------ DistFunc contracts
def _rot():
    import openturns as o
    return o


def pNormal(x, tail=False):
    """standard normal CDF: strictly increasing into (0,1), Phi(0)=1/2, Phi(-x)=1-Phi(x)"""
    if core.nonfinite(x):
        x = float(x)
        if math.isnan(x):
            return x
        r = 1.0 if x > 0 else 0.0
        return 1.0 - r if tail else r
    if is_sym(tail):
        tail = bool(tail)
    if not is_sym(x) and core.E is None:
        return _rot().DistFunc.pNormal(float(x), bool(tail))
    y = -x if tail else x
    return _phi(y)


def _phi_raw(x):
    return uf("pNormal", [x], mono="strict", concrete=lambda v: _rot().DistFunc.pNormal(v), anchors=[0],
              bounds=lambda r, a: [z3.Implies(a == 0, r == core.frac_to_z3(core.Fraction(1, 2))), r > 0, r < 1])


def _phi(x):
    r = _phi_raw(x)
    if is_sym(x):
        m = _phi_raw(-x)
        core.engine().add(core.rterm(r) + core.rterm(m) == 1)
    return r


class DistFunc:
    pNormal = staticmethod(pNormal)

    @staticmethod
    def qNormal(p, tail=False):
        return uf("qNormal", [p], mono="strict", anchors=[0.5], concrete=lambda v: _rot().DistFunc.qNormal(v)) if not tail else -DistFunc.qNormal(p)

    @staticmethod
    def pStudent(nu, x, tail=False):
        if core.nonfinite(x):
            return pNormal(x, tail)
        y = -x if tail else x
        r = uf("pStudent", [y, nu], mono="strict", concrete=lambda v, n: _rot().DistFunc.pStudent(n, v),
               bounds=lambda r, a, n: [r > 0, r < 1, z3.Implies(a == 0, r == core.frac_to_z3(core.Fraction(1, 2))),
                                       z3.Implies(a < 0, r < core.frac_to_z3(core.Fraction(1, 2))),
                                       z3.Implies(a > 0, r > core.frac_to_z3(core.Fraction(1, 2)))])
        return r

    @staticmethod
    def pNonCentralChiSquare(nu, lam, x, tail=False, *a):
        if core.nonfinite(x):
            return pNormal(x, tail)
        r = uf("pChi2", [x, nu, lam], mono="weak", concrete=lambda v, n, l: _rot().DistFunc.pNonCentralChiSquare(n, l, v),
               bounds=lambda r, v, n, l: [r >= 0, r <= 1, z3.Implies(v <= 0, r == 0), z3.Implies(v > 0, r > 0)])
        return 1 - r if tail else r

    @staticmethod
    def qBeta(a, b, p, tail=False):
        if tail:
            p = 1 - p
        return uf("qBeta", [p, a, b], mono="strict", concrete=lambda q, x, y: _rot().DistFunc.qBeta(x, y, q),
                  bounds=lambda r, q, x, y: [r >= 0, r <= 1])

    @staticmethod
    def pBeta(a, b, x, tail=False):
        r = uf("pBeta", [x, a, b], mono="weak", concrete=lambda q, u, v: _rot().DistFunc.pBeta(u, v, q),
               bounds=lambda r, q, u, v: [r >= 0, r <= 1])
        return 1 - r if tail else r


# ------------------------------------------------------------------ Box-Cox
def boxcox(lam, x):
    """h_lambda(x), strictly increasing in x>0, h(1)=0; TypeError when x<=0"""
    if not is_sym(lam) and not is_sym(x) and core.E is None:
        return _rot().BoxCoxTransform([float(lam)])([float(x)])[0]
    if bool(x <= 0):
        raise TypeError("InvalidArgumentException : Can not apply the Box Cox evaluation function to a negative shifted value")
    r = uf("boxcox", [x, lam], mono="strict",
           concrete=lambda v, l: _rot().BoxCoxTransform([float(l)])([float(v)])[0],
           bounds=lambda r, v, l: [z3.Implies(v == 1, r == 0), z3.Implies(v > 1, r > 0), z3.Implies(v < 1, r < 0)])
    # the inverse transform sends it back
    e = core.engine()
    if is_sym(r):
        e.uf_register("invboxcox", (), [core.rterm(r), core.rterm(lam)], core.rterm(x), None, "strict")
    return r


class BoxCoxTransform(FuncBase):
    def __init__(self, lam, shift=None):
        self._l = seq(lam)
        self._s = seq(shift) if shift is not None else [0.0] * len(self._l)
        self._in = self._out = len(self._l)

    def _eval(self, x):
        return [boxcox(l, v + s) for l, s, v in zip(self._l, self._s, x)]

    def getLambda(self): return Point(self._l)
    def getShift(self): return Point(self._s)
    def getInverse(self): return InverseBoxCoxTransform(self._l, self._s)


class InverseBoxCoxTransform(FuncBase):
    def __init__(self, lam, shift=None):
        self._l = seq(lam)
        self._s = seq(shift) if shift is not None else [0.0] * len(self._l)
        self._in = self._out = len(self._l)

    def _eval(self, x):
        r = []
        for l, s, v in zip(self._l, self._s, x):
            if not is_sym(l) and not is_sym(v) and core.E is None:
                r.append(_rot().InverseBoxCoxTransform([l], [s])([v])[0])
                continue
            y = uf("invboxcox", [v, l], mono="strict",
                   concrete=lambda a, b: _rot().InverseBoxCoxTransform([float(b)])([float(a)])[0])
            r.append(y - s)
        return r

    def getLambda(self): return Point(self._l)
    def getShift(self): return Point(self._s)
    def getInverse(self): return BoxCoxTransform(self._l, self._s)


# ------------------------------------------------------------------ root finding contract
OPTS = {}


class Brent:
    """returns x in [lo,hi] with f(x)=value when f-value changes sign, raises otherwise"""
    calls = []

    def __init__(self, *a):
        pass

    def solve(self, f, value, lo, hi, *fx):
        value = num(value)
        a, b = num(lo), num(hi)
        fa = f([a])[0] - value
        fb = f([b])[0] - value
        if bool(s_or(s_and(fa > 0, fb > 0), s_and(fa < 0, fb < 0))):
            raise RuntimeError("InternalException : Error: Brent method requires that the function takes different signs at the endpoints of the given starting interval")
        e = core.engine()
        x = SymNum(e.fresh("root"))
        l, u = s_min(a, b), s_max(a, b)
        e.add(z3.And(x.t >= core.rterm(l), x.t <= core.rterm(u)))
        d = OPTS.get("brent_step") if OPTS else None
        if OPTS and OPTS.get("brent_line"):
            # opted in by scenarios with concrete straight lines: the root itself
            p, q, m = f([0.0])[0], f([1.0])[0], f([3.0])[0]
            if not is_sym(p) and not is_sym(q) and not is_sym(m) and p != q and abs(m - p - 3 * (q - p)) < 1e-9:
                r = (value - p) / (q - p)
                e.assume(s_and(r >= l, r <= u))
                e.assume(x == r)
                Brent.calls.append((f, value, a, b, r))
                return r
        if d:
            # step function: the curve passes the value within d of the root
            v = [f([s_max(l, x - d)])[0], f([x])[0], f([s_min(u, x + d)])[0]]
            e.add(core.bterm(s_and(s_min(s_min(v[0], v[1]), v[2]) <= value, s_max(s_max(v[0], v[1]), v[2]) >= value)))
            Brent.calls.append((f, value, a, b, x))
            return x
        r = f([x])[0]
        if core.nonfinite(r) or core.nonfinite(value):
            pass
        elif is_sym(r) or is_sym(value):
            e.add(core.rterm(r) == core.rterm(value))
            try:
                # the same equation in the canonical form used by the assertions
                c = e.canon
                e.add(c.term(c.clean(c.poly(core.rterm(r) - core.rterm(value)), 1e-10)) == 0)
            except core.Control:
                raise
            except Exception:
                pass
        elif r != value:
            e.assume(False)
        Brent.calls.append((f, value, a, b, x))
        return x


Bisection = Secant = Brent


class Less:
    def getImplementation(self): return self
    def getClassName(self): return type(self).__name__
    def compare(self, a, b): return self(a, b)
    def __call__(self, a, b): return a < b


class LessOrEqual(Less):
    def __call__(self, a, b): return a <= b


class Greater(Less):
    def __call__(self, a, b): return a > b


class GreaterOrEqual(Less):
    def __call__(self, a, b): return a >= b


class Equal(Less):
    def __call__(self, a, b): return a == b


class LevelSet:
    def __init__(self, f, op=None, level=0.0):
        self._f, self._op, self._level = f, op or LessOrEqual(), level

    def contains(self, x): return self._op(self._f(x)[0], self._level)


class IndicatorFunction(FuncBase):
    def __init__(self, dom):
        self._dom = dom
        self._in, self._out = dom._f._in, 1

    def _eval(self, x):
        c = self._dom.contains(Point(x))
        return [s_ite(c, 1.0, 0.0)]


class LinearLeastSquares:
    def __init__(self, x, y):
        self._x, self._y = Sample(x), Sample(y)

    def run(self):
        n, d = self._x.getSize(), self._x.getDimension()
        X = np.empty((n, d + 1), dtype=object)
        X[:, 0] = 1.0
        X[:, 1:] = plain(self._x._a)
        X = wrap(X)
        Xt = wrap(plain(X).T)
        B = snp.solve(snp.dot(Xt, X), snp.dot(Xt, self._y._a))
        self._b = B

    def getConstant(self): return Point(list(plain(self._b)[0]))
    def getLinear(self): return Matrix(plain(self._b)[1:])

    def getMetaModel(self):
        b = plain(self._b)
        return LinearFunction([0.0] * (b.shape[0] - 1), list(b[0]), b[1:].T)
