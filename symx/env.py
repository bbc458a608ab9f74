"""Environment of otpod: random sources, fitting algorithms, drawing, I/O.

The same stand-ins serve both worlds; they return values drawn from the world
(z3 variables / the solver's model) and record how otpod called them.  Anything
deterministic is sot/snp (symbolic world) or the real library (concrete world).
"""
import math
import types
import numpy as np
from . import core, snp, sot
from .core import is_sym, Unsupported

W = None          # current world


def w():
    return W


class _OT(types.ModuleType):
    def __init__(self, world, over):
        super().__init__("openturns")
        self.__dict__["_world"] = world
        self.__dict__["_over"] = over

    def __getattr__(self, n):
        d = self.__dict__
        if n in d["_over"]:
            return d["_over"][n]
        import openturns as real
        if not d["_world"].symbolic:
            return getattr(real, n)
        if n.startswith("__"):
            raise AttributeError(n)
        v = getattr(sot, n, None)
        if v is not None and n in SOT_PUBLIC:
            return v
        if hasattr(real, n):
            raise Unsupported("openturns." + n)
        raise AttributeError("module 'openturns' has no attribute %r" % n)


SOT_PUBLIC = {"Description", "Point", "PointWithDescription", "Sample", "Matrix", "SquareMatrix", "SymmetricMatrix",
              "CovarianceMatrix", "CorrelationMatrix", "IdentityMatrix", "OpenTURNSPythonFunction", "Function",
              "PythonFunction", "ComposedFunction", "AggregatedFunction", "LinearCombinationFunction", "LinearFunction",
              "IdentityFunction", "ParametricFunction", "SymbolicFunction", "MemoizeFunction", "Graph", "Interval", "Log",
              "SpecFunc", "DistFunc", "BoxCoxTransform", "InverseBoxCoxTransform", "Brent", "Bisection", "Secant", "Less",
              "LessOrEqual", "Greater", "GreaterOrEqual", "Equal", "LevelSet", "IndicatorFunction", "LinearLeastSquares"}


def lib_error(exc):
    """an exception the real library would raise here"""
    exc._sx_ok = True
    return exc


class Stub:
    """attribute misses are gaps of the stand-in when the real class has them"""
    _real = None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        real = type(self)._real
        if real is not None:
            import openturns
            c = getattr(openturns, real, None)
            if c is not None and not hasattr(c, n):
                raise lib_error(AttributeError("'%s' object has no attribute '%s'" % (real, n)))
        W.gap("%s.%s" % (type(self).__name__, n))

    def getImplementation(self):
        return self

    def getClassName(self):
        return type(self)._real or type(self).__name__


def sample(rows, dim=None):
    rows = [list(r) for r in rows]
    if not rows:
        return W.ot.Sample(0, dim or 1)
    return W.ot.Sample(rows)


def as_rows(x):
    """list of rows from a Sample-like"""
    r = W.to_list(x)
    return [list(v) if isinstance(v, (list, tuple)) else [v] for v in r]


# ------------------------------------------------------------------ distributions
class Dist(Stub):
    _real = "Distribution"
    dim = 1
    _desc = None

    def getDimension(self):
        return self.dim

    def getDescription(self):
        return list(self._desc or ["X%d" % i for i in range(self.dim)])

    def setDescription(self, d):
        self._desc = [str(x) for x in d]

    def getMarginal(self, i):
        if isinstance(i, (list, tuple)):
            return JointDistribution([self] * len(i))
        return self

    def hasIndependentCopula(self):
        return True

    def drawPDF(self, *a):
        g = GraphTok("pdf", self)
        return g

    def __str__(self):
        if "label" not in self.__dict__:
            self.label = W.tag("law")
        return "%s(%s)" % (type(self).__name__, self.label)

    def getSample(self, n):
        n = int(n)
        f = W.opts.get("getSample")
        rows = f(self, n) if f else None
        if rows is None:
            rows = self.rows(n)
        W.log("getSample", dist=self, n=n, rows=rows)
        return sample(rows, self.dim)

    def getRealization(self):
        rows = self.rows(1)
        return W.ot.Point(rows[0])

    def rows(self, n):
        return [self.one() for _ in range(n)]

    def __mul__(self, k):
        return Scaled(self, k)

    __rmul__ = __mul__

    def __add__(self, k):
        return Scaled(self, 1.0, k)

    __radd__ = __add__


class Scaled(Dist):
    def __init__(self, d, k, c=0.0):
        self.d, self.k, self.c, self.dim = d, k, c, d.dim

    def one(self):
        return [self.k * v + self.c for v in self.d.one()]


class Inverse(Dist):
    def __init__(self, d):
        self.d = d

    def one(self):
        return [W.div(1.0, v) for v in self.d.one()]


class Normal(Dist):
    _real = "Normal"

    def __init__(self, *a):
        self.args = a
        self.mu, self.sigma, self.cov = None, None, None
        if not a:
            self.mu, self.sigma = 0.0, 1.0
        elif len(a) == 1 and not hasattr(a[0], "__len__"):
            self.dim = int(a[0])
            self.mu, self.sigma = [0.0] * self.dim, [1.0] * self.dim
        elif len(a) == 2 and not hasattr(a[0], "__len__"):
            self.mu, self.sigma = a
        elif len(a) == 2:
            self.mu = W.vec(a[0])
            self.dim = len(self.mu)
            if self.dim == 1 and not hasattr(a[1], "getNbRows") and not np.ndim(np.asarray(W.to_list(a[1]), dtype=object)) == 2:
                self.sigma = W.vec(a[1])
            elif hasattr(a[1], "getNbRows") or np.ndim(np.asarray(W.to_list(a[1]), dtype=object)) == 2:
                self.cov = as_rows(a[1])
            else:
                self.sigma = W.vec(a[1])
        else:
            W.gap("Normal%r" % (a,))
        W.log("Normal", dist=self, args=a)

    def one(self):
        if self.cov is not None:
            if getattr(self, "key", None) is None:
                self.key = W.tag("mvn")
            z = [W.draw("mvn", -4, 4) for _ in range(self.dim)]
            W.log("mvn", dist=self, z=z)
            return [m + v for m, v in zip(self.mu, z)]
        if self.dim == 1 and not isinstance(self.mu, list):
            return [self.mu + self.sigma * W.draw("normal", -4, 4)]
        return [m + s * W.draw("normal", -4, 4) for m, s in zip(self.mu, self.sigma)]

    def getMean(self):
        return W.ot.Point(self.mu if isinstance(self.mu, list) else [self.mu])

    def getStandardDeviation(self):
        return W.ot.Point(self.sigma if isinstance(self.sigma, list) else [self.sigma])

    def _z(self, x):
        x = x[0] if hasattr(x, "__len__") else x
        return W.div(x - self.mu, self.sigma)

    def computeCDF(self, x):
        return W.ot.DistFunc.pNormal(self._z(x))

    def computeComplementaryCDF(self, x):
        return W.ot.DistFunc.pNormal(self._z(x), True)

    def computeSurvivalFunction(self, x):
        return self.computeComplementaryCDF(x)

    def computeQuantile(self, p):
        if self.dim != 1:
            W.gap("Normal.computeQuantile")
        return W.ot.Point([self.mu + self.sigma * W.ot.DistFunc.qNormal(p)])

    def computeBilateralConfidenceInterval(self, p):
        k = W.ot.DistFunc.qNormal((1.0 + p) / 2)
        return W.ot.Interval([self.mu - self.sigma * k], [self.mu + self.sigma * k])


class Uniform(Dist):
    _real = "Uniform"

    def __init__(self, a=-1.0, b=1.0):
        if not W.symbolic or not (is_sym(a) or is_sym(b)):
            if not a < b:
                raise lib_error(TypeError("InvalidArgumentException : Error the lower bound a of a Uniform distribution must be lesser than its upper bound b"))
        elif not bool(a < b):
            raise lib_error(TypeError("InvalidArgumentException : Uniform bounds"))
        self.a, self.b = a, b

    def one(self):
        u = W.draw("uniform", 0, 1)
        return [self.a + (self.b - self.a) * u]

    def getRange(self):
        return W.ot.Interval([self.a], [self.b])

    def getA(self): return self.a
    def getB(self): return self.b


class Dirac(Dist):
    _real = "Dirac"

    def __init__(self, x=0.0):
        self.v = W.vec(x) if hasattr(x, "__len__") else [x]
        self.dim = len(self.v)

    def one(self):
        return list(self.v)

    def getRange(self):
        return W.ot.Interval(self.v, self.v)


class JointDistribution(Dist):
    _real = "JointDistribution"

    def __init__(self, coll=(), *copula):
        self.coll = list(coll)
        self.dim = len(self.coll)
        self._desc = None

    def one(self):
        r = []
        for d in self.coll:
            r += d.one()
        return r

    def getMarginal(self, i):
        if isinstance(i, (list, tuple)) or hasattr(i, "__len__"):
            return JointDistribution([self.coll[int(k)] for k in i])
        return self.coll[int(i)]

    def getRange(self):
        lo, up = [], []
        for d in self.coll:
            r = d.getRange()
            lo += W.vec(r.getLowerBound())
            up += W.vec(r.getUpperBound())
        return W.ot.Interval(lo, up)

    def getDistributionCollection(self):
        return list(self.coll)


class Mixture(Dist):
    _real = "Mixture"

    def __init__(self, coll, weights=None):
        self.coll = list(coll)
        self.weights = [1.0 / len(self.coll)] * len(self.coll) if weights is None else W.vec(weights)
        self.dim = self.coll[0].dim
        self.k = 0
        W.log("Mixture", dist=self)

    def one(self):
        self.k += 1
        return self.coll[(self.k - 1) % len(self.coll)].one()


class Chi(Dist):
    _real = "Chi"

    def __init__(self, nu=1.0):
        self.nu = nu

    def one(self):
        v = W.draw("chi", 0.25, 6)
        W.log("chi", nu=self.nu, v=v)
        return [v]

    def inverse(self):
        return Inverse(self)


class ChiSquare(Chi):
    _real = "ChiSquare"

    def one(self):
        v = W.draw("chi2", 0.0625, 36)
        W.log("chi2", nu=self.nu, v=v)
        return [v]


class UserDefined(Dist):
    """empirical law of a 1-d sample (exact)"""
    _real = "UserDefined"

    def __init__(self, s, weights=None):
        if weights is not None:
            W.gap("UserDefined weights")
        self.v = W.vec(s)
        if not self.v:
            raise lib_error(TypeError("InvalidArgumentException : Expected a collection of positive size"))

    def computeComplementaryCDF(self, x):
        x = x[0] if hasattr(x, "__len__") else x
        return W.div(W.summ([W.ite(v > x, 1.0, 0.0) for v in self.v]), float(len(self.v)))

    computeSurvivalFunction = computeComplementaryCDF

    def computeCDF(self, x):
        x = x[0] if hasattr(x, "__len__") else x
        return W.div(W.summ([W.ite(v <= x, 1.0, 0.0) for v in self.v]), float(len(self.v)))


class FittedDist(Dist):
    """law fitted by a factory: CDF is an unknown non-decreasing function of the data"""

    def __init__(self, name, data):
        self.name, self.data = name, list(data)

    def cdf(self, x):
        return W.ufunc("cdf." + self.name, [x] + self.data, 0, 1, mono="weak")

    def computeCDF(self, x):
        x = x[0] if hasattr(x, "__len__") else x
        return self.cdf(x)

    def computeComplementaryCDF(self, x):
        x = x[0] if hasattr(x, "__len__") else x
        return 1.0 - self.cdf(x)

    computeSurvivalFunction = computeComplementaryCDF


class Factory(Stub):
    def build(self, s):
        data = W.vec(s)
        W.log("factory", name=type(self).__name__, data=data)
        if type(self).__name__ == "NormalFactory":
            n = len(data)
            mu = W.div(W.summ(data), float(n))
            sd = W.sqrt(W.div(W.summ([(v - mu) * (v - mu) for v in data]), float(n - 1)))
            d = Normal(mu, sd)
            return d
        return FittedDist(type(self).__name__, data)


class NormalFactory(Factory):
    _real = "NormalFactory"


class KernelSmoothing(Factory):
    _real = "KernelSmoothing"


class WeibullMinFactory(Factory):
    _real = "WeibullMinFactory"


# ------------------------------------------------------------------ Box-Cox factory
def lambda_of(data, shift):
    """the optimal parameter is some function of the (shifted) data"""
    if W.opts.get("lambda") is not None:
        return W.opts["lambda"]
    return W.ufunc("lambda", list(data) + [shift], -3, 3)


class BoxCoxFactory(Stub):
    _real = "BoxCoxFactory"

    def _lam(self, s, shift):
        data = W.vec(s)
        sh = W.vec(shift)[0] if shift is not None else 0.0
        for v in data:
            if v + sh <= 0:
                raise lib_error(TypeError("InvalidArgumentException : No feasible point found during optimization"))
        lam = lambda_of(data, sh)
        W.log("boxcoxfit", data=data, shift=sh, lam=lam)
        return W.ot.BoxCoxTransform([lam], [sh])

    def build(self, s, shift=None, *a):
        return self._lam(s, shift)

    def buildWithGraph(self, s, shift=None, *a):
        t = self._lam(s, shift)
        g = GraphTok("boxcox")
        return t, g


class GraphTok(Stub):
    def __init__(self, *what):
        self.what = what

    def add(self, *a): pass

    def getTitle(self):
        return "title"

    def __getattr__(self, n):
        if n.startswith("set"):
            return lambda *a: None
        raise AttributeError(n)


class BootstrapExperiment(Stub):
    _real = "BootstrapExperiment"

    def __init__(self, s, *a):
        self.rows_ = as_rows(s)
        self.k = 0
        W.log("bootstrap", rows=self.rows_)

    def generate(self):
        n = len(self.rows_)
        sel = W.opts.get("bootstrap")
        k = self.k
        self.k += 1
        idx = sel(k, n) if sel else [(i + k) % n for i in range(n)]
        out = [list(self.rows_[i]) for i in idx]
        W.log("bootrep", rows=out, idx=idx)
        return sample(out)


# ------------------------------------------------------------------ statsmodels
def ols_fit(X, y):
    """least squares; symbolic: any solution of the normal equations (congruent in the data)"""
    n, p = len(y), len(X[0])
    if not W.symbolic:
        b = np.linalg.lstsq(np.array(X, dtype=float), np.array(y, dtype=float), rcond=None)[0]
        r = np.array(y, dtype=float) - np.array(X, dtype=float) @ b
        return [float(v) for v in b], [float(v) for v in r], float(r @ r) / (n - p)
    flat = [v for row in X for v in row if not (not is_sym(v) and v == 1)] + list(y)
    e = core.engine()
    if all(not is_sym(v) for row in X for v in row):
        A = np.array(X, dtype=object)
        from fractions import Fraction
        A = np.array([[Fraction(v) for v in row] for row in X], dtype=object)
        G = snp._gauss
        M = A.T.dot(A)
        inv = frac_inv(M)
        H = inv.dot(A.T)
        b = []
        for i in range(p):
            acc = 0.0
            for j in range(n):
                acc = acc + core.mk(core.frac_to_z3(H[i][j])) * y[j]
            b.append(acc)
    else:
        b = []
        key = "ols!%d" % n
        for i in range(p):
            b.append(e.uf_apply(key, (i,), [core.rterm(v) for v in flat], None, None))
        done = e.__dict__.setdefault("_ols", {})
        kk = tuple(core.rterm(v).get_id() for v in flat) + tuple(x.t.get_id() for x in b)
        if e.__dict__.get("_ols_path") is not e.pc:
            done.clear()
            e.__dict__["_ols_path"] = e.pc
        if kk not in done:
            done[kk] = flat
            for i in range(p):
                acc = 0.0
                for j in range(n):
                    pr = 0.0
                    for q in range(p):
                        pr = pr + X[j][q] * b[q]
                    acc = acc + X[j][i] * (y[j] - pr)
                e.assume(acc == 0)
    r = []
    for j in range(n):
        pr = 0.0
        for q in range(p):
            pr = pr + X[j][q] * b[q]
        r.append(y[j] - pr)
    ssr = 0.0
    for v in r:
        ssr = ssr + v * v
    return b, r, core.s_div(ssr, float(n - p)) if n > p else float("nan")


def ols_conf(X, b, s2, alpha):
    """Student intervals of the coefficients (concrete design)"""
    from fractions import Fraction
    from scipy.stats import t as student
    n, p = len(X), len(X[0])
    A = np.array([[Fraction(v) for v in row] for row in X], dtype=object)
    inv = frac_inv(A.T.dot(A))
    k = float(student.ppf(1 - alpha / 2.0, n - p))
    out = []
    for i in range(p):
        v = core.mk(core.frac_to_z3(inv[i][i])) if W.symbolic else float(inv[i][i])
        se = W.sqrt(s2 * v)
        out.append([b[i] - k * se, b[i] + k * se])
    return out


def frac_inv(M):
    from fractions import Fraction
    n = len(M)
    A = [[Fraction(M[i][j]) for j in range(n)] + [Fraction(1 if i == j else 0) for j in range(n)] for i in range(n)]
    for i in range(n):
        pv = next((r for r in range(i, n) if A[r][i] != 0), None)
        if pv is None:
            raise Unsupported("singular design")
        A[i], A[pv] = A[pv], A[i]
        d = A[i][i]
        A[i] = [v / d for v in A[i]]
        for r in range(n):
            if r != i and A[r][i] != 0:
                f = A[r][i]
                A[r] = [a - f * b for a, b in zip(A[r], A[i])]
    return np.array([row[n:] for row in A], dtype=object)


class OLS:
    def __init__(self, endog, exog=None, **k):
        self.y = W.vec(endog)
        self.X = as_rows(exog)
        if len(self.y) != len(self.X):
            raise lib_error(ValueError("endog and exog matrices are different sizes"))

    def fit(self, *a, **k):
        W.log("ols", X=self.X, y=self.y)
        return OLSResult(self.X, self.y)


class OLSResult(Stub):
    def __init__(self, X, y):
        self.X, self.y = X, y
        b, r, s2 = ols_fit(X, y)
        self.b = b
        self.params = snp.arr(b)
        self.resid = snp.arr(r)
        self.scale = s2
        self.mse_resid = s2
        self.fittedvalues = snp.arr([a - c for a, c in zip(y, r)])
        self.nobs = float(len(y))
        self.df_resid = float(len(y) - len(X[0]))

    def predict(self, X=None):
        rows = self.X if X is None else as_rows(X)
        return snp.arr([W.summ([c * v for c, v in zip(self.b, row)]) for row in rows])

    @property
    def ssr(self):
        return W.summ([v * v for v in W.vec(self.resid)])

    @property
    def model(self):
        return types.SimpleNamespace(exog=snp.arr(self.X), endog=snp.arr(self.y))

    def conf_int(self, alpha=0.05, cols=None):
        return snp.arr(ols_conf(self.X, self.b, self.scale, alpha))

    @property
    def rsquared(self):
        n = len(self.y)
        m = W.summ(self.y) * W.q(1, n)
        return 1 - W.div(self.ssr, W.summ([(v - m) * (v - m) for v in self.y]))


class QuantReg(Stub):
    """coefficients of the q-quantile line: unknown functions of (data, q); slope > 0 unless opts say otherwise"""

    def __init__(self, endog, exog, **k):
        self.y, self.X = W.vec(endog), as_rows(exog)
        if len(self.y) != len(self.X):
            raise lib_error(ValueError("endog and exog matrices are different sizes"))
        self.key = W.tag("quantreg")
        W.log("quantreg", y=self.y, X=self.X, key=self.key)

    def fit(self, q=0.5, vcov="robust", kernel="epa", bandwidth="hsheather", max_iter=1000, p_tol=1e-6, **k):
        W.log("qrfit", key=self.key, q=q, y=self.y, X=self.X)
        return QRResult(self, q)


class QRResult(Stub):
    def __init__(self, m, q):
        self.m, self.q = m, q
        b0, b1 = qr_params(m.key, q)
        self.b = [b0, b1]
        self.params = (snp.arr if W.symbolic else np.array)([b0, b1])

    @property
    def prsquared(self):
        return W.ufunc("prsq", [self.q], 0, 1, key=(self.m.key,))

    @property
    def fittedvalues(self):
        return (snp.arr if W.symbolic else np.array)([W.summ([c * v for c, v in zip(self.b, row)]) for row in self.m.X])

    def predict(self, x=None):
        v = W.to_list(x)
        rows = v if v and isinstance(v[0], list) else [v]
        r = [W.summ([c * t for c, t in zip(self.b, row)]) for row in rows]
        return (snp.arr if W.symbolic else np.array)(r)


def qr_params(key, q):
    f = W.opts.get("qr")
    if f is not None:
        return f(key, q)
    return W.ufunc("qr.b0", [q], -8, 8, key=(key,)), W.ufunc("qr.b1", [q], 0.125, 8, key=(key,))


# ------------------------------------------------------------------ scipy
class sym_interp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=float("nan"), assume_sorted=False):
        if kind != "linear":
            raise Unsupported("interp1d " + str(kind))
        x, y = W.vec(x), W.vec(y)
        if len(x) != len(y):
            raise lib_error(ValueError("x and y arrays must be equal in length along interpolation axis."))
        self.extrap = fill_value == "extrapolate" if isinstance(fill_value, str) else False
        self.be, self.fv = bounds_error, fill_value
        if not assume_sorted:
            o = snp.argsort(snp.arr(x), kind="mergesort")
            o = [int(i) for i in W.vec(o)]
            x, y = [x[i] for i in o], [y[i] for i in o]
        self.x, self.y = x, y

    def _one(self, v):
        if isinstance(v, (list, tuple)):
            return [self._one(t) for t in v]
        x, y = self.x, self.y
        if not self.extrap:
            if bool(v < x[0]):
                if self.be is False:
                    return self.fv[0] if isinstance(self.fv, tuple) else self.fv
                raise lib_error(ValueError("A value in x_new is below the interpolation range."))
            if bool(v > x[-1]):
                if self.be is False:
                    return self.fv[1] if isinstance(self.fv, tuple) else self.fv
                raise lib_error(ValueError("A value in x_new is above the interpolation range."))
        # searchsorted(x, v) (left), clipped to 1..n-1
        n = len(x)
        for i in range(1, n):
            if i == n - 1 or bool(v <= x[i]):
                d = x[i] - x[i - 1]
                sl = core.s_div(y[i] - y[i - 1], d)
                if core.nonfinite(sl):
                    return sl * 0.0 if math.isnan(sl * 0.0) else sl
                return sl * (v - x[i - 1]) + y[i - 1]

    def __call__(self, v):
        v = W.to_list(v)
        r = self._one(v)
        return snp.arr(r) if isinstance(r, list) else snp.arr([r]).reshape(())


def stub_fmin(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=None, maxfun=None, full_output=0, disp=1, retall=0, **k):
    x0 = W.vec(x0)
    k = W.tag("fmin")
    flag = W.opts.get("fmin_flag", 0)
    flag = flag() if callable(flag) else flag
    f = W.opts.get("fmin_result")
    if f is not None:
        r = f(k, x0)
    else:
        r = [W.draw("fmin.b0", -8, 8), W.draw("fmin.b1", -8, 8), W.draw("fmin.s", 0.125, 8)][:len(x0)]
        while len(r) < len(x0):
            r.append(W.draw("fmin.x", -8, 8))
    W.log("fmin", func=func, x0=x0, result=r, maxiter=maxiter, flag=flag)
    out = snp.arr(r) if W.symbolic else np.array(r)
    if full_output:
        return out, W.draw("fmin.val", -100, 100), 10, 20, flag
    return out


# ------------------------------------------------------------------ drawing
class Rec:
    """records every call; returns more recorders"""

    def __init__(self, name, lim=None):
        self.__dict__["_n"] = name
        self.__dict__["_lim"] = {}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            W.log("draw", target=self._n, name=n, args=a, kw=k, obj=self)
            if n in ("get_ylim", "get_xlim"):
                return (0.0, 1.0)
            if n == "plot":
                return [Rec(self._n + ".line")]
            if n in ("get_xticks", "get_yticks"):
                return snp.arr([-1.0, 0.0, 1.0]) if W.symbolic else np.array([-1.0, 0.0, 1.0])
            if n in ("get_legend_handles_labels",):
                return ([], [])
            return Rec(self._n + "." + n)
        return f

    def __iter__(self):
        return iter([])

    def __getitem__(self, i):
        return Rec(self._n + "[%s]" % (i,))


class PltStub(types.ModuleType):
    def __init__(self):
        super().__init__("matplotlib.pyplot")
        self.rcParams = {}
        self.cm = Rec("plt.cm")

    def subplots(self, *a, **k):
        W.log("draw", target="plt", name="subplots", args=a, kw=k, obj=None)
        nr = a[0] if a else k.get("nrows", 1)
        nc = a[1] if len(a) > 1 else k.get("ncols", 1)
        fig = Rec("fig")
        if nr * nc == 1:
            return fig, Rec("ax")
        return fig, np.array([Rec("ax") for _ in range(nr * nc)], dtype=object)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            W.log("draw", target="plt", name=n, args=a, kw=k, obj=None)
            return Rec("plt." + n)
        return f


def view_stub(graph, *a, **k):
    W.log("view", graph=graph, args=a, kw=k)
    return Rec("view")


class LogStub:
    NONE, WARN, INFO, ALL, DBG, ERROR, USER = 0, 4, 2, 7, 1, 8, 16

    @staticmethod
    def Show(*a): pass

    @staticmethod
    def Warn(m): W.logs.append(("otwarn", m))

    @staticmethod
    def Info(m): W.logs.append(("otinfo", m))

    @staticmethod
    def Error(m): W.logs.append(("oterror", m))

    @staticmethod
    def User(m): W.logs.append(("otuser", m))

    @staticmethod
    def Flush(*a): pass


class RandomGenerator:
    @staticmethod
    def SetSeed(*a): pass


# ------------------------------------------------------------------ assembling
OVER = {}


def over(**k):
    OVER.update(k)


over(Normal=Normal, Uniform=Uniform, Dirac=Dirac, JointDistribution=JointDistribution, ComposedDistribution=JointDistribution,
     Mixture=Mixture, Chi=Chi, ChiSquare=ChiSquare, NormalFactory=NormalFactory, KernelSmoothing=KernelSmoothing,
     WeibullMinFactory=WeibullMinFactory, BoxCoxFactory=BoxCoxFactory, BootstrapExperiment=BootstrapExperiment,
     Log=LogStub, RandomGenerator=RandomGenerator)

SYM_ONLY = {"UserDefined": UserDefined}


def randn(*shape):
    lo = W.opts.get("randn_lo", -4)
    if not shape:
        return W.draw("randn", lo, 4)
    n = int(np.prod(shape))
    f = W.opts.get("randn")
    v = f(n) if f else [W.draw("randn", lo, 4) for _ in range(n)]
    return (snp.arr(v) if W.symbolic else np.array(v)).reshape(shape)


def rand(*shape):
    if not shape:
        return W.draw("rand", 0, 1)
    n = int(np.prod(shape))
    v = [W.draw("rand", 0, 1) for _ in range(n)]
    return (snp.arr(v) if W.symbolic else np.array(v)).reshape(shape)


RANDOM = {"randn": randn, "rand": rand, "seed": lambda *a: None,
          "standard_normal": lambda size=None: randn(*([] if size is None else (size if isinstance(size, tuple) else (size,)))),
          "normal": lambda loc=0.0, scale=1.0, size=None: loc + scale * randn(*([] if size is None else (size if isinstance(size, tuple) else (size,))))}


class _Proxy(types.ModuleType):
    def __init__(self, base, over_, name):
        super().__init__(name)
        self.__dict__["_b"] = base
        self.__dict__["_o"] = over_

    def __getattr__(self, n):
        if n in self.__dict__["_o"]:
            return self.__dict__["_o"][n]
        return getattr(self.__dict__["_b"], n)


class _Mod(types.ModuleType):
    """known names come from the stand-ins; others are the real ones (concrete) or unsupported (symbolic)"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        import importlib
        try:
            v = getattr(importlib.import_module(self.__name__), n)
        except ImportError:
            raise AttributeError(n)
        if not W.symbolic:
            return v

        def unsupported(*a, **k):
            raise Unsupported("%s.%s" % (self.__name__, n))
        if isinstance(v, type) or callable(v):
            return unsupported
        return v


def mod(name, **k):
    m = _Mod(name)
    m.__dict__.update(k)
    return m


def lazy(modname, attr):
    def f(*a, **k):
        import importlib
        return getattr(importlib.import_module(modname), attr)(*a, **k)
    return f


EXTRA = []        # functions(world, ot_over, modules) registered by env2


def install(world):
    global W
    W = world
    ov = dict(OVER)
    if world.symbolic:
        ov.update(SYM_ONLY)
        world.np = snp.make(rand=RANDOM)
        npm = world.np
    else:
        npm = _Proxy(np, {"random": _Proxy(np.random, RANDOM, "numpy.random")}, "numpy")
        world.np = npm
    world.ot = _OT(world, ov)
    sysm = world._sys if hasattr(world, "_sys") else None
    from .world import _SysShim, _LogShim
    from .load import MathShim
    plt = PltStub()
    sym = world.symbolic
    if sym:
        ols = OLS
        interp = sym_interp1d
    else:
        from statsmodels.regression.linear_model import OLS as real_ols

        class ols_(real_ols):
            def __init__(self, endog, exog=None, **k):
                super().__init__(endog, exog, **k)
                self._sx = (W.vec(endog), as_rows(exog))

            def fit(self, *a, **k):
                W.log("ols", X=self._sx[1], y=self._sx[0])
                return super().fit(*a, **k)
        ols = ols_
        from scipy.interpolate import interp1d as interp
    world.modules = {
        "openturns": world.ot,
        "openturns.viewer": mod("openturns.viewer", View=view_stub),
        "numpy": npm,
        "numpy.random": npm.random,
        "numpy.linalg": npm.linalg,
        "sys": _SysShim(world),
        "logging": _LogShim(world),
        "matplotlib": mod("matplotlib", pyplot=plt),
        "matplotlib.pyplot": plt,
        "scipy.optimize": mod("scipy.optimize", fmin=stub_fmin),
        "scipy.interpolate": mod("scipy.interpolate", interp1d=interp),
        "statsmodels.regression.linear_model": mod("statsmodels.regression.linear_model", OLS=ols),
        "statsmodels.regression.quantile_regression": mod("statsmodels.regression.quantile_regression", QuantReg=QuantReg),
    }
    if sym:
        world.modules["math"] = MathShim()
    for f in EXTRA:
        f(world, ov, world.modules)
    sot.Brent.calls = []


import os as _os
if _os.path.exists(_os.path.join(_os.path.dirname(__file__), "env2.py")):
    from . import env2  # noqa: F401,E402  (extends OVER / EXTRA)
