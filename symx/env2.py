"""Environment, second part: statistical tests, metamodels, sensitivity, classifiers"""
import copy
import math
import types
import numpy as np
from . import core, snp, sot
from . import env as E
from .env import Stub, lib_error, over, sample, as_rows
from .core import is_sym


def w():
    return E.W


# ------------------------------------------------------------------ tests
class TestResult(Stub):
    _real = "TestResult"

    def __init__(self, p):
        self.p = p

    def getPValue(self):
        return self.p

    def getBinaryQualityMeasure(self):
        return self.p > 0.05


def ptest(name, data, key=()):
    W = E.W
    f = W.opts.get("ptest")
    v = f(name) if f else W.ufunc("p." + name, list(data), 0, 1, key=key)
    W.log("test", name=name, data=list(data), p=v, key=key)
    return TestResult(v)


class NormalityTest:
    @staticmethod
    def AndersonDarlingNormal(s, level=0.05):
        return ptest("ad", E.W.vec(s))

    @staticmethod
    def CramerVonMisesNormal(s, level=0.05):
        return ptest("cvm", E.W.vec(s))


class FittingTest:
    @staticmethod
    def Kolmogorov(s, dist, *a):
        E.W.log("kolmo", dist=dist, data=E.W.vec(s))
        return ptest("kol", E.W.vec(s))


class VisualTest:
    @staticmethod
    def DrawQQplot(s, *a):
        E.W.log("qqplot", data=E.W.vec(s), other=a)
        return E.GraphTok("qq")


class HistogramFactory(Stub):
    _real = "HistogramFactory"

    def build(self, s):
        E.W.log("histogram", data=E.W.vec(s))
        return E.FittedDist("histogram", E.W.vec(s))


over(NormalityTest=NormalityTest, FittingTest=FittingTest, VisualTest=VisualTest, HistogramFactory=HistogramFactory)


# ------------------------------------------------------------------ polynomial chaos
class Plain(Stub):
    """an options object: remembers its arguments"""

    def __init__(self, *a):
        self.args = a


def plain_cls(name, **methods):
    return type(name, (Plain,), dict(_real=name, **methods))


StandardDistributionPolynomialFactory = plain_cls("StandardDistributionPolynomialFactory")


class LinearEnumerateFunction(Plain):
    _real = "LinearEnumerateFunction"

    def getStrataCumulatedCardinal(self, k):
        d = int(self.args[0])
        return math.comb(d + int(k), d)

    getStrataCumulatedCardinal = getStrataCumulatedCardinal


OrthogonalProductPolynomialFactory = plain_cls("OrthogonalProductPolynomialFactory")


class AdaptiveStrategy(Plain):
    _real = "AdaptiveStrategy"

    def __init__(self, *a):
        if type(self) is AdaptiveStrategy and a and not isinstance(a[0], AdaptiveStrategy):
            raise lib_error(TypeError("Wrong number or type of arguments for overloaded function 'new_AdaptiveStrategy'."))
        self.args = a


class FixedStrategy(AdaptiveStrategy):
    _real = "FixedStrategy"


class ProjectionStrategy(Plain):
    _real = "ProjectionStrategy"

    def __init__(self, *a):
        if type(self) is ProjectionStrategy and a and not isinstance(a[0], ProjectionStrategy):
            raise lib_error(TypeError("Wrong number or type of arguments for overloaded function 'new_ProjectionStrategy'."))
        self.args = a


class LeastSquaresStrategy(ProjectionStrategy):
    _real = "LeastSquaresStrategy"


LARS = plain_cls("LARS")
KFold = plain_cls("KFold")
CorrectedLeaveOneOut = plain_cls("CorrectedLeaveOneOut")
LeastSquaresMetaModelSelectionFactory = plain_cls("LeastSquaresMetaModelSelectionFactory")


class FuncList(list):
    """a collection of functions"""

    def getSize(self):
        return len(self)


def func_collection(fs):
    return FuncList(fs)


def W_sym():
    return E.W.symbolic


class FunctionalChaosResult(Stub):
    """metamodel sum_j c_j psi_j(T(x)); the scenario may fix coefficients and basis"""
    _real = "FunctionalChaosResult"

    def __init__(self, *a):
        if a and isinstance(a[0], FunctionalChaosResult):
            self.__dict__.update(a[0].__dict__)
            return
        if a:
            raise lib_error(TypeError("Wrong number or type of arguments for overloaded function 'new_FunctionalChaosResult'."))

    @classmethod
    def make(cls, dim, dist=None, coefs=None, basis=None, scale=None):
        W = E.W
        r = cls()
        r.dim = dim
        zs = ["z%d" % i for i in range(dim)]
        r.terms = list(basis or ["1", "z0"])
        r.scale = [(0.5, -1.0), (2.0, 0.5), (0.25, 0.0)][:dim] if scale is None else scale
        r.fs = [W.ot.SymbolicFunction(zs, [t]) for t in r.terms]
        k = W.tag("chaos")
        r.c = [W.real("%s.c%d" % (k, j), -8, 8) for j in range(len(r.terms))] if coefs is None else coefs
        lin = [[0.0] * dim for _ in range(dim)]
        cen = []
        for i, (al, be) in enumerate(r.scale):
            lin[i][i] = al
            cen.append(-be / al)
        r.T = W.ot.LinearFunction(cen, [0.0] * dim, W.ot.Matrix(lin))
        r.dist = dist
        return r

    def psi(self, x):
        """basis values at a physical point (reference)"""
        z = [al * v + be for (al, be), v in zip(self.scale, x)]
        env = {"z%d" % i: v for i, v in enumerate(z)}
        return [eval(t, {}, env) if t != "1" else 1.0 for t in self.terms]

    def pred(self, x, c=None):
        return E.W.summ([a * b for a, b in zip(self.c if c is None else c, self.psi(x))])

    def getMetaModel(self):
        W = E.W
        return W.ot.ComposedFunction(W.ot.LinearCombinationFunction(self.fs, self.c), self.T)

    def getComposedMetaModel(self):
        W = E.W
        return W.ot.LinearCombinationFunction(self.fs, self.c)

    def getCoefficients(self):
        return sample([[v] for v in self.c])

    def getReducedBasis(self):
        return func_collection(self.fs)

    def getTransformation(self):
        return self.T

    def getInverseTransformation(self):
        E.W.gap("getInverseTransformation")

    def getDistribution(self):
        if self.dist is None:
            E.W.gap("FunctionalChaosResult.getDistribution")
        return self.dist


class FunctionalChaosAlgorithm(Stub):
    _real = "FunctionalChaosAlgorithm"

    def __init__(self, x, y, dist, adaptive, projection, *a):
        self.x, self.y, self.dist = as_rows(x), E.W.vec(y), dist
        self.e = E.W.log("chaosfit", x=self.x, y=self.y, dist=dist, adaptive=adaptive, projection=projection, result=None)

    def run(self):
        f = E.W.opts.get("chaos")
        self.r = f(self) if f else FunctionalChaosResult.make(len(self.x[0]), self.dist)
        self.e.result = self.r

    def getResult(self):
        return self.r


over(StandardDistributionPolynomialFactory=StandardDistributionPolynomialFactory, LinearEnumerateFunction=LinearEnumerateFunction,
     OrthogonalProductPolynomialFactory=OrthogonalProductPolynomialFactory, AdaptiveStrategy=AdaptiveStrategy, FixedStrategy=FixedStrategy,
     ProjectionStrategy=ProjectionStrategy, LeastSquaresStrategy=LeastSquaresStrategy, LARS=LARS, KFold=KFold,
     CorrectedLeaveOneOut=CorrectedLeaveOneOut, LeastSquaresMetaModelSelectionFactory=LeastSquaresMetaModelSelectionFactory,
     FunctionalChaosResult=FunctionalChaosResult, FunctionalChaosAlgorithm=FunctionalChaosAlgorithm)


# ------------------------------------------------------------------ kriging
class Basis(Stub):
    _real = "Basis"

    def __init__(self, fs=()):
        if isinstance(fs, Basis):
            self.fs = list(fs.fs)
        elif isinstance(fs, (list, tuple)):
            self.fs = list(fs)
        else:
            raise lib_error(TypeError("Wrong number or type of arguments for overloaded function 'new_Basis'."))

    def build(self, i):
        return self.fs[int(i)]

    def getSize(self):
        return len(self.fs)


class CovarianceModel(Stub):
    """k(x, y) = 1/(1 + |x-y|^2), or what opts['cov'] says"""
    _real = "CovarianceModel"

    def __init__(self, *a):
        if type(self) is CovarianceModel and a and not isinstance(a[0], CovarianceModel):
            raise lib_error(TypeError("Wrong number or type of arguments for overloaded function 'new_CovarianceModel'."))
        self.args = a

    estimate = None     # which fit estimated the parameters

    def k(self, x, y):
        f = E.W.opts.get("cov")
        if f:
            return f(self, x, y)
        return E.W.div(1.0, 1.0 + E.W.summ([(a - b) * (a - b) for a, b in zip(x, y)]))

    def discretize(self, s):
        rows = as_rows(s)
        return E.W.ot.CovarianceMatrix([[self.k(a, b) for b in rows] for a in rows])


class SquaredExponential(CovarianceModel):
    _real = "SquaredExponential"


class _LL(Stub):
    def __init__(self, n):
        self.n = n

    def getInputDimension(self):
        return self.n


class Optim(Plain):
    _real = "OptimizationAlgorithm"

    def setMaximumIterationNumber(self, n):
        self.maxiter = n


class GaussianProcessFitter(Stub):
    _real = "GaussianProcessFitter"

    def __init__(self, x, y, cov=None, basis=None):
        self.x, self.y, self.cov, self.basis = as_rows(x), E.W.vec(y), cov, basis
        if len(self.x) != len(self.y):
            raise lib_error(TypeError("InvalidArgumentException : input and output samples have different sizes"))
        self.opt, self.bounds, self.algo = True, None, Optim()
        self.e = E.W.log("gpfit", x=self.x, y=self.y, cov=cov, basis=basis, fitter=self, optimized=None)

    def getReducedLogLikelihoodFunction(self):
        return _LL(len(self.x[0]))

    def setOptimizationBounds(self, b): self.bounds = b
    def setOptimizationAlgorithm(self, a): self.algo = a
    def getOptimizationAlgorithm(self): return self.algo
    def setOptimizeParameters(self, b): self.opt = b
    def getOptimizeParameters(self): return self.opt

    def run(self):
        self.e.optimized = self.opt and getattr(self.algo, "maxiter", None) != 0

    def getResult(self):
        return GaussianProcessFitterResult(self)


class GaussianProcessFitterResult(Stub):
    _real = "GaussianProcessFitterResult"

    def __init__(self, f):
        self.f = f


class GPResult(Stub):
    _real = "GaussianProcessRegressionResult"

    def __init__(self, f):
        self.f = f
        self.x, self.y = f.x, f.y
        self.key = E.W.tag("gp")
        self.cov = f.cov
        if f.e.optimized and f.cov is not None:
            # the result holds a copy of the covariance model with the estimated parameters
            self.cov = copy.copy(f.cov)
            self.cov.estimate = self.key
        self.basis = f.basis

    def mean(self, z):
        g = E.W.opts.get("gpmean")
        if g:
            v = g(self, z)
            if v is not None:
                return v
        return E.W.ufunc("gpmean", list(z), -16, 16, key=(self.key,))

    def var(self, z):
        g = E.W.opts.get("gpvar")
        if g:
            v = g(self, z)
            if v is not None:
                return v
        return E.W.ufunc("gpvar", list(z), 0, 4, key=(self.key,))

    def getCovarianceModel(self): return self.cov
    def getBasis(self): return self.basis

    def getTrendCoefficients(self):
        return E.W.ot.Point([1.0] * self.basis.getSize())

    def getMetaModel(self):
        return E.W.ot.PythonFunction(len(self.x[0]), 1, lambda z: [self.mean(E.W.vec(z))])


class GaussianProcessRegression(Stub):
    _real = "GaussianProcessRegression"

    def __init__(self, fr):
        self.f = fr.f

    def run(self):
        self.r = GPResult(self.f)
        E.W.log("gpr", result=self.r, fit=self.f)

    def getResult(self):
        return self.r


class GaussianProcessConditionalCovariance(Stub):
    _real = "GaussianProcessConditionalCovariance"

    def __init__(self, r):
        self.r = r
        E.W.log("gpcc", result=r)

    def getConditionalCovariance(self, x):
        return E.W.ot.CovarianceMatrix([[self.r.var(E.W.vec(x))]])

    def getConditionalMarginalVariance(self, x):
        rows = E.W.to_list(x)
        if rows and isinstance(rows[0], list):
            return sample([[self.r.var(v)] for v in rows])
        return self.r.var(E.W.vec(x))

    def getDiagonalCovarianceCollection(self, s):
        return [E.W.ot.CovarianceMatrix([[self.r.var(v)]]) for v in as_rows(s)]

    def getConditionalMean(self, s):
        return sample([[self.r.mean(v)] for v in as_rows(s)])


class LowDiscrepancyExperiment(Stub):
    _real = "LowDiscrepancyExperiment"

    def __init__(self, seq, dist, n, *a):
        self.dist, self.n = dist, int(n)

    def generate(self):
        f = E.W.opts.get("lowdisc")
        rows = f(self.dist, self.n) if f else [self.dist.one() for _ in range(self.n)]
        E.W.log("lowdisc", dist=self.dist, n=self.n, rows=rows)
        return sample(rows, self.dist.dim)


over(Basis=Basis, CovarianceModel=CovarianceModel, SquaredExponential=SquaredExponential, GaussianProcessFitter=GaussianProcessFitter,
     GaussianProcessRegression=GaussianProcessRegression, GaussianProcessConditionalCovariance=GaussianProcessConditionalCovariance,
     LowDiscrepancyExperiment=LowDiscrepancyExperiment, SobolSequence=plain_cls("SobolSequence"), MultiStart=plain_cls("MultiStart"),
     TNC=plain_cls("TNC"))

over(GaussianProcessRegressionResult=GPResult)


# ------------------------------------------------------------------ sensitivity
class SobolIndicesExperiment(Stub):
    """pick-freeze design: A, B, then for each input a copy of A with that column taken from B"""
    _real = "SobolIndicesExperiment"

    def __init__(self, dist, n, second=False):
        self.dist, self.n, self.second = dist, int(n), bool(second)

    def generate(self):
        A = [self.dist.one() for _ in range(self.n)]
        B = [self.dist.one() for _ in range(self.n)]
        rows = A + B
        for j in range(self.dist.dim):
            rows += [[b[k] if k == j else a[k] for k in range(self.dist.dim)] for a, b in zip(A, B)]
        if self.second and self.dist.dim > 2:
            for j in range(self.dist.dim):
                rows += [[a[k] if k == j else b[k] for k in range(self.dist.dim)] for a, b in zip(A, B)]
        f = E.W.opts.get("sobolexp")
        if f:
            f(rows)
        E.W.log("sobolexp", dist=self.dist, n=self.n, second=self.second, rows=rows)
        return sample(rows)

    def getSize(self):
        return self.n

    def getDistribution(self):
        return self.dist


class SobolAlgorithm(Stub):
    asym = None

    def __init__(self, *a):
        if not a:
            E.W.gap("sensitivity algorithm without data")
        if len(a) != 3 or hasattr(a[0], "getMarginal") and isinstance(a[0], E.Dist):
            E.W.gap("sensitivity algorithm from a distribution")
        x, y, n = a
        self.x, self.y, self.n = as_rows(x), as_rows(y), int(n)
        d = len(self.x[0])
        if len(self.x) != len(self.y):
            raise lib_error(TypeError("InvalidArgumentException : Input and output samples have different size"))
        self.d, self.k = d, len(self.y[0])
        key = E.W.tag("sobol")
        self.first = [[E.W.real("%s.f%d.%d" % (key, i, j), -1, 2) for j in range(d)] for i in range(self.k)]
        self.total = [[E.W.real("%s.t%d.%d" % (key, i, j), -1, 2) for j in range(d)] for i in range(self.k)]
        E.W.log("sobolalgo", algo=self, name=type(self)._real)

    def setUseAsymptoticDistribution(self, b):
        self.asym = bool(b)

    def _get(self, t, i):
        i = int(i)
        if i >= self.k:
            raise lib_error(TypeError("OutOfBoundException : Output dimension is %d" % self.k))
        if (E.W.opts.get("noindex") or (lambda a, i: False))(self, i):
            raise lib_error(RuntimeError("null variance"))
        return E.W.ot.Point(t[i])

    def getFirstOrderIndices(self, i=0): return self._get(self.first, i)
    def getTotalOrderIndices(self, i=0): return self._get(self.total, i)

    def draw(self, *a):
        return E.GraphTok("sobol", self)


def sobol_cls(name):
    return type(name, (SobolAlgorithm,), dict(_real=name))


SOBOL = ["SaltelliSensitivityAlgorithm", "MartinezSensitivityAlgorithm", "JansenSensitivityAlgorithm", "MauntzKucherenkoSensitivityAlgorithm"]
class Drawable(Stub):
    _real = "Drawable"

    @staticmethod
    def BuildDefaultPalette(n):
        return ["#%06d" % i for i in range(int(n))]


over(Drawable=Drawable, SobolIndicesExperiment=SobolIndicesExperiment, **{n: sobol_cls(n) for n in SOBOL})


# ------------------------------------------------------------------ densities
def _pts(x, dim):
    """('point', v) or ('sample', rows)"""
    v = E.W.to_list(x)
    if not isinstance(v, (list, tuple)):
        return "point", [v]
    if v and isinstance(v[0], (list, tuple)):
        return "sample", v
    if len(v) == dim:
        return "point", v
    raise lib_error(TypeError("InvalidArgumentException : the given point has a wrong dimension"))


def _pdf(self, x):
    kind, v = _pts(x, self.dim)
    if kind == "point":
        return self.pdf1(v)
    return sample([[self.pdf1(r)] for r in v])


def _exp(v):
    return core.s_exp(v) if E.W.symbolic else math.exp(v)


def _normal_pdf(self, v):
    if isinstance(self.mu, list) or self.cov is not None:
        E.W.gap("Normal.computePDF in several dimensions")
    if E.W.symbolic and E.W.opts.get("pdf"):
        return E.W.opts["pdf"](self, v[0])
    z = E.W.div(v[0] - self.mu, self.sigma)
    return 1.0 / (self.sigma * math.sqrt(2 * math.pi)) * _exp(-0.5 * (z * z))


def _uniform_pdf(self, v):
    return E.W.ite(E.W.and_(v[0] >= self.a, v[0] <= self.b), E.W.div(1.0, self.b - self.a), 0.0)


def _joint_pdf(self, v):
    r = 1.0
    for d, t in zip(self.coll, v):
        r = r * d.pdf1([t])
    return r


def _moments1(mean, sd):
    def getMean(self): return E.W.ot.Point([mean(self)])
    def getStandardDeviation(self): return E.W.ot.Point([sd(self)])
    def getCovariance(self): return E.W.ot.CovarianceMatrix([[sd(self) * sd(self)]])
    return getMean, getStandardDeviation, getCovariance


E.Dist.computePDF = _pdf
E.Normal.pdf1 = _normal_pdf
E.Uniform.pdf1 = _uniform_pdf
E.JointDistribution.pdf1 = _joint_pdf
E.Uniform.getMean, E.Uniform.getStandardDeviation, E.Uniform.getCovariance = _moments1(
    lambda s: (s.a + s.b) / 2, lambda s: (s.b - s.a) / math.sqrt(12.0))


def _ncov(self):
    if self.cov is not None:
        return E.W.ot.CovarianceMatrix(self.cov)
    s = self.sigma if isinstance(self.sigma, list) else [self.sigma]
    return E.W.ot.CovarianceMatrix([[a * a if i == j else 0.0 for j in range(len(s))] for i, a in enumerate(s)])


E.Normal.getCovariance = _ncov
E.Normal.getParameter = lambda s: E.W.ot.Point([s.mu, s.sigma])
E.Normal.getRange = lambda s: E.W.ot.Interval([s.mu - 7.65063 * s.sigma], [s.mu + 7.65063 * s.sigma])
E.Uniform.getParameter = lambda s: E.W.ot.Point([s.a, s.b])
E.Uniform.computeQuantile = lambda s, p: E.W.ot.Point([s.a + (s.b - s.a) * p])
E.JointDistribution.getMean = lambda s: E.W.ot.Point([E.W.vec(d.getMean())[0] for d in s.coll])
E.JointDistribution.getStandardDeviation = lambda s: E.W.ot.Point([E.W.vec(d.getStandardDeviation())[0] for d in s.coll])
E.JointDistribution.drawMarginal1DPDF = lambda s, i, *a: E.GraphTok("pdf", s.coll[int(i)], *a)


# ------------------------------------------------------------------ reliability
class RandomVector(Stub):
    _real = "RandomVector"

    def __init__(self, dist):
        self.dist = dist


class CompositeRandomVector(Stub):
    _real = "CompositeRandomVector"

    def __init__(self, f, v):
        self.f, self.v = f, v
        if f.getInputDimension() != v.dist.getDimension():
            raise lib_error(TypeError("InvalidArgumentException : the input dimension of the function does not match the dimension of the random vector"))


class OperatorRef:
    """the interface object openturns hands out"""
    def __init__(self, op): self.op = op
    def getImplementation(self): return self.op
    def getClassName(self): return "ComparisonOperator"
    def compare(self, a, b): return holds(self.op, a, b)
    def __call__(self, a, b): return holds(self.op, a, b)


class ThresholdEvent(Stub):
    _real = "ThresholdEvent"

    def __init__(self, v, op, thr):
        self.v, self.op, self.thr = v, op, thr

    def getFunction(self): return self.v.f
    def getOperator(self): return OperatorRef(self.op)
    def getThreshold(self): return self.thr
    def getAntecedent(self): return self.v


def holds(op, a, b):
    n = type(op).__name__
    return {"Less": lambda: a < b, "LessOrEqual": lambda: a <= b, "Greater": lambda: a > b, "GreaterOrEqual": lambda: a >= b, "Equal": lambda: a == b}[n]()


class ProbabilitySimulationAlgorithm(Stub):
    _real = "ProbabilitySimulationAlgorithm"

    def __init__(self, event, *a):
        self.event, self.outer, self.block, self.cov = event, 1000, 1, 0.1

    def setMaximumOuterSampling(self, n): self.outer = int(n)
    def setBlockSize(self, n): self.block = int(n)
    def setMaximumCoefficientOfVariation(self, c): self.cov = c

    def run(self):
        # a positive target for the coefficient of variation may stop the simulation early
        n = self.outer if self.cov <= 0 else 1
        W = E.W
        d, f = self.event.v.v.dist, self.event.v.f
        rows, out = [], []
        for _ in range(n):
            b = [d.one() for _ in range(self.block)]
            rows += b
            out += [r[0] for r in as_rows(f(sample(b)))]
        if W.opts.get("mcout"):
            W.opts["mcout"](out)
        g = W.opts.get("pf")
        pf = g() if g else sum(1 for v in out if bool(holds(self.event.op, v, self.event.thr))) / len(out)
        self.r = ProbabilitySimulationResult(self.event, n, self.block, pf)
        W.log("montecarlo", dist=d, function=f, event=self.event, rows=rows, out=out, result=self.r)

    def getResult(self): return self.r


class ProbabilitySimulationResult(Stub):
    _real = "ProbabilitySimulationResult"

    def __init__(self, event, outer, block, pf):
        self.event, self.outer, self.block, self.pf = event, outer, block, pf

    def getEvent(self): return self.event
    def getOuterSampling(self): return self.outer
    def getBlockSize(self): return self.block
    def getProbabilityEstimate(self): return self.pf


class DistributionCollection(Stub):
    _real = "DistributionCollection"

    def __init__(self, n=0):
        self.c = list(n) if hasattr(n, "__len__") else [None] * int(n)

    def __getitem__(self, i): return self.c[i]
    def __setitem__(self, i, v): self.c[i] = v
    def __len__(self): return len(self.c)
    def __iter__(self): return iter(self.c)
    def add(self, v): self.c.append(v)
    def getSize(self): return len(self.c)


over(RandomVector=RandomVector, CompositeRandomVector=CompositeRandomVector, ThresholdEvent=ThresholdEvent,
     ProbabilitySimulationAlgorithm=ProbabilitySimulationAlgorithm, DistributionCollection=DistributionCollection,
     ResourceMap=type("ResourceMap", (), {"GetAsUnsignedInteger": staticmethod(lambda k: 3)}))


# ------------------------------------------------------------------ integration and optimisation (symbolic world only)
class GaussKronrodRule(Plain):
    _real = "GaussKronrodRule"
    G3K7 = G7K15 = G11K23 = G15K31 = G25K51 = 0


class GaussKronrod(Stub):
    """a quadrature rule with three points and positive weights"""
    _real = "GaussKronrod"

    def __init__(self, *a):
        if len(a) == 1 and not isinstance(a[0], GaussKronrod):
            raise lib_error(NotImplementedError("Wrong number or type of arguments for overloaded function 'new_GaussKronrod'."))
        self.src = a[0] if len(a) == 1 else None

    def integrate(self, f, interval):
        W = E.W
        lo, up = W.vec(interval.getLowerBound())[0], W.vec(interval.getUpperBound())[0]
        pts = [lo + (up - lo) * t for t in (0.125, 0.5, 0.875)]
        v = [W.vec(f([p]))[0] for p in pts]
        r = (up - lo) * W.summ([t * w for t, w in zip(v, (0.25, 0.5, 0.25))])
        W.log("integral", lo=lo, up=up, f=f, values=v, result=r, algo=self)
        return W.ot.Point([r])


class OptimizationProblem(Stub):
    _real = "OptimizationProblem"

    def __init__(self, f=None, *a):
        self.f, self.args = f, a

    def setObjective(self, f): self.f = f
    def setBounds(self, b): pass


class NLopt(Stub):
    """an interior optimum: the gradient vanishes"""
    _real = "NLopt"

    def __init__(self, pb, name):
        self.pb = pb

    def setStartingPoint(self, x): self.x0 = E.W.vec(x)

    def run(self):
        W = E.W
        self.grad = self.pb.f._grad
        for e in W.ev("nlopt"):
            if W.eqv(W.vec(self.grad(e.x)), e.grad) is True:
                self.x = e.x                      # the same problem: the same optimum
                return
        h = W.opts.get("nlopt")
        if h:
            x = h()
            g = W.vec(self.grad(x))
            if bool(W.and_(*[v == 0 for v in g])):
                self.x = x
                W.log("nlopt", x=self.x, pb=self.pb, grad=g)
                return
        k = W.tag("nlopt")
        self.x = [W.real("%s.x%d" % (k, i), -2, 2) for i in range(len(self.x0))]
        g = W.vec(self.grad(self.x))
        W.log("nlopt", x=self.x, pb=self.pb, grad=g)
        if not h:
            for v in g:
                W.assume(v == 0)

    def getResult(self): return self
    def getOptimalPoint(self): return E.W.ot.Point(self.x)


def fsolve(func, x0, args=(), **k):
    """a root of the function other than the removable singularity"""
    W = E.W
    for e in W.ev("fsolve"):
        if W.eq(W.vec(func(snp.arr([e.x]), *args))[0], e.value) is True:
            return snp.arr([e.x])                 # the same equation: the same root
    h = W.opts.get("fsolve")
    if h:
        x = h()
        v = W.vec(func(snp.arr([x]), *args))[0]
        if bool(v == 0):
            W.log("fsolve", x=x, value=v, args=args)
            return snp.arr([x])
    key = W.tag("fsolve")
    x = W.real(key, -2, 2)
    W.assume(W.or_(x >= 0.0625, x <= -0.0625))
    v = func(snp.arr([x]), *args)
    W.log("fsolve", x=x, value=W.vec(v)[0], args=args)
    if not h:
        W.assume(W.vec(v)[0] == 0)
    return snp.arr([x])


E.SYM_ONLY.update(GaussKronrod=GaussKronrod, GaussKronrodRule=GaussKronrodRule, OptimizationProblem=OptimizationProblem, NLopt=NLopt)


def _extra(world, ov, modules):
    if world.symbolic:
        modules["scipy.optimize"].__dict__["fsolve"] = fsolve


E.EXTRA.append(_extra)


# ------------------------------------------------------------------ classifiers
class Classifier:
    """a fitted classifier: some probability of detection for each point"""
    kind = None

    def __init__(self, **k):
        self.params = k
        self.key = E.W.tag("classifier")
        self.fitted = None

    def fit(self, x, y):
        self.x, self.y = as_rows(x), E.W.vec(y)
        if len(self.x) != len(self.y):
            raise ValueError("Found input variables with inconsistent numbers of samples: [%d, %d]" % (len(self.x), len(self.y)))
        self.fitted = E.W.log("classifier", model=self, x=self.x, y=self.y, params=self.params, name=self.kind)
        return self

    def p(self, row):
        if self.fitted is None:
            raise ValueError("This %s instance is not fitted yet." % self.kind)
        f = E.W.opts.get("proba")
        v = f(self, row) if f else None
        return v if v is not None else E.W.ufunc("proba", list(row), 0, 1, key=(self.key,))

    def predict_proba(self, x):
        r = [self.p(row) for row in as_rows(x)]
        return E.W.np.array([[1 - v, v] for v in r])


class ExtraTreesClassifier(Classifier):
    kind = "rf"


class SVC(Classifier):
    kind = "svc"


def confusion_matrix(y_true, y_pred):
    W = E.W
    from .core import SymBool

    def flags(s):
        s = np.asarray(s, dtype=object).ravel().tolist() if not isinstance(s, list) else s
        return [v if isinstance(v, (bool, np.bool_, SymBool)) else v > 0.5 for v in s]
    t, p = flags(y_true), flags(y_pred)
    if len(t) != len(p):
        raise ValueError("Found input variables with inconsistent numbers of samples: [%d, %d]" % (len(t), len(p)))
    allv = t + p
    if not bool(W.or_(*allv)) or not bool(W.or_(*[W.not_(v) for v in allv])):
        return W.np.array([[float(len(t))]])

    def n(a, b):
        return W.summ([W.ite(W.and_(u if a else W.not_(u), v if b else W.not_(v)), 1.0, 0.0) for u, v in zip(t, p)])
    return W.np.array([[n(0, 0), n(0, 1)], [n(1, 0), n(1, 1)]])


def _sk(world, ov, modules):
    modules["sklearn.ensemble"] = E.mod("sklearn.ensemble", ExtraTreesClassifier=ExtraTreesClassifier)
    modules["sklearn.svm"] = E.mod("sklearn.svm", SVC=SVC)
    modules["sklearn"] = E.mod("sklearn", svm=modules["sklearn.svm"])
    modules["sklearn.metrics"] = E.mod("sklearn.metrics", **(dict(confusion_matrix=confusion_matrix) if world.symbolic else {}))


E.EXTRA.append(_sk)
