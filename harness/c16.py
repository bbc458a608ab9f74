"""C16 setters and constructors: documented domain, rejection without effect"""
from symx.runner import scenario
from ._lib import *
from . import c09, c13, c15

CLS = {"linear": ("_univariate_linear_model_pod", "UnivariateLinearModelPOD"), "quantile": ("_quantile_regression_pod", "QuantileRegressionPOD"),
       "chaos": ("_polynomial_chaos_pod", "PolynomialChaosPOD"), "kriging": ("_kriging_pod", "KrigingPOD"),
       "adaptive": ("_adaptive_signal_pod", "AdaptiveSignalPOD"), "hitmiss": ("_adaptive_hitmiss_pod", "AdaptiveHitMissPOD"),
       "analysis": ("_univariate_linear_model_analysis", "UnivariateLinearModelAnalysis")}
X2 = [[1.0, 0.0], [2.0, 3.0], [4.0, 1.0], [5.0, 2.0]]
Y = [3.0, 4.5, 6.0, 9.0]


def build(W, kind, X=None, y=None):
    if kind in ("sobol", "plimean", "plivar"):
        pod = c13.study(W, "chaos", False).pod
        mod, name = {"sobol": ("_sobol_indices", "SobolIndices"), "plimean": ("_pli_pod", "PLIMean"), "plivar": ("_pli_pod", "PLIVariance")}[kind]
        return W.cls(mod, name)(*((pod, 8) if kind == "sobol" else (pod, [0.5, 0.25])))
    if kind == "summary":
        return c15.summary(W, 2, "uuuuu", False, tuple(c15.M6))[0]
    dim = 1 if kind in ("linear", "quantile", "analysis") else 2
    X = X if X is not None else [r[:dim] for r in X2]
    y = y if y is not None else col(Y)
    C = W.cls(*CLS[kind])
    S = W.ot.Sample
    if kind == "analysis":
        return C(S(X), S(y))
    if kind == "adaptive":
        return C(S(X), S(y), model(W), 1, 5.0)
    if kind == "hitmiss":
        return C(S(X), S(y), model(W), 1, 5.0)
    return C(S(X), S(y), 5.0)


def model(W):
    return W.ot.SymbolicFunction(["x0", "x1"], ["x0+x1"])


def val(W, v):
    """comparable value of a getter's result"""
    if v is None or isinstance(v, (str, bool)) or W.isnum(v):
        return v
    if isinstance(v, dict):
        return [[k, val(W, v[k])] for k in sorted(v)]
    if isinstance(v, (list, tuple)) and not all(isinstance(a, (int, float)) for a in v):
        return [val(W, a) for a in v]
    try:
        return W.vec(v)
    except Exception:
        return v


GET = ["getSimulationSize", "getQuantile", "getVerbose", "getDefectSizes", "getSamplingSize", "getDistribution", "getBasis", "getCovarianceModel",
       "getInitialStartSize", "getKrigingResult", "getPolynomialChaosResult", "getDegree", "getAdaptiveStrategy", "getProjectionStrategy",
       "getCandidateSize", "getGraphActive", "getPMin", "getPMax", "getClassifierType", "getClassifierParameters", "getBoxCoxParameter",
       "getSensitivityMethod", "getMethodActive"]


def state(W, pod):
    out = {}
    for g in GET:
        if hasattr(pod, g):
            e, v = W.raises(getattr(pod, g))
            out[g] = val(W, v) if e is None else "raises"
    return out


def eq(W, a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        if any(isinstance(t, (list, str)) or not W.isnum(t) for t in a + b):
            return W.and_(*[eq(W, s, t) for s, t in zip(a, b)])
        return W.eqv(a, b)
    if W.isnum(a) and W.isnum(b):
        return W.eq(a, b)
    return a is b or (type(a) is type(b) and isinstance(a, (str, bool)) and a == b)


def unchanged(W, before, pod, but=(), what=""):
    now = state(W, pod)
    W.check(set(now) == set(before), what + ": same accessors")
    for g in before:
        if g not in but:
            W.check(eq(W, before[g], now[g]), "%s: %s is unchanged" % (what, g))


def ranged(W, kind, setter, n):
    """setters with a numeric domain: accepted exactly inside it"""
    pod = build(W, kind)
    if n < 0:
        v = W.real("v", -2, 2)
        vals, arg = [v], v
    else:
        vals = [W.real("v%d" % i, -10, 15) for i in range(n)]
        arg = list(vals) if n % 2 else W.ot.Point(list(vals))
    get = "g" + setter[1:]
    # an accepted value first, so that "unchanged" is about the user's own settings
    top = 8.0 if kind in ("sobol", "plimean", "plivar") else 5.0
    first = {"setDefectSizes": [1.5, 4.0], "setQuantile": [0.25, 0.75], "setPMin": 0.25, "setPMax": 0.75}[setter]
    getattr(pod, setter)(first)
    before = state(W, pod)
    W.check(eq(W, val(W, getattr(pod, get)()), first if isinstance(first, float) else list(first)), setter + ": the getter returns the accepted value")
    if setter == "setDefectSizes":
        ok = W.and_(*[W.and_(v >= 1.0, v <= top) for v in vals])
    elif setter == "setQuantile":
        ok = W.and_(*[W.and_(v > 0, v < 1) for v in vals])
    else:
        ok = W.and_(vals[0] >= 0, vals[0] <= 1)
    e, _ = W.raises(getattr(pod, setter), arg)
    W.check(W.iff(ok, e is None), "%s accepts exactly the documented domain" % setter)
    if e is not None:
        unchanged(W, before, pod, (), "rejected " + setter)
        W.cover("rejected")
    else:
        got = val(W, getattr(pod, get)())
        W.check(eq(W, got, sorted_(W, vals) if n >= 0 else vals[0]), setter + ": the getter returns the accepted value")
        unchanged(W, before, pod, (get,), "accepted " + setter)
        W.cover("accepted")


def sorted_(W, v):
    if not W.symbolic:
        return sorted(v)
    if len(v) == 2:
        return [W.min(v), W.max(v)]
    if len(v) == 3:
        lo, hi = W.min(v), W.max(v)
        return [lo, W.summ(v) - lo - hi, hi]
    return list(v)


QR = [("chaos", "setDefectSizes", 2), ("chaos", "setDefectSizes", 3), ("kriging", "setDefectSizes", 2), ("kriging", "setDefectSizes", 3), ("adaptive", "setDefectSizes", 2),
      ("hitmiss", "setDefectSizes", 2), ("quantile", "setQuantile", 2), ("quantile", "setQuantile", 3), ("quantile", "setQuantile", 1), ("hitmiss", "setPMin", -1),
      ("hitmiss", "setPMax", -1), ("kriging", "setDefectSizes", 1),
      ("sobol", "setDefectSizes", 2), ("plimean", "setDefectSizes", 3), ("plivar", "setDefectSizes", 2)]
scenario("C16", "numeric-domain", QR, bounds="every numeric-domain setter of every POD class; 1-3 symbolic values, 4 data", budget=60, require=("rejected", "accepted"))(ranged)


def typed(W, kind, setter):
    """setters with a required kind of value"""
    pod = build(W, kind)
    get = {"setPolynomialChaosResult": "getPolynomialChaosResult"}.get(setter, "g" + setter[1:])
    good = {"setDistribution": lambda: W.ot.JointDistribution([W.ot.Uniform(0, 8)] * 2), "setBasis": lambda: W.ot.Basis([W.ot.SymbolicFunction(["x0", "x1"], ["1"])]),
            "setCovarianceModel": lambda: W.ot.SquaredExponential([1.0] * 2), "setVerbose": lambda: False, "setGraphActive": lambda: True,
            "setAdaptiveStrategy": lambda: W.ot.FixedStrategy(1, 2), "setProjectionStrategy": lambda: W.ot.LeastSquaresStrategy(),
            "setPolynomialChaosResult": lambda: W.ot.FunctionalChaosResult.make(2, None, coefs=[1.0, 2.0]), "setClassifierType": lambda: "svc", "setSensitivityMethod": lambda: "Jansen", "setKrigingResult": lambda: kriging(W)}[setter]()
    if kind in ("sobol", "plimean", "plivar") and setter == "setDistribution":
        three = W.ot.JointDistribution([W.ot.Uniform(0, 8)] * 3)
    bad = W.choice("bad", {"setDistribution": [W.ot.Normal(), "joint", 3.5, None], "setBasis": [3.5, "1", W.ot.Normal()], "setCovarianceModel": [3.5, "cov", W.ot.Normal()],
                           "setVerbose": [1, 0, "yes", 0.5], "setGraphActive": [1, "yes", 0.5], "setAdaptiveStrategy": [3.5, "a", W.ot.Normal()],
                           "setProjectionStrategy": [3.5, "a", W.ot.Normal()], "setPolynomialChaosResult": [3.5, "a", W.ot.Normal()],
                           "setClassifierType": ["SVC", "forest", 3], "setSensitivityMethod": ["jansen", "Sobol", 3, None], "setKrigingResult": [3.5, "a", W.ot.Normal()]}[setter]
                   + ([three] if setter == "setDistribution" and kind in ("sobol", "plimean", "plivar") else []))
    e, _ = W.raises(getattr(pod, setter), good)
    W.check(e is None, setter + " accepts a value of the documented kind")
    W.check(getattr(pod, get)() is good or getattr(pod, get)() == good, setter + ": the getter returns the accepted value")
    before = state(W, pod)
    e, _ = W.raises(getattr(pod, setter), bad)
    W.check(e is not None, setter + " rejects a value of another kind")
    unchanged(W, before, pod, (), "rejected " + setter)
    if setter == "setGraphActive":
        e, _ = W.raises(pod.setGraphActive, False, None, None, 3.5)
        W.check(e is not None, "setGraphActive rejects a directory that is not a string")
        unchanged(W, before, pod, (), "rejected setGraphActive")
    W.cover("done")


QT = [(k, s) for k in ("chaos", "kriging", "adaptive", "hitmiss") for s in ("setDistribution", "setVerbose")] + [("quantile", "setVerbose")] + \
     [(k, s) for k in ("kriging", "adaptive") for s in ("setBasis", "setCovarianceModel")] + [("adaptive", "setGraphActive"), ("hitmiss", "setGraphActive")] + \
     [("chaos", s) for s in ("setAdaptiveStrategy", "setProjectionStrategy", "setPolynomialChaosResult")] + [("hitmiss", "setClassifierType")] + \
     [(k, "setDistribution") for k in ("sobol", "plimean", "plivar")] + [("sobol", "setSensitivityMethod"), ("summary", "setVerbose"), ("kriging", "setKrigingResult")]
scenario("C16", "kind-of-value", QT, bounds="every setter with a required kind of value; 3-4 wrong kinds each", budget=30, require=("done",))(typed)


def kriging(W):
    gp = W.ot.GaussianProcessFitter(W.ot.Sample(X2), W.ot.Sample(col(Y)), W.ot.SquaredExponential([1.0] * 2), W.ot.Basis([W.ot.SymbolicFunction(["a", "b"], ["1"])]))
    a = W.ot.GaussianProcessRegression(gp.getResult())
    a.run()
    return a.getResult()


def active(W):
    """methods of the summary"""
    s = build(W, "summary")
    names = list(c15.M6)
    W.check(sorted(s.getMethodActive()) == sorted(names), "the six methods")
    on = {m: True for m in names}
    for step in range(2):
        m = W.choice("method%d" % step, names + ["Gauss", "kriging", ""] if step == 0 else [names[1], names[4], "Gauss"])
        a = W.choice("value%d" % step, [True, False, 1, 0, "yes", None] if step == 0 else [True, False, 0])
        before = state(W, s)
        e, _ = W.raises(s.setMethodActive, m, a)
        ok = m in names and isinstance(a, bool)
        W.check((e is None) == ok, "accepted exactly for a known method and a boolean")
        if ok:
            on[m] = a
        else:
            unchanged(W, before, s, (), "rejected setMethodActive")
        unchanged(W, before, s, ("getMethodActive",), "setMethodActive")
        now = s.getMethodActive()
        W.check(all(now[k] is on[k] for k in names) and len(now) == len(names), "the getter tells the accepted choices")
    W.cover("done")


scenario("C16", "active", [()], bounds="two successive choices among 9 names and 6 values", budget=60, require=("done",))(active)


def plain(W, kind, setter):
    """setters of sizes: the getter returns what was set, nothing else changes"""
    pod = build(W, kind)
    get = "g" + setter[1:]
    v = W.int("v", 1, 5000)
    before = state(W, pod)
    getattr(pod, setter)(v)
    W.check(W.eq(getattr(pod, get)(), v), setter + ": the getter returns the accepted value")
    unchanged(W, before, pod, (get,), "accepted " + setter)
    W.cover("done")


QP = [(k, "setSimulationSize") for k in ("linear", "quantile", "chaos", "kriging", "adaptive")] + [(k, "setSamplingSize") for k in ("chaos", "kriging", "adaptive", "hitmiss")] + \
     [(k, "setInitialStartSize") for k in ("kriging", "adaptive")] + [("chaos", "setDegree"), ("adaptive", "setCandidateSize"), ("hitmiss", "setCandidateSize"),
      ("sobol", "setSimulationSize"), ("plimean", "setSamplingSize"), ("plivar", "setSamplingSize"), ("summary", "setSimulationSize"), ("summary", "setSamplingSize")]
scenario("C16", "sizes", QP, bounds="every size setter; one symbolic integer", budget=30, require=("done",))(plain)


def ctor(W, kind):
    """data of inconsistent sizes or dimensions and fewer than three observations are rejected"""
    n = W.choice("n", [1, 2, 3, 4])
    m = W.choice("m", [1, 2, 3, 4])
    dx = W.choice("dx", [1, 2, 3])
    dy = W.choice("dy", [1, 2])
    X = [(X2[i] + [0.5 * i])[:dx] for i in range(n)]
    y = [[Y[i]] * dy for i in range(m)]
    W.opts["ols_any"] = True
    one = kind in ("linear", "quantile", "analysis")
    ok = n == m and n >= 3 and dy == 1 and (dx == 1 if one else True if kind in ("chaos", "hitmiss") else dx > 1)
    if kind == "analysis":
        M = W.mod(CLS[kind][0])
        for f in ("computeZeroMeanTest", "computeBreuschPaganTest", "computeHarrisonMcCabeTest", "computeDurbinWatsonTest", "computeR2"):
            if hasattr(M, f):
                setattr(M, f, lambda *a: 0.5)
    e, _ = W.raises(build, W, kind, X, y)
    W.check((e is None) == ok, "the constructor accepts exactly consistent data of at least three observations", info="n=%d m=%d dx=%d dy=%d %r" % (n, m, dx, dy, e))
    W.cover("accepted" if ok else "rejected")


scenario("C16", "constructors", [(k,) for k in CLS], bounds="sizes 1-4 of both samples, input dimension 1-3, output dimension 1-2, every class", budget=60,
         require=("rejected", "accepted"))(ctor)
