"""C18 histories: user data untouched, runs use the current settings"""
from symx.runner import scenario
from ._lib import *
from .c05 import sel
from . import c04, c05, c06, c09


# ------------------------------------------------------------------ runs use the current settings
def linear(W, cls, bc, dist, sim):
    W.opts["history"] = lambda pod: earlier_run(W, pod, lambda p: p.setSimulationSize(1), lambda p: p.setSimulationSize(sim))
    c05.clcurve(W, cls, bc, dist, sim)


def linear2(W, cls, bc, dist):
    W.opts["history"] = lambda pod: earlier_run(W, pod, lambda p: None, lambda p: None)
    c04.curve(W, cls, bc, dist)


def quant(W, cls, bc, qs, sim):
    def h(pod):
        earlier_run(W, pod, lambda p: (p.setQuantile([0.375]), p.setSimulationSize(1)), lambda p: (p.setQuantile(list(qs)), p.setSimulationSize(sim)), ("quantreg",))
    W.opts["history"] = h
    c06.curve(W, cls, bc, qs, sim)


def basis_of(W, e, pod, dim, degree):
    """default basis: polynomials of the marginals of the input law up to the degree"""
    try:
        prod, size = e.adaptive.args[:2]
        polys = prod.args[0]
        laws = [p.args[0] for p in polys]
    except (AttributeError, IndexError, TypeError):
        return
    W.check(W.eq(size, math.comb(dim + degree, dim)), "size of the basis for the current degree")
    for i, l in enumerate(laws):
        W.check(l is pod.getDistribution().getMarginal(i), "polynomials of the current input law")


def chaos(W, dim, cls, bc, sizes, sim, samp, own=False):
    box = {}

    def first(p):
        p.setDefectSizes([1.0, 3.0, 8.0] if len(sizes) == 2 else [2.0, 4.0])
        p.setDegree(1)
        p.setSimulationSize(1)
        p.setSamplingSize(1)
        if own:
            p.setDistribution(c09.joint(W, dim, -1.0, 9.0))

    def then(p):
        p.setDefectSizes(list(sizes))
        p.setDegree(2)
        p.setSimulationSize(sim)
        p.setSamplingSize(samp)
        if own:
            p.setDistribution(box["d"])
        box["pod"] = p

    def h(pod):
        if own:
            box["d"] = pod.getDistribution()
        earlier_run(W, pod, first, then)
    W.opts["history"] = h
    c09.chaos(W, dim, cls, bc, sizes, sim, samp, own)
    basis_of(W, W.ev("chaosfit")[0], box["pod"], dim, 2)


def kriging(W, dim, cls, bc, sizes, sim, samp, own=False):
    box = {}

    def mkb(t):
        return W.ot.Basis([W.ot.SymbolicFunction(["x0", "x1"], [t])])

    def first(p):
        p.setDefectSizes([1.0, 3.0, 5.0] if len(sizes) == 2 else [2.0, 4.0])
        p.setSimulationSize(1)
        p.setSamplingSize(1)
        p.setBasis(mkb("x0"))
        p.setCovarianceModel(W.ot.SquaredExponential([1.0] * dim))
        if own:
            p.setDistribution(c09.joint(W, dim, -1.0, 9.0))

    def then(p):
        p.setDefectSizes(list(sizes))
        p.setSimulationSize(sim)
        p.setSamplingSize(samp)
        box["b"], box["c"] = mkb("1"), W.ot.SquaredExponential([2.0] * dim)
        p.setBasis(box["b"])
        p.setCovarianceModel(box["c"])
        if own:
            p.setDistribution(box["d"])

    def h(pod):
        if own:
            box["d"] = pod.getDistribution()
        earlier_run(W, pod, first, then)
    W.opts["history"] = h
    c09.kriging(W, dim, cls, bc, sizes, sim, samp, own)
    e = W.ev("gpfit")[0]
    W.check(e.basis is box["b"] and e.cov is box["c"], "the current trend and covariance are used")


scenario("C18", "linear-rerun", [("uuuu", False, "ks", 2), ("uuu", True, "ks", 2), ("uuuu", "given", "gauss", 2)], bounds="3-4 data; an earlier run with another simulation size",
         budget=100, require=("done",))(linear)
scenario("C18", "linear-rerun-curve", [("uuu", True, "gauss"), ("uuu", "given", "ks"), ("uuuu", False, "bin")], bounds="3-4 data; run twice", budget=100, require=("done",))(linear2)
scenario("C18", "quantile-rerun", [("uuuu", False, (0.25, 0.75), 1), ("uuuu", True, (0.25, 0.75), 1), ("uuun", "given", (0.5,), 2)], bounds="4 data; an earlier run with other quantile levels and simulation size",
         budget=100, require=("done",))(quant)
scenario("C18", "chaos-rerun", [(2, "uuuuu", False, (2.0, 5.0), 1, 1, False), (2, "uuuuu", True, (2.0, 5.0), 1, 1, True), (2, "uuuun", False, (1.0, 3.0, 5.0), 1, 1, False)],
         bounds="5 data, 2 inputs; an earlier run with other sizes, degree, sampling sizes, law", budget=100, require=("done",))(chaos)
scenario("C18", "kriging-rerun", [(2, "uuuuu", False, (2.0, 5.0), 1, 1, False), (2, "uuuu", False, (2.0, 5.0), 1, 1, True)],
         bounds="4-5 data, 2 inputs; an earlier run with other sizes, trend, covariance, law", budget=100, require=("done",))(kriging)


# ------------------------------------------------------------------ user data
def containers(W, kind, rows):
    if kind == "sample":
        return W.ot.Sample([list(r) for r in rows])
    if kind == "array":
        return W.np.array([list(r) for r in rows])
    return [list(r) for r in rows]


def poke(W, box, i, v):
    """the user changes his own data"""
    if isinstance(box, list):
        box[i][0] = v
    else:
        box[i, 0] = v


def userdata(W, cls, kind, bc, mode):
    """mode 'kept': the study leaves the data as they are; 'later': it does not see later changes of them"""
    dim = 2 if cls in ("chaos", "kriging") else 1
    n = 5 if dim == 2 else 4
    letters = "uunu" if mode == "kept" and dim == 1 else "u" * n
    X = c09.XD[2][:n] if dim == 2 else col([1.0, 2.0, 4.0, 5.0])
    y, noise, sat = signals(W, letters, 0.25, 30)
    spread(W, [v for v, c in zip(y, letters) if c == "u"])
    det = W.real("det", 0.25, 30)
    bx, by = containers(W, kind, X), containers(W, kind, col(y))
    W.opts["randn_lo"] = 0.25
    qs = W.np.array([0.75, 0.25])
    sz = W.np.array([5.0, 2.0])
    if cls == "linear":
        pod = W.cls("_univariate_linear_model_pod", "UnivariateLinearModelPOD")(bx, by, det, noise, sat, W.ot.KernelSmoothing(), bool(bc))
    elif cls == "quantile":
        pod = W.cls("_quantile_regression_pod", "QuantileRegressionPOD")(bx, by, det, noise, sat, bool(bc))
        W.opts["bootstrap"] = sel
        coef = {}

        def qr(key, q):
            i = int(key.split("#")[1])
            k = (i, round(float(q), 9))
            if k not in coef:
                b0, b1 = coef[k] = W.real("qb0.%d.%s" % k, -8, 8), W.real("qb1.%d.%s" % k, 0.25, 8)
                d = W.ev("quantreg")[0]
                dt = prepared(W, list(range(n)), y, letters, det, noise, sat, bc).det
                W.assume(b0 <= dt)
                W.assume(b0 + b1 * 4.0 >= dt)
            return coef[k]
        W.opts["qr"] = qr
    elif cls == "chaos":
        pod = W.cls("_polynomial_chaos_pod", "PolynomialChaosPOD")(bx, by, det, noise, sat, bool(bc))
    else:
        pod = W.cls("_kriging_pod", "KrigingPOD")(bx, by, det, noise, sat, bool(bc))
        W.opts["cov"] = lambda m, a, b: 1.0 if W.vec(a) == W.vec(b) else 0.0
        W.opts["gpmean"] = lambda r, z: 1.0
        W.opts["gpvar"] = lambda r, z: 1.0
    if hasattr(pod, "setVerbose"):
        pod.setVerbose(False)
    pod.setSimulationSize(1)
    if hasattr(pod, "setSamplingSize"):
        pod.setSamplingSize(1)
    if cls == "quantile":
        pod.setQuantile(qs)
    if dim == 2:
        pod.setDefectSizes(sz)
    if mode == "later":
        v = W.real("other", 0.25, 30)
        poke(W, by, 1, v)
        poke(W, bx, 2, 7.5)
        qs[0] = 0.125
        sz[0] = 3.0
    if not guarded_run(W, pod):
        return
    fit = {"linear": "ols", "quantile": "quantreg", "chaos": "chaosfit", "kriging": "gpfit"}[cls]
    e = W.ev(fit)[0]
    p = prepared(W, list(range(n)), y, letters, det, noise, sat, bc)
    W.check(W.eqv(e.y, p.y), "the study uses the signals it was given")
    if fit == "chaosfit":
        W.check(W.eqv(e.x, [X[i] for i in p.x]), "the study uses the inputs it was given")
    elif fit == "gpfit":
        Tx = c09.norm_of(W, [X[i] for i in p.x], 2)
        W.check(c09.near(W, e.x, [Tx(X[i]) for i in p.x]), "the study uses the inputs it was given")
    else:
        W.check(W.eqv(e.X, [[1.0, X[i][0]] for i in p.x]), "the study uses the inputs it was given")
    if cls == "quantile":
        W.check(W.eqv(W.vec(pod.getQuantile()), [0.25, 0.75]), "the study uses the levels it was given")
    if dim == 2:
        W.check(W.eqv(W.vec(pod.getDefectSizes()), [2.0, 5.0]), "the study uses the sizes it was given")
    if mode == "kept":
        pod.getPODModel()
        pod.getPODCLModel(0.75)
        W.check(W.eqv(W.mat(bx), X), "the user's inputs are untouched")
        W.check(W.eqv(W.mat(by), col(y)), "the user's signals are untouched")
        W.check(W.eqv(W.vec(qs), [0.75, 0.25]), "the user's levels are untouched")
        W.check(W.eqv(W.vec(sz), [5.0, 2.0]), "the user's sizes are untouched")
    W.cover("done")


QU = [(c, k, bc, m) for c in ("linear", "chaos", "kriging", "quantile") for k, bc, m in (("sample", True, "kept"), ("array", False, "later"), ("list", False, "kept"), ("sample", False, "later")) if not (c == "quantile" and bc)]
QU.append(("quantile", "sample", False, "kept"))
scenario("C18", "user-data", QU, bounds="4-5 data, samples/arrays/lists, symbolic signals, thresholds and later changes", budget=60, require=("done",))(userdata)
