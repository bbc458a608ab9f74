"""C02 Box-Cox coherence: the preparation seen through every class"""
from symx.runner import scenario
from ._lib import *
from .c03 import nll
from . import c04, c06, c07, c09

scenario("C02", "linear", [("uuu", True, "gauss"), ("uuu", "given", "bin"), ("uuu", False, "gauss"), ("uunus", "given", "gauss"), ("uunus", True, "bin"), ("usuu", True, "gauss")],
         bounds="3 uncensored of up to 5 data; symbolic signals of any sign, thresholds, detection, parameter, defect size", budget=90, require=("done",))(c04.curve)


def quant(W, cls, bc, sim):
    """data of the regression, reported parameter and threshold of the quantile regression POD"""
    qs = [0.5]
    pod, data, coef, x, y = c06.build(W, cls, bc, qs, sim)
    d = data(0)
    ev = W.ev("quantreg")
    W.check(W.eqv(ev[0].y, d.y), "regression on the prepared signals")
    if bc:
        W.check(W.eq(pod.getBoxCoxParameter(), d.lam), "reported Box-Cox parameter is the one of the data")
    else:
        W.check(pod.getBoxCoxParameter() is None, "no Box-Cox parameter reported when disabled")
    b0, b1 = c06.knot(data, coef, 0, 0.5)
    r = W.div(d.det - b0, b1)
    W.assume(r >= 0.0625)
    W.assume(r <= max(d.x) - 0.0625)
    W.check(W.eq(call1(pod.getPODModel(), r), 0.5), "the curve uses the prepared detection threshold")
    W.cover("done")


scenario("C02", "quantreg", [("uuuu", "neg", 1), ("uuuu", "neggiven", 1), ("uunus", "neg", 1), ("uuun", "neggiven", 1), ("uuuu", False, 1), ("uuus", "given", 1)],
         bounds="4-5 data, 1 bootstrap fit; symbolic signals of any sign, thresholds, detection, parameter", budget=90, require=("done",))(quant)
scenario("C02", "chaos", [(2, "uuuuu", "neg", (2.0, 5.0), 1, 1, False), (2, "uuuuu", "neggiven", (2.0, 5.0), 1, 1, True), (2, "uuuun", "neg", (2.0, 5.0), 1, 1, True),
                          (2, "uuuuu", "given", (2.0, 5.0), 1, 1, True), (2, "uuuuu", False, (2.0, 5.0), 1, 1, True)],
         bounds="5 data, 2 inputs, basis of 2 functions, 2 sizes, 1 draw; symbolic signals of any sign, thresholds, parameter", budget=100, require=("done",))(c09.chaos)
scenario("C02", "kriging", [(2, "uuuu", "neg", (2.0, 5.0), 1, 1, False), (2, "uuuu", "neggiven", (2.0, 5.0), 1, 1, True), (2, "uuuus", "neg", (2.0, 5.0), 1, 1, True),
                            (2, "uuuu", "given", (2.0, 5.0), 1, 1, True)],
         bounds="4-5 data, 2 inputs, 2 sizes, 1 draw; symbolic signals of any sign, thresholds, parameter", budget=100, require=("done",))(c09.kriging)


def analysis(W, cls, bc):
    """data of both fits of the linear analysis"""
    n = len(cls)
    x = c04.DESIGN[n]
    y, noise, sat = signals(W, cls)
    spread(W, [v for v, k in zip(y, cls) if k == "u"])
    if bc:
        shift_domain(W, y, cls, [noise, sat])
    given = W.real("lam", -3, 3) if isgiven(bc) else None
    W.opts["randn_lo"] = 0.25
    M = W.mod("_univariate_linear_model_analysis")
    for f in ("computeZeroMeanTest", "computeBreuschPaganTest", "computeHarrisonMcCabeTest", "computeDurbinWatsonTest", "computeR2"):
        if hasattr(M, f):                       # the statistics are the subject of C07
            setattr(M, f, lambda *a: 0.5)
    c07.pool(W, 1)
    e, an = W.raises(M.UnivariateLinearModelAnalysis, W.ot.Sample(col(x)), W.ot.Sample(col(y)), noise, sat, None, given if isgiven(bc) else bool(bc))
    if e is not None:
        if "starting point" in str(e):
            return
        raise e
    p = prepared(W, x, y, cls, None, noise, sat, bc, given)
    fit = W.ev("ols")[0]
    W.check(W.eqv(fit.y, p.y), "regression on the prepared signals")
    W.check(W.eqv(fit.X, [[1.0, v] for v in p.x]), "regression on the uncensored defects")
    if bc:
        W.check(W.eq(an.getBoxCoxParameter(), p.lam), "reported Box-Cox parameter")
    else:
        W.check(an.getBoxCoxParameter() is None, "no Box-Cox parameter reported when disabled")
    if noise is not None or sat is not None:
        b = [W.real("b0", -4, 4), W.real("b1", -4, 4), W.real("s", 0.5, 4)]
        c = [0.5, 1.0, 2.0]
        if not W.symbolic:
            for v in (b, c):
                for t, xs in ((p.noise, p.nx), (p.sat, p.sx)):
                    for q in xs:
                        W.assume(abs((t - (v[0] + v[1] * q)) / v[2]) < 5)
        conv = (lambda v: v) if W.symbolic else W.np.array
        f = W.ev("fmin")[0].func
        W.check(W.eq(f(conv(b)) - f(conv(c)), nll(W, p, *b) - nll(W, p, *c)), "the likelihood uses the prepared data and thresholds")
    W.cover("done")


scenario("C02", "analysis", [("uuu", True), ("uuu", "given"), ("uuu", False), ("uunus", "given"), ("uuun", True), ("usuu", True)],
         bounds="3 uncensored of up to 5 data; symbolic signals of any sign, thresholds, parameter", budget=90, require=("done",))(analysis)
