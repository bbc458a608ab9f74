"""C08 detection sizes of every POD class"""
from symx.runner import scenario
from ._lib import *
from . import c09

X5 = [1.0, 2.0, 4.0, 5.0, 7.0]
Y5 = [3.0, 4.5, 11.0, 13.0, 20.5]
TIE = 1e-4


def clear(W, v, p, exact=False):
    """p is away from v (or exactly equal to it, where the value is exact in floating point)"""
    far = W.or_(v >= p + TIE, v <= p - TIE)
    W.assume(W.or_(far, v == p) if exact else far)


def crosses(W, f, r, p, lo, hi, what, step=False):
    W.check(W.and_(W.ge(r, lo), W.le(r, hi)), what + ": inside the studied range")
    if W.symbolic and not step:
        W.check(W.eq(call1(f, r), p), what + ": the curve equals the wanted level there")
        return
    d = 1e-5 if W.symbolic else 1e-3 * (1 + abs(r))
    v = [call1(f, W.max([lo, r - d])), call1(f, r), call1(f, W.min([hi, r + d]))]
    W.check(W.and_(W.min(v) <= p + 1e-6, W.max(v) >= p - 1e-6), what + ": the curve crosses the wanted level there")


def sizes_of(W, pod, p, c, lo, hi, exact, withcl, step=False):
    """checks computeDetectionSize(p[, c]) against the study's own curves"""
    f = pod.getPODModel()
    flo, fhi = call1(f, lo), call1(f, hi)
    clear(W, flo, p, exact)
    clear(W, fhi, p, exact)
    ok = W.and_(flo <= p, p <= fhi)
    g = None
    if withcl:
        g = pod.getPODCLModel(c)
        glo, ghi = call1(g, lo), call1(g, hi)
        clear(W, glo, p, exact)
        clear(W, ghi, p, exact)
        ok = W.and_(ok, glo <= p, p <= ghi)
    e, r = W.raises(pod.computeDetectionSize, p, c) if withcl else W.raises(pod.computeDetectionSize, p)
    if e is not None:
        W.check(W.not_(ok), "an error is raised only when the level is not reached on the range: %s" % type(e).__name__)
        W.cover("error")
        return
    W.check(ok, "an error is raised when the level is not reached on the range")
    W.check(len(r) == (2 if withcl else 1), "one size per requested curve")
    crosses(W, f, r[0], p, lo, hi, "detection size", step)
    if withcl:
        crosses(W, g, r[1], p, lo, hi, "detection size at the confidence level", step)
    W.cover("size")


def linear(W, dist, bc, cls, withcl):
    n = len(cls)
    thr = {"n": 3.75, "s": 13.0}
    det = W.real("det", 3, 18)
    fact = {"bin": None, "gauss": W.ot.NormalFactory, "ks": W.ot.KernelSmoothing}[dist]
    W.opts["bootstrap"] = lambda k, m: [i if i != k % m else (i + 1) % m for i in range(m)]
    if dist == "bin":
        W.opts["brent_step"] = 1e-5
    pod = W.cls("_univariate_linear_model_pod", "UnivariateLinearModelPOD")(
        W.ot.Sample(col(X5)), W.ot.Sample(col(Y5)), det, thr["n"] if "n" in cls else None, thr["s"] if "s" in cls else None,
        fact() if fact else None, bc)
    pod.setVerbose(False)
    pod.setSimulationSize(1)
    if not guarded_run(W, pod):
        return
    p = W.real("p", 0.01, 0.99)
    c = W.real("c", 0.5, 0.99) if withcl else None
    sizes_of(W, pod, p, c, min(X5), max(X5), False, withcl, dist == "bin")


QL = [(d, bc, "uuuuu", cl) for d in ("bin", "gauss", "ks") for bc in (False, True) for cl in (False, True) if not (d == "bin" and cl) and not (d != "bin" and bc and cl) and not (d == "gauss" and bc)]
QL += [("gauss", False, "nuuus", False), ("gauss", 0.5, "uuuuu", True), ("ks", False, "nuuuu", True), ("bin", False, "uuuus", False)]
scenario("C08", "linear-size", QL, bounds="5 data (concrete), 1 simulated curve; symbolic detection threshold, levels p and c, residual law draws", budget=60, require=("size", "error"))(linear)


def quant(W, cls, bc, withcl):
    n = len(cls)
    x, y = X5[:n], Y5[:n]
    noise = 3.75 if "n" in cls else None
    sat = 19.0 if "s" in cls else None
    det = W.real("det", 4, 18)
    p = W.choice("p", [0.5, 0.8] if withcl else [0.5, 0.8, 0.3])
    W.opts["bootstrap"] = lambda k, m: list(range(m))
    coef = {}

    def qr(key, q):
        i = int(key.split("#")[1])
        k = (i, round(float(q), 9))
        if k not in coef:
            coef[k] = (W.real("qb0.%d.%s" % k, -8, 8), W.real("qb1.%d.%s" % k, 0.25, 8))
        return coef[k]
    W.opts["qr"] = qr
    pod = W.cls("_quantile_regression_pod", "QuantileRegressionPOD")(W.ot.Sample(col(x)), W.ot.Sample(col(y)), det, noise, sat, bc)
    pod.setVerbose(False)
    pod.setSimulationSize(1)
    pod.setQuantile([0.5, 0.8])
    e, _ = W.raises(pod.run)
    if e is not None:
        return                                  # the curve itself does not exist (C06)
    d = prepared(W, x, y, cls, det, noise, sat, bc)
    lo, hi = min(d.x), max(d.x)
    line = lambda t: coef[(0, round(1.0 - p, 9))][0] + coef[(0, round(1.0 - p, 9))][1] * t
    c = 0.75 if withcl else None
    if withcl:
        g = pod.getPODCLModel(c)
        glo, ghi = call1(g, lo), call1(g, hi)
        clear(W, glo, p)
        clear(W, ghi, p)
    e, r = W.raises(pod.computeDetectionSize, p, c) if withcl else W.raises(pod.computeDetectionSize, p)
    W.check((0, round(1.0 - p, 9)) in coef, "the quantile line of level 1-p is fitted")
    vlo, vhi = line(lo), line(hi)
    clear(W, vlo, d.det)
    clear(W, vhi, d.det)
    ok = W.and_(vlo <= d.det, d.det <= vhi)
    if withcl:
        ok = W.and_(ok, glo <= p, p <= ghi)
    if e is not None:
        W.check(W.not_(ok), "an error is raised only when the level is not reached on the range: %s" % type(e).__name__)
        W.cover("error")
        return
    W.check(ok, "an error is raised when the level is not reached on the range")
    W.check(len(r) == (2 if withcl else 1), "one size per requested curve")
    W.check(W.and_(W.ge(r[0], lo), W.le(r[0], hi)), "detection size: inside the uncensored defects")
    W.check(W.and_(W.ge(line(r[0]), d.det - 0.001), W.le(line(r[0]), d.det + 0.001)), "detection size: the quantile line of level 1-p meets the threshold")
    if withcl:
        crosses(W, g, r[1], p, lo, hi, "detection size at the confidence level")
    W.cover("size")


scenario("C08", "quantreg-size", [("uuuu", False, False), ("uuuu", False, True), ("nuuu", False, True), ("uuuus", True, False), ("nuuus", False, True)],
         bounds="4-5 data (concrete), 2 levels, 1 bootstrap fit; symbolic detection threshold and quantile lines", budget=60, require=("size", "error"))(quant)


def meta(W, kind, sizes, samp, bc, withcl):
    W.opts["cov"] = lambda m, a, b: 1.0 if W.vec(a) == W.vec(b) else 0.0
    s = c09.mk(W, kind, 2, "uuuuu", bc, sizes, 1, samp, y=[1.0, 2.5, 4.0, 5.0, 9.5])
    pod = s.pod
    if kind == "kriging":
        pod.setInitialStartSize(2)
    pod.run()
    p = W.real("p", 0.0, 1.0)
    c = W.real("c", 0.5, 0.99) if withcl else None
    sizes_of(W, pod, p, c, min(sizes), max(sizes), kind == "chaos", withcl)


scenario("C08", "metamodel-size", [("chaos", (2.0, 5.0), 2, False, False), ("chaos", (2.0, 5.0), 2, False, True), ("chaos", (1.0, 4.0, 8.0), 1, False, True),
                                   ("kriging", (2.0, 5.0), 1, False, False), ("kriging", (2.0, 5.0), 1, False, True), ("kriging", (1.0, 4.0, 8.0), 1, False, True)],
         bounds="5 data, 2-3 defect sizes, 1-2 draws, 1 simulation; symbolic metamodel, draws, threshold, levels p and c", budget=80, require=("size", "error"))(meta)


def names(W, kind):
    """the names of the sizes show the requested levels"""
    p = W.choice("p", [k / 100.0 for k in (range(1, 100) if kind != "linear" else (7, 14, 28, 29, 55, 56, 57, 58, 90, 99))])
    c = W.choice("c", [0.95, 0.57, 0.9]) if kind != "linear" else W.choice("c", [0.57, 0.9, 0.99])
    if kind == "linear":
        pod = W.cls("_univariate_linear_model_pod", "UnivariateLinearModelPOD")(W.ot.Sample(col(X5)), W.ot.Sample(col(Y5)), 10.0, None, None, W.ot.NormalFactory())
        pod.setVerbose(False)
        pod.setSimulationSize(1)
        pod.run()
    else:
        W.opts["bootstrap"] = lambda k, m: list(range(m))
        W.opts["qr"] = lambda key, q: (-1.0, 4.0)
        pod = W.cls("_quantile_regression_pod", "QuantileRegressionPOD")(W.ot.Sample(col(X5)), W.ot.Sample(col(Y5)), 10.0)
        pod.setVerbose(False)
        pod.setSimulationSize(1)
        pod.setQuantile([p])
        pod.run()
    k, q = int(round(100 * p)), int(round(100 * c))
    e, r = W.raises(pod.computeDetectionSize, p)
    if e is None:
        W.check(W.strs(r.getDescription()) == ["a%d" % k], "name of the detection size")
        W.cover("size")
    e, r = W.raises(pod.computeDetectionSize, p, c)
    if e is None:
        W.check(W.strs(r.getDescription()) == ["a%d" % k, "a%d/%d" % (k, q)], "names of the two detection sizes")
        W.cover("both")


scenario("C08", "names", ["linear", "quantreg"], bounds="every level p = k/100, a set of levels c", budget=60, validate=400, require=("size",))(names)
