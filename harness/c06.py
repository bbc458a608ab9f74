"""C06 quantile regression POD"""
from symx.runner import scenario
from ._lib import *
from .c05 import sel

X4 = [1.0, 2.0, 4.0, 5.0]
XN = {3: [1.0, 2.0, 4.0], 4: X4, 5: [1.0, 2.0, 3.0, 4.0, 5.0]}


def build(W, cls, bc, qs, sim):
    n = len(cls)
    x = XN[n]
    y, noise, sat = signals(W, cls, -20 if isneg(bc) else 0.125, 30)
    det = W.real("det", 0.125, 30)
    if isneg(bc):
        shift_domain(W, y, cls, [det, noise, sat], True)
    given = W.real("lam", -3, 3) if isgiven(bc) else None
    W.opts["bootstrap"] = sel
    pod = W.cls("_quantile_regression_pod", "QuantileRegressionPOD")(
        W.ot.Sample(col(x)), W.ot.Sample(col(y)), det, noise, sat, given if isgiven(bc) else bool(bc))
    pod.setVerbose(False)
    pod.setSimulationSize(sim)
    pod.setQuantile(qs)
    p = {}

    def data(i):
        """prepared data of fit i (0: full data, then bootstrap replicates)"""
        if i not in p:
            if i == 0:
                p[i] = prepared(W, x, y, cls, det, noise, sat, bc, given, ev=0)
            else:
                rep = W.ev("bootrep")[i - 1]
                p[i] = prepared(W, [r[0] for r in rep.rows], [r[1] for r in rep.rows], "".join(cls[j] for j in rep.idx),
                                det, noise, sat, bc, given, ev=i)
        return p[i]

    coef = {}

    def qr(key, q):
        i = int(key.split("#")[1])
        k = (i, round(float(q), 9))
        if k not in coef:
            b0 = W.real("qb0.%d.%s" % k, -8, 8)
            b1 = W.real("qb1.%d.%s" % k, 0.25, 8)
            coef[k] = (b0, b1)
            d = data(i)
            # the quantile line crosses the detection threshold inside the data range
            # (a bootstrap replicate's line may cross it at a negative size)
            if i == 0:
                W.assume(b0 <= d.det)
            else:
                W.assume(d.det >= -1000)
            W.assume(b0 + b1 * max(d.x) >= d.det)
        return coef[k]
    W.opts["qr"] = qr
    history(W, pod)
    pod.run()
    return pod, data, coef, x, y


def knot(data, coef, i, q):
    b0, b1 = coef[(i, round(1.0 - q, 9))]
    return b0, b1


def curve(W, cls, bc, qs, sim):
    pod, data, coef, x, y = build(W, cls, bc, list(qs), sim)
    d = data(0)
    fits = W.ev("quantreg")
    W.check(len(fits) >= 1, "a quantile regression is fitted")
    W.check(W.eqv(fits[0].y, d.y) if len(fits[0].y) == len(d.y) else False, "regression on the prepared signals")
    W.check(W.eqv([r for r in fits[0].X], [[1.0, v] for v in d.x]), "regression on the uncensored defects with an intercept")
    if bc:
        W.check(W.eq(pod.getBoxCoxParameter(), d.lam), "reported Box-Cox parameter is the one of the data")
    f = pod.getPODModel()
    top = max(d.x)
    roots = []
    for q in qs:
        b0, b1 = knot(data, coef, 0, q)
        roots.append(W.div(d.det - b0, b1))
    # POD at the defect whose (1-q) quantile line meets the threshold is q (distinct knots)
    for i in range(len(qs) - 1):
        W.assume(roots[i] + 0.0625 <= roots[i + 1])
    W.assume(roots[0] >= 0.0625)
    W.assume(roots[-1] <= top - 0.0625)
    for q, r in zip(qs, roots):
        W.check(W.eq(call1(f, r), q), "POD is q where the quantile line of level 1-q crosses the threshold")
    W.check(W.eq(call1(f, 0.0), 0.0), "POD is 0 at defect size 0")
    W.check(W.eq(call1(f, top), max(qs)), "POD stays at the largest level up to the largest defect")
    a = W.real("a", 0, top)
    b = W.real("b", 0, top)
    W.assume(a <= b)
    va, vb = call1(f, a), call1(f, b)
    W.check(W.le(va, vb), "POD does not decrease")
    W.check(W.and_(W.ge(va, 0.0), W.le(vb, max(qs))), "POD in [0, largest level]")
    # confidence curve
    reps = W.ev("bootrep")
    W.check(len(reps) == sim, "as many bootstrap fits as simulations")
    c = W.real("c", 0.5, 0.99)
    g = pod.getPODCLModel(c)
    kn = []
    for q in qs:
        vals = []
        for i in range(1, sim + 1):
            data(i)
            b0, b1 = knot(data, coef, i, q)
            vals.append(W.div(data(i).det - b0, b1))
        kn.append(quantile(W, vals, c))
    for i in range(len(qs) - 1):
        W.assume(kn[i] + 0.0625 <= kn[i + 1])
    W.assume(kn[0] >= 0.0625)
    W.assume(kn[-1] <= top - 0.0625)
    for q, r in zip(qs, kn):
        W.check(W.eq(call1(g, r), q), "confidence curve: c-quantile of the bootstrap defect sizes at level q")
    W.check(W.eq(call1(g, 0.0), 0.0), "confidence curve is 0 at 0")
    W.cover("done")


def fits(W, cls, bc):
    """each bootstrap regression uses the replicate's own prepared data"""
    qs = [0.5]
    pod, data, coef, x, y = build(W, cls, bc, qs, 2)
    ev = W.ev("quantreg")
    W.check(len(ev) == 3, "one regression per replicate")
    for i in range(3):
        d = data(i)
        W.check(len(ev[i].y) == len(d.y), "size of the regression data")
        W.check(W.eqv(ev[i].y, d.y), "regression on the prepared signals")
        W.check(W.eqv([r for r in ev[i].X], [[1.0, v] for v in d.x]), "regression on the uncensored defects")
    W.cover("done")


Q = [("uuuu", False, (0.5,), 1), ("uuuu", True, (0.25, 0.75), 1), ("uuuu", "given", (0.25, 0.75), 1),
     ("uunus", False, (0.25, 0.75), 1), ("uunuu", True, (0.5,), 2), ("uuuus", False, (0.5,), 2)]
scenario("C06", "quantreg-curve", Q, bounds="4-5 data, 1-2 levels, 1-2 bootstrap fits; symbolic signals, quantile lines, detection, confidence", budget=120, require=("done",))(curve)
scenario("C06", "quantreg-fits", [("uuuu", False), ("uuuu", True), ("uunus", True), ("uunuu", "given"), ("uuuus", False)], bounds="4-5 data, 2 replicates", budget=60, require=("done",))(fits)
scenario("C06", "quantreg-curve", [("uuuu", False, (0.25, 0.75), 2), ("uuuu", True, (0.25, 0.5, 0.75), 1)], tier="thorough", bounds="4 data, 2-3 levels, 1-2 bootstrap fits", budget=800, require=("done",))(curve)
