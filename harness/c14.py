"""C14 perturbation-law indices"""
import math
import numpy as np
from fractions import Fraction
from symx.runner import scenario
from ._lib import *
from . import c09, c13

OPS = {"Greater": lambda a, b: a > b, "GreaterOrEqual": lambda a, b: a >= b, "Less": lambda a, b: a < b, "LessOrEqual": lambda a, b: a <= b}
LAWS = {"nn": [("n", 1.0, 2.0), ("n", -1.0, 0.5)], "nu": [("n", 0.0, 1.0), ("u", 0.0, 2.0)], "un": [("u", -1.0, 1.0), ("n", 0.0, 2.0)], "n": [("n", 1.0, 2.0)], "u": [("u", 0.0, 2.0)], "w": [("u", 1.0, 2.0)]}
POINTS = [-0.5, 1.25, 0.75, -1.0, 0.5, 0.25]


def joint(W, laws):
    return W.ot.JointDistribution([W.ot.Normal(a, b) if k == "n" else W.ot.Uniform(a, b) for k, a, b in LAWS[laws]])


def expo(W, v):
    if W.symbolic:
        from symx import core
        return core.s_exp(v)
    return math.exp(v)


def dens(W, x, mean, sd):
    z = W.div(x - mean, sd)
    e = expo(W, -0.5 * (z * z))
    W.assume(e <= 1)
    return W.div(1.0, sd * math.sqrt(2 * math.pi)) * e


def simulate(W, dist, op, thr, n, block, dim):
    f = W.ot.MemoizeFunction(W.ot.SymbolicFunction(["a", "b"][:dim], ["a + 2*b" if dim == 2 else "2*a"]))
    ev = W.ot.ThresholdEvent(W.ot.CompositeRandomVector(f, W.ot.RandomVector(dist)), getattr(W.ot, op)(), thr)
    mc = W.ot.ProbabilitySimulationAlgorithm(ev)
    mc.setMaximumOuterSampling(n // block)
    if block > 1:
        mc.setBlockSize(block)
    mc.setMaximumCoefficientOfVariation(-1)
    mc.run()
    return mc.getResult(), W.ev("montecarlo")[-1]


def fixed_points(W):
    k = [0]

    def h(t):
        if t in ("normal", "uniform"):
            k[0] += 1
            v = POINTS[(k[0] - 1) % len(POINTS)]
            return v if t == "normal" else (v + 2) / 4
    W.opts["draw"] = h


def moments(law):
    return law[1:] if law[0] == "n" else ((law[1] + law[2]) / 2, (law[2] - law[1]) / math.sqrt(12))


def target(kind, law, d, scaled):
    """new mean or variance of a marginal"""
    m, s = moments(law)
    if kind == "mean":
        return m + s * d if scaled else d
    return (m * d + s) * (m * d + s) if scaled else d


def away(W, vals, thr):
    for v in vals:
        W.assume(W.or_(v >= thr + 1.0 / 1024, v <= thr - 1.0 / 1024))


def index(W, pd, pf):
    return W.ite(pd < pf, W.div(pd - pf, pd), W.div(pd - pf, pf))


def ratio(W, kind, law, x, d, scaled):
    """perturbed over original density (normal marginal)"""
    m, s = moments(law)
    t = target(kind, law, d, scaled)
    o = dens(W, x, m, s)
    if bool(t == (m if kind == "mean" else s * s)):
        return 1.0
    if kind == "mean":
        return W.div(dens(W, x, t, s), o)
    u = W.sqrt(t)
    return W.div(dens(W, x, m, u), o)


def separate(W, pd, pf):
    W.assume(W.or_(pd >= pf + 0.015625, pd <= pf - 0.015625, pd == pf))


def base(W, kind, laws, op, deltas, scaled, n, block, mode):
    """mode: "x" symbolic points, "d" fixed points and symbolic perturbations, "tie" first point at the threshold"""
    dim = len(LAWS[laws])
    dist = joint(W, laws)
    thr = W.real("thr", -3, 3)
    if mode != "x":
        fixed_points(W)
    if mode == "tie":
        thr = {"n": 0.0}[laws]              # 2*(1 + 2*(-1/2)) = 0
        k = fixed_points(W)
    res, e = simulate(W, dist, op, thr, n, block, dim)
    if mode == "tie":
        W.check(W.eq(e.out[0], thr), "environment: first point on the threshold")
        away(W, e.out[1:], thr)
    else:
        away(W, e.out, thr)
    hit = [(op.endswith("Equal") if mode == "tie" and i == 0 else bool(OPS[op](v, thr))) for i, v in enumerate(e.out)]
    if not any(hit):
        return
    pf = W.q(sum(hit), n)
    W.check(W.eq(res.getProbabilityEstimate(), pf), "environment: estimated probability")
    C = W.cls("_pli", {"mean": "PLIMeanBase", "var": "PLIVarianceBase"}[kind])
    if mode == "d":
        lo, hi = (-3, 3) if kind == "mean" else ((0.25, 4) if not scaled else (0.0625, 1))
        put = lambda d, k: W.real(k, lo, hi) if d == "?" else d
        deltas = [[put(v, "d") for v in d] if isinstance(d, list) else put(d, "d") for d in deltas]
    a = C(res, dist, deltas, scaled)
    D = [d if isinstance(d, list) else [d] * dim for d in deltas]
    got = W.to_list(a.getDeltaSample())
    W.check(len(got) == len(D), "one row per perturbation")
    for r, want in zip(got, D):
        for j in range(dim):
            W.check(W.eq(r[j], target(kind, LAWS[laws][j], want[j], scaled)), "perturbed parameter of the marginal")
    xs = [r for r, h in zip(e.rows, hit) if h]
    RA = [[[ratio(W, kind, LAWS[laws][j], x[j], D[i][j], scaled) for x in xs] for j in range(dim)] for i in range(len(D))]
    PD = [[W.summ(r) * W.q(1, n) for r in row] for row in RA]
    for row in PD:
        for pd in row:
            separate(W, pd, pf)
    a.run()
    ind, pdel = W.to_list(a.getIndices()), W.to_list(a.getPerturbedProbabilityEstimate())
    c = W.real("conf", 0.5, 0.99)
    ci = a.computeConfidenceInterval(c)
    z = W.ot.DistFunc.qNormal((1.0 + c) / 2)
    for i in range(len(D)):
        for j in range(dim):
            ra, pd = RA[i][j], PD[i][j]
            W.check(W.eq(pdel[i][j], pd), "perturbed probability: reweighted failure sample")
            pd = pdel[i][j]
            v = W.summ([t * t for t in ra]) * W.q(1, n) - pd * pd
            W.check(W.eq(ind[i][j], index(W, pd, pf)), "index: relative change of the probability")
            # asymptotic law of the index
            if pd < pf:
                g = (W.div(-1.0, pd), W.div(pf, pd * pd))
            else:
                g = (W.div(0 - pd, pf * pf), W.div(1.0, pf))
            va = g[0] * g[0] * pf * (1 - pf) + 2 * g[0] * g[1] * pd * (1 - pf) + g[1] * g[1] * v
            if mode == "d":
                continue
            lo, up = ci[j][i][0], ci[j][i][1]
            W.check(W.eq(lo + up, 2 * ind[i][j]), "interval centred on the index")
            h = (up - lo) / 2
            W.check(W.ge(h, 0), "interval of positive length")
            W.check(W.eq(h * h * n, W.ite(va > 0, va, 0.0) * z * z), "interval: variance of the estimator (delta method)")
    W.cover("done")


QB = [("mean", "n", "Less", [1.0, 2.0], False, 2, 1, "x"), ("var", "n", "Greater", [4.0, 1.0], False, 2, 2, "x"), ("mean", "n", "Greater", [0.5], True, 2, 1, "x"), ("var", "n", "Less", [0.5], True, 2, 1, "x"),
      ("mean", "n", "GreaterOrEqual", [2.0], False, 2, 1, "tie"), ("mean", "n", "LessOrEqual", [2.0], False, 2, 1, "tie"), ("mean", "n", "Greater", [2.0], False, 3, 1, "tie"), ("var", "n", "Less", [2.0], False, 4, 1, "tie"),
      ("mean", "nn", "Greater", [-0.5, -0.25], False, 3, 1, "c"), ("mean", "nn", "Less", [[-1.0, 0.5], [0.25, -2.0]], True, 4, 2, "c"), ("var", "nn", "GreaterOrEqual", [1.0, 0.5], False, 3, 1, "c"),
      ("var", "nn", "LessOrEqual", [[0.5, 0.25], [1.5, -0.125]], True, 4, 1, "c"),
      ("mean", "nn", "Greater", [["?", -0.5]], False, 2, 1, "d"), ("mean", "nn", "Less", [[0.5, "?"]], True, 2, 2, "d"), ("var", "nn", "Greater", [[1.0, "?"]], False, 2, 1, "d"), ("var", "nn", "Less", [["?", 0.125]], True, 2, 1, "d")]
scenario("C14", "indices", QB, bounds="2-4 simulated points, 1-2 normal marginals, 1-3 perturbations; symbolic points or perturbations, threshold and level", budget=90, require=("done",))(base)


def uniform(W, kind, laws, op, deltas, n):
    """uniform marginals: maximum-entropy (exponential) tilting, integrals abstracted in the symbolic world"""
    dim = len(LAWS[laws])
    dist = joint(W, laws)
    fixed_points(W)
    thr = W.real("thr", -3, 8)
    res, e = simulate(W, dist, op, thr, n, 1, dim)
    away(W, e.out, thr)
    hit = [bool(OPS[op](v, thr)) for v in e.out]
    if not any(hit):
        return
    pf = W.q(sum(hit), n)
    xs = [r for r, h in zip(e.rows, hit) if h]
    C = W.cls("_pli", {"mean": "PLIMeanBase", "var": "PLIVarianceBase"}[kind])
    a = C(res, dist, deltas, False)
    lam = None
    if W.symbolic:
        # the tilting parameters: the numerical solvers find them if the equations they are given hold there
        for j, law in enumerate(LAWS[laws]):
            d = deltas[0][j] if isinstance(deltas[0], list) else deltas[0]
            if law[0] == "u":
                lam = [W.real("lambda%d" % i, -2, 2) for i in range(2)] if kind == "var" else W.real("lambda", -2, 2)
                (mean_root if kind == "mean" else var_root)(W, law, d, lam)
        W.opts["fsolve"] = W.opts["nlopt"] = lambda: lam
    del W.events[:]
    a.run()
    pdel, ind = W.to_list(a.getPerturbedProbabilityEstimate()), W.to_list(a.getIndices())
    for j in range(dim):
        law = LAWS[laws][j]
        for i, d in enumerate(deltas):
            d = d[j] if isinstance(d, list) else d
            m, s = moments(law)
            if law[0] == "n":
                ra = [ratio(W, kind, law, x[j], d, False) for x in xs]
            elif abs(d - (m if kind == "mean" else s * s)) < 1e-12:
                ra = [1.0] * len(xs)
            else:
                f = (mean_tilt if kind == "mean" else var_tilt)(W, law, d, lam)
                ra = [f(x[j]) * (law[2] - law[1]) for x in xs]
            W.check(near(W, pdel[i][j], W.summ(ra) * W.q(1, n)), "perturbed probability: reweighted failure sample (uniform marginal)")
            if not (abs(pdel[i][j] - pf) < 1e-9 if not W.symbolic else False):
                W.check(W.eq(ind[i][j], index(W, pdel[i][j], pf)), "index: relative change of the probability")
    W.cover("done")


def bisect(f, lo, hi):
    for _ in range(200):
        m = (lo + hi) / 2
        if (f(m) > 0) == (f(hi) > 0):
            hi = m
        else:
            lo = m
    return (lo + hi) / 2


def mean_tilt(W, law, d, lam):
    """density proportional to exp(lambda x) on [a, b], of mean d"""
    a, b = law[1:]

    def mean(l, ea, eb):
        return W.div(b * eb - a * ea, eb - ea) - W.div(1.0, l)
    if W.symbolic:
        l = lam
    else:
        l = bisect(lambda t: (mean(t, math.exp(t * a), math.exp(t * b)) if abs(t) > 1e-9 else (a + b) / 2) - d, -200.0, 200.0)
    ea, eb = expo(W, l * a), expo(W, l * b)
    return lambda x: W.div(l, eb - ea) * expo(W, l * x)


def mean_root(W, law, d, l):
    a, b = law[1:]
    m = moments(law)[0]
    W.assume(W.or_(l >= 0.0625, l <= -0.0625))
    if d == m:
        return
    ea, eb = expo(W, l * a), expo(W, l * b)
    W.assume(W.or_(ea >= eb + 1e-9, eb >= ea + 1e-9))
    W.assume((b * eb - a * ea - d * (eb - ea)) * l == eb - ea)


def var_root(W, law, d, l):
    m = moments(law)[0]
    if abs(d - moments(law)[1] ** 2) < 1e-12:
        return
    I = [integral(W, law, lambda x, k=k: x ** k * expo(W, l[0] * x + l[1] * x * x)) for k in range(3)]
    W.assume(I[1] == m * I[0])
    W.assume(I[2] == (d + m * m) * I[0])


def near(W, a, b):
    """up to the accuracy of the numerical solvers"""
    return W.eq(a, b) if W.symbolic else abs(a - b) <= 2e-3 * (abs(a) + abs(b)) + 1e-6


def integral(W, law, g):
    """of g against the uniform law"""
    a, b = law[1:]
    if W.symbolic:
        return W.vec(W.ot.GaussKronrod().integrate(W.ot.PythonFunction(1, 1, lambda x: [g(x[0]) * W.div(1.0, b - a)]), W.ot.Interval([a], [b])))[0]
    n = 2000
    h = (b - a) / n
    return sum(g(a + (i + 0.5) * h) for i in range(n)) / n


def var_tilt(W, law, d, lam):
    """density proportional to exp(l1 x + l2 x^2) on [a, b], of unchanged mean and of variance d"""
    m, s = moments(law)

    def parts(l):
        w = lambda x: expo(W, l[0] * x + l[1] * x * x)
        return w, [integral(W, law, lambda x, k=k: x ** k * w(x)) for k in range(3)]
    if W.symbolic:
        l = lam
        w, I = parts(l)
        from symx import core
        psi = core.s_log(I[0])
        return lambda x: expo(W, l[0] * x + l[1] * x * x - psi) * W.div(1.0, law[2] - law[1])
    else:
        # symmetric around the mean: a single parameter
        def v(t):
            w = lambda x: math.exp(t * (x - m) ** 2)
            z = integral(W, law, w)
            return integral(W, law, lambda x: (x - m) ** 2 * w(x)) / z - d
        t = bisect(v, -60.0, 60.0)
        l = (-2 * t * m, t)
        w, I = parts(l)
    return lambda x: W.div(w(x), I[0]) * W.div(1.0, law[2] - law[1])


QU = [("var", "w", "Greater", [0.0625], 2), ("mean", "w", "Less", [1.625], 2), ("mean", "u", "Greater", [1.25], 2), ("mean", "nu", "Less", [0.5], 2), ("mean", "un", "Greater", [[0.25, 0.5]], 2), ("mean", "u", "Less", [1.0], 2), ("var", "u", "Greater", [0.25], 2), ("var", "nu", "Less", [[1.0, 0.5]], 2),
      ("var", "un", "Greater", [0.4375], 2)]
scenario("C14", "uniform", QU, bounds="2 simulated points at fixed positions, 1-2 marginals, 1 perturbation; symbolic threshold, tilting parameters, values of the integrals", budget=90, require=("done",))(uniform)


def affinity(W, dist, kind, law, j, t):
    """integral of sqrt(p q)"""
    m, s = law[1:]
    if not W.symbolic:
        if kind == "mean":
            return math.exp(-((t - m) / s) ** 2 / 8)
        return math.sqrt(2 * s * math.sqrt(t) / (s * s + t))
    sd = math.sqrt(t) if kind == "var" else s
    g = lambda x: [W.sqrt(dens(W, x[0], m, s) * dens(W, x[0], t if kind == "mean" else m, sd))]
    return W.vec(W.ot.GaussKronrod().integrate(W.ot.PythonFunction(1, 1, g), dist.getMarginal(j).getRange()))[0]


def draw(W, kind, deltas, scaled, hel, level, label):
    dist = joint(W, "nn")
    fixed_points(W)
    thr = W.real("thr", -3, 3)
    res, e = simulate(W, dist, "Greater", thr, 3, 1, 2)
    away(W, e.out, thr)
    if not any(bool(v > thr) for v in e.out):
        return
    C = W.cls("_pli", {"mean": "PLIMeanBase", "var": "PLIVarianceBase"}[kind])
    a = C(res, dist, deltas, scaled)
    a.run()
    ind = W.to_list(a.getIndices())
    c = W.real("conf", 0.5, 0.99) if level == "?" else level
    ci = a.computeConfidenceInterval(c) if c is not None else None
    n0 = len(W.events)
    lab = {None: None, "ok": ["u", "v"], "short": ["u"]}[label]
    err, _ = W.raises(a.drawIndices, c, lab, hel)
    W.check((err is not None) == (label == "short"), "one label per marginal")
    if err is not None:
        W.cover("done")
        return
    ev = [d for d in W.events[n0:] if d.kind == "draw" and d.target == "ax"]
    pl, fi = [d for d in ev if d.name == "plot"], [d for d in ev if d.name == "fill_between"]
    W.check(len(pl) == 2, "one curve per marginal")
    W.check(len(fi) == (2 if c is not None else 0), "intervals are drawn when a level is given")
    D = [d if isinstance(d, list) else [d] * 2 for d in deltas]
    for j in range(2):
        law = LAWS["nn"][j]
        x = []
        for d in D:
            v = d[j]
            if hel:
                t = target(kind, law, d[j], scaled)
                v = 2 - 2 * affinity(W, dist, kind, law, j, t)
                if t < (law[1] if kind == "mean" else law[2] * law[2]):
                    v = 0 - v
            x.append(v)
        W.check(near_all(W, pl[j].args[0], x), "abscissae: perturbation or signed Hellinger distance of the marginal")
        W.check(W.eqv(pl[j].args[1], [r[j] for r in ind]), "ordinates: indices of the marginal")
        if lab:
            W.check(lab[j] in pl[j].kw.get("label", ""), "label of the marginal")
        if c is not None:
            W.check(near_all(W, fi[j].args[0], x), "interval drawn at the same abscissae")
            W.check(W.eqv(fi[j].args[1], [r[0] for r in ci[j]]), "lower bounds of the intervals")
            W.check(W.eqv(fi[j].args[2], [r[1] for r in ci[j]]), "upper bounds of the intervals")
    W.cover("done")


def near_all(W, a, b):
    a = W.vec(a)
    if len(a) != len(b):
        return False
    return W.eqv(a, b) if W.symbolic else all(abs(u - v) <= 1e-4 for u, v in zip(a, b))


QD = [("mean", [-0.5, 0.5], False, False, "?", None), ("mean", [[-1.0, 0.5], [0.25, -0.75]], True, False, "?", "ok"), ("mean", [0, -1], False, True, "?", None), ("mean", [[0.0, -2.0], [2.0, -0.5]], False, True, None, "ok"),
      ("var", [2, 1], False, True, "?", "ok"), ("var", [[1.0, 0.5], [0.5, 0.125]], True, False, None, None), ("mean", [0.5], True, False, "?", "short")]
scenario("C14", "draw", QD, bounds="3 simulated points at fixed positions, 2 normal marginals, 1-2 perturbations; symbolic threshold and level", budget=90, require=("done",))(draw)


def refused(W):
    dist = joint(W, "nn")
    fixed_points(W)
    res, e = simulate(W, dist, "Greater", -9.0, 2, 1, 2)
    M, V = W.cls("_pli", "PLIMeanBase"), W.cls("_pli", "PLIVarianceBase")
    d = W.real("d", -3, 3)
    W.assume(W.or_(d >= 0.0625, d <= -0.0625, d == 0))
    for cls in (M, V):
        for bad in ([[0.5, 0.5, 0.5]], [[1.0, 1.0, 2.0], [1.0, 2.0, 3.0]]):
            err, _ = W.raises(cls, res, dist, bad)
            W.check(err is not None, "perturbations: one value, or one value per marginal")
    err, _ = W.raises(V, res, dist, [1.0, d])
    W.check(W.iff(err is not None, W.not_(d > 0)), "variances must be positive")
    err, _ = W.raises(V, res, dist, [1.0, d], True)
    W.check(err is None, "scaled perturbations of the variance may have any sign")
    # a performance function without history
    f = W.ot.SymbolicFunction(["a", "b"], ["a + b"])
    ev = W.ot.ThresholdEvent(W.ot.CompositeRandomVector(f, W.ot.RandomVector(dist)), W.ot.Greater(), -9.0)
    mc = W.ot.ProbabilitySimulationAlgorithm(ev)
    mc.setMaximumOuterSampling(2)
    mc.setMaximumCoefficientOfVariation(-1)
    mc.run()
    err, _ = W.raises(M, mc.getResult(), dist, [0.5])
    W.check(err is not None, "a simulation without history is refused")
    W.cover("done")


scenario("C14", "refused", [()], bounds="symbolic perturbation", budget=60, require=("done",))(refused)


def podlevel(W, kind, cls, bc, deltas, scaled, sizes, n, own, keep, second):
    """one simulation per defect size; sizes whose probability is too close to 0 or 1 are left out"""
    s = c13.study(W, kind, bc, "id" if kind == "kriging" else None)
    pod, dim = s.pod, 2
    p = c09.prep2(W, s, "uuuuu", bc)
    if kind == "kriging":
        W.opts["gpmean"] = lambda r, z: W.ufunc("gpm", W.vec(z), -1, 4)
        res = pod.getKrigingResult()
        pred = lambda z: res.mean(z)
    else:
        r = pod.getPolynomialChaosResult()
        pred = lambda z: r.pred(z)
    C = W.cls("_pli_pod", cls)
    a = C(pod, deltas, scaled)
    base_name = {"PLIMean": "PLIMeanBase", "PLIVariance": "PLIVarianceBase"}[cls]
    d = None
    if own:
        d = W.ot.JointDistribution([W.ot.Normal(1.0, 2.0), W.ot.Normal(2.0, 0.5)])
        a.setDistribution(d)
        W.check(a.getDistribution() is d, "reported law")
    if second:
        a.setDefectSizes([6.0])
        a.setSamplingSize(1)
        W.opts["pf"] = lambda: 0.0
        a.run()
        a.setDefectSizes(list(sizes or c13.SIZES))
    if sizes is not None:
        a.setDefectSizes(list(sizes))
    sz = sorted(sizes) if sizes is not None else list(c13.SIZES)
    W.check(W.eqv(a.getDefectSizes(), sz), "reported sizes")
    if n != 10000:
        a.setSamplingSize(n)
    W.check(a.getSamplingSize() == n, "reported sampling size")
    pfs = []

    def pf():
        k = len(pfs)
        v = W.real("pf%d" % k, 0, 1) if keep is None else (0.25 if keep[k] else (0.0005, 0.9995)[k % 2])
        if keep is None:
            for b in (1e-3, 0.999):
                W.assume(W.or_(v >= b + 2.0 ** -14, v <= b - 2.0 ** -14))
        pfs.append(v)
        return v
    W.opts["pf"] = pf
    fixed_points(W)
    mark = [0]

    def hits(e):
        for v in e:
            W.assume(W.or_(v >= p.det + 1.0 / 64, v <= p.det - 1.0 / 64))
        W.assume(e[0] >= p.det)
    W.opts["mcout"] = hits
    del W.events[:]
    del W.logs[:]
    a.run()
    mc = W.ev("montecarlo")
    W.check(len(mc) == len(sz), "one simulation per defect size")
    law = a.getDistribution()
    if not own:
        g = pod.getDistribution()
        W.check(law.getDimension() == dim, "law of the inputs other than the defect")
        for j in range(dim):
            W.check(law.getMarginal(j) is g.getMarginal(j + 1), "law of the inputs other than the defect")
    kept = []
    full = W.to_list(a.getIndices())
    B = W.cls("_pli", base_name)
    for k, e in enumerate(mc):
        W.check(len(e.rows) == n, "sampling size of the simulation")
        W.check(e.dist is law, "inputs drawn from the law of the inputs")
        W.check(type(e.event.op).__name__ == "Greater", "detection: signal above the threshold")
        W.check(W.eq(e.event.thr, p.det), "detection threshold in the space of the signals")
        for row, out in zip(e.rows, e.out):
            W.check(W.eq(out, pred([sz[k]] + list(row))), "metamodel at the studied size")
        good = bool(W.and_(pfs[k] > 1e-3, pfs[k] < 0.999))
        err, obj = W.raises(a.getPLIObject, k)
        W.check((err is None) == good, "indices available exactly for the sizes with a usable probability")
        if good:
            kept.append(k)
            ref = B(e.result, law, deltas, scaled)
            ref.run()
            ri = W.to_list(ref.getIndices())
            oi = W.to_list(obj.getIndices())
            for i in range(len(deltas)):
                for j in range(dim):
                    W.check(W.eq(full[i][j][k], ri[i][j]), "indices of the size")
                    W.check(W.eq(oi[i][j], ri[i][j]), "indices of the object of the size")
        else:
            for i in range(len(deltas)):
                for j in range(dim):
                    v = full[i][j][k]
                    W.check(isnan(v), "no index for the sizes left out")
    if len(kept) < len(sz):
        W.check(any("only for the following defect" in t for _, t in W.logs), "a warning tells which sizes were kept")
        W.cover("dropped")
    if len(kept) == len(sz):
        W.check(not any("only for the following defect" in t for _, t in W.logs), "no warning when all sizes are kept")
    graphs(W, a, cls, deltas, sz, full, kept, dim)
    # views of the table
    i, j, k = len(deltas) - 1, 1, len(sz) - 1
    pick = {"i": i, "j": j, "k": k}
    for m in ("", "i", "j", "k", "ij", "ik", "jk", "ijk"):
        want = [[[full[x][y][z] for z in ([k] if "k" in m else range(len(sz)))] for y in ([j] if "j" in m else range(dim))] for x in ([i] if "i" in m else range(len(deltas)))]
        want = [v for x in want for y in x for v in y]
        got = a.getIndices(*[pick[t] if t in m else None for t in "ijk"])
        W.check(same(W, flat(W, got), want), "views of the table of indices")
    W.cover("done")


def graphs(W, a, cls, deltas, sz, full, kept, dim):
    """graphs of the indices: one size, or all sizes of a marginal"""
    D = [d if isinstance(d, list) else [d] * dim for d in deltas]
    for k in range(len(sz)):
        n0 = len(W.events)
        err, _ = W.raises(a.drawIndices, k, None, ["u", "v"], False)
        W.check((err is None) == (k in kept), "graph available exactly for the sizes with indices")
        if err is not None:
            continue
        ev = [d for d in W.events[n0:] if d.kind == "draw"]
        pl = [d for d in ev if d.name == "plot"]
        W.check(len(pl) == dim, "one curve per marginal")
        for j, t in enumerate(["u", "v"]):
            mine = [d for d in pl if t in str(d.kw.get("label", ""))]
            W.check(len(mine) == 1, "label of the marginal")
            W.check(W.eqv(mine[0].args[0], [d[j] for d in D]), "abscissae: perturbations of the marginal")
            W.check(W.eqv(mine[0].args[1], [r[j][k] for r in full]), "ordinates: indices of the size and marginal")
        t = [str(d.args[0]) for d in ev if d.name == "set_title"]
        W.check(bool(t) and "%.3f" % sz[k] in t[-1], "the title tells the defect size")
    e, _ = W.raises(a.drawContourIndices, dim)
    W.check(e is not None, "no graph of a marginal that does not exist")
    if len(kept) < 2 or len(deltas) < 2:
        return
    for j in range(dim):
        n0 = len(W.events)
        a.drawContourIndices(j, "my input", None)
        ev = [d for d in W.events[n0:] if d.kind == "draw" and d.name == "imshow"]
        W.check(len(ev) == 1, "one image")
        z, ext = W.to_list(ev[0].args[0]), list(ev[0].kw["extent"])
        W.check(ev[0].kw.get("origin") == "lower", "first row at the bottom")
        ds = [d[j] for d in D]
        W.check(W.eqv(ext, [min(sz[k] for k in kept), max(sz[k] for k in kept), min(ds), max(ds)]), "axes: kept sizes and perturbations of the marginal")
        order = sorted(range(len(ds)), key=lambda i: ds[i])
        W.check(len(z) == len(ds) and all(len(r) == len(kept) for r in z), "one cell per perturbation and kept size")
        for r, i in zip(z, order):
            W.check(W.eqv(list(r), [full[i][j][k] for k in kept]), "image: index of each perturbation and size at its place")
        W.cover("contour")


def isnan(v):
    return isinstance(v, (float, np.floating)) and math.isnan(v)


def flat(W, x):
    if hasattr(x, "__len__"):
        return [v for y in W.to_list(x) for v in flat(W, y)]
    return [x]


def same(W, a, b):
    if len(a) != len(b):
        return False
    return W.and_(*[W.eq(u, v) if not (isnan(u) or isnan(v)) else isnan(u) and isnan(v) for u, v in zip(a, b)])


QP = [("chaos", "PLIMean", False, [0.5, -0.25], True, (3.0,), 1, True, None, False), ("chaos", "PLIMean", False, [0.5], True, (5.0, 4.0), 1, True, None, False), ("chaos", "PLIMean", False, [[1.5, 2.5]], False, (3.0,), 2, True, (1,), True), ("chaos", "PLIVariance", False, [0.25], True, (4.0, 2.5), 2, True, (1, 0), False),
      ("chaos", "PLIVariance", "given", [2.0, 0.5], False, (3.0,), 2, True, (1,), False), ("kriging", "PLIMean", False, [0.5], True, (4.0, 2.5, 3.0), 2, True, (1, 0, 1), False),
      ("kriging", "PLIVariance", "given", [0.25], True, (2.5,), 2, True, (1,), False), ("chaos", "PLIMean", False, [0.25], True, None, 2, False, (0, 0), False),
      ("chaos", "PLIMean", False, [0.5, -0.25], True, (4.0, 2.5, 3.0), 1, True, (1, 0, 1), False), ("chaos", "PLIVariance", False, [[0.5, 2.0], [0.25, 1.5]], False, (2.5, 4.0), 1, True, (1, 1), False)]
scenario("C14", "pod", QP, bounds="2 simulated points, 2 inputs besides the defect, 1-3 sizes, 1-2 perturbations; symbolic probabilities, metamodel values, threshold, Box-Cox parameter", budget=90, require=("done",))(podlevel)
