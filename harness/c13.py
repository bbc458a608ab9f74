"""C13 Sobol' indices of the POD"""
from symx.runner import scenario
from ._lib import *
from . import c09, c15

SIZES = (2.0, 5.0)
Y = {5: [3.5, 5.0, 9.0, 10.5, 16.0]}
KNOWN = "sensitivity of the kriging POD: metamodel evaluated on the standardised inputs"

KNOWN2 = "sensitivity of the kriging POD: variance of the metamodel at the studied size"


def quiet(W, run):
    """run the study itself with a fixed randomness: it is the subject of C09"""
    old, keep = W.draw, dict(W.opts)
    c15.environment(W)
    W.opts["gpmean"] = lambda r, z: 10.0
    W.opts["chaos"] = lambda algo: W.ot.FunctionalChaosResult.make(len(algo.x[0]), algo.dist, coefs=[1.5, 3.5, 1.0], basis=["1", "z0", "z1*z2" if len(algo.x[0]) == 3 else "z1"])
    run()
    W.draw = old
    W.opts.clear()
    W.opts.update(keep)


def study(W, kind, bc, user=None, sizes=SIZES, dim=3, detname="det"):
    W.counters.setdefault("mid", 0)
    s = c09.mk(W, kind, dim, "uuuuu", bc, None, 1, 1, None, Y[5], (2, 3), detname)
    if kind == "kriging":
        s.pod.setInitialStartSize(1)
        W.opts["cov"] = lambda m, a, b: 1.0 if W.vec(a) == W.vec(b) else 0.0
        if user is not None:
            gp = W.ot.GaussianProcessFitter(W.ot.Sample(s.x), W.ot.Sample(col(s.y)), W.ot.SquaredExponential([1.0] * dim), W.ot.Basis([W.ot.SymbolicFunction(["a", "b", "c"][:dim], ["1"])]))
            a = W.ot.GaussianProcessRegression(gp.getResult())
            a.run()
            s.user = a.getResult()
            s.pod.setKrigingResult(s.user)
    s.pod.setDefectSizes(list(sizes))
    quiet(W, s.pod.run)
    return s


def history_of(W, sob, method, second, sizes):
    """settings; a second run with other settings when asked"""
    if second:
        sob.setSensitivityMethod("Jansen" if method != "Jansen" else "Martinez")
        W.raises(sob.run)
        sob.setDefectSizes(list(sizes))
        del W.events[:]
    if second or method != "Saltelli":
        sob.setSensitivityMethod(method)
    W.check(sob.getSensitivityMethod() == method, "reported method")


def same_value(a, b):
    """decided on the path (no tolerance: used to fork)"""
    return bool(a == b)


def outcome(W, sob, exp, table, sizes, N, dim, method, err, kept=None, alt=None):
    """table: expected POD, rows of the design x sizes; returns the kept sizes"""
    if err is not None:
        W.check(W.and_(*[W.eq(table[i][k], table[0][k]) for i in range(N) for k in range(len(sizes))]), "the analysis only fails when the POD is constant at every size")
        return
    al = W.ev("sobolalgo")
    W.check(len(al) == 1 and al[0].name == method + "SensitivityAlgorithm", "the requested estimator is used")
    a = al[0].algo
    W.check(W.eqv(a.x, exp.rows), "estimator: input design")
    W.check(a.n == N, "estimator: base size of the design")
    if kept is None:
        kept = [k for k in range(len(sizes)) if not all([same_value(table[i][k], table[0][k]) for i in range(1, N)])]
    W.check(len(a.y) == len(exp.rows) and all(len(r) == len(kept) for r in a.y), "one output per studied size whose POD is not constant")
    for i, r in enumerate(a.y):
        for c, k in enumerate(kept):
            if alt is None:
                W.check(W.eq(r[c], table[i][k]), "outputs are the POD at the studied sizes")
                continue
            W.check(W.or_(W.eq(r[c], alt[i][k]), W.eq(r[c], table[i][k])), "outputs are the POD at the studied sizes, or with the variance of the first size")
            W.check(W.eq(r[c], table[i][k]), KNOWN2)
    W.check(W.eqv(sob.getDefectSizes(), [sizes[k] for k in kept]), "reported sizes: the ones the indices are computed for")
    if len(kept) < len(sizes):
        W.check(any("variances are null" in t or "null" in t for _, t in W.logs), "a warning tells that sizes are left out")
        W.cover("dropped")
    W.check(sob.getSensitivityResult() is a, "the result is the one of the estimator")
    W.cover("done")
    return a, kept


def gap(W, a, b):
    """visibly different probabilities (a constant POD is decided by rounding otherwise)"""
    for v in (a, b):
        W.assume(v >= -2)
        W.assume(v <= 2)
    W.assume(W.or_(a - b >= 0.125, b - a >= 0.125))
    u, v = phi(W, a, True), phi(W, b, True)
    W.assume(W.or_(u - v >= 1e-3, v - u >= 1e-3))       # follows


def newsizes(W, sob, sizes):
    if sizes is not None:
        sob.setDefectSizes(list(sizes))
        sizes = sorted(sizes)
    return sizes


def law(W, pod, sob, e, own, dim):
    if own is not None:
        W.check(e.dist is own and sob.getDistribution() is own, "the given law of the inputs is used")
    else:
        g = pod.getDistribution()
        W.check(e.dist is sob.getDistribution() and e.dist.getDimension() == dim, "law of the inputs other than the defect")
        for j in range(dim):
            W.check(e.dist.getMarginal(j) is g.getMarginal(j + 1), "law of the inputs other than the defect")


def own_law(W, own, dim):
    return W.ot.JointDistribution([W.ot.Uniform(0.0, 1.0 + j) for j in range(dim)]) if own else None


def kriging(W, user, bc, N, method, sizes, flat, own, second, free=False):
    s = study(W, "kriging", bc, user)
    pod, dim = s.pod, 2
    p = c09.prep2(W, s, "uuuuu", bc)
    sob = W.cls("_sobol_indices", "SobolIndices")(pod, N)
    e, _ = W.raises(sob.getSensitivityResult)
    W.check(e is not None, "no result before the run")
    d = own_law(W, own, dim)
    if own:
        sob.setDistribution(d)
    sz = newsizes(W, sob, sizes) or list(SIZES)
    res = pod.getKrigingResult()
    ident = user is not None
    T = (lambda x: x) if ident else c09.norm_of(W, p.X, 3)
    k0 = sz[0]

    def isflat(z):
        a = z[0] if ident else z[0] * 1.0
        return flat and W.eq(a, T([k0] * 3)[0] if ident else k0) is True

    def mean(r, z):
        z = W.vec(z)
        return 2.5 if isflat(z) else W.ufunc("gpm", z, -1, 4)

    def var(r, z):
        z = W.vec(z)
        if free and len(sz) > 1:
            return 1.0 if W.eq(z[0], sz[0]) is True else 4.0
        return 1.0 if isflat(z) or not free else W.ufunc("gpv", z, 1, 4)
    W.opts["gpmean"], W.opts["gpvar"] = mean, var

    def arg(o, a):
        z = T([a] + list(o)) if ident else [a] + list(o)
        return W.div(p.det - res.mean(z), W.sqrt(res.var(z)))

    def apart(rows):
        """the POD varies visibly, except at the size where it is constant"""
        for k in range(1 if flat else 0, len(sz)):
            gap(W, *[arg(o, sz[k]) for o in rows[:2]])
    W.opts["sobolexp"] = apart
    del W.events[:]
    history_of(W, sob, method, second, sz)
    err, _ = W.raises(sob.run)
    if err is not None and not isinstance(err, ValueError):
        raise err
    ex = W.ev("sobolexp")
    W.check(len(ex) == 1 and ex[0].n == N, "one design of the given size")
    law(W, pod, sob, ex[0], d, dim)
    probs = [[phi(W, arg(o, a), True) for a in sz] for o in ex[0].rows]
    raw = lambda o, a: [a] + list(o)
    alt = []
    for o in ex[0].rows:
        zs = [T(raw(o, a)) if ident else raw(o, a) for a in sz]
        s0 = W.sqrt(res.var(zs[0]))
        alt.append([phi(W, W.div(p.det - res.mean(z), s0), True) for z in zs])
    outcome(W, sob, ex[0], probs, sz, N, dim, method, err, list(range(1 if flat else 0, len(sz))), alt if free else None)
    if not ident:
        o = ex[0].rows[0]
        z = T([sz[0]] + list(o))
        q = W.div(p.det - res.mean(z), W.sqrt(res.var(z)))
        W.check(W.eq(phi(W, q, True), probs[0][0]), KNOWN)


QK = [("id", False, 2, "Saltelli", None, False, False, False), ("id", False, 2, "Jansen", (4.0, 2.5, 3.0), False, True, False), ("id", True, 2, "Martinez", None, False, False, False),
      ("id", False, 2, "MauntzKucherenko", None, True, True, False), ("id", "given", 2, "Saltelli", (3.0,), False, False, False), ("id", False, 2, "Saltelli", None, False, False, True),
      (None, False, 2, "Saltelli", None, False, False, False), ("id", False, 2, "Saltelli", (4.0,), False, False, False, True), ("id", False, 2, "Saltelli", None, False, False, False, True)]
scenario("C13", "kriging", QK, bounds="base size 2, 2 inputs besides the defect, 1-3 sizes; symbolic metamodel mean and variance, design, threshold, Box-Cox parameter", budget=90, require=("done",))(kriging)


def chaos(W, bc, N, sim, method, sizes, own, second):
    s = study(W, "chaos", bc)
    pod, dim = s.pod, 2
    p = c09.prep2(W, s, "uuuuu", bc)
    fit = W.ev("chaosfit")[0]
    r = fit.result
    res = [b - r.pred(a) for a, b in zip(p.X, p.y)]
    dof = len(p.X) - len(r.c) - 1
    sd = W.sqrt(W.summ([v * v for v in res]) * W.q(1, dof))
    sob = W.cls("_sobol_indices", "SobolIndices")(pod, N)
    d = own_law(W, own, dim)
    if own:
        sob.setDistribution(d)
    sz = newsizes(W, sob, sizes) or list(SIZES)
    if sim != 1000:
        sob.setSimulationSize(sim)
    W.check(sob.getSimulationSize() == sim, "reported simulation size")
    z = W.real("noise", -2, 2)

    def draws(dist, n):
        if isinstance(dist, W.ot.Normal) and dist.cov is None:
            return [[z] * dist.dim for _ in range(n)]
    W.opts["getSample"] = draws
    del W.events[:]
    history_of(W, sob, method, second, sz)
    err, _ = W.raises(sob.run)
    if err is not None and not isinstance(err, ValueError):
        raise err
    ex = W.ev("sobolexp")
    W.check(len(ex) == 1 and ex[0].n == N, "one design of the given size")
    law(W, pod, sob, ex[0], d, dim)
    cev = [e for e in W.ev("getSample") if isinstance(e.dist, W.ot.Normal) and e.dist.cov is not None]
    W.check(len(cev) == 1 and len(cev[0].rows) == sim, "as many simulated coefficients as asked")
    W.check(W.eqv(cev[0].dist.mu, pod.getCoefficientDistribution().mu) and W.eqv(cev[0].dist.cov, pod.getCoefficientDistribution().cov), "coefficients simulated from the law of the study")
    table = []
    for o in ex[0].rows:
        row = []
        for a in sz:
            v = [r.pred([a] + list(o), c) + z * sd for c in cev[0].rows]
            for t in v:
                W.assume(W.or_(t >= p.det + c09.MARGIN, t <= p.det - c09.MARGIN))
            row.append(W.summ([W.ite(t > p.det, 1.0, 0.0) for t in v]) * W.q(1, sim))
        table.append(row)
    outcome(W, sob, ex[0], table, sz, N, dim, method, err)


QC = [(False, 2, 1, "Saltelli", None, False, False), (False, 2, 2, "Martinez", (3.0,), True, False), ("given", 2, 1, "Jansen", (3.0, 2.5), False, False), (False, 2, 1, "MauntzKucherenko", (2.5,), True, True)]
scenario("C13", "chaos", QC, bounds="base size 2, 2 inputs besides the defect, 1-2 sizes, 1-2 simulated coefficient vectors; symbolic coefficients, error draw, design, threshold", budget=90,
         require=("done",))(chaos)


def negative(W, low):
    """a slightly negative variance is rounding, a clearly negative one an error"""
    s = study(W, "kriging", False, "id")
    sob = W.cls("_sobol_indices", "SobolIndices")(s.pod, 2)
    sob.setDefectSizes([3.0])
    res = s.pod.getKrigingResult()
    W.opts["gpmean"] = lambda r, z: W.ufunc("gpm", W.vec(z), 2, 3)

    mark, sign = [], [W.flag("neg0"), W.flag("neg1")]

    def var(r, z):
        """positive but at two rows of the design"""
        for o, g in zip(mark, sign):
            if g and W.eqv(W.vec(z)[1:], o) is True:
                return -0.0078125 if not low else -0.25
        return 0.25
    W.opts["gpvar"] = var

    def arg(o):
        z = [3.0] + list(o)
        v = res.var(z)
        return W.div(s.det - res.mean(z), W.sqrt(W.ite(v >= 0, v, 0 - v)))

    def apart(rows):
        mark.extend([rows[0], rows[-1]])
        u, v = [arg(o) for o in rows[:2]]
        for o in rows:
            W.assume(arg(o) <= 4)
            W.assume(arg(o) >= -4)
        gap(W, u, v)
    W.opts["sobolexp"] = apart
    del W.events[:]
    e, _ = W.raises(sob.run)
    rows = W.ev("sobolexp")[0].rows
    neg = any(sign)
    if low:
        W.check(W.iff(e is not None, neg), "clearly negative variances, and only them, are rejected")
        if e is not None:
            W.cover("rejected")
            return
    else:
        W.check(e is None, "slightly negative variances are accepted")
    outcome(W, sob, W.ev("sobolexp")[0], [[phi(W, arg(o), True)] for o in rows], [3.0], 2, 2, "Saltelli", None, [0])


scenario("C13", "negative-variance", [False, True], bounds="base size 2, 2 inputs, 1 size; symbolic metamodel mean and signed variance", budget=90)(negative)


def settings(W):
    """settings that are refused leave the study as it was"""
    s = study(W, "chaos", False)
    C = W.cls("_sobol_indices", "SobolIndices")
    sob = C(s.pod, 2)
    e, _ = W.raises(sob.setSensitivityMethod, "sobol")
    W.check(e is not None and sob.getSensitivityMethod() == "Saltelli", "unknown estimators are refused")
    lo, hi = W.real("lo", -3, 12), W.real("hi", -3, 12)
    W.assume(lo + 0.125 <= hi)
    for b in (1.0, 8.0):
        for v in (lo, hi):
            W.assume(W.or_(v >= b + 0.001, v <= b - 0.001))
    e, _ = W.raises(sob.setDefectSizes, [hi, lo])
    bad = W.or_(lo < 1.0, hi > 8.0)
    W.check(W.iff(e is not None, bad), "sizes are accepted exactly when inside the range of the data")
    W.check(W.eqv(sob.getDefectSizes(), list(SIZES) if e is not None else [lo, hi]), "accepted sizes are sorted and kept, refused ones leave the previous ones")
    before = sob.getDistribution()
    for bad in (W.ot.Uniform(0.0, 1.0), own_law(W, True, 3), own_law(W, True, 1)):
        e, _ = W.raises(sob.setDistribution, bad)
        W.check(e is not None and sob.getDistribution() is before, "laws of another kind or dimension are refused")
    # not a metamodel, or a single input besides the defect
    p = W.cls("_univariate_linear_model_pod", "UnivariateLinearModelPOD")(W.ot.Sample(col([1.0, 2.0, 4.0, 5.0])), W.ot.Sample(col([2.0, 3.0, 6.0, 7.0])), 4.0, None, None, W.ot.NormalFactory(), False)
    e, _ = W.raises(C, p, 2)
    W.check(e is not None, "only studies with a metamodel are accepted")
    q = study(W, "chaos", False, dim=2, detname="det2")
    e, _ = W.raises(C, q.pod, 2)
    W.check(e is not None, "two inputs at least besides the defect")
    W.cover("done")


scenario("C13", "settings", [()], bounds="symbolic sizes", budget=60, require=("done",))(settings)


def draws(W, order, label, nsz):
    s = study(W, "chaos", False)
    sob = W.cls("_sobol_indices", "SobolIndices")(s.pod, 2)
    sizes = [2.0, 5.0, 3.5][:nsz]
    sob.setDefectSizes(sizes)
    sizes = sorted(sizes)
    sob.setSimulationSize(1)
    det = W.vec(s.pod._detectionBoxCox)[0] if False else s.det
    W.opts["noindex"] = lambda a, i: i == 1
    err, _ = W.raises(sob.run)
    if err is not None:
        return
    a = sob.getSensitivityResult()
    kept = W.vec(sob.getDefectSizes())
    n0 = len(W.events)
    f = {"first": sob.drawFirstOrderIndices, "total": sob.drawTotalOrderIndices}[order]
    lab = {None: None, "ok": ["u", "v"], "short": ["u"]}[label]
    e, _ = W.raises(f, lab)
    W.check((e is not None) == (label == "short"), "one label per input")
    if e is not None:
        return
    e2, _ = W.raises(sob.drawAggregatedIndices, lab)
    W.check(e2 is None, "aggregated indices are drawn")
    vals = a.first if order == "first" else a.total
    pl = [d for d in W.events[n0:] if d.kind == "draw" and d.name in ("plot", "scatter", "errorbar") and d.target == "ax"]
    W.check(len(pl) == 2, "one set of points per input")
    keep = [i for i in range(len(kept)) if i != 1]
    for j, d in enumerate(pl):
        W.check(W.eqv(d.args[0], [kept[i] for i in keep]), "the indices are drawn at the sizes they were computed for")
        W.check(W.eqv(d.args[1], [vals[i][j] for i in keep]), "the indices drawn are the computed ones")
        if lab:
            W.check(d.kw.get("label") == lab[j], "labels of the inputs")
    W.cover("done")


scenario("C13", "draw", [("first", None, 2), ("total", "ok", 2), ("total", None, 3), ("first", "short", 2)], bounds="2-3 sizes, one of them without index; symbolic indices", budget=60, require=("done",))(draws)
