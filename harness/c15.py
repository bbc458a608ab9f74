"""C15 the summary study: orchestration, tables, saved file, graphs"""
from symx.runner import scenario
from ._lib import *
from . import c09, c17

M6 = ["LinearGauss", "LinearBinomial", "LinearKernelSmoothing", "QuantileRegression", "PolynomialChaos", "Kriging"]
GET = {m: "get%sPOD" % m for m in M6}
NAME = {"LinearGauss": "Gaussian residuals :", "LinearBinomial": "No residuals hypothesis :", "LinearKernelSmoothing": "Kernel smoothing on residuals :",
        "QuantileRegression": "Quantile Regression :", "PolynomialChaos": "Polynomial chaos :", "Kriging": "Kriging :"}
X1 = [1.0, 2.0, 3.0, 4.0, 5.0]
X2 = [[1.0, 0.0], [2.0, 3.0], [3.0, 1.0], [4.0, 2.0], [5.0, 4.0]]
Y0 = [3.5, 5.0, 6.5, 9.0, 10.5]


def environment(W):
    """a fixed randomness, so that a study run twice gives the same thing"""
    old, memo = W.draw, {}

    def draw(t, lo=None, hi=None, *a, **k):
        if t.startswith("fmin"):                 # one optimum
            if t not in memo:
                memo[t] = old(t, max(lo, 0.5), min(hi, 2.0), *a, **k)
            return memo[t]
        return (max(lo, -1.0) if lo is not None else -1.0) * 0.75 + (min(hi, 1.0) if hi is not None else 1.0) * 0.25
    W.draw = draw
    W.opts["randn_lo"] = 0.25
    W.opts["brent_line"] = True
    W.opts["lambda"] = 0.75                      # estimated Box-Cox parameter
    W.opts["bootstrap"] = lambda t, n: [(3 * i + 1) % n for i in range(n)]
    W.opts["qr"] = lambda key, q: (0.25 - float(q), 2.5)
    W.opts["gpmean"] = lambda r, z: 1.0 + 2.0 * W.vec(z)[0]
    W.opts["gpvar"] = lambda r, z: 1.0
    W.opts["chaos"] = lambda algo: W.ot.FunctionalChaosResult.make(len(algo.x[0]), algo.dist, coefs=[1.0, 3.0] if len(algo.x[0]) == 1 else [1.5, 3.5])
    W.opts["cov"] = lambda m, a, b: 1.0 if W.vec(a) == W.vec(b) else 0.0


def data(W, dim, letters, sym):
    """concrete signals, thresholds that keep the letters, a detection threshold inside the data"""
    x = X2 if dim == 2 else col(X1)
    y = list(Y0)
    noise = W.real("noise", 4.0, 4.5) if letters[0] == "n" else None
    sat = W.real("sat", 9.5, 10.0) if letters[-1] == "s" else None
    det = W.real("det", 6.625, 7.5) if sym else 7.0
    return x, y, det, noise, sat


def summary(W, dim, letters, bc, active, sim=1, samp=1, sym=False):
    environment(W)
    x, y, det, noise, sat = data(W, dim, letters, sym)
    M = W.mod("_univariate_linear_model_analysis")
    r2 = []
    for f, (lo, hi) in c17.STUBS.items():
        if hasattr(M, f):                       # the statistics themselves are the subject of C07
            def stub(*a, f=f, lo=lo, hi=hi, **k):
                v = W.real(W.tag("st." + f), lo, hi)
                if f == "computeR2":
                    r2.append(v)
                return v
            setattr(M, f, stub)
    W.opts["ptest"] = lambda name: W.real(W.tag("pt." + name), 0, 1)
    s = W.cls("_pod_summary", "PODSummary")(W.ot.Sample(x), W.ot.Sample(col(y)), det, noise, sat, bc)
    s.setVerbose(False)
    s.setSimulationSize(sim)
    s.setSamplingSize(samp)
    for m in M6:
        if m not in active:
            s.setMethodActive(m, False)
    s.r2 = r2
    return s, (x, y, det, noise, sat)


def direct(W, m, d, bc, sim, samp):
    x, y, det, noise, sat = d
    y = W.ot.Sample(col(y))
    x1 = W.ot.Sample([[r[0]] for r in x])
    L = "_univariate_linear_model_pod"
    if m.startswith("Linear"):
        law = {"LinearGauss": W.ot.NormalFactory, "LinearBinomial": lambda: None, "LinearKernelSmoothing": W.ot.KernelSmoothing}[m]()
        p = W.cls(L, "UnivariateLinearModelPOD")(x1, y, det, noise, sat, law, bc)
    elif m == "QuantileRegression":
        p = W.cls("_quantile_regression_pod", "QuantileRegressionPOD")(x1, y, det, noise, sat, bc)
    else:
        mod, c = {"PolynomialChaos": ("_polynomial_chaos_pod", "PolynomialChaosPOD"), "Kriging": ("_kriging_pod", "KrigingPOD")}[m]
        p = W.cls(mod, c)(W.ot.Sample(x), y, det, noise, sat, bc)
        p.setSamplingSize(samp)
    p.setVerbose(False)
    p.setSimulationSize(sim)
    p.run()
    return p


def wiring(W, dim, letters, bc, active, sim, samp, sym):
    s, d = summary(W, dim, letters, bc, active, sim, samp, sym)
    for m in M6:
        e, _ = W.raises(getattr(s, GET[m]))
        W.check(e is not None, "no study before the run")
    s.run()
    for m in M6:
        on = m in active and not (m == "Kriging" and dim == 1)
        e, p = W.raises(getattr(s, GET[m]))
        W.check((e is None) == on, "a study is available exactly when its method is active and applicable")
        if not on:
            continue
        n0 = {k: len(W.ev(k)) for k in ("ols", "quantreg", "chaosfit", "gpfit")}
        r = direct(W, m, d, bc, sim, samp)
        W.check(type(p) is type(r), m + ": kind of study")
        if m != "LinearBinomial":
            W.check(p.getSimulationSize() == r.getSimulationSize(), m + ": simulation size")
        if hasattr(r, "getSamplingSize"):
            W.check(p.getSamplingSize() == r.getSamplingSize(), m + ": sampling size")
        fp, fr = p.getPODModel(), r.getPODModel()
        gp, gr = p.getPODCLModel(0.75), r.getPODCLModel(0.75)
        for a in (2.75, 3.25) if m == "QuantileRegression" or dim == 1 and letters != "uuuuu" else (2.0, 2.75, 3.25, 4.0):
            W.check(W.eq(call1(fp, a), call1(fr, a)), m + ": POD curve of the study run by itself")
            W.check(W.eq(call1(gp, a), call1(gr, a)), m + ": confidence curve of the study run by itself")
    W.cover("done")


ALL = tuple(M6)
LIN = ALL[:3]
QW = [(1, "uuuuu", False, ALL[:3], 1, 1, True), (1, "uuuuu", False, ALL[3:4], 1, 1, True), (1, "nuuuu", False, LIN[:2], 1, 1, True), (1, "uuuus", False, LIN[2:3], 1, 1, True),
      (1, "uuuuu", 2.0, LIN[1:3], 1, 1, True), (2, "uuuuu", False, ("PolynomialChaos", "Kriging"), 1, 1, False), (2, "uuuuu", False, ("PolynomialChaos",), 1, 1, True), (2, "nuuuu", False, ("Kriging",), 1, 2, True),
      (2, "uuuus", False, ("PolynomialChaos",), 2, 2, False), (2, "uuuuu", 2.0, ("Kriging",), 2, 1, True), (2, "uuuuu", False, (), 1, 1, True), (1, "uuuuu", False, ("LinearGauss", "Kriging"), 2, 1, True),
      (1, "uuuuu", 0.5, ALL[3:4], 1, 1, True), (1, "uuuuu", 0.5, ALL[:1], 1, 1, True), (2, "uuuuu", 0.5, ("PolynomialChaos",), 1, 2, True),
      (1, "uuuus", False, ALL[3:4], 1, 1, False), (1, "nuuuu", False, ALL[3:4], 1, 1, False), (1, "nuuus", False, ("LinearGauss",), 1, 1, True),
      (1, "nuuus", False, ("LinearBinomial",), 1, 1, True), (1, "nuuus", False, ("LinearKernelSmoothing",), 1, 1, True),
      (2, "nuuuu", False, ("PolynomialChaos",), 2, 1, True), (2, "uuuus", False, ("Kriging",), 1, 1, True),
      (1, "uuuuu", True, ALL[2:4], 1, 1, True), (1, "uuuuu", True, ALL[:2], 1, 1, True), (2, "uuuuu", True, ("PolynomialChaos", "Kriging"), 1, 1, True)]
scenario("C15", "orchestration", QW, bounds="5 data, 1-2 inputs, symbolic detection and thresholds, 10 subsets of methods", budget=60, require=("done",))(wiring)


def recorder(W, calls, p, tag, names, fail):
    """replace methods of a study by stand-ins that record how they are called"""
    out = {}

    def mk(n):
        def f(*a, **k):
            calls.append((tag, n, a, k))
            if fail and n in ("computeDetectionSize", "drawPOD"):
                raise RuntimeError("not reached in range")
            if n == "computeDetectionSize":
                return W.ot.Point([out["a"], out["c"]])
            if n.startswith("draw"):
                return ("fig", tag, n), "ax"
            return out[n]
        return f
    for n in names:
        if n.startswith("get"):
            out[n] = W.real(tag + n, -1, 1)
        setattr(p, n, mk(n))
    out["a"] = W.real(tag + ".a", 0, 50)
    out["c"] = W.real(tag + ".c", 0, 50)
    return out


def row(W, lines, label, what):
    hit = [l for l in lines if l.startswith(label)]
    W.check(len(hit) == 1, "the table has one line for " + what)
    return hit[0][len(label):]


def shown(W, text, vals, what):
    got = [W.nums(t)[0] if not W.isnum(t) else W.nums(t)[0] for t in text.split()]
    W.check(len(got) == len(vals), what + ": as many values as expected")
    for g, v in zip(got, vals):
        c17.close(W, g, v, what)


def tables(W, dim, letters, active, fail, p, c):
    W.opts["round_loose"] = True
    s, d = summary(W, dim, letters, False, active)
    s.run()
    r2 = s.r2
    lin = [m for m in active if m.startswith("Linear")]
    st, calls = {}, []
    for m in active:
        if m == "Kriging" and dim == 1:
            continue
        names = ["computeDetectionSize"] + {"QuantileRegression": ["getR2"], "PolynomialChaos": ["getR2", "getQ2"], "Kriging": ["getQ2"]}.get(m, [])
        st[m] = recorder(W, calls, getattr(s, GET[m])(), m, names, m == fail)
    lp, lc = "a%d" % round(100 * p), "a%d/%d" % (round(100 * p), round(100 * c))
    saved = "summary.txt"
    for how in ("printed", "saved"):
        del calls[:]
        if how == "printed":
            text = s.getResults(p, c)
        else:
            s.saveResults(saved, p, c)
            text = W.files.get(saved, "")
        lines = [l.strip() if how == "printed" else l for l in text.split("\n")]
        titles = [l.strip() for l in lines]
        W.check(titles.count("Model validation results") == 1, how + ": title of the validation table")
        W.check(titles.count("POD results") == 1, how + ": title of the POD table")
        i = titles.index("Model validation results")
        j = titles.index("POD results")
        W.check(i < j, how + ": order of the tables")
        valid, pod = lines[i:j], lines[j:]
        for m in active:
            if m not in st:
                continue
            k = [x for x in calls if x[0] == m and x[1] == "computeDetectionSize"]
            W.check(len(k) == 1 and not k[0][3] and W.eqv(list(k[0][2]), [p, c]), m + ": detection size asked for the given levels")
            shown(W, row(W, pod, NAME[m], m), [-1.0, -1.0] if m == fail else [st[m]["a"], st[m]["c"]], how + ": detection sizes of " + m)
        W.check(len([l for l in pod if any(l.startswith(NAME[m]) for m in M6)]) == len(st), how + ": no line for the methods that are not active")
        head = [l for l in pod if W.nospace(l) == W.nospace(lp + lc)] if hasattr(W, "nospace") else [l for l in pod if l.split() == [lp, lc]]
        W.check(len(head) == 1, how + ": detection sizes named after the levels")
        if lin:
            shown(W, row(W, valid, "Linear Regression (> 0.8):", "linear regression"), r2[:2] if letters != "uuuuu" else r2[:1], how + ": R2 of the linear model")
        else:
            W.check(not [l for l in valid if l.startswith("Linear Regression")], how + ": no linear regression")
        if "QuantileRegression" in st:
            k = [x for x in calls if x[0] == "QuantileRegression" and x[1] == "getR2"]
            W.check(len(k) == 1 and W.eqv(list(k[0][2]), [p]), "R2 of the quantile regression at the given level")
            shown(W, row(W, valid, "Quantile Regression at level %s (> 0.6):" % round(p, 2), "quantile regression"), [st["QuantileRegression"]["getR2"]], how + ": R2 of the quantile regression")
        else:
            W.check(not [l for l in valid if l.startswith("Quantile")], how + ": no quantile regression")
        if "PolynomialChaos" in st:
            shown(W, row(W, valid, "Polynomial Chaos (> 0.8):", "chaos"), [st["PolynomialChaos"]["getR2"], st["PolynomialChaos"]["getQ2"]], how + ": R2 and Q2 of the chaos")
        else:
            W.check(not [l for l in valid if l.startswith("Polynomial")], how + ": no chaos")
        if "Kriging" in st:
            shown(W, row(W, valid, "Kriging (> 0.8):", "kriging"), [st["Kriging"]["getQ2"]], how + ": Q2 of the kriging")
        else:
            W.check(not [l for l in valid if l.startswith("Kriging")], how + ": no kriging")
    W.cover("done")


QT = [(1, "uuuuu", ALL, None, 0.9, 0.95), (1, "nuuuu", LIN, "LinearBinomial", 0.29, 0.95), (1, "uuuus", LIN + ("QuantileRegression",), "QuantileRegression", 0.58, 0.57),
      (2, "uuuuu", ALL, None, 0.5, 0.75), (2, "uuuuu", ("PolynomialChaos", "Kriging"), "Kriging", 0.9, 0.9), (2, "nuuuu", ("LinearKernelSmoothing", "PolynomialChaos"), "PolynomialChaos", 0.9, 0.95)]
scenario("C15", "tables", QT, bounds="6 subsets of methods, at most one failing; symbolic detection sizes, R2 and Q2", budget=60, require=("done",))(tables)


DRAW = {"LinearGauss": ["drawPOD"], "LinearBinomial": ["drawPOD"], "LinearKernelSmoothing": ["drawPOD"], "QuantileRegression": ["drawPOD", "drawLinearModel"],
        "PolynomialChaos": ["drawPOD", "drawValidationGraph"], "Kriging": ["drawPOD", "drawValidationGraph"]}


def graphs(W, dim, letters, active, fail, levels=2, bc=False):
    s, d = summary(W, dim, letters, bc, active)
    s.run()
    n0 = len(W.events)
    calls = []
    for m in active:
        if not (m == "Kriging" and dim == 1):
            recorder(W, calls, getattr(s, GET[m])(), m, DRAW[m], m == fail)
    p = c = None
    if levels:
        p, c = W.real("p", 0.01, 0.99), W.real("c", 0.01, 0.99) if levels == 2 else None
    fig = s.drawGraphs("somewhere", "pdf", p, c)
    for m in M6:
        mine = [x for x in calls if x[0] == m]
        if m not in active or m == "Kriging" and dim == 1:
            W.check(not mine, "no graph for the methods that are not active")
            continue
        # a line of the quantile regression exists for a level only
        W.check(sorted(x[1] for x in mine) == sorted(t for t in DRAW[m] if levels or t != "drawLinearModel"), "the graphs of each active method are drawn once")
        for x in mine:
            if x[1] == "drawPOD":
                W.check(all(u is v or u is not None and v is not None and W.eq(u, v) for u, v in zip(list(x[2])[:2], [p, c])), "POD drawn for the given levels")
            if x[1] == "drawLinearModel":
                W.check(W.eqv(list(x[2])[:1], [p]), "quantile regression drawn for the given level")
            n = ("fig", m, x[1])
            W.check(fig.count(n) == (0 if m == fail and x[1] == "drawPOD" else 1), "the drawn figures are returned")
    # the linear analysis: four graphs per fit, and the likelihood of the Box-Cox parameter
    drawn = [e for e in W.events[n0:] if e.kind == "draw"]
    titles = [str(e.args[0]) for e in drawn if e.name == "set_title"]
    fits = 2 if letters != "uuuuu" else 1
    W.check(len([t for t in titles if "censored data" in t]) == 4 * (fits - 1), "graphs of the censored fit exactly with censored data")
    W.check(len([t for t in titles if "censored data" not in t]) == 4 + (1 if bc else 0), "graphs of the uncensored fit")
    saved = [str(e.args[0]) for e in drawn if e.name == "savefig"]
    W.check(len(saved) == 4 * fits + (1 if bc else 0) and len(set(saved)) == len(saved), "one file per graph of the linear analysis")
    W.check(all(f.startswith("somewhere") and f.endswith(".pdf") for f in saved), "files go to the directory with the extension")
    W.check(len(fig) == len(saved) + len(calls) - (1 if fail and any(x[0] == fail and x[1] == "drawPOD" for x in calls) else 0), "all figures are returned")
    files = [x[3].get("name") for x in calls]
    W.check(not set(files) & set(saved), "one file per graph")
    W.check(all(f and f.startswith("somewhere") and f.endswith(".pdf") for f in files), "files go to the directory with the extension")
    W.check(len(set(files)) == len(files), "one file per graph")
    W.cover("done")


QG = [(1, "uuuuu", ALL, None), (2, "uuuuu", ALL, "LinearGauss"), (2, "uuuuu", ("PolynomialChaos",), "PolynomialChaos"), (1, "nuuuu", ("LinearKernelSmoothing", "QuantileRegression"), "QuantileRegression"),
      (2, "uuuuu", ("Kriging", "LinearBinomial"), "Kriging"), (2, "uuuuu", ALL, None, 0), (1, "nuuus", LIN, None, 1), (1, "uuuuu", ("LinearGauss",), None, 1, True)]
scenario("C15", "graphs", QG, bounds="5 subsets of methods, at most one that cannot be drawn; symbolic levels", budget=60, require=("done",))(graphs)
