"""C17 what the linear analysis reports: accessors, printed report, saved file, warnings"""
import re
from symx.runner import scenario
from ._lib import *
from . import c07

TESTS = [("R2", "getR2", "R2"), ("AndersonDarling", "getAndersonDarlingPValue", "Anderson Darling p-value"),
         ("CramerVonMises", "getCramerVonMisesPValue", "Cramer Von Mises p-value"), ("Kolmogorov", "getKolmogorovPValue", "Kolmogorov p-value"),
         ("ZeroMean", "getZeroMeanPValue", "Zero Mean p-value"), ("BreuschPagan", "getBreuschPaganPValue", "Breusch Pagan p-value"),
         ("HarrisonMcCabe", "getHarrisonMcCabePValue", "Harrison McCabe p-value"), ("DurbinWatson", "getDurbinWatsonPValue", "Durbin Watson p-value")]
CASE = (" for uncensored case", " for censored case")
STUBS = {"computeR2": (-1, 1), "computeZeroMeanTest": (0, 1), "computeBreuschPaganTest": (0, 1), "computeHarrisonMcCabeTest": (0, 1), "computeDurbinWatsonTest": (0, 1)}


def rows(text, tabs):
    """the lines of a table"""
    return [l for l in text.split("\n")]


def after(W, lines, label, nth=0):
    """what follows a label: its nth line"""
    hit = [l for l in lines if l.startswith(label)]
    W.check(len(hit) > nth, "the report has a line '%s'" % label)
    return hit[nth][len(label):]


def close(W, shown, val, what):
    tol = 0.005 + 1e-6
    W.check(W.and_(shown - val <= tol, val - shown <= tol), what)


def report(W, cls, bc, fact, level):
    W.opts["round_loose"] = True
    M = W.mod("_univariate_linear_model_analysis")
    for f, (lo, hi) in STUBS.items():
        if hasattr(M, f):                       # the statistics themselves are the subject of C07
            setattr(M, f, (lambda f, lo, hi: lambda *a, **k: W.real(W.tag("st." + f), lo, hi))(f, lo, hi))
    W.opts["ptest"] = lambda name: W.real(W.tag("pt." + name), 0, 1)
    r = c07.analysis(W, cls, bc, fact, 1, level)
    if r is None:
        return
    an, p, mods = r
    k = len(mods)
    val = {}
    for name, acc, desc in TESTS:
        v = getattr(an, acc)()
        W.check([str(d) for d in v.getDescription()] == [desc + c for c in CASE[:k]], acc + ": one labelled value per fit")
        val[name] = W.vec(v)
    for acc, desc, want in (("getIntercept", "Intercept", [q.b0 for q in mods]), ("getSlope", "Slope", [q.b1 for q in mods]),
                            ("getStandardError", "Stderr", [q.s for q in mods])):
        v = getattr(an, acc)()
        W.check([str(d) for d in v.getDescription()] == [desc + c for c in CASE[:k]], acc + ": one labelled value per fit")
        W.check(W.eqv(W.vec(v), want), acc + " of each fit")
        val[desc] = W.vec(v)
    # warnings
    fail = W.or_(*[v < 0.05 for n, vs in val.items() if n in [t[0] for t in TESTS if t[0] != "R2"] for v in vs])
    nonnormal = fact != "NormalFactory"
    text = an.getResults()
    an.saveResults("report.txt")
    saved = W.files.get("report.txt", "")
    logs = [str(m) for lv, m in W.logs if lv == "warning"]
    for src, ls in (("report", text.split("\n")), ("saved file", saved.split("\n")), ("log", logs)):
        pre = "" if src == "log" else "Warning : "
        W.check(W.iff(fail, any(l.startswith(pre) and "hypothesis tests failed" in l for l in ls)), "%s: warning on failed tests exactly when a p-value is below 0.05" % src)
        if bc:
            W.check(not any("use the Box Cox" in l for l in ls), "%s: advice suited to the use of Box Cox" % src)
        else:
            W.check(not any("quantile regression" in l for l in ls), "%s: advice suited to the use of Box Cox" % src)
        W.check(any(l.startswith(pre) and "Normal distribution" in l for l in ls) == nonnormal, "%s: warning on normality exactly when the residual law is not normal" % src)
    ci = ols_interval(W, p)
    for src, ls in (("report", text.split("\n")), ("saved file", saved.split("\n"))):
        def shows(label, want, what, nth=0):
            got = W.nums(after(W, ls, label, nth))
            W.check(len(got) == len(want), "%s: one value per fit for %s" % (src, what))
            for g, v, c in zip(got, want, ("uncensored", "censored")):
                close(W, g, v, "%s: %s of the %s fit" % (src, what, c))
        if bc:
            shows("Box Cox parameter :", [an.getBoxCoxParameter()], "Box Cox parameter")
        else:
            W.check("Not enabled" in after(W, ls, "Box Cox parameter :"), src + ": Box Cox not enabled")
        shows("Intercept coefficient :", val["Intercept"], "intercept")
        shows("Slope coefficient :", val["Slope"], "slope")
        shows("Standard error of the estimate :", val["Stderr"], "standard error")
        for j, c in enumerate(("Intercept", "Slope")):
            got = W.nums(after(W, ls, c + " coefficient :", 1))
            W.check(len(got) == 2, src + ": confidence interval")
            close(W, got[0], ci[j][0], "%s: lower bound of the 95%% interval of the %s" % (src, c.lower()))
            close(W, got[1], ci[j][1], "%s: upper bound of the 95%% interval of the %s" % (src, c.lower()))
        W.check(W.nums(after(W, ls, "Level :")) == [0.95], src + ": level of the intervals")
        shows("R2 (> 0.8):", val["R2"], "R2")
        shows("Kolmogorov p-value (> 0.05):", val["Kolmogorov"], "Kolmogorov p-value")
        shows("Anderson Darling p-value (> 0.05):", val["AndersonDarling"], "Anderson Darling p-value")
        shows("Cramer Von Mises p-value (> 0.05):", val["CramerVonMises"], "Cramer Von Mises p-value")
        shows("p-value (> 0.05):", val["ZeroMean"], "zero-mean p-value")
        shows("Breush Pagan p-value (> 0.05):", val["BreuschPagan"], "Breusch Pagan p-value")
        shows("Harrison McCabe p-value (> 0.05):", val["HarrisonMcCabe"], "Harrison McCabe p-value")
        shows("Durbin Watson p-value (> 0.05):", val["DurbinWatson"], "Durbin Watson p-value")
        laws = an.getResidualsDistribution()
        for lab, law in zip(("uncensored", "censored"), laws):
            W.check(str(law) in after(W, ls, "Fitted distribution (%s) :" % lab), "%s: residual law of the %s fit" % (src, lab))
        heads = [l for l in ls if "ncensored" in l and "Fitted" not in l]
        W.check(len(heads) == 2 and all(("Censored" in h) == (k == 2) for h in heads), src + ": one column per fit")
        if k == 2:
            W.check(all(h.index("Uncensored") < h.index("Censored") for h in heads), src + ": column titles")
    W.cover("done")


def ols_interval(W, p):
    from symx import env
    X = [[1.0, v] for v in p.x]
    b, r, s2 = env.ols_fit(X, p.y)
    return env.ols_conf(X, b, s2, 0.05)


Q = [("uuuu", False, "NormalFactory", 2), ("uuuuu", False, "KernelSmoothing", 2), ("uuuu", True, "NormalFactory", 2), ("uuuu", "given", "WeibullMinFactory", 2),
     ("uunuus", False, "NormalFactory", 2), ("uuunu", False, "KernelSmoothing", 0), ("uuuus", "given", "NormalFactory", 2)]
scenario("C17", "report", Q, bounds="4-6 data, two symbolic signals, symbolic thresholds and censored fit, every p-value, R2 and Box-Cox parameter symbolic", budget=90,
         require=("done",))(report)
