"""C07 validation statistics of the linear analysis; C17 what the analysis reports"""
import re
from symx.runner import scenario
from ._lib import *

XN = {4: [1.0, 2.0, 4.0, 6.0], 5: [1.0, 2.0, 4.0, 5.0, 7.0], 6: [1.0, 2.0, 4.0, 5.0, 7.0, 6.0]}
POOL = [[0.5, -1.0, 0.75, 1.25, -0.25, 2.0], [1.5, 0.25, -0.5, -2.0, 1.0, 0.125], [-0.375, 2.25, 1.0, 0.5, -1.5, -0.75]]


def pool(W, m):
    """simulated normal samples: a few concrete patterns"""
    st = {"k": 0}

    def f(dist, n):
        if type(dist).__name__ == "Normal" and dist.dim == 1:
            st["k"] += 1
            return [[v] for v in POOL[st["k"] % m][:n]]
    W.opts["getSample"] = f


YN = [3.0, 7.5, 6.0, 11.0, 9.0, 12.5]


def analysis(W, cls, bc, fact="NormalFactory", m=2, free=1):
    """`free` signals are symbolic, the others fixed"""
    x = XN[len(cls)]
    y = list(YN[:len(cls)])
    noise = W.real("noise", 0.25, 2) if "n" in cls else None
    sat = W.real("sat", 20, 25) if "s" in cls else None
    for i, c in enumerate(cls):
        if c == "n":
            y[i] = W.real("y%d" % i, 0, 2)
            W.assume(y[i] <= noise)
        elif c == "s":
            y[i] = W.real("y%d" % i, 20, 30)
            W.assume(y[i] >= sat)
        elif free > 0:
            free -= 1
            y[i] = W.real("y%d" % i, 2.5, 19)
    given = W.real("lam", -3, 3) if bc == "given" else None
    if bc:
        for t in (noise, sat):
            if t is not None:
                W.assume(t >= 0.125)
    pool(W, m)
    W.opts["randn_lo"] = 0.25
    e, an = W.raises(W.cls("_univariate_linear_model_analysis", "UnivariateLinearModelAnalysis"),
                     W.ot.Sample(col(x)), W.ot.Sample(col(y)), noise, sat, getattr(W.ot, fact)(), given if bc == "given" else bool(bc))
    if e is not None:
        if "starting point" in str(e):
            return None
        raise e
    p = prepared(W, x, y, cls, None, noise, sat, bc, given)
    mods = [ols(W, p.x, p.y)]
    if noise is not None or sat is not None:
        r = W.ev("fmin")[0].result
        mods.append(NS(b0=r[0], b1=r[1], s=r[2], resid=[b - (r[0] + r[1] * a) for a, b in zip(p.x, p.y)]))
    return an, p, mods


def r2(W, y, r):
    return 1 - W.div(var(W, r), var(W, y))


def zero_mean(W, r):
    n = len(r)
    mean = W.summ(r) * W.q(1, n)
    sd = W.sqrt(var(W, r) * W.q(1, n))
    t = W.div(mean, sd)
    return 2 * W.ot.DistFunc.pStudent(n - 1, -abs(t))


def breusch(W, x, r):
    n = len(x)
    s2 = W.summ([v * v for v in r]) * W.q(1, n)
    w_ = [v * v - s2 for v in r]
    b = ols(W, x, w_)
    pred = [b.b0 + b.b1 * t for t in x]
    bp = W.div(n * W.summ([v * v for v in pred]), W.summ([v * v for v in w_]))
    return 1 - W.ot.DistFunc.pNonCentralChiSquare(1, 0, bp)


def harrison(W, r, sims):
    n = len(r)
    k = n // 2
    h = W.div(W.summ([v * v for v in r[:k]]), W.summ([v * v for v in r]))
    stats = []
    for s in sims:
        v = [row[0] for row in s]
        m = sum(v) / len(v)
        d = [(a - m) ** 2 for a in v]
        stats.append(sum(d[:k]) / sum(d))
    return h, stats


def durbin(W, x, r):
    import numpy as np
    n = len(x)
    X = np.array([[1.0, v] for v in x])
    D = np.diff(np.eye(n), axis=0)
    A = D.T @ D
    H = np.linalg.inv(X.T @ X)
    XAXQ = X.T @ A @ X @ H
    P = 2 * (n - 1) - np.trace(XAXQ)
    Q = 2 * (3 * n - 4) - 2 * np.trace(X.T @ A @ A @ X @ H) + np.trace(XAXQ @ XAXQ)
    dm = P / (n - 2)
    dv = 2.0 / ((n - 2) * n) * (Q - P * dm)
    d = W.div(W.summ([(b - a) * (b - a) for a, b in zip(r, r[1:])]), W.summ([v * v for v in r]))
    t = (d - float(dm)) * (1.0 / float(dv) ** 0.5)
    return 2 * phi(W, abs(t), True), t


NAMES = {"ad": "AndersonDarling", "cvm": "CramerVonMises", "kol": "Kolmogorov"}


def formulas(W, which, n):
    """each statistic on arbitrary residuals"""
    M = W.mod("_math_tools")
    x = XN[n]
    r = [W.real("r%d" % i, -8, 8) for i in range(n)]
    S = lambda v: W.ot.Sample(col(v))
    W.assume(W.summ([v * v for v in r]) >= 0.0625)
    if which == "R2":
        y = [W.real("y%d" % i, -8, 8) for i in range(n)]
        spread(W, y)
        W.check(W.eq(M.computeR2(S(y), S(r)), r2(W, y, r)), "R2")
    elif which == "ZeroMean":
        spread(W, r)
        p = M.computeZeroMeanTest(S(r))
        W.check(W.eq(p, zero_mean(W, r)), "zero-mean test: two-sided Student test of the mean")
    elif which == "BreuschPagan":
        W.assume(W.max([v * v for v in r]) - W.min([v * v for v in r]) >= 0.25)
        W.check(W.eq(M.computeBreuschPaganTest(S(x), S(r)), breusch(W, x, r)), "Breusch-Pagan test: chi-square law of the explained squares")
    elif which == "DurbinWatson":
        d, t = durbin(W, x, r)
        got = M.computeDurbinWatsonTest(S(x), S(r))
        W.assume(W.or_(t > 1e-3, t < -1e-3))
        W.check(W.eq(got, d), "Durbin-Watson test: two-sided normal approximation")
        W.check(W.and_(W.ge(got, 0.0), W.le(got, 1.0)), "p-value in [0,1]")
    else:
        pool(W, 3)
        p = M.computeHarrisonMcCabeTest(S(r), 0.5, 7)
        sims = [e.rows for e in W.ev("getSample")]
        W.check(len(sims) == 7, "requested number of simulations")
        check_hmc(W, p, r, sims, "")
    W.cover("done")


def check_hmc(W, got, r, sims, tag):
    h, st = harrison(W, r, sims)
    cnt = {}
    for s in st:
        cnt[round(s, 9)] = cnt.get(round(s, 9), 0) + 1
    for v in cnt:
        W.assume(W.or_(h >= v + 1e-5, h <= v - 1e-5))
    want = W.summ([W.ite(h >= v, W.q(c, len(st)), 0.0) for v, c in sorted(cnt.items())])
    W.check(W.eq(got, want), "Harrison-McCabe p-value: share of simulated ratios below the observed one" + tag)


def same_law(W, a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if hasattr(a, "data"):
        return len(a.data) == len(b.data) and W.eqv(a.data, b.data)
    return W.and_(W.eqv(W.vec(a.mu), W.vec(b.mu)), W.eqv(W.vec(a.sigma), W.vec(b.sigma)))


def stats(W, cls, bc, fact, m):
    r = analysis(W, cls, bc, fact, m)
    if r is None:
        return
    an, p, mods = r
    k = len(mods)
    for g, want in (("getIntercept", [q.b0 for q in mods]), ("getSlope", [q.b1 for q in mods]), ("getStandardError", [q.s for q in mods])):
        got = W.vec(getattr(an, g)())
        W.check(len(got) == k, g + ": one value per model")
        W.check(W.eqv(got, want), g + " are the fitted parameters")
    res = W.mat(an.getResiduals())
    W.check(len(res) == len(p.x), "number of residuals")
    for j, q in enumerate(mods):
        W.check(W.eqv([row[j] for row in res], q.resid), "residuals of the %s model" % ("uncensored", "censored")[j])
    W.check(len(an.getResidualsDistribution()) == k, "one residual law per model")
    if bc:
        W.check(W.eq(an.getBoxCoxParameter(), p.lam), "Box-Cox parameter")
    for q in mods:
        W.assume(W.summ([v * v for v in q.resid]) >= 0.0625)
    W.assume(var(W, p.y) >= 0.0625)
    for nm, meth in NAMES.items():
        ev = [e for e in W.ev("test") if e.name == nm]
        got = W.vec(getattr(an, "get%sPValue" % meth)())
        W.check(len(got) == k, meth + ": one p-value per model")
        for j, q in enumerate(mods):
            want = [e.p for e in ev if len(e.data) == len(q.resid) and W.eqv(e.data, q.resid) is True]
            if want:
                W.check(W.eq(got[j], want[0]), meth + " p-value of the model's residuals")
            else:
                W.check(W.or_(*[W.and_(W.eqv(e.data, q.resid), W.eq(got[j], e.p)) for e in ev]), meth + " p-value of the model's residuals")
    laws, kol = list(an.getResidualsDistribution()), W.ev("kolmo")
    for j, q in enumerate(mods):
        # the law the residuals of this fit are compared with: the one fitted on them
        same = [e for e in kol if len(e.data) == len(q.resid) and W.eqv(e.data, q.resid) is True]
        for e in (same if len(mods) == 1 or same else kol[j:j + 1]):
            W.check(same_law(W, e.dist, laws[j]), "Kolmogorov test against the residual law of this fit")
    M = W.mod("_math_tools")
    S = lambda v: W.ot.Sample(col(v))
    sims = [e.rows for e in W.ev("getSample") if type(e.dist).__name__ == "Normal" and e.n == len(p.x)]
    W.check(len(sims) >= 1000 * k, "Harrison-McCabe simulations")
    for j, q in enumerate(mods):
        tag = " of the %s model" % ("uncensored", "censored")[j]
        W.check(W.eq(W.vec(an.getR2())[j], r2(W, p.y, q.resid)), "R2" + tag)
        if j == 1:
            W.check(W.eq(W.vec(an.getZeroMeanPValue())[j], zero_mean(W, q.resid)), "zero-mean test" + tag)
        W.check(W.eq(W.vec(an.getBreuschPaganPValue())[j], breusch(W, p.x, q.resid)), "Breusch-Pagan test" + tag)
        W.check(W.eq(W.vec(an.getDurbinWatsonPValue())[j], durbin(W, p.x, q.resid)[0]), "Durbin-Watson test" + tag)
        check_hmc(W, W.vec(an.getHarrisonMcCabePValue())[j], q.resid, sims[j * 1000:(j + 1) * 1000], tag)
    W.cover("done")


F = [(w, n) for w in ("R2", "ZeroMean", "BreuschPagan", "DurbinWatson", "HarrisonMcCabe") for n in (4, 5)]
scenario("C07", "formulas", F, bounds="4-5 symbolic residuals in [-8,8], concrete defect design, 7 simulations from a fixed pool", budget=90,
         require=("done",))(formulas)
Q = [("uuuu", False, "NormalFactory", 2), ("uuuuu", False, "KernelSmoothing", 2), ("uuuu", True, "NormalFactory", 1), ("uuuu", "given", "NormalFactory", 1),
     ("uunuus", False, "NormalFactory", 1)]
scenario("C07", "statistics", Q, bounds="4-6 data, one symbolic signal, symbolic thresholds/censored model/lambda; simulated normal samples from a fixed pool", budget=100,
         require=("done",))(stats)
scenario("C07", "statistics", [("uuunu", False, "NormalFactory", 1), ("uuuus", "given", "NormalFactory", 1), ("uuuuuu", True, "NormalFactory", 2)], tier="thorough", bounds="5-6 data", budget=800,
         require=("done",))(stats)
