"""C05 confidence-level POD of the linear model"""
from symx.runner import scenario
from ._lib import *
from .c04 import build, DESIGN


def sel(k, n):
    """bootstrap rows: a rotation with one repetition, different for each replicate"""
    idx = list(range(n))
    idx[(k + 1) % n] = idx[(k + 2) % n] if k % 2 else idx[0]
    return idx


def thr_of(p, m, a):
    return p.det - (m.b0 + m.b1 * a)


def oracle(W, dist, pods, p, m, a, c, sim):
    n = len(p.x)
    if dist == "gauss":
        chis = [e.v for e in W.ev("chi")]
        zs = [e.z for e in W.ev("mvn")]
        W.check(len(chis) >= sim and len(zs) >= sim, "one simulated model per requested simulation")
        vals = []
        for i in range(sim):
            s = W.div(m.s * W.sqrt(W.q(n - 2)), chis[i])
            t = W.div(p.det - ((m.b0 + zs[i][0] * s) + (m.b1 + zs[i][1] * s) * a), s)
            vals.append(phi(W, t, True))
    else:
        vals = []
        for q, mm in pods:
            d = W.ot.KernelSmoothing().build(W.ot.Sample(col(mm.resid)))
            vals.append(d.computeComplementaryCDF(thr_of(q, mm, a)))
    return quantile(W, vals, 1 - c)


def clcurve(W, cls, bc, dist, sim):
    W.opts["bootstrap"] = sel
    r = build(W, cls, bc, dist, sim)
    if r is None:
        return
    pod, p, m = r
    n = len(p.x)
    c = W.real("c", 0.5, 0.99)
    a = W.real("a", -5, 15)
    W.assume(m.s >= 0.125)
    f = pod.getPODCLModel(c)
    v = call1(f, a)
    if dist == "bin":
        thr = thr_of(p, m, a)
        # away from exact ties
        for e in m.resid:
            W.assume(W.or_(e >= thr + DELTA, e <= thr - DELTA))
        k = W.summ([W.ite(e > thr, 1, 0) for e in m.resid])
        k = int(k) if not W.symbolic else k
        kk = None
        for i in range(n + 1):
            if k == i:
                kk = i
        if kk == n:
            want = c ** (1.0 / n)
        else:
            want = 1 - W.ot.DistFunc.qBeta(n - kk, kk + 1, c)
        W.check(W.eq(v, want), "binomial lower bound: beta quantile of the exceedance count")
    else:
        if dist == "gauss":
            ev = [e for e in W.ev("Normal") if e.dist.cov is not None]
            W.check(len(ev) >= 1, "parameter law")
            xb = W.q(sum(p.x), n)
            sxx = sum((t - xb) * (t - xb) for t in p.x)
            cov = [[W.q(sum(t * t for t in p.x), n * sxx), -W.q(xb, sxx)], [-W.q(xb, sxx), W.q(1, sxx)]]
            W.check(W.eqv(ev[0].dist.cov, cov), "parameters drawn with covariance (X'X)^-1")
            W.check(W.eqv(ev[0].dist.mu, [0.0, 0.0]), "parameter noise is centred")
            W.check(all(e.nu == n - 2 for e in W.ev("chi")), "residual scale drawn with n-2 degrees of freedom")
            pods = []
        else:
            reps = W.ev("bootrep")
            W.check(len(reps) == sim, "as many bootstrap models as simulations")
            fm = W.ev("fmin")
            pods = []
            for i, rep in enumerate(reps):
                W.check(len(rep.idx) == len(cls), "bootstrap on the full data")
                bx, by = [r[0] for r in rep.rows], [r[1] for r in rep.rows]
                bcl = "".join(cls[j] for j in rep.idx)
                q = prepared(W, bx, by, bcl, W.det, W.noise, W.sat, bc, W.given, ev=1 + i)
                mm = ols(W, q.x, q.y)
                if W.noise is not None or W.sat is not None:
                    rr = fm[1 + i].result
                    mm = NS(b0=rr[0], b1=rr[1], s=rr[2], resid=[b - (rr[0] + rr[1] * t) for t, b in zip(q.x, q.y)])
                pods.append((q, mm))
        W.check(W.eq(v, oracle(W, dist, pods, p, m, a, c, sim)), "confidence bound: (1-c) quantile of the simulated PODs")
    W.check(W.and_(W.ge(v, 0.0), W.le(v, 1.0)), "bound in [0,1]")
    c2 = W.real("c2", 0.5, 0.99)
    W.assume(c2 >= c)
    if dist == "bin":
        if kk == n:
            pass
        else:
            W.check(W.le(call1(pod.getPODCLModel(c2), a), v), "higher confidence gives a lower bound")
    else:
        W.check(W.le(call1(pod.getPODCLModel(c2), a), v), "higher confidence gives a lower bound")
    W.cover("done")


Q = [("uuuu", False, "bin", 2), ("uuu", True, "bin", 2), ("uunus", False, "bin", 2), ("uuuu", False, "gauss", 2), ("uuuu", "given", "gauss", 2),
     ("uuuu", True, "gauss", 2), ("uuuu", False, "gauss", 3), ("uuuu", False, "ks", 2), ("uuu", True, "ks", 2), ("uuu", "given", "ks", 2),
     ("uunuu", False, "ks", 2), ("uunus", False, "gauss", 2), ("uuuu", False, "ks", 3)]
scenario("C05", "linear-cl", Q, bounds="4 data (up to 5 with censored), 2-3 simulated models, symbolic signals/detection/draws/level/defect size", budget=120,
         require=("done",))(clcurve)


def rounding(W, n):
    """the number of residuals above the threshold, counted in floating point (n where k/n is not exact)"""
    x = [float(i + 1) for i in range(n)]
    y = [2.0 * v + [0.5, -1.0, 0.25, 1.0, -0.75, 0.125][i % 6] for i, v in enumerate(x)]
    det = W.real("det", 0, 12)
    pod = W.cls("_univariate_linear_model_pod", "UnivariateLinearModelPOD")(W.ot.Sample(col(x)), W.ot.Sample(col(y)), det)
    pod.setVerbose(False)
    pod.run()
    m = ols(W, x, y)
    thr = det - (m.b0 + m.b1 * 3.0)
    for e in m.resid:
        W.assume(W.or_(e >= thr + DELTA, e <= thr - DELTA))
    k = 0
    for e in m.resid:
        if e > thr:
            k += 1
    c = W.real("c", 0.5, 0.99)
    v = call1(pod.getPODCLModel(c), 3.0)

    def bound(j):
        return c ** (1.0 / n) if j == n else 1 - W.ot.DistFunc.qBeta(n - j, j + 1, c)
    good = W.eq(v, bound(k))
    if not W.symbolic and not good and k > 0 and W.eq(v, bound(k - 1)):
        W.check(False, "binomial bound counts one residual too few (floating point)")
        return
    W.check(good, "binomial bound: 1 - qBeta(n-k, k+1, c), c^(1/n) when k = n")
    W.cover("done")


scenario("C05", "binomial-count", [5, 6], bounds="5-6 fixed data, symbolic detection threshold", budget=40, require=("done",))(rounding)
scenario("C05", "linear-cl", [("uuus", True, "ks", 2), ("uuuuu", False, "ks", 3), ("uuuuu", True, "gauss", 3)], tier="thorough", bounds="4-5 data, 2-3 simulated models", budget=600, require=("done",))(clcurve)
