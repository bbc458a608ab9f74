"""C04 linear-model POD curve; C02/C03 data preparation seen through it"""
from symx.runner import scenario
from ._lib import *

DESIGN = {3: [1.0, 2.0, 4.0], 4: [1.0, 2.0, 4.0, 5.0], 5: [0.5, 1.0, 2.0, 4.0, 5.0]}


def build(W, cls, bc, dist, sim=2, xsym=False):
    n = len(cls)
    if xsym:
        x = [W.real("x%d" % i, 0, 10) for i in range(n)]
        W.assume(x[0] + 0.5 <= x[1])
        W.assume(x[1] + 0.5 <= x[2])
    else:
        x = DESIGN[n]
    y, noise, sat = signals(W, cls)
    det = W.real("det", -20, 60)
    given = None
    if bc:
        shift_domain(W, y, cls, [det, noise, sat], dist == "ks")
        if bc == "given":
            given = W.real("lam", -3, 3)
    W.det, W.noise, W.sat, W.given = det, noise, sat, given
    fact = {"bin": None, "gauss": W.ot.NormalFactory, "ks": W.ot.KernelSmoothing}[dist]
    pod = W.cls("_univariate_linear_model_pod", "UnivariateLinearModelPOD")(
        W.ot.Sample(col(x)), W.ot.Sample(col(y)), det, noise, sat, fact() if fact else None,
        given if bc == "given" else bool(bc))
    pod.setVerbose(False)
    pod.setSimulationSize(sim)
    history(W, pod)
    if not guarded_run(W, pod):
        return None
    p = prepared(W, x, y, cls, det, noise, sat, bc, given)
    if bc:
        W.check(W.eq(pod.getBoxCoxParameter(), p.lam), "reported Box-Cox parameter")
    else:
        W.check(pod.getBoxCoxParameter() is None, "no Box-Cox parameter reported when disabled")
    m = ols(W, p.x, p.y)
    if noise is not None or sat is not None:
        r = W.ev("fmin")[0].result
        m = NS(b0=r[0], b1=r[1], s=r[2], s2=r[2] * r[2], resid=[b - (r[0] + r[1] * a) for a, b in zip(p.x, p.y)])
    return pod, p, m


def curve(W, cls, bc, dist, sim=1):
    r = build(W, cls, bc, dist, sim)
    if r is None:
        return
    pod, p, m = r
    f = pod.getPODModel()
    a = W.real("a", -5, 15)
    v = call1(f, a)
    n = len(p.x)
    if dist == "bin":
        thr = p.det - (m.b0 + m.b1 * a)
        between(W, v, frac_above(W, m.resid, thr, DELTA), frac_above(W, m.resid, thr, -DELTA), "binomial POD: share of residuals above the threshold")
    elif dist == "gauss":
        W.assume(m.s > 0.125)
        xb = W.q(sum(p.x), n)
        sxx = W.summ([(t - xb) * (t - xb) for t in p.x])
        pv = m.s2 * (W.q(n + 1, n) + (a - xb) * (a - xb) * W.q(1, sxx))
        t = W.div(p.det - (m.b0 + m.b1 * a), W.sqrt(pv))
        W.check(W.eq(v, phi(W, t, True)), "Gaussian POD with prediction variance")
    else:
        thr = p.det - (m.b0 + m.b1 * a)
        d = W.ot.KernelSmoothing().build(W.ot.Sample(col(m.resid)))
        W.check(W.eq(v, d.computeComplementaryCDF(thr)), "fitted-residual POD")
    W.check(W.and_(W.ge(v, 0.0), W.le(v, 1.0)), "POD in [0,1]")
    a2 = W.real("a2", -5, 15)
    W.assume(a2 >= a)
    if dist != "gauss":
        W.assume(m.b1 >= 0.0)
        v2 = call1(f, a2)
        W.check(W.le(v, v2), "POD does not decrease with the defect size when the slope is positive")
    W.cover("done")


Q = [("uuu", bc, d) for bc in (False, True, "given") for d in ("bin", "gauss", "ks")] + \
    [("uunus", bc, d) for bc in (False, True, "given") for d in ("bin", "gauss", "ks")] + \
    [("nuuu", False, "bin"), ("usuu", True, "gauss"), ("nuuu", True, "ks"), ("usuu", False, "ks")]
scenario("C04", "linear-curve", Q, bounds="3-4 uncensored of up to 5 data, concrete defect design, symbolic signals/detection/thresholds/lambda/defect size",
         budget=90, require=("done",))(curve)
