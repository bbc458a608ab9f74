"""C03 censored likelihood of the linear model"""
import math
from symx.runner import scenario
from ._lib import *
from .c04 import build, DESIGN


def nll(W, p, b0, b1, s):
    np = W.np
    r = len(p.x) * np.log(s * math.sqrt(2.0 * math.pi))
    r = r + W.div(W.summ([(y - (b0 + b1 * x)) * (y - (b0 + b1 * x)) for x, y in zip(p.x, p.y)]), 2 * s * s)
    for x in p.nx:
        r = r - np.log(phi(W, W.div(p.noise - (b0 + b1 * x), s)))
    for x in p.sx:
        r = r - np.log(1.0 - phi(W, W.div(p.sat - (b0 + b1 * x), s)))
    return r


def likelihood(W, cls, bc, dist):
    r = build(W, cls, bc, dist, 1)
    if r is None:
        return
    pod, p, m = r
    e = W.ev("fmin")[0]
    b = [W.real("b0", -4, 4), W.real("b1", -4, 4), W.real("s", 0.5, 4)]
    c = [W.real("c0", -4, 4), W.real("c1", -4, 4), W.real("cs", 0.5, 4)]
    if not W.symbolic:
        # stay where the normal CDF does not saturate
        for v in (b, c):
            for x in p.nx:
                W.assume(abs((p.noise - (v[0] + v[1] * x)) / v[2]) < 5)
            for x in p.sx:
                W.assume(abs((p.sat - (v[0] + v[1] * x)) / v[2]) < 5)
    conv = (lambda v: v) if W.symbolic else W.np.array
    got = e.func(conv(b)) - e.func(conv(c))
    W.check(W.eq(got, nll(W, p, *b) - nll(W, p, *c)), "objective is the censored negative log-likelihood")
    W.check(W.eqv([pod._intercept, pod._slope, pod._stderr] if False else [m.b0, m.b1, m.s], e.result), "model parameters are the optimiser's")
    W.cover("done")


def start(W, cls):
    """start point: the least-squares fit of the uncensored data whenever its likelihood is finite"""
    x = DESIGN[len(cls)]
    y = [x_ + d for x_, d in zip(x, (0.0, 1.0, -1.0, 0.5, 0.25))]
    noise = sat = None
    if "n" in cls:
        noise = W.real("noise", 0.5, 2)
        for i, c in enumerate(cls):
            if c == "n":
                y[i] = noise - 0.25
            elif c == "u":
                y[i] = y[i] + 3
    if "s" in cls:
        sat = W.real("sat", 8.5, 9)
        for i, c in enumerate(cls):
            if c == "s":
                y[i] = sat + 0.25
    det = 4.0
    pod = W.cls("_univariate_linear_model_pod", "UnivariateLinearModelPOD")(
        W.ot.Sample(col(x)), W.ot.Sample(col(y)), det, noise, sat, None, False)
    pod.setVerbose(False)
    pod.run()
    ux = [a for a, c in zip(x, cls) if c == "u"]
    uy = [a for a, c in zip(y, cls) if c == "u"]
    m = ols(W, ux, uy)
    e = W.ev("fmin")[0]
    W.check(W.eqv(e.x0, [m.b0, m.b1, m.s]), "optimisation starts from the least-squares fit of the uncensored data")
    W.check(len(W.ev("fmin")) == 1, "one optimisation")
    W.cover("done")


def restart(W, k, ok):
    """the least-squares start has an infinite likelihood: random starts, at most 100"""
    x = [1.0, 2.0, 3.0, 4.0, 1000.0]
    y = [5.0, 6.5, 6.75, 8.25, 1.0]
    noise = 2.0
    seq = []

    def draw(n):
        i = len(seq)
        if i < k and 2 < i < k - 2:
            v = [0.25, 0.5, -1.0]
        elif i < k:
            v = [W.draw("r", -2, 2), W.draw("r", -2, 2), W.draw("r", -2, -0.25)]
        elif ok:
            v = [W.draw("r", -2, 2), W.draw("r", -2, -0.25), W.draw("r", 0.25, 2)]
        else:
            v = [0.5, 0.5, -1.0]
        seq.append(v)
        return v
    W.opts["randn"] = draw
    pod = W.cls("_univariate_linear_model_pod", "UnivariateLinearModelPOD")(
        W.ot.Sample(col(x)), W.ot.Sample(col(y)), 6.0, noise, None, None, False)
    pod.setVerbose(False)
    e, _ = W.raises(pod.run)
    if ok:
        W.check(e is None, "a finite random start is accepted")
        W.check(W.eqv(W.ev("fmin")[0].x0, seq[-1]), "optimisation starts from the accepted random point")
        W.check(len(seq) == k + 1, "random starts stop at the first finite one")
    else:
        W.check(e is not None, "failure to find a start is reported")
        W.check(len(W.ev("fmin")) == 0, "no optimisation from an infinite start")
        W.check(len(seq) <= 1000, "bounded number of random starts")
    W.cover("done")


def warn(W, flag):
    x = [1.0, 2.0, 4.0, 5.0]
    y = [W.real("y%d" % i, 2.5, 9) for i in range(3)] + [1.0]
    W.opts["fmin_flag"] = flag
    W.opts["randn_lo"] = 0.25
    pod = W.cls("_univariate_linear_model_pod", "UnivariateLinearModelPOD")(
        W.ot.Sample(col(x)), W.ot.Sample(col(y)), 6.0, 2.0, None, None, False)
    pod.setVerbose(False)
    if guarded_run(W, pod):
        n = len([l for l in W.logs if l[0] == "otwarn"])
        W.check((n > 0) == (flag == 2), "warning exactly when the iteration limit was reached")
        W.cover("done")


Q = [("uuun", False, "bin"), ("uuus", False, "bin"), ("unuus", False, "bin"), ("uuun", True, "bin"), ("usuu", True, "bin"),
     ("uuun", "given", "gauss"), ("unuus", True, "gauss"), ("unnuu", False, "bin"), ("uunus", "given", "bin")]
scenario("C03", "likelihood", Q, bounds="3-5 data, every mix of noise/saturation, objective compared at two symbolic parameter points", budget=90, require=("done",))(likelihood)
scenario("C03", "start", [("uuun",), ("uuus",), ("unuus",)], bounds="4-5 data", require=("done",))(start)
scenario("C03", "restart", [(0, True), (1, True), (3, True), (40, True), (0, False)], bounds="0..99 failing random starts, all failing", require=("done",))(restart)
scenario("C03", "warning", [(0,), (2,)], bounds="optimiser flag 0/2", require=("done",))(warn)
