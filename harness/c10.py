"""C10 validation scores of the metamodels"""
from fractions import Fraction
from symx.runner import scenario
from ._lib import *
from .c09 import mk, prep2, XD, norm_of
from symx.env import frac_inv


def plotted(W):
    """(x, y) lists of the plotted points, in drawing order"""
    out = []
    for e in W.ev("draw"):
        if e.name in ("plot", "scatter") and len(e.args) >= 2:
            out.append((W.vec(e.args[0]), W.vec(e.args[1])))
    return out


def shown(W, draw, n):
    """points shown by the validation graph: the plot that has n points (not the diagonal)"""
    k = len(W.ev("draw"))
    draw()
    ev = W.ev("draw")[k:]
    pts = [(W.vec(e.args[0]), W.vec(e.args[1])) for e in ev if e.name in ("plot", "scatter") and len(e.args) >= 2]
    pts = [p for p in pts if len(p[0]) == n]
    W.check(len(pts) == 1, "the validation graph shows one point per observation")
    return pts[0]


def lsq(P, y, W):
    """exact least squares coefficients of the rows P"""
    k = len(P[0])
    G = [[sum(Fraction(r[i]) * Fraction(r[j]) for r in P) for j in range(k)] for i in range(k)]
    Gi = frac_inv(G)
    b = [W.summ([W.q(Fraction(r[i])) * v for r, v in zip(P, y)]) for i in range(k)]
    return [W.summ([W.q(Gi[i][j]) * b[j] for j in range(k)]) for i in range(k)]


def chaos_q2(W, dim, cls, bc, basis, user=False):
    def build(algo):
        r = W.ot.FunctionalChaosResult.make(dim, algo.dist, coefs=[0.0] * len(basis), basis=basis)
        r.c = lsq([r.psi(a) for a in algo.x], algo.y, W)
        return r
    W.opts["chaos"] = build
    s = mk(W, "chaos", dim, cls, bc, (2.0, 4.0), 1, 1)
    pod = s.pod
    pod.run()
    p = prep2(W, s, cls, bc)
    r = W.ev("chaosfit")[0].result
    n = len(p.X)
    P = [r.psi(a) for a in p.X]
    pred = [r.pred(a) for a in p.X]
    res = [b - a for a, b in zip(pred, p.y)]
    vy = var(W, p.y)
    W.check(W.eq(pod.getR2() * vy, vy - var(W, res)), "R2 = 1 - var(residuals)/var(signals)")
    loo = []
    for i in range(n):
        c = lsq(P[:i] + P[i + 1:], p.y[:i] + p.y[i + 1:], W)
        loo.append(W.summ([a * b for a, b in zip(c, P[i])]))
    e2 = W.summ([(a - b) * (a - b) for a, b in zip(loo, p.y)]) * W.q(1, n)
    W.check(W.eq(pod.getQ2() * vy, vy - e2), "Q2 = 1 - mean squared error of the refits without each observation / variance of the signals")
    gx, gy = shown(W, pod.drawValidationGraph, n)
    W.check(W.eqv(gx, p.y), "validation graph: abscissas are the signals")
    W.check(W.eqv(gy, pred), "validation graph: ordinates are the predictions")
    W.cover("done")


QC = [(2, "uuuuu", False, ("1", "z0")), (2, "uuuuu", False, ("1", "z1")), (2, "uuuuun"[:5], False, ("1", "z0*z0")), (1, "uuuu", False, ("1", "z0")),
      (2, "unuuu", False, ("1", "z0")), (2, "uuuuu", True, ("1", "z0")), (2, "uuuuu", False, ("1",))]
scenario("C10", "chaos-scores", QC, bounds="4-5 data, 1-2 inputs on a fixed design, basis of 1-2 functions, all signals and thresholds symbolic; the metamodel is the least-squares one",
         budget=100, require=("done",))(chaos_q2)


def solve(M, rhs):
    inv = frac_inv([[Fraction(v) for v in r] for r in M])
    return [sum(a * b for a, b in zip(r, rhs)) for r in inv]


def kriging_q2(W, cls, bc, terms, given=None):
    dim = 2
    s = mk(W, "kriging", dim, cls, bc, (2.0, 4.0), 1, 1)
    pod = s.pod
    pod.setInitialStartSize(2)
    fs = [W.ot.SymbolicFunction(["x0", "x1"], [t]) for t in terms]
    pod.setBasis(W.ot.Basis(fs))
    W.opts["gpmean"] = lambda r, z: 1.0
    W.opts["gpvar"] = lambda r, z: 1.0
    pod.run()
    p = prep2(W, s, cls, bc)
    n = len(p.X)
    for v in p.y:
        W.assume(W.and_(v <= 100, v >= -100))      # rounding of the matrix inversion
    gx, gy = shown(W, pod.drawValidationGraph, n)
    W.check(W.eqv(gx, p.y), "validation graph: abscissas are the signals")
    # leave-one-out predictions: universal kriging without the observation, on standardised inputs
    mu = [Fraction(sum(Fraction(r[j]) for r in p.X), n) for j in range(dim)]
    va = [sum((Fraction(r[j]) - mu[j]) ** 2 for r in p.X) / (n - 1) for j in range(dim)]
    sd = [Fraction(float(v) ** 0.5) for v in va]
    Z = [[(Fraction(r[j]) - mu[j]) / sd[j] for j in range(dim)] for r in p.X]

    def k(a, b):
        return 1 / (1 + sum((u - v) ** 2 for u, v in zip(a, b)))

    def f(z):
        return [Fraction(eval(t.replace("^", "**"), {}, dict(x0=z[0], x1=z[1]))) for t in terms]
    q = len(terms)
    for i in range(n):
        I = [j for j in range(n) if j != i]
        M = [[k(Z[a], Z[b]) for b in I] + f(Z[a]) for a in I] + [[f(Z[b])[t] for b in I] + [Fraction(0)] * q for t in range(q)]
        w = solve(M, [k(Z[i], Z[b]) for b in I] + f(Z[i]))[:n - 1]
        want = W.summ([W.q(a) * p.y[b] for a, b in zip(w, I)])
        W.check(W.and_(gy[i] - want <= TOL, want - gy[i] <= TOL), "leave-one-out prediction is that of the kriging model without the observation")
    vy = var(W, p.y, 0)
    e2 = W.summ([(a - b) * (a - b) for a, b in zip(gy, p.y)]) * W.q(1, n)
    W.check(W.eq(pod.getQ2() * vy, vy - e2), "Q2 = 1 - mean squared leave-one-out error / variance of the signals")
    W.cover("done")


TOL = 1e-5
QK = [("uuuuu", False, ("1", "x0")), ("uuuu", False, ("1",)), ("uuuuu", False, ("1", "x0^2")), ("uuuuu", False, ("x1",)), ("uunuu", False, ("1", "x1")),
      ("uuuuu", True, ("1", "x0"))]
scenario("C10", "kriging-scores", QK, bounds="4-5 data, 2 inputs on a fixed design, covariance 1/(1+d^2), trend of 1-2 functions, all signals and thresholds symbolic",
         budget=100, require=("done",))(kriging_q2)
