"""C09/C10 metamodel PODs: polynomial chaos and kriging"""
from symx.runner import scenario
from ._lib import *

# designs chosen so that least squares has exact rational coefficients
XD = {1: [[1.0], [2.0], [4.0], [5.0], [8.0]],
      2: [[1.0, 0.0], [2.0, 3.0], [4.0, 1.0], [5.0, 2.0], [8.0, 4.0]],
      3: [[1.0, 0.0, 2.0], [2.0, 3.0, 0.0], [4.0, 1.0, 1.0], [5.0, 2.0, 4.0], [8.0, 4.0, 3.0]]}

MARGIN = 1.0 / 1024


def joint(W, dim, lo=0.0, hi=8.0):
    return W.ot.JointDistribution([W.ot.Uniform(lo - i, hi + i) for i in range(dim)])


def mk(W, kind, dim, cls, bc, sizes, sim, samp, dist=None, y=None, detr=(-20, 30), detname="det"):
    """a study ready to run; returns pod, design, signals and thresholds"""
    n = len(cls)
    x = XD[dim][:n]
    if y is None:
        y, noise, sat = signals(W, cls, 0.125, 30) if bc and not isneg(bc) else signals(W, cls)
        det = W.real("det", 0.125 if bc and not isneg(bc) else -20, 30)
        if isneg(bc):
            shift_domain(W, y, cls, [det, noise, sat])
    else:
        noise = sat = None
        det = W.real(detname, *detr)
    given = W.real("lam", -3, 3) if isgiven(bc) else None
    spread(W, [v for v, k in zip(y, cls) if k == "u"])
    mod, name = {"chaos": ("_polynomial_chaos_pod", "PolynomialChaosPOD"), "kriging": ("_kriging_pod", "KrigingPOD")}[kind]
    pod = W.cls(mod, name)(W.ot.Sample(x), W.ot.Sample(col(y)), det, noise, sat, given if isgiven(bc) else bool(bc))
    pod.setVerbose(False)
    pod.setSimulationSize(sim)
    pod.setSamplingSize(samp)
    if sizes is not None:
        pod.setDefectSizes(list(sizes))
    if dist is not None:
        pod.setDistribution(dist)
    return NS(pod=pod, x=x, y=y, det=det, noise=noise, sat=sat, given=given, n=n)


def prep2(W, s, cls, bc):
    """prepared data with multi-dimensional inputs"""
    p = prepared(W, list(range(s.n)), s.y, cls, s.det, s.noise, s.sat, bc, s.given)
    p.X = [s.x[i] for i in p.x]
    if bc:
        W.check(W.eq(s.pod.getBoxCoxParameter(), p.lam), "reported Box-Cox parameter")
    else:
        W.check(s.pod.getBoxCoxParameter() is None, "no Box-Cox parameter reported when disabled")
    return p


def others(rows, dim):
    """draws of the other inputs"""
    return [r[1:] if len(r) == dim else list(r) for r in rows]


def interp_checks(W, f, sizes, vals, what):
    for a, v in zip(sizes, vals):
        W.check(W.eq(call1(f, a), v), what)
    for i in range(len(sizes) - 1):
        t = W.real("mid%d" % W.counters.setdefault("mid", 0), 0, 1)
        W.counters["mid"] += 1
        a = sizes[i] + t * (sizes[i + 1] - sizes[i])
        W.check(W.eq(call1(f, a), vals[i] + t * (vals[i + 1] - vals[i])), what + " (linear in between)")
    e, _ = W.raises(f, [sizes[-1] + 0.5])
    W.check(e is not None, what + ": undefined beyond the studied sizes")


def chaos(W, dim, cls, bc, sizes, sim, samp, own=False):
    d = joint(W, dim) if own else None
    s = mk(W, "chaos", dim, cls, bc, sizes, sim, samp, d)
    pod = s.pod
    if sizes is None:
        sizes = W.vec(pod.getDefectSizes())
    history(W, pod)
    pod.run()
    p = prep2(W, s, cls, bc)
    fit = W.ev("chaosfit")
    W.check(len(fit) == 1, "one metamodel is fitted")
    W.check(W.eqv(fit[0].x, p.X), "metamodel fitted on the uncensored inputs")
    W.check(W.eqv(fit[0].y, p.y), "metamodel fitted on the prepared signals")
    r = fit[0].result
    if own:
        W.check(fit[0].dist is d and pod.getDistribution() is d, "the given input law is used")
    else:
        # default law: uniform on the data range, defects on the studied sizes
        g = pod.getDistribution()
        for j in range(dim):
            lo = min(sizes) if j == 0 else min(v[j] for v in p.X)
            hi = max(sizes) if j == 0 else max(v[j] for v in p.X)
            m = g.getMarginal(j)
            W.check(W.eqv([m.a, m.b], [lo, hi]), "default input law: uniform on the range of the data")
    n, k = len(p.X), len(r.c)
    res = [b - r.pred(a) for a, b in zip(p.X, p.y)]
    dof = n - k - 1
    s2 = W.summ([v * v for v in res]) * W.q(1, dof)
    sd = W.sqrt(s2)
    draws = [e for e in W.ev("getSample") if e.dist is pod.getDistribution() or e.dist.dim >= max(2, dim - 1) and not isinstance(e.dist, W.ot.Normal)]
    noise = [e for e in W.ev("getSample") if isinstance(e.dist, W.ot.Normal) and e.dist.cov is None]
    W.check(len(draws) == sim + 1 and len(noise) == sim + 1, "one set of draws for the curve and one per simulation")
    cev = [e for e in W.ev("getSample") if isinstance(e.dist, W.ot.Normal) and e.dist.cov is not None]
    W.check(len(cev) == 1 and len(cev[0].rows) == sim, "coefficients simulated once per simulation")
    N = len(sizes)

    def podval(c, q, i):
        W.check(len(draws[q].rows) == samp, "sampling size")
        W.check(len(noise[q].rows) == samp * N, "one error draw per signal")
        out = []
        for j, o in enumerate(others(draws[q].rows, dim)):
            v = r.pred([sizes[i]] + list(o), c) + noise[q].rows[i * samp + j][0] * sd
            out.append(W.ite(v > p.det, 1.0, 0.0))
        return W.summ(out) * W.q(1, samp)
    # stay away from exact ties (rounding)
    for q in range(sim + 1):
        for i in range(N):
            for j, o in enumerate(others(draws[q].rows, dim)):
                c = r.c if q == 0 else cev[0].rows[q - 1]
                v = r.pred([sizes[i]] + list(o), c) + noise[q].rows[i * samp + j][0] * sd
                W.assume(W.or_(v >= p.det + MARGIN, v <= p.det - MARGIN))
    curve = [podval(r.c, 0, i) for i in range(N)]
    interp_checks(W, pod.getPODModel(), sizes, curve, "chaos POD: share of simulated signals above the threshold")
    # coefficient law
    chi = [e for e in W.ev("chi2") if True]
    W.check(len(chi) == 1 and chi[0].nu == dof, "residual variance drawn with n - p - 1 degrees of freedom")
    G = [[sum(r.psi(a)[i] * r.psi(a)[j] for a in p.X) for j in range(k)] for i in range(k)]
    from symx.env import frac_inv
    from fractions import Fraction
    Gi = frac_inv([[Fraction(v) for v in row] for row in G])
    fac = W.div(dof * s2, chi[0].v)
    cov = [[W.q(Gi[i][j]) * fac for j in range(k)] for i in range(k)]
    W.check(W.eqv(cev[0].dist.mu, r.c), "coefficients simulated around the fitted ones")
    W.check(W.eqv(cev[0].dist.cov, cov), "coefficient covariance: simulated residual variance times (Psi'Psi)^-1")
    c = W.real("conf", 0.5, 0.99)
    cl = [quantile(W, [podval(cev[0].rows[q], q + 1, i) for q in range(sim)], 1 - c) for i in range(N)]
    interp_checks(W, pod.getPODCLModel(c), sizes, cl, "chaos confidence curve: (1-c) quantile of the simulated PODs")
    W.cover("done")


QC = [(2, "uuuuu", False, (2.0, 5.0), 1, 2, False), (2, "uuuuu", False, (1.0, 4.0, 8.0), 1, 1, True), (2, "uuuuu", True, (2.0, 5.0), 1, 1, False),
      (2, "uuuuu", "given", (2.0, 5.0), 1, 1, True), (2, "uuuun", False, (2.0, 5.0), 1, 1, False), (2, "uuusu", False, (2.0, 5.0), 1, 1, True),
      (1, "uuuuu", False, (2.0, 5.0), 1, 1, False), (2, "uuuuu", False, (2.0, 5.0), 2, 1, True)]
scenario("C09", "chaos-pod", QC, bounds="4-5 data, 1-2 inputs, basis of 2 functions, 2-3 defect sizes, 1-2 draws and 1-2 simulated coefficient vectors; symbolic signals, coefficients, draws, thresholds",
         budget=110, require=("done",))(chaos)


def norm_of(W, X, dim):
    """centring and scaling of the inputs"""
    n = len(X)
    mu = [W.summ([r[j] for r in X]) * W.q(1, n) for j in range(dim)]
    sd = [W.sqrt(W.summ([(r[j] - mu[j]) * (r[j] - mu[j]) for r in X]) * W.q(1, n - 1)) for j in range(dim)]
    return lambda x: [W.div(v - m, s) for v, m, s in zip(x, mu, sd)]


def near(W, got, want, tol=1e-6):
    """same points up to rounding"""
    a, b = W.vec(got), W.vec(want)
    return len(a) == len(b) and W.and_(*[W.and_(p - q <= tol, q - p <= tol) for p, q in zip(a, b)])


def gp_pod(W, result, x0, rows, dim, det, Tx, sim, samp, zs, mixes, what):
    """checks the POD sample of one defect; returns its mixture event"""
    z = [r[0] for r in zs.rows]
    pts = [Tx([x0] + list(o)) for o in others(rows, dim)]
    mu = [result.mean(p) for p in pts]
    sd = [W.sqrt(result.var(p)) for p in pts]
    comps = mixes.dist.coll
    W.check(len(comps) == sim, what + ": one component per simulated trajectory")
    for i in range(sim):
        ys = [z[i] * b + a for a, b in zip(mu, sd)]
        for v in ys:
            W.assume(W.or_(v >= det + MARGIN, v <= det - MARGIN))
        p = W.summ([W.ite(v > det, 1.0, 0.0) for v in ys]) * W.q(1, samp)
        c = comps[i]
        if hasattr(c, "v"):
            W.check(W.eq(c.v[0], p), what + ": share of simulated signals above the threshold")
            W.check(W.or_(W.eq(p, 0.0), W.eq(p, 1.0)), what + ": sampling error only where the share is neither 0 nor 1")
        else:
            W.check(W.eq(c.mu, p), what + ": share of simulated signals above the threshold")
            W.check(W.eq(c.sigma * c.sigma, p * (1 - p) * W.q(1, samp)), what + ": sampling variance of the share")


def kriging(W, dim, cls, bc, sizes, sim, samp, own=False):
    d = joint(W, dim) if own else None
    W.opts["cov"] = lambda m, a, b: 1.0 if W.vec(a) == W.vec(b) else 0.0
    s = mk(W, "kriging", dim, cls, bc, sizes, sim, samp, d)
    pod = s.pod
    pod.setInitialStartSize(2)
    history(W, pod)
    pod.run()
    p = prep2(W, s, cls, bc)
    fit = W.ev("gpfit")
    W.check(len(fit) == 1, "one metamodel is fitted")
    Tx = norm_of(W, p.X, dim)
    W.check(near(W, fit[0].x, [Tx(v) for v in p.X]), "metamodel fitted on the standardised uncensored inputs")
    W.check(W.eqv(fit[0].y, p.y), "metamodel fitted on the prepared signals")
    r = W.ev("gpr")[-1].result
    W.check(pod.getKrigingResult() is r, "the metamodel used is the reported one")
    g = pod.getDistribution()
    if own:
        W.check(g is d, "the given input law is used")
    else:
        for j in range(dim):
            lo = min(sizes) if j == 0 else min(v[j] for v in p.X)
            hi = max(sizes) if j == 0 else max(v[j] for v in p.X)
            m = g.getMarginal(j)
            W.check(W.eqv([m.a, m.b], [lo, hi]), "default input law: uniform on the range of the data")
    N = len(sizes)
    ev = W.ev("getSample")
    inp = [e for e in ev if isinstance(e.dist, W.ot.JointDistribution)]
    zs = [e for e in ev if isinstance(e.dist, W.ot.Normal)]
    mx = [e for e in ev if isinstance(e.dist, W.ot.Mixture)]
    W.check(len(inp) == N and len(zs) == N and len(mx) == N, "one simulation per defect size")
    curve, cl = [], []
    c = W.real("conf", 0.5, 0.99)
    for i in range(N):
        W.check(len(inp[i].rows) == samp and len(zs[i].rows) == sim, "sampling and simulation sizes")
        for row in inp[i].rows:
            W.check(len(row) == dim and W.eq(row[0], sizes[i]), "the defect is fixed at the studied size")
        mg = inp[i].dist.coll[1:]
        W.check(all(mg[j] is g.getMarginal(j + 1) for j in range(dim - 1)), "each other input follows its own marginal law")
        gp_pod(W, r, sizes[i], inp[i].rows, dim, p.det, Tx, sim, samp, zs[i], mx[i], "kriging POD")
        v = [q[0] for q in mx[i].rows]
        curve.append(W.summ(v) * W.q(1, len(v)))
        cl.append(quantile(W, v, 1 - c))
    interp_checks(W, pod.getPODModel(), sizes, curve, "kriging POD: mean of the simulated PODs")
    interp_checks(W, pod.getPODCLModel(c), sizes, cl, "kriging confidence curve: (1-c) quantile of the simulated PODs")
    W.cover("done")


QK = [(2, "uuuuu", False, (2.0, 5.0), 1, 2, False), (2, "uuuu", False, (1.0, 3.0, 5.0), 1, 1, True), (2, "uuuu", True, (2.0, 5.0), 1, 1, False),
      (2, "uuuu", "given", (2.0, 5.0), 1, 1, True), (2, "uuuun", False, (2.0, 5.0), 1, 1, False), (2, "uuusu", False, (2.0, 5.0), 1, 1, True),
      (2, "uuuu", False, (2.0, 5.0), 2, 1, True)]
scenario("C09", "kriging-pod", QK, bounds="4-5 data, 2 inputs, 2-3 defect sizes, 1-2 draws and 1-2 trajectories; symbolic signals, metamodel mean and variance, draws, thresholds",
         budget=110, require=("done",))(kriging)
