"""C11 adaptive signal POD: enrichment of the design, final metamodel and POD"""
from symx.runner import scenario
from ._lib import *
from .c09 import XD, MARGIN, joint, norm_of, near, gp_pod, interp_checks, prep2, others

DET = 3.2666015625
CAND = [[3.0, 1.0], [6.0, 3.0], [7.0, 0.5], [2.5, 2.0]]


def dependent(W, dim):
    """a law whose copula is not independent"""
    d = joint(W, dim)
    d.hasIndependentCopula = lambda: False
    return d


def study(W, cls, bc, sizes, sim, samp, iters, ncand, law="default", y=None, physical=None, graph=False, det=None):
    dim, n = 2, len(cls)
    x = XD[dim][:n]
    if y is None:
        # the last two signals are symbolic, the others fixed
        y, noise, sat = signals(W, cls, 0.125, 30)
        for v, c in zip(y[:n - 2], [1.0, 2.5, 6.0]):
            W.assume(v == c)
        y[:n - 2] = [1.0, 2.5, 6.0][:n - 2]
    else:
        noise = sat = None
    if det is None:
        det = W.real("det", 0.125 if bc else -20, 30)
    given = bc if isinstance(bc, float) else W.real("lam", -3, 3) if isgiven(bc) else None
    bc = "given" if isinstance(bc, float) else bc
    spread(W, [v for v, k in zip(y, cls) if k == "u"])
    W.opts["cov"] = lambda m, a, b: 1.0 if W.vec(a) == W.vec(b) else 0.0
    answers = {}

    def true(z):
        k = tuple(W.vec(z))
        if k not in answers:
            answers[k] = physical(k) if physical else W.real("true%d" % len(answers), 0.125 if bc else -20, 30)
        return [answers[k]]
    model = W.ot.PythonFunction(dim, 1, true)
    user = W.ot.Sample(x), W.ot.Sample(col(y))
    pod = W.cls("_adaptive_signal_pod", "AdaptiveSignalPOD")(user[0], user[1], model, iters, det, noise, sat, given if isgiven(bc) else bool(bc))
    pod.setVerbose(False)
    pod.setSimulationSize(sim)
    pod.setSamplingSize(samp)
    pod.setInitialStartSize(1)
    pod.setCandidateSize(ncand)
    if sizes is not None:
        pod.setDefectSizes(list(sizes))
    d = None
    if law != "default":
        d = dependent(W, dim) if law == "dependent" else joint(W, dim)
        pod.setDistribution(d)
    cand = [list(c) for c in CAND[:ncand]]
    W.opts["lowdisc"] = lambda dist, m: [list(c) for c in cand] if m == ncand else None or [dist.one() for _ in range(m)]
    if graph:
        pod.setGraphActive(True, None, None)
    return NS(pod=pod, x=x, y=y, det=det, noise=noise, sat=sat, given=given, n=n, user=user, d=d, cand=cand, answers=answers, dim=dim,
              cls=cls, bc=bc, sizes=sizes, sim=sim, samp=samp, iters=iters, ncand=ncand, law=law)


def podsims(W):
    """simulated PODs: draws of the sampling-error mixture with the metamodel, the inputs and the normal draws they come from"""
    out, inp, z, r = [], None, None, None
    for e in W.events:
        if e.kind == "gpcc":
            r = e.result
        elif e.kind == "getSample" and isinstance(e.dist, W.ot.JointDistribution) and isinstance(e.dist.coll[0], W.ot.Dirac):
            inp = e
        elif e.kind == "getSample" and isinstance(e.dist, W.ot.Normal):
            z = e
        elif e.kind == "getSample" and isinstance(e.dist, W.ot.Mixture):
            out.append(NS(result=r, inp=inp, z=z, mix=e, defect=W.vec(inp.dist.coll[0].v)[0], draws=e.rows))
    return out


def check_sim(W, m, model, a, dim, g, det, T, sim, samp, what):
    W.check(len(m.inp.rows) == samp and len(m.z.rows) == sim, what + ": sampling and simulation sizes")
    W.check(len(m.inp.dist.coll) == dim and all(m.inp.dist.coll[j] is g.getMarginal(j) for j in range(1, dim)), what + ": each other input follows its own marginal law")
    gp_pod(W, model, a, m.inp.rows, dim, det, T, sim, samp, m.z, m.mix, what)


def enrich(W, cls, bc, sizes, sim, samp, iters, ncand, law="default", mode="means", graph=False):
    ys = [1.0 if mode != "trueneg" else -1.5, 2.5, 3.0, 6.0, 7.5][:len(cls)] if mode != "data" else None
    fixed = {}
    seq = {}

    def fixed_draw(t):
        k = seq[t] = seq.get(t, -1) + 1
        return [0.5, -0.25, 1.0][k % 3] if t == "normal" else ([0.25, 0.625, 0.875, 0.5, 0.125][k % 5] if t == "uniform" else None)
    W.opts["draw"] = fixed_draw
    if mode == "means":
        # predictions of the current metamodels and of the candidates' ones: some symbolic, the others on a fixed side
        def gpmean(r, z):
            # third metamodel (that of the second candidate): fixed
            k = fixed.setdefault(r.key, len(fixed))
            return 3.0 + z[0] - 0.5 * z[1] if k == 2 else None
        W.opts["gpvar"] = lambda r, z: 1.0
    elif mode in ("draws", "draw1", "data", "true", "truedet", "trueneg"):
        # fixed predictions; the simulated PODs (draws of the sampling-error law) are symbolic
        W.opts["gpmean"] = lambda r, z: 3.0 + z[0] - 0.5 * z[1] + 0.125 * (len(r.y) % 3)
        W.opts["gpvar"] = lambda r, z: 0.25

        def mix(d, m):
            if isinstance(d, W.ot.Mixture):
                t = W.tag("podsim")
                if int(t.split("#")[1]) % len(sizes):
                    return [[(0.25 + 0.5 * i) % 1.0] for i in range(m)]
                k = int(t.split("#")[1]) // len(sizes)
                return [[W.real("%s_%d" % (t, i), 0, 1) if i == 0 or mode == "draws" else (0.5, 0.125, 0.75)[k % 3]] for i in range(m)]
        if mode in ("draws", "draw1"):
            W.opts["getSample"] = mix
    W.opts["lambda"] = 0.5 if bc is True else None
    det_range = None
    physical = (lambda k: 1.0 + k[0] + k[1]) if mode in ("draws", "draw1") else None
    s = study(W, cls, bc, sizes, sim, samp, iters, ncand, law, ys, physical, graph, DET if mode in ("draws", "draw1", "truedet", "trueneg") or mode == "means" and not bc else None)
    pod = s.pod
    if sizes is None:
        sizes = W.vec(pod.getDefectSizes())
    N, dim = len(sizes), s.dim
    history(W, pod)
    pod.run()
    p = prep2(W, s, cls, s.bc)
    W.check(W.eqv([v for r in W.to_list(s.user[0]) for v in r], [v for r in s.x for v in r]) and len(s.user[0]) == s.n, "the user's inputs are not modified")
    W.check(len(s.user[1]) == s.n and W.eqv(s.user[1], s.y), "the user's signals are not modified")
    # the law and the candidates
    g = pod.getDistribution()
    if s.d is not None:
        W.check(g is s.d, "the given input law is used")
    else:
        for j in range(dim):
            lo = min(sizes) if j == 0 else min(v[j] for v in p.X)
            hi = max(sizes) if j == 0 else max(v[j] for v in p.X)
            m = g.getMarginal(j)
            W.check(W.eqv([m.a, m.b], [lo, hi]), "default input law: uniform on the range of the data")
    ld = [e for e in W.ev("lowdisc") if e.dist is g]
    if law == "dependent":
        W.check(not ld, "no low-discrepancy candidates for a law with a dependent copula")
        draws = [e for e in W.ev("getSample") if e.dist is g and e.n == ncand]
        W.check(len(draws) >= 1, "the candidates are drawn from the input law")
        cand = [list(r) for r in draws[0].rows]
    else:
        W.check(len(ld) == 1 and ld[0].n == ncand, "the candidates are a low-discrepancy design of the input law of the candidate size")
        cand = [list(r) for r in ld[0].rows]
    # walk through the iterations
    X, Y, raw = [list(v) for v in p.X], list(p.y), list(p.raw)
    gprs = W.ev("gpr")
    sims_all = podsims(W)
    gx = W.to_list(pod.getInputDOE())
    W.check(len(gx) == len(X) + iters, "the requested number of points is added")
    W.check(W.eqv([v for r in gx[:len(X)] for v in r], [v for r in X for v in r]), "the initial design is kept, in order")
    left = list(cand)
    fits = [e for e in gprs if len(e.fit.y) == len(X)]
    W.check(len(fits) >= 1, "a metamodel is fitted on the initial data")
    Tx = norm_of(W, X, dim)
    W.check(near(W, fits[-1].fit.x, [Tx(v) for v in X]) and True, "initial metamodel fitted on the standardised uncensored inputs")
    W.check(W.eqv(fits[-1].fit.y, Y), "initial metamodel fitted on the prepared signals")
    model, T = fits[-1].result, Tx
    est = model.getCovarianceModel().estimate
    plain = [e for e in W.ev("getSample") if e.dist is g and e.n == samp]
    if law == "dependent" and ncand == samp:
        plain = plain[1:]
    W.check(len(plain) == iters, "one set of inputs per iteration for the current POD")
    for it in range(iters):
        cur = []
        rest = others(plain[it].rows, dim)
        for a in sizes:
            v = [model.mean(T([a] + o)) for o in rest]
            for q in v:
                W.assume(W.or_(q >= p.det + MARGIN, q <= p.det - MARGIN))
            cur.append(W.summ([W.ite(q > p.det, 1.0, 0.0) for q in v]) * W.q(1, samp))
        crit = []
        aug = [e for e in gprs if len(e.fit.y) == len(X) + 1]
        W.check(len(aug) >= len(left), "one augmented metamodel per candidate")
        for c, e in zip(left, aug):
            Xa = X + [list(c)]
            Ta = norm_of(W, Xa, dim)
            W.check(near(W, [v for r in e.fit.x for v in r], [v for q in Xa for v in Ta(q)]), "augmented metamodel: standardised inputs with the candidate")
            W.check(W.eqv(e.fit.y[:-1], Y), "augmented metamodel: the current signals")
            W.check(W.eq(e.fit.y[-1], model.mean(T(c))), "augmented metamodel: the candidate's signal is predicted by the current metamodel")
            W.check(e.fit.cov.estimate == est and not e.fit.e.optimized, "augmented metamodel: the covariance of the current metamodel, not estimated again")
            sims = [m for m in sims_all if m.result is e.result]
            W.check(len(sims) == N, "POD simulated for every defect size")
            tot = []
            for i, a in enumerate(sizes):
                m = sims[i]
                W.check(W.eq(m.defect, a), "POD simulated for every defect size")
                check_sim(W, m, e.result, a, dim, g, p.det, Ta, sim, samp, "simulated POD of a candidate")
                v = [r[0] for r in m.draws]
                mean = W.summ(v) * W.q(1, len(v))
                vr = var(W, v) if len(v) > 1 else 0.0
                tot.append(vr + (mean - cur[i]) * (mean - cur[i]))
            crit.append(W.summ(tot) * W.q(1, N))
        # the point that was added
        new = gx[len(X)]
        near_c = [k for k, c in enumerate(left) if bool(W.eqv(new, c) if W.symbolic else all(abs(u - v) < 1e-9 for u, v in zip(new, c)))]
        W.check(len(near_c) == 1, "the added point is one of the remaining candidates")
        k = near_c[0]
        for j in range(len(left)):
            if j != k:
                W.check(W.ge(crit[j], crit[k]), "the added candidate minimises the criterion")
        val = s.answers.get(tuple(W.vec(left[k])))
        W.check(val is not None, "the true model is evaluated at the added candidate")
        raw.append(val)
        Y.append(boxcox(W, p.lam, val + p.shift) if s.bc else val)
        X.append(list(left[k]))
        del left[k]
        Tx = norm_of(W, X, dim)
        upd = [e for e in gprs if len(e.fit.y) == len(X)][len(left) + 1:]
        if it < iters - 1:
            upd = upd and [e for e in upd if not any(m.result is e.result for m in sims_all)]
        W.check(len(upd) >= 1, "the metamodel is updated with the new point")
        if it == iters - 1:
            poor = bool(pod.getQ2() < 0.95)
            W.check(poor == bool(upd[-1].fit.e.optimized), "the covariance is optimised again exactly when the updated metamodel is poor (Q2 < 0.95)")
        W.check(all(e.fit.cov.estimate == est for e in upd), "updated metamodel: starts from the covariance of the previous metamodel")
        if not upd[-1].fit.e.optimized:
            W.check(upd[-1].result.getCovarianceModel().estimate == est, "updated metamodel: the covariance is kept when it is not estimated again")
        est = upd[-1].result.getCovarianceModel().estimate
        for e in upd:
            W.check(near(W, [v for r in e.fit.x for v in r], [v for q in X for v in Tx(q)]), "updated metamodel: standardised inputs of the enriched design")
            W.check(W.eqv(e.fit.y, Y), "updated metamodel: signals of the enriched design, the new one given by the true model")
        model, T = upd[-1].result, Tx
    W.check(W.eqv([v for r in gx for v in r], [v for r in X for v in r]), "reported design")
    gy = W.vec(pod.getOutputDOE())
    W.check(len(gy) == len(raw) and W.eqv(gy, raw), "reported signals: those of the data and of the true model, untransformed")
    W.check(len(s.answers) == iters, "the true model is only evaluated at the added points")
    W.check(pod.getKrigingResult() is model, "the reported metamodel is the last one")
    # the final POD
    sims = [m for m in sims_all if m.result is model]
    W.check(len(sims) == N, "the POD is simulated with the last metamodel")
    curve, cl = [], []
    c = W.real("conf", 0.5, 0.99)
    for i, a in enumerate(sizes):
        W.check(W.eq(sims[i].defect, a), "POD simulated for every defect size")
        check_sim(W, sims[i], model, a, dim, g, p.det, T, sim, samp, "final POD")
        v = [r[0] for r in sims[i].draws]
        curve.append(W.summ(v) * W.q(1, len(v)))
        cl.append(quantile(W, v, 1 - c))
    if N > 4:
        for a, v in zip(sizes, curve):
            W.check(W.eq(call1(pod.getPODModel(), a), v), "adaptive POD: mean of the simulated PODs")
        W.cover("done")
        return
    interp_checks(W, pod.getPODModel(), sizes, curve, "adaptive POD: mean of the simulated PODs")
    interp_checks(W, pod.getPODCLModel(c), sizes, cl, "adaptive confidence curve: (1-c) quantile of the simulated PODs")
    W.cover("done")


QM = [("uuuu", False, (2.0, 5.0), 1, 2, 1, 2, "default", "draw1"), ("uuuu", False, (2.0, 5.0), 1, 1, 1, 2, "default", "means"), ("uuuu", False, (2.0, 5.0), 1, 2, 1, 3, "given", "draws"),
      ("uuuu", False, (2.0, 5.0), 1, 2, 2, 2, "default", "draws"), ("uuuu", False, (2.0, 5.0), 1, 2, 1, 2, "dependent", "draws"),
      ("uuuu", False, (2.0, 5.0), 1, 1, 1, 2, "default", "data"), ("uuuuu", 0.25, (2.0, 5.0), 1, 1, 1, 2, "default", "true"),
      ("uuuu", -0.5, (2.0, 5.0), 1, 2, 1, 2, "given", "truedet"), ("uuuun", False, (2.0, 5.0), 1, 1, 1, 2, "default", "data"),
      ("uuuu", False, (2.0, 5.0), 1, 1, 0, 2, "default", "means"), ("uuuu", False, None, 1, 1, 1, 1, "default", "draws"),
      ("uuuu", True, (2.0, 5.0), 1, 1, 2, 2, "default", "truedet"),
      ("uuuu", 0.25, (2.0, 5.0), 1, 1, 1, 2, "default", "trueneg"), ("uuuu", True, (2.0, 5.0), 1, 1, 1, 1, "given", "trueneg")]
scenario("C11", "enrich", QM, bounds="4-5 data, 2 inputs, 1-3 candidates, 0-2 added points, 2 sizes", budget=110, require=("done",))(enrich)
