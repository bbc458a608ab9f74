"""C12 adaptive hit/miss POD: labels, enrichment, classifier and POD"""
from symx.runner import scenario
from ._lib import *
from .c09 import XD, MARGIN, joint, interp_checks, others
from .c11 import CAND, dependent

CAND2 = CAND + [[4.5, 3.5], [1.5, 0.25], [7.5, 2.75]]


def study(W, cls, kind, sizes, samp, more, ncand, law, classifier, binary, mode):
    """binary: the data and the model are hits (1) and misses (0); otherwise signals with a threshold"""
    dim, n = 2, len(cls)
    x = XD[dim][:n]
    det = noise = sat = None
    if binary:
        y = [[0.0, 1.0, 1.0, 0.0, 1.0][i] for i in range(n)]
    else:
        y, noise, sat = signals(W, cls)
        det = W.real("det", -20, 30)
    answers = []

    def true(z):
        k = tuple(W.vec(z))
        for q, v in answers:
            if all(abs(a - b) < 1e-9 for a, b in zip(q, k)):
                return [v]
        t = "true%d" % len(answers)
        v = W.real(t, -20, 30) if mode not in ("post", "chain") else 9.0 if k[0] > 3.75 else 1.0
        if binary:
            v = 1.0 if bool(v > 5) else 0.0
        answers.append((k, v))
        return [v]
    model = W.ot.PythonFunction(dim, 1, true)
    user = W.ot.Sample(x), W.ot.Sample(col(y))
    pod = W.cls("_adaptive_hitmiss_pod", "AdaptiveHitMissPOD")(user[0], user[1], model, more, det, noise, sat)
    pod.setVerbose(False)
    pod.setSamplingSize(samp)
    pod.setCandidateSize(ncand)
    if classifier != "rf":
        pod.setClassifierType(classifier)
    if sizes is not None:
        pod.setDefectSizes(list(sizes))
    d = None
    if law != "default":
        d = dependent(W, dim) if law == "dependent" else joint(W, dim)
        pod.setDistribution(d)
    W.opts["lowdisc"] = lambda dist, m: [list(c) for c in CAND2[:m]]
    seq = {}

    def fixed_draw(t):
        k = seq[t] = seq.get(t, -1) + 1
        return [0.25, 0.625, 0.875, 0.5, 0.125][k % 5] if t == "uniform" else None
    W.opts["draw"] = fixed_draw
    return NS(pod=pod, x=x, y=y, det=det, noise=noise, sat=sat, user=user, d=d, dim=dim, n=n, answers=answers, model=model)


def later(row):
    """fixed, different probabilities"""
    for i, c in enumerate(CAND2):
        if all(abs(a - b) < 1e-9 for a, b in zip(c, row)):
            return [0.53125, 0.296875, 0.484375, 0.71875, 0.5078125, 0.140625, 0.625][i]
    return [0.46875, 0.3125, 0.640625, 0.75, 0.59375, 0.203125][int(4 * row[0] + 2 * row[1]) % 6]


def hit(W, s, v):
    return v if s.det is None else W.ite(v > s.det, 1.0, 0.0)


def answer(s, c):
    for q, v in s.answers:
        if all(abs(a - b) < 1e-9 for a, b in zip(q, c)):
            return v
    return None


def ranks(m):
    """positions in the ranking of m candidates: lowest, quartiles and highest"""
    return [0, m // 4, m // 2, 3 * m // 4, m - 1]


def pick(W, probs, lo, hi):
    """indices of the candidates within the range, by increasing probability (branches)"""
    ind = [i for i, p in enumerate(probs) if lo is None or bool(p >= lo) and bool(p < hi)]
    out = []
    for i in ind:
        for j in ind[:ind.index(i)]:
            W.assume(W.or_(probs[i] - probs[j] >= MARGIN, probs[j] - probs[i] >= MARGIN))    # no ties in the ranking
        k = 0
        while k < len(out) and bool(probs[out[k]] <= probs[i]):
            k += 1
        out.insert(k, i)
    return out


def enrich(W, cls, sizes, samp, more, ncand, law="default", classifier="rf", binary=False, bounds=(0.45, 0.52), mode="probs"):
    s = study(W, cls, "hitmiss", sizes, samp, more, ncand, law, classifier, binary, mode)
    pod = s.pod
    fixed = {}
    if mode in ("probs", "one"):
        # first classifier: candidates symbolic, data on their own side; later ones symbolic on the data, fixed elsewhere
        def proba(m, row):
            k = fixed.setdefault(m.key, len(fixed))
            known = [i for i, r in enumerate(s.x) if all(abs(a - b) < 1e-9 for a, b in zip(r, row))]
            if known and k == 0:
                return [0.75, 0.125, 0.875, 0.25, 0.625][known[0]]
            if k == 0:
                # "one": only the first candidates' probabilities are symbolic
                return 0.5 if mode == "one" and all(abs(a - b) < 1e-9 for a, b in zip(CAND2[2], row)) else None
            return [0.3, 0.7, 0.55, 0.45, 0.6, 0.2][int(4 * row[0] + 2 * row[1]) % 6]
        W.opts["proba"] = proba
    elif mode in ("post", "chain"):
        # candidates fixed, the first classifier's predictions on the design symbolic, as those of the last one for the POD
        def proba(m, row):
            k = fixed.setdefault(m.key, len(fixed))
            cand = [i for i, r in enumerate(CAND2[:ncand]) if all(abs(a - b) < 1e-9 for a, b in zip(r, row))]
            if k == 0 and cand:
                return [0.515625, 0.25, 0.46875, 0.75, 0.484375, 0.125, 0.875][cand[0]]
            known = [i for i, r in enumerate(s.x) if all(abs(a - b) < 1e-9 for a, b in zip(r, row))]
            if k == 0 and known and known[0] > (more < 5):
                return [0.75, 0.125, 0.875, 0.25, 0.625][known[0]]
            if k and (cand or known):
                return later(row)
            return None if (abs(row[0] - sizes[0]) < 1e-9 and mode == "post") or known else 0.40625
        W.opts["proba"] = proba
    elif mode == "labels":
        # fixed classifiers, symbolic signals and model
        def proba(m, row):
            k = fixed.setdefault(m.key, len(fixed))
            cand = [i for i, r in enumerate(CAND2[:ncand]) if all(abs(a - b) < 1e-9 for a, b in zip(r, row))]
            if k == 0 and cand:
                return [0.515625, 0.48, 0.46875, 0.75, 0.484375, 0.125, 0.875][cand[0]]
            return later(row)
        W.opts["proba"] = proba
    elif mode == "none":
        # no candidate in the range
        def proba(m, row):
            k = fixed.setdefault(m.key, len(fixed))
            cand = [i for i, r in enumerate(CAND2[:ncand]) if all(abs(a - b) < 1e-9 for a, b in zip(r, row))]
            if k == 0 and cand:
                return [0.25, 0.09375, 0.6875, 0.8125, 0.125, 0.3125, 0.875][cand[0]]
            return 0.75 if k == 0 and row[0] < 4 else 0.25
        W.opts["proba"] = proba
    if bounds != (0.45, 0.52):
        pod.setPMin(bounds[0])
        pod.setPMax(bounds[1])
    ux = [s.x[i] for i in range(s.n) if cls[i] == "u"]
    uy = [s.y[i] for i in range(s.n) if cls[i] == "u"]
    # labels
    y = [hit(W, s, v) for v in uy]
    if not binary:
        for v in uy:
            W.assume(W.or_(v >= s.det + MARGIN, v <= s.det - MARGIN, v == s.det))
    W.assume(W.max(y) - W.min(y) >= 0.5)         # both classes are present
    if sizes is None:
        sizes = W.vec(pod.getDefectSizes())
    N, dim = len(sizes), s.dim
    history(W, pod)
    pod.run()
    W.check(len(s.user[0]) == s.n and W.eqv([v for r in W.to_list(s.user[0]) for v in r], [v for r in s.x for v in r]), "the user's inputs are not modified")
    W.check(len(s.user[1]) == s.n and W.eqv(s.user[1], s.y), "the user's signals are not modified")
    g = pod.getDistribution()
    if s.d is not None:
        W.check(g is s.d, "the given input law is used")
    else:
        for j in range(dim):
            lo = min(sizes) if j == 0 else min(v[j] for v in ux)
            hi = max(sizes) if j == 0 else max(v[j] for v in ux)
            m = g.getMarginal(j)
            W.check(W.eqv([m.a, m.b], [lo, hi]), "default input law: uniform on the range of the data")
    ld = [e for e in W.ev("lowdisc") if e.dist is g]
    if law == "dependent":
        W.check(not ld, "no low-discrepancy candidates for a law with a dependent copula")
        dr = [e for e in W.ev("getSample") if e.dist is g and e.n == ncand]
        W.check(len(dr) >= 1, "the candidates are drawn from the input law")
        cand = [list(r) for r in dr[0].rows]
    else:
        W.check(len(ld) == 1 and ld[0].n == ncand, "the candidates are a low-discrepancy design of the input law of the candidate size")
        cand = [list(r) for r in ld[0].rows]
    # design
    gx = W.to_list(pod.getInputDOE())
    gy = W.vec(pod.getOutputDOE())
    W.check(len(gx) == len(gy) == len(ux) + more, "exactly the requested number of points is added")
    W.check(W.eqv([v for r in gx[:len(ux)] for v in r], [v for r in ux for v in r]), "the initial design is kept, in order")
    W.check(W.eqv(gy[:len(ux)], y), "a data point is a hit exactly when its signal exceeds the detection threshold")
    fits = W.ev("classifier")
    W.check(all(e.name == classifier for e in fits), "the chosen classifier is used")
    X, Y = [list(r) for r in ux], list(y)
    first = fits[0]

    def check_fit(e, X, Y):
        W.check(len(e.x) == len(X) and W.eqv([v for r in e.x for v in r], [v for r in X for v in r]), "the classifier learns from the inputs of the current design")
        W.check(len(e.y) == len(Y) and W.eqv(e.y, Y), "the classifier learns from the labels of the current design")
    check_fit(first, X, Y)
    cur = first.model.p
    used = 1
    added = 0
    lists = [cur]
    while added < more:
        probs = [cur(c) for c in cand]
        for i, a in enumerate(probs):
            for t in list(bounds) + [0.1, 0.8]:
                W.assume(W.or_(a >= t + MARGIN, a <= t - MARGIN))
        order = pick(W, probs, *bounds)
        if not order:
            order = pick(W, probs, 0.1, 0.8)
        if not order:
            order = pick(W, probs, None, None)
        new = [cand[order[k]] for k in ranks(len(order))][:more - added]
        for c in new:
            W.check(W.eqv(gx[len(X)], c), "added points: candidates whose detection probability is between pmin and pmax, from the lowest to the highest")
            v = answer(s, c)
            W.check(v is not None, "the true model is evaluated at the added point")
            if v is None:
                return
            W.check(W.eq(gy[len(X)], hit(W, s, v)), "an added point is a hit exactly when the true model exceeds the detection threshold there")
            X.append(list(c))
            Y.append(hit(W, s, v))
        added += len(new)
        W.check(len(fits) > used, "the classifier is fitted again on the enriched design")
        e = fits[used]
        used += 1
        check_fit(e, X, Y)
        # corrected probability
        c11, c10 = [], []
        for f in lists:
            pr = [f(r) for r in X]
            for p in pr:
                W.assume(W.or_(p >= 0.5 + MARGIN, p <= 0.5 - MARGIN))
            pos = [(1 if bool(p >= 0.5) else 0) if mode == "chain" else W.ite(p >= 0.5, 1.0, 0.0) for p in pr]
            n1 = W.summ(pos)
            n0 = len(X) - n1
            W.assume(W.and_(n1 >= 1, n0 >= 1))
            if mode == "chain":         # exact shares
                hits = [int(v) for v in Y]
                c11.append(W.q(sum(a * b for a, b in zip(pos, hits)), n1))
                c10.append(W.q(sum((1 - a) * b for a, b in zip(pos, hits)), n0))
                continue
            c11.append(W.div(W.summ([a * b for a, b in zip(pos, Y)]), n1))
            c10.append(W.div(W.summ([(1 - a) * b for a, b in zip(pos, Y)]), n0))
        p11 = sum(c11[1:], c11[0]) * W.q(1, len(c11))
        p10 = sum(c10[1:], c10[0]) * W.q(1, len(c10))
        W.assume(W.or_(p11 - p10 >= 1.0 / 64, p10 - p11 >= 1.0 / 64))
        M = pod.getConfusionMatrix()
        if added == more:
            W.check(W.and_(W.eq(M[1, 1], p11), W.eq(M[1, 0], p10)), "confusion matrix: mean share of hits among the points predicted detected (or missed) over the classifiers so far")

        def corrected(row, mod=e.model, p11=p11, p10=p10):
            v = W.div(mod.p(row) - p10, p11 - p10)
            return W.min(W.max(v, 0.0), 1.0)
        cur = corrected
        lists.append(cur)
    if more == 0:
        W.check(len(fits) == 1, "one classifier is fitted")
    # POD
    plain = [e for e in W.ev("getSample") if e.dist is g and e.n == samp]
    rest = others(plain[-1].rows, dim)
    curve, cl = [], []
    c = W.real("conf", 0.5, 0.99)
    for a in sizes:
        v = [cur([a] + list(o)) for o in rest]
        curve.append(W.summ(v) * W.q(1, samp))
        cl.append(v)
    if N > 4:
        for a, v in zip(sizes, curve):
            W.check(W.eq(call1(pod.getPODModel(), a), v), "POD: mean detection probability of the classifier")
        W.cover("done")
        return
    interp_checks(W, pod.getPODModel(), sizes, curve, "POD: mean detection probability of the classifier over the other inputs")
    interp_checks(W, pod.getPODCLModel(c), sizes, [quantile(W, v, 1 - c) for v in cl], "confidence curve: (1-c) quantile of the detection probabilities")
    W.cover("done")


R = (0.45, 0.52)
QE = [("uuuu", (2.0, 5.0), 2, 0, 2, "default", "rf", False), ("uuuu", (2.0, 5.0), 1, 2, 2, "default", "rf", False, R, "labels"),
      ("uuuun", (2.0, 5.0), 1, 1, 2, "given", "svc", False, R, "labels"), ("uuuus", (2.0, 5.0), 1, 0, 2, "given", "rf", False),
      ("uuuu", (2.0, 5.0), 1, 5, 2, "dependent", "rf", True), ("uuuu", (2.0, 5.0), 2, 2, 3, "default", "rf", True, (0.25, 0.75), "one"),
      ("uuuu", (2.0, 5.0), 2, 4, 7, "default", "rf", True, R, "post"), ("uuuuu", (2.0, 5.0), 1, 6, 5, "default", "svc", True, R, "post"),
      ("uuuu", (2.0, 5.0), 1, 5, 7, "default", "rf", True, R, "none"), ("uuuu", (2.0, 5.0), 1, 11, 7, "default", "rf", True, R, "chain"), ("uuuu", None, 1, 1, 3, "default", "rf", True, R, "none")]
scenario("C12", "enrich", QE, bounds="4-5 data, 2 inputs, 2-7 candidates, 0-6 added points", budget=110, require=("done",))(enrich)
