"""C19 graphs show the study's own curves, levels, sizes and data"""
from symx.runner import scenario
from ._lib import *
from . import c07, c08, c09, c10, c11, c12

class Shown:
    """what a drawing call shows: curves, segments, texts, files"""

    def __init__(self, W, k):
        self.curves, self.lines, self.files, self.titles, self.graphs, self.limits = [], [], [], [], [], {}
        for e in W.events[k:]:
            if e.kind == "view":
                kw = dict(e.kw.get("plot_kw") or {})
                kw.update(e.kw.get("bar_kw") or {})
                self.graphs.append((e.graph, str(kw.get("label", ""))))
                p = polyline(W, e.graph)
                if p is not None:
                    self.curves.append((str(kw.get("label", "")), p))
            if e.kind != "draw":
                continue
            a, kw = list(e.args), dict(e.kw)
            if e.name in ("plot", "scatter") and len(a) >= 2:
                x, y = W.vec(a[0]), W.vec(a[1])
                self.curves.append((str(kw.get("label", "")), list(zip(x, y))))
            elif e.name in ("hlines", "vlines"):
                names = ["y", "xmin", "xmax", "colors", "linestyles", "label"] if e.name == "hlines" else ["x", "ymin", "ymax", "colors", "linestyles", "label"]
                for n, v in zip(names, a):
                    kw[n] = v
                t, lo, hi = kw[names[0]], kw[names[1]], kw[names[2]]
                self.lines.append((e.name[0], t, lo, hi, kw.get("label", "")))
            elif e.name == "savefig":
                self.files.append(a[0] if a else kw.get("fname"))
            elif e.name in ("set_title", "title"):
                self.titles.append(str(a[0]))
            elif e.name in ("set_xlim", "set_ylim"):
                v = list(a[0]) if len(a) == 1 and not W.isnum(a[0]) else a
                self.limits[e.name[4]] = (v[0] if v else kw.get("left", kw.get("bottom")), v[1] if len(v) > 1 else kw.get("right", kw.get("top")))


def polyline(W, g):
    what = getattr(g, "_what", None) if W.symbolic else None
    if W.symbolic:
        if not what or not isinstance(what[0], tuple) or what[0][0] != "draw":
            return None
        f, lo, hi = what[0][1:4]
        n = int(what[0][4]) if len(what[0]) > 4 else 2
        k = range(n) if n <= 4 else [0, n - 1]
        return [(x, call1(f, x)) for x in [lo + (hi - lo) * W.q(i, n - 1) for i in k]]
    try:
        d = [list(r) for r in g.getDrawable(0).getData()]
    except Exception:
        return None
    return [tuple(r) for r in (d if len(d) <= 4 else [d[0], d[-1]]) if len(r) == 2]


def curve(W, sh, label, f, lo, hi, what):
    """the one curve whose label says `label` is the graph of f over [lo, hi]"""
    hit = [p for l, p in sh.curves if label(l)]
    W.check(len(hit) == 1, what + ": drawn once")
    pts = hit[0]
    W.check(len(pts) >= 2, what + ": a curve")
    W.check(W.and_(W.eq(pts[0][0], lo), W.eq(pts[-1][0], hi)), what + ": over the asked interval")
    for x, y in pts:
        W.check(W.eq(y, call1(f, x)), what + ": the study's own curve")


TITLE = {"gauss": ["linear", "gauss"], "bin": ["linear", "binomial"], "ks": ["linear", "kernelsmoothing"], "quantile": ["quantile regression"],
         "chaos": ["polynomial chaos"], "kriging": ["kriging"], "adaptive": ["kriging"], "hitmiss": ["classifier"]}


def build(W, kind, bc, light=False):
    """a study already run, with a symbolic threshold: pod, lower and upper end of its defect range"""
    X5, Y5 = c08.X5, c08.Y5
    if kind in ("gauss", "bin", "ks"):
        det = W.real("det", 6, 14) if not light else 10.5
        W.opts["bootstrap"] = lambda k, m: [i if i != k % m else (i + 1) % m for i in range(m)]
        if kind == "bin":
            W.opts["brent_step"] = 1e-5
        fact = {"bin": None, "gauss": W.ot.NormalFactory, "ks": W.ot.KernelSmoothing}[kind]
        pod = W.cls("_univariate_linear_model_pod", "UnivariateLinearModelPOD")(W.ot.Sample(col(X5)), W.ot.Sample(col(Y5)), det, None, None, fact() if fact else None, bc)
        pod.setVerbose(False)
        pod.setSimulationSize(1)
        return (pod, min(X5), max(X5)) if guarded_run(W, pod) else None
    if kind == "quantile":
        det = W.real("det", 6, 14)
        W.opts["bootstrap"] = lambda k, m: list(range(m))
        W.opts["qr"] = lambda key, q: (1.0 - 4.0 * float(q), 3.0)
        pod = W.cls("_quantile_regression_pod", "QuantileRegressionPOD")(W.ot.Sample(col(X5)), W.ot.Sample(col(Y5)), det, 3.75, None, bc)
        pod.setVerbose(False)
        pod.setSimulationSize(1)
        pod.setQuantile([0.5, 0.75])
        W.opts["brent_line"] = True
        e, _ = W.raises(pod.run)
        return None if e is not None else (pod, min(X5[1:]), max(X5))
    if kind in ("chaos", "kriging"):
        W.opts["cov"] = lambda m, a, b: 1.0 if W.vec(a) == W.vec(b) else 0.0
        s = c09.mk(W, kind, 2, "uuuuu", bc, (2.0, 5.0), 1, 2 if kind == "chaos" else 1, y=[1.0, 2.5, 4.0, 5.0, 9.5])
        if kind == "kriging":
            s.pod.setInitialStartSize(2)
        s.pod.run()
        return s.pod, 2.0, 5.0
    s = c12.study(W, "uuuuu", kind, (2.0, 5.0), 2, 0, 2, "joint", "rf", True, "post")
    W.opts["proba"] = lambda *a: 0.25 + 0.125 * a[-1][0]
    s.pod.run()
    return s.pod, 2.0, 5.0


def pods(W, kind, bc, p, c, ends, name):
    """drawPOD"""
    b = build(W, kind, bc, kind == "gauss" and (c is not None or bc))
    if b is None:
        return
    pod, lo, hi = b
    a0 = W.real("dmin", 0, 9) if "l" in ends else None
    a1 = W.real("dmax", 0, 9) if "u" in ends else None
    x0, x1 = lo if a0 is None else a0, hi if a1 is None else a1
    W.assume(x0 + 0.0625 <= x1)
    ok = True
    if kind not in ("gauss", "bin", "ks"):
        ok = W.and_(x0 >= lo, x1 <= hi)
        for a in (a0, a1):
            for t in (lo, hi):
                if a is not None:
                    W.assume(W.or_(a >= t + 1.0 / 1024, a <= t - 1.0 / 1024, a == t))
    size = None
    if p is not None:
        e, size = W.raises(pod.computeDetectionSize, p, c)
        reached = e is None
    else:
        reached = True
    k = len(W.events)
    kw = {} if name is None else {"name": "graph.png"}
    e, r = W.raises(pod.drawPOD, p, c, a0, a1, 3, **kw)
    W.check(W.iff(W.and_(ok, reached), e is None), "drawPOD fails exactly when the asked interval is outside the studied defects or the level is not reached")
    if e is not None:
        W.cover("refused")
        return
    W.check(len(r) == 2, "figure and axes are returned")
    sh = Shown(W, k)
    W.check(all(t in " ".join(sh.titles).lower() for t in TITLE[kind]), "the title names the kind of study")
    W.check(sh.files == ([] if name is None else ["graph.png"]), "the figure is saved exactly when a file is given")
    curve(W, sh, lambda l: l.startswith("POD") and "confidence" not in l, pod.getPODModel(), x0, x1, "POD curve")
    if c is not None:
        curve(W, sh, lambda l: "confidence" in l and str(c) in l, pod.getPODCLModel(c), x0, x1, "confidence curve")
    W.check(len(sh.curves) == (1 if c is None else 2), "no other curve")
    h = [l for l in sh.lines if l[0] == "h"]
    v = [l for l in sh.lines if l[0] == "v"]
    if p is None:
        W.check(not h and not v, "no level asked, none shown")
    else:
        W.check(len(h) == 1 and W.eqv(list(h[0][1:4]), [p, x0, x1]), "line at the wanted level over the interval")
        W.check(len(v) == (1 if c is None else 2), "one vertical line per detection size")
        tags = ["a%d " % round(100 * p)] + ([] if c is None else ["a%d/%d " % (round(100 * p), round(100 * c))])
        for i, t in enumerate(tags):
            mine = [l for l in v if str(l[4]).startswith(t)]
            W.check(len(mine) == 1, "each detection size has its name")
            W.check(W.eqv(list(mine[0][2:4]), [0.0, p]), "vertical line up to the wanted level")
            if kind == "quantile" and i == 0:
                W.check(W.eq(mine[0][1], size[0]), "vertical line at the detection size")
            else:
                c08.crosses(W, pod.getPODModel() if i == 0 else pod.getPODCLModel(c), mine[0][1], p, lo, hi, "vertical line at the detection size", kind == "bin")
    W.cover("drawn")


QP = [("gauss", False, 0.75, None, "", None), ("gauss", False, 0.5, 0.75, "lu", "f"), ("bin", False, 0.5, None, "u", None), ("bin", False, None, None, "lu", "f"),
      ("ks", False, 0.5, None, "l", "f"), ("gauss", 0.5, 0.5, 0.9, "", None),
      ("quantile", False, 0.75, None, "lu", None), ("quantile", False, None, None, "", "f"), ("quantile", False, 0.5, 0.75, "l", "f"),
      ("chaos", False, None, None, "lu", "f"), ("chaos", False, 0.5, None, "u", None), ("chaos", False, 0.5, 0.75, "", "f"),
      ("kriging", False, None, None, "lu", None), ("kriging", False, 0.5, 0.75, "l", "f"), ("kriging", False, None, 0.75, "u", None),
      ("hitmiss", False, None, None, "lu", "f"), ("hitmiss", False, None, 0.75, "", None)]
scenario("C19", "drawpod", QP, bounds="5 data (concrete), 2 defect sizes, 1 simulation; symbolic threshold and drawing interval; levels given", budget=60, require=("drawn",))(pods)


def one(W, sh, n, label=None, line=None):
    """the only set of n points shown (whose label contains `label`)"""
    hit = [p for l, p in sh.curves if len(p) == n and (label is None or label in l.lower())]
    return hit


def limits(W, kind, sign):
    """the validation graph shows every observation, whatever the sign of the signals"""
    W.opts["cov"] = lambda m, a, b: 1.0 if W.vec(a) == W.vec(b) else 0.0
    lo, hi = {"+": (0.5, 30), "-": (-30, -0.5), "0": (-30, 30)}[sign]
    y = [W.real("y%d" % i, lo, hi) for i in range(4)]
    spread(W, y)
    s = c09.mk(W, kind, 2, "uuuu", False, (2.0, 5.0), 1, 1, y=y)
    if kind == "kriging":
        s.pod.setInitialStartSize(2)
        s.pod.setBasis(W.ot.Basis([W.ot.SymbolicFunction(["x0", "x1"], ["1"])]))
    else:
        W.opts["chaos"] = lambda algo: W.ot.FunctionalChaosResult.make(2, algo.dist, coefs=[1.0, 2.0], basis=("1", "z0"))
    s.pod.run()
    k = len(W.events)
    name = "v.png" if sign == "0" else None
    r = s.pod.drawValidationGraph(name)
    W.check(len(r) == 2, "figure and axes are returned")
    sh = Shown(W, k)
    pts = [p for l, p in sh.curves if len(p) == 4]
    W.check(len(pts) == 1, "one point per observation")
    W.check(W.eqv([a for a, b in pts[0]], y), "abscissae: the signals")
    diag = [p for l, p in sh.curves if len(p) == 2]
    W.check(len(diag) == 1 and W.and_(*[W.eq(a, b) for a, b in diag[0]]), "the first diagonal")
    W.check(set(sh.limits) == {"x", "y"}, "limits of both axes")
    for i in (0, 1):
        b = sh.limits["xy"[i]]
        for q in pts[0]:
            W.check(W.and_(W.le(b[0], q[i]), W.le(q[i], b[1])), "every observation lies in the shown range")
        W.check(W.and_(W.le(diag[0][0][0], b[0]), W.ge(diag[0][1][0], b[1])), "the diagonal crosses the shown range")
    W.check(sh.files == ([] if name is None else [name]), "the figure is saved exactly when a file is given")
    W.cover("done")


scenario("C19", "validation", [("chaos", "+"), ("chaos", "-"), ("chaos", "0"), ("kriging", "0"), ("kriging", "-")], bounds="4 symbolic signals of any sign, 2 inputs", budget=90,
         require=("done",))(limits)


def chaosmodel(W, dim, cls, bc):
    """polynomial chaos model against the data"""
    W.opts["chaos"] = lambda algo: W.ot.FunctionalChaosResult.make(dim, algo.dist, coefs=[1.0, W.real("c", -4, 4)], basis=("1", "z0"))
    xs = [4.0, 1.0, 5.0, 2.0, 8.0][:len(cls)]
    y, noise, sat = signals(W, cls, 0.125, 30) if bc else signals(W, cls)
    det = W.real("det", 0.125, 30)
    spread(W, [v for v, k in zip(y, cls) if k == "u"])
    X = col(xs) if dim == 1 else [[v, 0.5 * i] for i, v in enumerate(xs)]
    pod = W.cls("_polynomial_chaos_pod", "PolynomialChaosPOD")(W.ot.Sample(X), W.ot.Sample(col(y)), det, noise, sat, bool(bc))
    pod.setVerbose(False)
    pod.setSimulationSize(1)
    pod.setSamplingSize(1)
    pod.setDefectSizes([2.0, 4.0])
    pod.run()
    k = len(W.events)
    e, r = W.raises(pod.drawPolynomialChaosModel)
    W.check((e is None) == (dim == 1), "graph of the metamodel exactly with one input")
    if e is None:
        p = prepared(W, list(range(len(xs))), y, cls, det, noise, sat, bc, None)
        x = [xs[i] for i in p.x]
        res = W.ev("chaosfit")[0].result
        sh = Shown(W, k)
        d = [q for l, q in sh.curves if "data" in l.lower()]
        m = [q for l, q in sh.curves if "model" in l.lower()]
        W.check(len(d) == 1 and len(m) == 1 and len(sh.curves) == 2, "data and metamodel")
        W.check(len(d[0]) == len(x) and W.and_(W.eqv([a for a, b in d[0]], x), W.eqv([b for a, b in d[0]], p.y)), "each observation at its defect and signal")
        W.check(W.eqv([a for a, b in m[0]], sorted(x)), "metamodel over the defects, in increasing order")
        W.check(W.eqv([b for a, b in m[0]], [res.pred([a]) for a in sorted(x)]), "predictions of the metamodel")
    W.cover("done")


scenario("C19", "chaos-model", [(1, "uuuu", False), (1, "uunuu", False), (1, "uuuu", True), (2, "uuuu", False)], bounds="4-5 data, symbolic signals, thresholds and coefficient", budget=60, require=("done",))(chaosmodel)


def quantline(W, cls, bc):
    """quantile regression line against the data"""
    n = len(cls)
    x = c08.X5[:n]
    y, noise, sat = signals(W, cls, 0.125, 30)
    det = W.real("det", 0.125, 30)
    coef = {}

    def qr(key, q):
        k = (key, round(float(q), 9))
        if k not in coef:
            coef[k] = (W.real("b0.%s.%s" % k, -8, 8), W.real("b1.%s.%s" % k, 0.25, 8))
        return coef[k]
    W.opts["qr"] = qr
    W.opts["bootstrap"] = lambda k, m: list(range(m))
    pod = W.cls("_quantile_regression_pod", "QuantileRegressionPOD")(W.ot.Sample(col(x)), W.ot.Sample(col(y)), det, noise, sat, bool(bc))
    pod.setVerbose(False)
    pod.setSimulationSize(1)
    pod.setQuantile([0.5])
    e, _ = W.raises(pod.run)
    if e is not None:
        return
    p = prepared(W, x, y, cls, det, noise, sat, bc, None)
    lev = W.choice("level", [0.9, 0.5, 0.25])
    k = len(W.events)
    r = pod.drawLinearModel(lev, "q.png")
    W.check(len(r) == 2, "figure and axes are returned")
    sh = Shown(W, k)
    b = [v for (key, q), v in coef.items() if key.endswith("#0") and abs(q - (1 - lev)) < 1e-6]
    W.check(len(b) == 1, "regression of the data at level 1 - p")
    d = [q for l, q in sh.curves if "data" in l.lower()]
    m = [q for l, q in sh.curves if "model" in l.lower()]
    W.check(len(d) == 1 and len(m) == 1 and len(sh.curves) == 2, "data and regression line")
    W.check(W.and_(W.eqv([a for a, _ in d[0]], p.x), W.eqv([a for _, a in d[0]], p.y)), "each observation at its defect and signal")
    for a, v in m[0]:
        W.check(W.eq(v, b[0][0] + b[0][1] * a), "the line of level 1 - p")
    W.check(W.and_(W.eq(W.min([a for a, _ in m[0]]), min(p.x)), W.eq(W.max([a for a, _ in m[0]]), max(p.x))), "line over the defects")
    W.check(any(str(lev) in t for t in sh.titles), "the title tells the level")
    W.check(sh.files == ["q.png"], "the figure is saved")
    W.cover("done")


scenario("C19", "quantile-line", [("uuuu", False), ("nuuuu", False), ("uuuus", False), ("uuuu", True)], bounds="4-5 data, symbolic signals, thresholds and lines, three levels", budget=60,
         require=("done",))(quantline)


def analysis(W, cls, bc, fact):
    """graphs of the linear analysis"""
    M = W.mod("_univariate_linear_model_analysis")
    from . import c17
    for f, (lo, hi) in c17.STUBS.items():
        if hasattr(M, f):
            setattr(M, f, (lambda f, lo, hi: lambda *a, **k: W.real(W.tag("st." + f), lo, hi))(f, lo, hi))
    W.opts["ptest"] = lambda name: 0.5
    r = c07.analysis(W, cls, bc, fact, 2)
    if r is None:
        return
    an, p, mods = r
    n = len(p.x)
    laws = an.getResidualsDistribution()
    for model in ("uncensored", "censored", "both"):
        j = {"uncensored": 0, "censored": 1}.get(model)
        ok = j is not None and j < len(mods)
        for g in ("drawLinearModel", "drawResiduals", "drawResidualsQQplot", "drawResidualsDistribution"):
            k = len(W.events)
            name = "f-%s.png" % g if g != "drawResiduals" else None
            e, r = W.raises(getattr(an, g), model, name)
            W.check((e is None) == ok, g + " exists exactly for the available fits")
            if not ok:
                continue
            sh = Shown(W, k)
            ev = W.events[k:]
            q = mods[j]
            W.check(sh.files == ([] if name is None else [name]), g + ": saved exactly when a file is given")
            W.check(("censored data" in " ".join(sh.titles)) == (j == 1), g + ": the title tells the fit")
            if g == "drawLinearModel":
                d = [c for l, c in sh.curves if "data" in l.lower()]
                m = [c for l, c in sh.curves if "model" in l.lower()]
                W.check(len(d) == 1 and len(m) == 1 and len(sh.curves) == 2, "data and line")
                W.check(W.and_(W.eqv([a for a, _ in d[0]], p.x), W.eqv([a for _, a in d[0]], p.y)), "each observation at its defect and signal")
                for a, v in m[0]:
                    W.check(W.eq(v, q.b0 + q.b1 * a), "the line of this fit")
            elif g == "drawResiduals":
                W.check(len(sh.curves) == 1, "one set of residuals")
                W.check(W.and_(W.eqv([a for a, _ in sh.curves[0][1]], p.x), W.eqv([a for _, a in sh.curves[0][1]], q.resid)), "residuals of this fit against the defects")
                h = [l for l in sh.lines if l[0] == "h"]
                W.check(len(h) == 1 and W.eqv(list(h[0][1:4]), [0, min(p.x), max(p.x)]), "zero line over the defects")
            elif g == "drawResidualsQQplot":
                qq = [x for x in ev if x.kind == "qqplot"]
                W.check(len(qq) == 1 and W.eqv(qq[0].data, q.resid), "quantiles of the residuals of this fit")
                W.check(len(qq[0].other) == 1 and same_law(W, qq[0].other[0], laws[j]), "against the residual law of this fit")
            else:
                hi = [x for x in ev if x.kind == "histogram"]
                W.check(len(hi) == 1 and W.eqv(hi[0].data, q.resid), "histogram of the residuals of this fit")
                W.check(any(str(laws[j]) == l for _, l in sh.graphs), "density of the residual law of this fit")
    k = len(W.events)
    e, _ = W.raises(an.drawBoxCoxLikelihood)
    W.check((e is None) == bool(bc), "Box-Cox likelihood exactly when the transformation is enabled")
    if e is None:
        W.check(len(Shown(W, k).graphs) == 1, "the likelihood graph is shown")
    W.cover("done")


def same_law(W, a, b):
    return a is b or str(a) == str(b)


scenario("C19", "analysis", [("uuuu", False, "NormalFactory"), ("uunuus", False, "NormalFactory"), ("uuuus", True, "NormalFactory"), ("uuunu", False, "KernelSmoothing"), ("uuuu", True, "NormalFactory")],
         bounds="4-6 data, two symbolic signals, symbolic thresholds and censored fit", budget=60, require=("done",))(analysis)
