"""shared pieces of the scenarios: input builders and reference definitions"""
import math
from types import SimpleNamespace as NS


def partition(noise, sat, y):
    """'n' | 's' | 'u' for one signal (branches on symbolic values)"""
    if noise is not None and y <= noise:
        return "n"
    if sat is not None and y >= sat:
        return "s"
    return "u"


def split(X, y, noise, sat):
    cl = [partition(noise, sat, v) for v in y]
    return ([X[i] for i in range(len(y)) if cl[i] == "u"], [X[i] for i in range(len(y)) if cl[i] == "n"],
            [X[i] for i in range(len(y)) if cl[i] == "s"], [y[i] for i in range(len(y)) if cl[i] == "u"])


def same(W, got, want, what):
    """exact same list of values, order included"""
    g = W.vec(got)
    w = W.vec(want)
    W.check(len(g) == len(w), what + " size")
    W.check(W.eqv(g, w), what)


def col(v):
    return [[a] for a in v]


# ------------------------------------------------------------------ data
def signals(W, cls, lo=-20, hi=60, prefix="y", thr=None):
    """signals whose censoring class is fixed by the letters of cls (u, n, s); thresholds as needed"""
    n = len(cls)
    y = [W.real("%s%d" % (prefix, i), lo, hi) for i in range(n)]
    if thr is None:
        noise = W.real("noise", lo, hi) if "n" in cls or "N" in cls else None
        sat = W.real("sat", lo, hi) if "s" in cls or "S" in cls else None
        if noise is not None and sat is not None:
            W.assume(noise < sat)
    else:
        noise, sat = thr
    for c, v in zip(cls, y):
        if c == "n":
            W.assume(v <= noise)
        elif c == "s":
            W.assume(v >= sat)
        else:
            if noise is not None:
                W.assume(v > noise)
            if sat is not None:
                W.assume(v < sat)
    return y, noise, sat


def boxcox(W, lam, v):
    if W.symbolic:
        from symx import sot
        return sot.boxcox(lam, v)
    import openturns as ot
    return ot.BoxCoxTransform([float(lam)])([float(v)])[0]


def isgiven(bc):
    """Box-Cox modes: False, True (estimated, positive signals), 'given', 'neg' (estimated, any sign), 'neggiven'"""
    return bc in ("given", "neggiven")


def isneg(bc):
    return bc in ("neg", "neggiven")


def in_domain(W, vals, lo=1.0 / 64):
    """the transform is defined on these (shifted) values"""
    for v in vals:
        W.assume(v >= lo)


def spread(W, vals, gap=0.25):
    """not all values (nearly) equal: max - min >= gap"""
    W.assume(W.max(vals) - W.min(vals) >= gap)


def prepared(W, x, y, cls, det, noise, sat, bc, given=None, ev=0):
    """what the statistics must be computed on: uncensored data, transformed when Box-Cox is on,
    with detection and thresholds on the same scale.  bc: False | True | 'given'"""
    ux = [a for a, c in zip(x, cls) if c == "u" or c.isupper()]
    uy = [b for b, c in zip(y, cls) if c == "u" or c.isupper()]
    nx = [a for a, c in zip(x, cls) if c == "n"]
    sx = [a for a, c in zip(x, cls) if c == "s"]
    r = NS(x=ux, raw=uy, nx=nx, sx=sx, lam=None, shift=0.0, y=uy, det=det, noise=noise, sat=sat)
    if not bc:
        return r
    evs = W.ev("boxcoxfit")
    W.check(len(evs) > 0, "a Box-Cox parameter is estimated")
    hit = None
    for e in evs[ev:ev + 1] + evs:
        if len(e.data) == len(uy):
            sh = e.data[0] + e.shift - uy[0]
            if all(W.eq(a + e.shift - b, sh) is True for a, b in zip(e.data, uy)):
                hit = e
                break
    if hit is None:
        e = evs[min(ev, len(evs) - 1)]
        W.check(len(e.data) == len(uy), "Box-Cox parameter estimated on the uncensored signals: size")
        sh = e.data[0] + e.shift - uy[0]
        for a, b in zip(e.data, uy):
            W.check(W.eq(a + e.shift - b, sh), "Box-Cox parameter estimated on the uncensored signals")
    else:
        e = hit
        sh = e.data[0] + e.shift - uy[0]
    r.shift = sh
    r.lam = given if isgiven(bc) else e.lam
    W.check(W.implies(W.and_(*[v > 0 for v in uy]), W.eq(sh, 0.0)), "positive signals are not shifted")
    r.y = [boxcox(W, r.lam, v + sh) for v in uy]
    if det is not None:
        r.det = boxcox(W, r.lam, det + sh)
    if noise is not None:
        r.noise = boxcox(W, r.lam, noise + sh)
    if sat is not None:
        r.sat = boxcox(W, r.lam, sat + sh)
    return r


def shift_domain(W, y, cls, extra, strong=False):
    """assume detection/thresholds stay in the transform's domain once shifted like the data
    (strong: also like any part of the data)"""
    if strong:
        for v in extra:
            if v is not None:
                W.assume(v >= 0.125)
    uy = [b for b, c in zip(y, cls) if c == "u"]
    m = W.min(uy)
    W.assume(W.or_(m >= 0.125, m <= 0))        # stay away from the singularity of the transform
    for v in extra:
        if v is not None:
            W.assume(W.ite(m > 0, v >= 0.125, v - m + 100 >= 0.125))


def ols(W, x, y):
    """least squares line: b0, b1, s, residuals"""
    from symx import env
    X = [[1.0, v] for v in x]
    b, r, s2 = env.ols_fit(X, y)
    return NS(b0=b[0], b1=b[1], s2=s2, s=W.sqrt(s2) if not (isinstance(s2, float) and math.isnan(s2)) else s2, resid=r)


def guarded_run(W, pod):
    """run(); a documented failure of the censored likelihood start is not the subject here"""
    W.opts.setdefault("randn_lo", 0.25)
    e, _ = W.raises(pod.run)
    if e is None:
        return True
    if "starting point" in str(e):
        return False
    raise e


def phi(W, t, tail=False):
    return W.ot.DistFunc.pNormal(t, tail)


def var(W, v, ddof=1):
    n = len(v)
    m = W.summ(v) * W.q(1, n)
    return W.summ([(a - m) * (a - m) for a in v]) * W.q(1, n - ddof)


def quantile(W, v, q):
    """openturns' empirical quantile of a list"""
    if W.symbolic:
        from symx import sot
        return sot.quantile_ot(list(v), q)
    import openturns as ot
    return ot.Sample([[float(a)] for a in v]).computeQuantilePerComponent(float(q))[0]


def call1(f, x):
    """value of a scalar POD function"""
    return f([x])[0]


DELTA = 1e-7


def between(W, v, lo, hi, what):
    W.check(W.ge(v, lo), what + " (lower side)")
    W.check(W.le(v, hi), what + " (upper side)")


def frac_above(W, vals, thr, d):
    return W.div(W.summ([W.ite(v > thr + d, 1.0, 0.0) for v in vals]), float(len(vals)))


def history(W, pod):
    """what happened to the study before the run under test (set by the scenarios on histories)"""
    f = W.opts.get("history")
    if f:
        W.opts["history"] = None
        f(pod)


def earlier_run(W, pod, first, then, keep=()):
    """run the study with other settings, forget what was observed, then set the final settings"""
    k = len(W.events)
    c = {t: W.counters.get(t, 0) for t in keep}
    first(pod)
    e, _ = W.raises(pod.run)
    if e is not None and "starting point" not in str(e):
        raise e
    del W.events[k:]
    W.counters.update(c)
    then(pod)
