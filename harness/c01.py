"""C01 censoring partition"""
from symx.runner import scenario
from ._lib import split, same

P = [(n, d, nt, st, kind) for n, d in ((3, 1), (2, 2)) for nt in (0, 1) for st in (0, 1) for kind in ("sample",)] + \
    [(3, 1, 1, 1, "array"), (2, 2, 1, 1, "list")]
PT = [(4, 1, nt, st, k) for nt in (0, 1) for st in (0, 1) for k in ("sample", "array")] + [(3, 3, 1, 1, "sample"), (5, 1, 1, 1, "sample")]


def run(W, n, d, nt, st, kind):
    X = [[W.real("x%d_%d" % (i, j), -1000, 1000) for j in range(d)] for i in range(n)]
    y = [W.real("y%d" % i, -1000, 1000) for i in range(n)]
    noise = W.real("noise", -1000, 1000) if nt else None
    sat = W.real("sat", -1000, 1000) if st else None
    if nt and st:
        W.assume(noise < sat)
    f = W.cls("_math_tools", "DataHandling").filterCensoredData
    conv = {"sample": W.ot.Sample, "array": W.np.array, "list": lambda v: [list(r) for r in v]}[kind]
    unc, nz, sa, sig = f(conv(X), conv([[v] for v in y]), noise, sat)
    eu, en, es, ey = split(X, y, noise, sat)
    W.check(unc.getSize() == len(eu), "size of the uncensored part")
    W.check(nz.getSize() == len(en), "size of the noise part")
    W.check(sa.getSize() == len(es), "size of the saturated part")
    W.check(sig.getSize() == len(ey), "number of uncensored signals")
    same(W, unc, eu, "uncensored inputs")
    same(W, nz, en, "noise inputs")
    same(W, sa, es, "saturated inputs")
    same(W, sig, ey, "uncensored signals")
    if len(eu) and len(en) and nt:
        W.cover("mixed")
    W.cover("done")


scenario("C01", "partition", P, bounds="n<=3 rows, 1-2 inputs, values in [-1000,1000], thresholds absent/present", require=("mixed", "done"))(run)
scenario("C01", "partition-deep", PT, tier="thorough", bounds="n<=5 rows, 1-3 inputs", budget=120)(run)
