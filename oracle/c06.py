from .common import *
from .c05 import cell_layout

RULE = "random cell layouts, every cell of a patch by every index form, indices outside; patches without cells"


def cases(rng, tier):
    while True:
        if rng.random() < 0.15:
            lay = {"kind": "legacy", "w": rng.randint(1, 6), "h": rng.randint(1, 6), "border": rng.randint(0, 3)}
        else:
            lay = cell_layout(rng, True)
        w, h, _ = dims(lay)
        yield {"layout": lay, "box": [0, 0, rng.randint(1, 3)*w - 1, rng.randint(1, 3)*h - 1],
               "patch": [rng.randint(0, 2), rng.randint(0, 2)], "probe": [rng.randint(-3, 40), rng.randint(-3, 40)]}


def lookup(f, i):
    try:
        return f(i)
    except IndexError:
        return None


def check(case):
    from lsst.skymap.detail import Index2D
    lay = case["layout"]
    t = tract(lay, case["box"])
    nx, ny = t.getNumPatches()
    p = t.getPatchInfo((min(case["patch"][0], nx - 1), min(case["patch"][1], ny - 1)))
    px, py = case["probe"]
    if lay["kind"] == "legacy":
        if len(p) != 0 or list(p):
            return "a patch without cells has %d, iterates %s" % (len(p), list(p))
        for f in (p.getCellInfo, p.__getitem__):
            for i in ((0, 0), Index2D(0, 0), 0, -1, (px, py), px):
                if lookup(f, i) is not None:
                    return "a patch without cells answers for %s" % (i,)
        if lookup(p.getCellIndexPair, px) is not None:
            return "a patch without cells converts a cell number"
        return None
    k = lay["n"] + 2*lay["m"]
    if len(p) != k*k:
        return "length %d, expected %d" % (len(p), k*k)
    x0, y0 = p.getInnerBBox().getMin()
    c, m = lay["cell"], lay["m"]
    corner = lambda u, v: (x0 + (u - m)*c, y0 + (v - m)*c)
    got = [(q.getSequentialIndex(), tuple(q.getIndex()), tuple(q.getInnerBBox().getMin())) for q in p]
    want = [(v*k + u, (u, v), corner(u, v)) for v in range(k) for u in range(k)]
    if got != want:
        return "iteration gives %s" % (got[:6],)
    for v in range(k):
        for u in range(k):
            n = v*k + u
            if tuple(p.getCellIndexPair(n)) != (u, v):
                return "number %d converts to %s" % (n, p.getCellIndexPair(n))
            for form in (n, (u, v), [u, v], Index2D(u, v)):
                for f in (p.getCellInfo, p.__getitem__):
                    q = f(form)
                    if tuple(q.getIndex()) != (u, v) or q.getSequentialIndex() != n or \
                            tuple(q.getInnerBBox().getMin()) != corner(u, v) or p.getSequentialCellIndex(q) != n:
                        return "cell %s found as %s number %s" % (form, q.getIndex(), q.getSequentialIndex())
            for form in ((u, v), [u, v], Index2D(u, v)):
                if p.getSequentialCellIndexFromPair(form) != n:
                    return "pair %s converts to %s" % (form, p.getSequentialCellIndexFromPair(form))
    for u, v in ((-1, 0), (0, -1), (k, 0), (0, k), (px, py), (k - 1, k), (-1, k)):
        for form in ((u, v), [u, v], Index2D(u, v)):
            for f in (p.getCellInfo, p.__getitem__):
                if (lookup(f, form) is not None) != (0 <= u < k and 0 <= v < k):
                    return "index %s in a %d x %d grid" % (form, k, k)
    for n in (-1, k*k, k*k + 1, -k, px*py, -k*k):
        for f in (p.getCellInfo, p.__getitem__):
            if (lookup(f, n) is not None) != (0 <= n < k*k):
                return "number %s in a %d x %d grid" % (n, k, k)
    return None


def from_model(contract, m):
    lay = model_layout(m)
    w, h, _ = dims(lay)
    if w*h < 10**8 and lay.get("n", 0) + 2*lay.get("m", 0) < 150:
        yield {"layout": lay, "box": [0, 0, w - 1, h - 1], "patch": [0, 0],
               "probe": [int(m.get("u", 0)), int(m.get("v", 0))]}
