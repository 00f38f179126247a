from .common import *

RULE = "random cell layouts; every cell of a patch, pixel by pixel when small; distinct cases counted"


def cell_layout(rng, small):
    hi = 5 if small else 200
    return {"kind": "cells", "cell": rng.randint(1, hi), "cborder": rng.randint(0, hi),
            "n": rng.randint(1, 4 if small else 30), "m": rng.randint(0, 3)}


def cases(rng, tier):
    n = 0
    while True:
        small = n % 5 != 4
        n += 1
        lay = cell_layout(rng, small)
        s = dims(lay)[0]
        yield {"layout": lay, "box": [0, 0, rng.randint(1, 3)*s - 1, rng.randint(1, 3)*s - 1],
               "patch": [rng.randint(0, 2), rng.randint(0, 2)], "small": small}


def check(case):
    lay = case["layout"]
    t = tract(lay, case["box"])
    nx, ny = t.getNumPatches()
    i, j = min(case["patch"][0], nx - 1), min(case["patch"][1], ny - 1)
    p = t.getPatchInfo((i, j))
    c, n, m, b = lay["cell"], lay["n"], lay["m"], lay["cborder"]
    k = n + 2*m
    if tuple(p.getNumCells()) != (k, k) or tuple(p.num_cells) != (k, k):
        return "%s cells, expected %d x %d" % (p.getNumCells(), k, k)
    x0, y0 = i*n*c, j*n*c
    if box(p.getInnerBBox()) != (x0, y0, x0 + n*c - 1, y0 + n*c - 1):
        return "patch inner box %s" % (box(p.getInnerBBox()),)
    if p.getCellBorder() != b or tuple(p.getCellInnerDimensions()) != (c, c):
        return "patch reports cells of %s with border %s" % (p.getCellInnerDimensions(), p.getCellBorder())
    seen = set()
    for u in range(k):
        for v in range(k):
            q = p.getCellInfo((u, v))
            a = box(q.getInnerBBox())
            e0, e1 = x0 + (u - m)*c, y0 + (v - m)*c
            if a != (e0, e1, e0 + c - 1, e1 + c - 1):
                return "cell %s has inner box %s, expected corner %s and size %d" % ((u, v), a, (e0, e1), c)
            if box(q.getOuterBBox()) != (e0 - b, e1 - b, e0 + c - 1 + b, e1 + c - 1 + b):
                return "cell %s has outer box %s" % ((u, v), box(q.getOuterBBox()))
            if not p.getOuterBBox().contains(q.getOuterBBox()):
                return "cell %s leaves the patch's outer box" % ((u, v),)
            seen.add(a)
    if len(seen) != k*k:
        return "cells repeat"
    o = box(p.getOuterBBox())
    lo, hi = box(p.getCellInfo((0, 0)).getOuterBBox()), box(p.getCellInfo((k - 1, k - 1)).getOuterBBox())
    if lo[:2] != o[:2] or hi[2:] != o[2:]:
        return "outermost cells %s and %s do not reach the patch's outer box %s" % (lo, hi, o)
    return None


def from_model(contract, m):
    lay = model_layout(m)
    s = dims(lay)[0]
    i, j = int(m.get("i", 0)), int(m.get("j", 0))
    if lay["n"] + 2*lay["m"] < 200 and s*(max(i, j) + 1) < 10**8:
        yield {"layout": lay, "box": [0, 0, (i + 1)*s - 1, (j + 1)*s - 1], "patch": [i, j], "small": False}
