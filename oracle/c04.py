from .common import *

RULE = "random layouts and boxes; every index of small grids, corners of large ones, and indices outside"


def cases(rng, tier):
    for c in tract_cases(rng, tier, long=True):
        c["probe"] = [rng.randint(-3, 40), rng.randint(-3, 40)]
        yield c


def lookup(f, i):
    try:
        return f(i)
    except IndexError:
        return None


def check(case):
    from lsst.skymap.detail import Index2D
    lay = case["layout"]
    t = tract(lay, case["box"])
    w, h, b = dims(lay)
    nx, ny = t.getNumPatches()
    if len(t) != nx*ny:
        return "length %d for %d x %d patches" % (len(t), nx, ny)
    seq = 0
    small = nx*ny <= 300
    if nx*ny <= 20000:
        got = [(p.getSequentialIndex(), tuple(p.getIndex()), tuple(p.getInnerBBox().getMin())) for p in t]
        want = [(y*nx + x, (x, y), (x*w, y*h)) for y in range(ny) for x in range(nx)]
        if got != want:
            return "iteration gives %s" % (got[:6],)
    idx = [(x, y) for y in range(ny) for x in range(nx)] if small else \
        [(x, y) for y in (0, 1, ny - 1) for x in (0, 1, nx//2, nx - 1) if x < nx and y < ny]
    for x, y in idx:
        seq = y*nx + x
        if tuple(t.getPatchIndexPair(seq)) != (x, y) or t.getPatchIndexPair(seq).x != x:
            return "number %d converts to %s" % (seq, t.getPatchIndexPair(seq))
        for form in (seq, (x, y), [x, y], Index2D(x, y)):
            for f in (t.getPatchInfo, t.__getitem__):
                p = f(form)
                if tuple(p.getIndex()) != (x, y) or p.getSequentialIndex() != seq or \
                        p.sequential_index != seq or tuple(p.getInnerBBox().getMin()) != (x*w, y*h):
                    return "patch %s found as %s number %s at %s" % (
                        form, p.getIndex(), p.getSequentialIndex(), p.getInnerBBox())
                if t.getSequentialPatchIndex(p) != seq:
                    return "patch %s has number %s" % (form, t.getSequentialPatchIndex(p))
        for form in ((x, y), [x, y], Index2D(x, y)):
            if t.getSequentialPatchIndexFromPair(form) != seq:
                return "pair %s converts to %s" % (form, t.getSequentialPatchIndexFromPair(form))
    px, py = case["probe"]
    for x, y in ((-1, 0), (0, -1), (nx, 0), (0, ny), (nx, ny), (-1, -1), (px, py), (nx + 3, 0), (nx - 1, ny)):
        inside = 0 <= x < nx and 0 <= y < ny
        for form in ((x, y), [x, y], Index2D(x, y)):
            for f in (t.getPatchInfo, t.__getitem__):
                if (lookup(f, form) is not None) != inside:
                    return "index %s in a %d x %d grid" % (form, nx, ny)
    for n in (-1, nx*ny, nx*ny + 1, -nx, -nx*ny, nx*ny + nx, px*py):
        for f in (t.getPatchInfo, t.__getitem__):
            if (lookup(f, n) is not None) != (0 <= n < nx*ny):
                return "number %s in a %d x %d grid" % (n, nx, ny)
    return None


def from_model(contract, m):
    lay = model_layout(m)
    x, y = int(m.get("x", 0)), int(m.get("y", 0))
    w, h, _ = dims(lay)
    if w*h < 10**8:
        for a, b in ((x + 1, y + 1), (3, 2), (2, 5), (1, 4)):
            if 0 < a < 5000 and 0 < b < 5000:
                yield {"layout": lay, "box": [0, 0, a*w - 1, b*h - 1], "probe": [x, y]}
