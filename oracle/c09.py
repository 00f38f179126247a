import random

from .maps import *

RULE = ("rings, discrete, HEALPix and equatorial maps and dodecahedra with tracts of different sizes; random histories of "
        "up to 12 generations, lookups, queries of patches, positions and boxes (grown by the caller), each tract's answers "
        "compared with those of a fresh map that is asked nothing else")


def make(c):
    k, lay = c["kind"], c["layout"]
    kw = {"layout": lay} if lay else {}
    if k == "rings":
        return rings(c["n"], c["start"], version=c["version"], **kw)
    if k == "discrete":
        return discrete([tuple(p) for p in c["points"]], **kw)
    if k == "healpix":
        return healpix(log2NSide=c["n"] % 2, **kw)
    if k == "equat":
        return equat(numTracts=3 + c["n"], decRange=(-1.0 - c["n"] % 3, 2.0), **kw)
    return dodeca(withTractsOnPoles=bool(c["n"] % 2), **kw)


def cases(rng, tier):
    n = 0
    while True:
        kind = ["discrete", "rings", "discrete", "healpix", "discrete", "equat", "rings", "dodeca"][n % 8]
        n += 1
        lay = None
        if rng.random() < 0.4:
            lay = {"kind": "cells", "cell": rng.randint(3, 9), "cborder": rng.randint(0, 2), "n": rng.randint(1, 4),
                   "m": rng.randint(0, 2)}
        elif rng.random() < 0.5:
            lay = {"kind": "legacy", "w": rng.randint(5, 60), "h": rng.randint(5, 60), "border": rng.randint(0, 9)}
        yield {"kind": kind, "n": rng.randint(1, 6), "start": rng.choice([0.0, 77.0]), "version": rng.choice([0, 1, 1]),
               "layout": lay, "points": [[rng.uniform(0, 360), rng.uniform(-60, 60), rng.uniform(0.2, 8.0)]
                                         for _ in range(rng.randint(2, 4))],
               "seed": rng.randrange(1 << 30), "steps": rng.randint(2, 12)}


def pos(m, t, rng):
    import lsst.geom as geom
    b = t.getBBox()
    x = rng.uniform(-0.2, 1.1)*b.getWidth()
    y = rng.uniform(-0.2, 1.1)*b.getHeight()
    return t.getWcs().pixelToSky(geom.Point2D(x, y))


def box(b):
    return (b.getMinX(), b.getMinY(), b.getMaxX(), b.getMaxY())


def patch(p):
    r = [tuple(p.getIndex()), p.getSequentialIndex(), box(p.getInnerBBox()), box(p.getOuterBBox()), tuple(p.getNumCells())]
    if p.getNumCells().x:
        c = p.getCellInfo((0, p.getNumCells().y - 1))
        r.append((box(c.getInnerBBox()), box(c.getOuterBBox()), c.getSequentialIndex()))
    return r


def sky(c):
    return (c.getLongitude().asRadians(), c.getLatitude().asRadians())


def attempt(f):
    try:
        return f()
    except (IndexError, LookupError) as exc:
        return type(exc).__name__


def answers(m, t, seed):
    rng = random.Random(seed)
    nx, ny = t.getNumPatches()
    q = [(rng.randint(-1, nx), rng.randint(-1, ny)) for _ in range(3)] + [(nx - 1, ny - 1), (nx, 0)]
    s = [rng.randint(0, nx*ny - 1) for _ in range(2)] + [nx*ny - 1]
    c = [pos(m, t, rng) for _ in range(3)]
    return {
        "number": t.getId(), "patches": (nx, ny), "length": len(t), "box": box(t.getBBox()), "bbox": box(t.bbox),
        "origin": tuple(t.getWcs().getPixelOrigin()), "reference": sky(t.getWcs().getSkyOrigin()),
        "centre": sky(t.getCtrCoord()), "vertices": [sky(v) for v in t.getVertexList()],
        "border": t.getPatchBorder(), "inner": tuple(t.getPatchInnerDimensions()),
        "patch": [attempt(lambda: patch(t.getPatchInfo(k))) for k in q],
        "by number": [attempt(lambda: patch(t.getPatchInfo(k))) for k in s],
        "pair": [tuple(t.getPatchIndexPair(k)) for k in s],
        "number of pair": [t.getSequentialPatchIndexFromPair(k) for k in q],
        "found": [attempt(lambda: patch(t.findPatch(k))) for k in c],
        "several": [patch(p) for p in t.findPatchList(c[:2])],
        "contains": [t.contains(k) for k in c],
        "regions": [[tuple(v) for v in t.getOuterSkyPolygon().getVertices()], type(t.getInnerSkyRegion()).__name__,
                    str(t.getInnerSkyRegion())],
        "polygon of a patch": [tuple(v) for v in t.getPatchInfo(s[0]).getOuterSkyPolygon().getVertices()],
    }


def tract(m, i, again, lazy):
    return m.generateTract(i) if again and lazy else m[i]


def check(case):
    rng = random.Random(case["seed"])
    m = make(case)
    lazy = hasattr(m, "generateTract")
    n = len(m)
    pool = [rng.randrange(n) for _ in range(3)]
    want = {}

    def fresh(i):
        if i not in want:
            f = make(case)
            want[i] = answers(f, f[i], case["seed"])
        return want[i]
    held = []
    other = None
    for step in range(case["steps"]):
        i = rng.choice(pool)
        act = rng.randrange(6)
        if act == 5:
            # another map of the same kind, configured in another way
            o = dict(case, n=case["n"] + 1, start=33.0, layout={"kind": "legacy", "w": 17, "h": 23, "border": 2},
                     points=[[p[0] + 1, p[1], p[2]*.5] for p in case["points"]])
            other = make(o)
            k = min(i, len(other) - 1)
            answers(other, other[k], case["seed"] + 1)
            continue
        t = tract(m, i, act == 4, lazy)
        held.append((i, t))
        if act == 1:
            rng2 = random.Random(step)
            attempt(lambda: m.findTractPatchList([pos(m, t, rng2)]))
            attempt(lambda: m.findTract(pos(m, t, rng2)))
        if act == 2:
            for b in (t.getBBox(), t.bbox):
                b.grow(7)
            p = t.getPatchInfo((0, 0))
            for b in (p.getInnerBBox(), p.getOuterBBox(), p.inner_bbox):
                b.grow(3)
            if p.getNumCells().x:
                for b in (p.getCellInfo(0).getInnerBBox(), p.getCellInfo(0).getOuterBBox()):
                    b.grow(4)
        if act == 3:
            answers(m, t, case["seed"] + step)
    for i, t in held[-6:]:
        got = answers(m, t, case["seed"])
        w = fresh(i)
        for k in w:
            if got[k] != w[k]:
                return "tract %d after a history: %s is %s, alone %s" % (i, k, str(got[k])[:200], str(w[k])[:200])
    return None


def from_model(contract, m):
    kind = {"disc": "discrete", "equa": "equat", "dode": "dodeca", "heal": "healpix"}.get(contract[:4], "rings")
    for seed in range(4):
        yield {"kind": kind, "n": 3, "start": 0.0, "version": 1, "layout": None,
               "points": [[10.0, 5.0, 1.0], [40.0, -20.0, 6.0], [80.0, 0.0, 3.0]], "seed": seed, "steps": 8}
