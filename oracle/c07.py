import math

from .common import *

RULE = ("random layouts; positions inside, outside, on pixel and box edges, and with no pixel position "
        "(DomainError, RuntimeError, NaN)")


def cases(rng, tier):
    for c in tract_cases(rng, tier, long=True):
        pts = []
        for _ in range(12):
            k = rng.random()
            fx = rng.choice([0, 0.25, 0.5, -0.5, 0.49, rng.random()])
            fy = rng.choice([0, 0.25, 0.5, -0.5, 0.49, rng.random()])
            pts.append([rng.random() if k < 0.5 else rng.choice([0, 1, -0.2, 1.3, 0.5]), fx,
                        rng.random() if k < 0.5 else rng.choice([0, 1, -0.2, 1.3, 0.5]), fy,
                        rng.choice(["", "", "", "", "domain", "runtime", "nan"])])
        c["points"] = pts
        yield c


def check(case):
    import lsst.geom as geom
    import lsst.pex.exceptions as X
    lay = case["layout"]
    bad = {}
    t0 = tract(lay, case["box"])
    wcs = t0.getWcs()
    dx, dy = t0.getBBox().getDimensions()
    w, h, _ = dims(lay)
    for fx, ox, fy, oy, how in case["points"]:
        x, y = round(fx*dx) + ox, round(fy*dy) + oy
        c = wcs.pixelToSky(x, y)
        t0.getWcs().bad.clear()
        if how:
            t0.getWcs().bad[(round(c[0].asDegrees(), 6), round(c[1].asDegrees(), 6))] = how
        near = None
        if not how:
            p = wcs.skyToPixel(c)
            if any(abs(v + 0.5 - round(v + 0.5)) < 1e-6 for v in p) and (ox not in (0.5, -0.5) and oy not in (0.5, -0.5)):
                pass
            near = tuple(math.floor(v + 0.5) for v in p)
        inside = near is not None and 0 <= near[0] < dx and 0 <= near[1] < dy
        try:
            patch = t0.findPatch(c)
        except LookupError:
            patch = None
        if t0.contains(c) != (patch is not None):
            return "contains is %s but findPatch %s at pixel %s" % (t0.contains(c), patch, (x, y, how))
        if (patch is not None) != inside:
            return "findPatch %s at pixel %s of a tract of %s" % (patch, (x, y, how), (dx, dy))
        if patch is not None:
            b = box(patch.getInnerBBox())
            if not (b[0] <= near[0] <= b[2] and b[1] <= near[1] <= b[3]):
                return "pixel %s found in patch %s with inner box %s" % (near, patch.getIndex(), b)
            i, j = patch.getIndex()
            if b != (i*w, j*h, i*w + w - 1, j*h + h - 1):
                return "patch %s has inner box %s" % (patch.getIndex(), b)
    return None


def from_model(contract, m):
    lay = model_layout(m)
    w, h, _ = dims(lay)
    if w*h > 10**9:
        return
    how = {0: "", 1: "domain", 2: "runtime", 3: "nan"}.get(m.get("status"), "")
    for nx, ny in ((1, 1), (3, 2), (2, 5)):
        pts = [[a, o, b, q, how] for a in (0, 0.5, 1) for o in (0, -1, 0.5, -0.5) for b in (0, 1) for q in (0, -1, -0.5)]
        yield {"layout": lay, "box": [0, 0, nx*w - 1, ny*h - 1], "points": pts}
