import math

from .common import *

RULE = ("random layouts of both kinds; vertices given by pixel positions, with and without overlap, and tracts "
        "given by a radius; the required points are recomputed from the statement")


def cases(rng, tier):
    while True:
        small = rng.random() < 0.7
        lay = layouts(rng, small)
        w, h, _ = dims(lay)
        kind = rng.choice(["vertices", "vertices", "overlap", "radius"])
        span = rng.choice([0.4, 1, 3, 7])
        base = [rng.choice([0, rng.uniform(-300, 300)]), rng.choice([0, rng.uniform(-300, 300)])]
        n = rng.randint(1, 6)
        pts = [[base[0] + rng.uniform(-1, 1)*w*span, base[1] + rng.uniform(-1, 1)*h*span] for _ in range(n)]
        if rng.random() < 0.3:
            pts = [[round(x), round(y)] for x, y in pts]
        if rng.random() < 0.2:
            pts = [[x, pts[0][1]] for x, y in pts]
        yield {"layout": lay, "kind": kind, "points": pts, "size": rng.choice([0.1, 1, 10, 200])*rng.uniform(.5, 1),
               "overlap": rng.choice([0, rng.uniform(0, 50)])}


def check(case):
    import lsst.geom as geom
    from lsst.skymap.tractInfo import TractInfo, ExplicitTractInfo
    lay = case["layout"]
    wcs = LinWcs(SCALE)
    tb = builder(lay)
    size = dims(lay)[:2]
    pts = [sky(x, y) for x, y in case["points"]]
    ang = lambda px: (px/SCALE)*geom.degrees
    if case["kind"] == "radius":
        c = pts[0]
        t = ExplicitTractInfo(3, tb, c, ang(case["size"]), ang(case["overlap"]), wcs)
        req = [c.offset(d*90*geom.degrees, ang(case["size"]) + ang(case["overlap"])) for d in range(4)]
    elif case["kind"] == "vertices":
        t = TractInfo(3, tb, pts[0], pts, geom.Angle(0), wcs)
        req = pts
    else:
        ov = ang(case["overlap"] + 0.01)
        t = TractInfo(3, tb, pts[0], pts, ov, wcs)
        req = [p.offset(d*15*geom.degrees, ov/2) for p in pts for d in range(24)]
    px = [wcs.skyToPixel(r) for r in req]
    box = t.getBBox()
    org = t.getWcs().getPixelOrigin()
    for a in range(2):
        s = org[a] - wcs.getPixelOrigin()[a]
        if abs(s - round(s)) > 1e-6:
            return "pixel origin moved by %s" % s
        lo, hi = min(p[a] for p in px), max(p[a] for p in px)
        b0, b1 = box.getMin()[a], box.getMax()[a]
        if not (b0 - 0.5 - 1e-6 <= lo + s and hi + s <= b1 + 0.5 + 1e-6):
            return "axis %d: required %s..%s outside the box %s..%s" % (a, lo + s, hi + s, b0, b1)
        ok = False
        for d0 in (0, -1e-6, 1e-6):
            for d1 in (0, 1e-6, -1e-6):
                left = math.floor(lo + d0 + s + 0.5) - b0
                right = b1 - math.ceil(hi + d1 + s - 0.5)
                ok |= left >= 0 and right >= 0 and left + right < size[a] and abs(left - right) <= 1
        if not ok:
            return "axis %d: box %s..%s exceeds %s..%s unevenly or by a patch" % (a, b0, b1, lo + s, hi + s)
        if tuple(box.getMin()) != (0, 0):
            return "box starts at %s" % (box.getMin(),)
    s = [org[a] - wcs.getPixelOrigin()[a] for a in range(2)]
    for x, y in ((0, 0), (17.5, -3.25)):
        p, q = wcs.pixelToSky(x, y), t.getWcs().pixelToSky(x + s[0], y + s[1])
        if p.separation(q).asDegrees() > 1e-9:
            return "the sky position of a pixel changed"
    return None


def from_model(contract, m):
    lay = model_layout(m)
    if dims(lay)[0] > 10**6 or dims(lay)[1] > 10**6:
        return
    for k in ("vertices", "overlap", "radius"):
        for d in (0.0, 0.3, 0.5, 0.7):
            yield {"layout": lay, "kind": k, "points": [[d, d], [d + dims(lay)[0], d + 1]], "size": 2.3, "overlap": d}
