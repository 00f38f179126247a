import math

from .common import *

RULE = ("random grids; coordinate lists of 0 to 6 positions in, across, near and far from the tract, some with "
        "no pixel position (DomainError, RuntimeError)")


def cases(rng, tier):
    n = 0
    while True:
        lay = layouts(rng, n % 8 != 7)
        n += 1
        w, h, _ = dims(lay)
        box_ = [0, 0, rng.randint(1, 6)*w - 1, rng.randint(1, 6)*h - 1]
        k = rng.choice([0, 1, 1, 2, 3, 4, 6])
        cx, cy = rng.choice([0.5, rng.random(), -0.1, 1.1, -3, rng.uniform(-.3, 1.3)]), rng.uniform(-.3, 1.3)
        s = rng.choice([0, 0.01, 0.2, 0.5, 2])
        pts = []
        for _ in range(k):
            pts.append([round((cx + rng.uniform(-s, s))*box_[2]) + rng.choice([0, 0, .25, -.3, .45]),
                        round((cy + rng.uniform(-s, s))*box_[3]) + rng.choice([0, 0, .25, -.3, .45]),
                        rng.choice(["", "", "", "", "domain", "runtime"])])
        yield {"layout": lay, "box": box_, "points": pts}


def check(case):
    lay = case["layout"]
    t = tract(lay, case["box"])
    wcs = t.getWcs()
    dx, dy = t.getBBox().getDimensions()
    w, h, border = dims(lay)
    nx, ny = dx//w, dy//h
    coords, pix = [], []
    for x, y, how in case["points"]:
        c = wcs.pixelToSky(x, y)
        if how:
            wcs_bad = (round(c[0].asDegrees(), 6), round(c[1].asDegrees(), 6))
            for o in (t.getWcs(), t._wcs):
                o.bad[wcs_bad] = how
        coords.append(c)
    w2 = t.getWcs()
    import lsst.pex.exceptions as X
    for c in coords:
        try:
            pix.append(w2.skyToPixel(c))
        except (X.DomainError, X.RuntimeError):
            pass
    res = [tuple(p.getIndex()) for p in t.findPatchList(coords)]
    if len(set(res)) != len(res):
        return "patches returned twice: %s" % (res,)
    for p in t.findPatchList(coords):
        i, j = p.getIndex()
        if box(p.getInnerBBox()) != (i*w, j*h, i*w + w - 1, j*h + h - 1):
            return "patch %s has inner box %s" % ((i, j), box(p.getInnerBBox()))
    want = []

    def sought(slack):
        if not pix:
            return set()
        b = []
        for n, m in ((0, dx), (1, dy)):
            lo, hi = min(p[n] for p in pix), max(p[n] for p in pix)
            b.append((max(0, math.floor(lo + 0.5 - slack) - border),
                      min(m - 1, math.floor(hi + 0.5 + slack) + border)))
        if b[0][0] > b[0][1] or b[1][0] > b[1][1]:
            return set()
        return {(i, j) for i in range(nx) for j in range(ny)
                if i*w <= b[0][1] and i*w + w - 1 >= b[0][0] and j*h <= b[1][1] and j*h + h - 1 >= b[1][0]}
    # positions within 1e-5 pixel of a rounding boundary may go either way
    least, most = sought(-1e-5), sought(1e-5)
    if not least <= set(res) <= most:
        return "%s returned, expected %s (at most %s) for pixels %s, tract %s, patches %s, border %d" % (
            sorted(res), sorted(least), sorted(most), [tuple(p) for p in pix], (dx, dy), (w, h), border)
    return None


def from_model(contract, m):
    lay = model_layout(m)
    w, h, b = dims(lay)
    if w*h > 10**9:
        return
    lo = [m.get("regionLo%d" % n) for n in range(2)]
    hi = [m.get("regionHi%d" % n) for n in range(2)]
    nx, ny = min(int(m.get("numPatchesx", 3)), 40), min(int(m.get("numPatchesy", 3)), 40)
    if all(isinstance(v, (int, float)) and abs(v) < 1e6 for v in lo + hi):
        yield {"layout": lay, "box": [0, 0, nx*w - 1, ny*h - 1],
               "points": [[lo[0], lo[1], ""], [hi[0], hi[1], ""]]}
    for nx, ny in ((1, 1), (3, 2), (2, 5)):
        X, Y = nx*w - 1, ny*h - 1
        for pts in ([[0, 0]], [[X, Y]], [[X + 1, 0]], [[-b, -b]], [[-b - 1, 0]], [[X + b + 1, 0]], [[w - 1, h - 1]],
                    [[w, h]], [[0, 0], [X, Y]], [[w, 0], [w, 0]], [], [[0, Y + b]], [[X + b, Y + b + 1]]):
            yield {"layout": lay, "box": [0, 0, X, Y], "points": [p + [""] for p in pts]}
        yield {"layout": lay, "box": [0, 0, X, Y], "points": [[0, 0, "domain"], [X, Y, "runtime"]]}
