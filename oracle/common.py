"""Shared pieces of the concrete oracles: tracts of any size around a linear coordinate
system (duck-typed), on the real classes of lsst.skymap."""
import math


class LinWcs:
    """Pixel = position in degrees times a factor, plus an origin.  Positions listed in
    `bad` (by rounded lon/lat) have no pixel position."""

    def __init__(self, scale=1.0, origin=(0.0, 0.0), bad=None, lon0=90.0):
        self.scale, self.origin, self.bad, self.lon0 = scale, origin, dict(bad or {}), lon0

    def skyToPixel(self, c):
        import lsst.geom as geom
        import lsst.pex.exceptions as X
        if isinstance(c, (list, tuple)):
            return [self.skyToPixel(x) for x in c]
        lon, lat = c[0].asDegrees(), c[1].asDegrees()
        how = self.bad.get((round(lon, 6), round(lat, 6)))
        if how == "domain":
            raise X.DomainError("off")
        if how == "runtime":
            raise X.RuntimeError("off")
        if how == "nan":
            return geom.Point2D(math.nan, math.nan)
        return geom.Point2D((lon - self.lon0)*self.scale + self.origin[0], lat*self.scale + self.origin[1])

    def pixelToSky(self, *a):
        import lsst.geom as geom
        if len(a) == 2:
            a = (geom.Point2D(*a),)
        if isinstance(a[0], (list, tuple)):
            return [self.pixelToSky(x) for x in a[0]]
        p = a[0]
        return geom.SpherePoint(((p[0] - self.origin[0])/self.scale + self.lon0)*geom.degrees,
                                ((p[1] - self.origin[1])/self.scale)*geom.degrees)

    def copyAtShiftedPixelOrigin(self, s):
        return LinWcs(self.scale, (self.origin[0] + s[0], self.origin[1] + s[1]), self.bad, self.lon0)

    def getPixelOrigin(self):
        import lsst.geom as geom
        return geom.Point2D(*self.origin)

    def getSkyOrigin(self):
        return self.pixelToSky(*self.origin)


# pixel units: 1 pixel = 1e-4 degrees, so that boxes of many thousand pixels fit on the sky
SCALE = 1e4


def sky(x, y, wcs=None):
    """Position of pixel (x, y) in the unshifted coordinate system."""
    import lsst.geom as geom
    return geom.SpherePoint((x/SCALE + 90.0)*geom.degrees, (y/SCALE)*geom.degrees)


def builder(lay):
    from lsst.skymap.tractBuilder import LegacyTractBuilder, CellTractBuilder
    if lay["kind"] == "legacy":
        c = LegacyTractBuilder.ConfigClass()
        c.patchInnerDimensions = [lay["w"], lay["h"]]
        c.patchBorder = lay["border"]
        return LegacyTractBuilder(c)
    c = CellTractBuilder.ConfigClass()
    c.cellInnerDimensions = [lay["cell"], lay["cell"]]
    c.cellBorder = lay["cborder"]
    c.numCellsPerPatchInner = lay["n"]
    c.numCellsInPatchBorder = lay["m"]
    return CellTractBuilder(c)


def dims(lay):
    if lay["kind"] == "legacy":
        return lay["w"], lay["h"], lay["border"]
    s = lay["cell"]*lay["n"]
    return s, s, lay["m"]*lay["cell"] + lay["cborder"]


def tract(lay, box, tid=0, tb=None, bad=None):
    """A tract whose minimum box is about [x0, x0+dx] x [y0, y0+dy] (pixels)."""
    import lsst.geom as geom
    from lsst.skymap.tractInfo import TractInfo
    x0, y0, dx, dy = box
    verts = [sky(x0, y0), sky(x0 + dx, y0), sky(x0 + dx, y0 + dy), sky(x0, y0 + dy)]
    return TractInfo(tid, tb or builder(lay), sky(x0 + dx/2, y0 + dy/2), verts, geom.Angle(0.0),
                     LinWcs(SCALE, bad=bad))


def layouts(rng, small=True):
    """An arbitrary patch layout."""
    if rng.random() < 0.5:
        hi = 7 if small else 5000
        return {"kind": "legacy", "w": rng.randint(1, hi), "h": rng.randint(1, hi),
                "border": rng.choice([0, 1, 2, 3, rng.randint(0, hi), 2*hi])}
    hi = 5 if small else 200
    return {"kind": "cells", "cell": rng.randint(1, hi), "cborder": rng.randint(0, hi),
            "n": rng.randint(1, 4 if small else 30), "m": rng.randint(0, 3)}


def boxes(rng, lay, small=True):
    w, h, _ = dims(lay)
    k = 5 if small else 12
    return [rng.randint(-60, 60), rng.randint(-60, 60), rng.choice([0, rng.randint(0, k*w), (k - 1)*w]),
            rng.choice([0, rng.randint(0, k*h), (k - 1)*h - 1 if h > 1 else 0])]


def long_case(rng):
    """A tract of several thousand patches, all but a few in one row or column."""
    k = [rng.randint(3000, 9000), rng.choice([1, 2])]
    rng.shuffle(k)
    if rng.random() < 0.5:
        lay = {"kind": "legacy", "w": rng.randint(1, 9), "h": rng.randint(1, 9), "border": rng.choice([0, 1, 5])}
    else:
        lay = {"kind": "cells", "cell": rng.randint(1, 4), "cborder": rng.randint(0, 2), "n": rng.randint(1, 3),
               "m": rng.randint(0, 2)}
    w, h, _ = dims(lay)
    return {"layout": lay, "box": [0, 0, k[0]*w - rng.randint(0, w - 1), k[1]*h - rng.randint(0, h - 1)], "small": False}


def tract_cases(rng, tier, long=False):
    n = 0
    while True:
        if long and n % 40 == 3:
            yield long_case(rng)
        small = n % 8 != 7
        n += 1
        lay = layouts(rng, small)
        yield {"layout": lay, "box": boxes(rng, lay, small), "small": small}


def model_layout(m):
    if "cellW" in m:
        return {"kind": "cells", "cell": int(m["cellW"]), "cborder": int(m["cellBorder"]),
                "n": int(m["numCellsPerPatchInner"]), "m": int(m["numCellsInPatchBorder"])}
    return {"kind": "legacy", "w": int(m["patchW"]), "h": int(m["patchH"]), "border": int(m["patchBorder"])}


def box(b):
    """(x0, y0, x1, y1) inclusive"""
    return (b.getMinX(), b.getMinY(), b.getMaxX(), b.getMaxY())
