from .maps import *

RULE = ("maps of all kinds, both layouts, up to 5 tracts each and in each up to 4 patches and 4 cells: vertices of every region "
        "compared with the sky positions of the corners of its box, in the tract's and in another tract's coordinates; rings boxes")


def cases(rng, tier):
    n = 0
    while True:
        kind = ["rings", "discrete", "equat", "dodeca", "healpix", "rings"][n % 6]
        n += 1
        f = rng.choice([1, 1, 10, 100])     # finer pixels, larger tracts and patches
        lay = {"kind": "cells", "cell": rng.choice([5, 9])*f, "cborder": rng.randint(0, 3*f), "n": rng.randint(1, 4),
               "m": rng.randint(0, 2)} if rng.random() < .5 else \
            {"kind": "legacy", "w": rng.randint(9, 40)*f, "h": rng.randint(9, 40)*f, "border": rng.randint(0, 9*f)}
        yield {"kind": kind, "n": rng.randint(1, 9), "layout": lay, "fine": f*rng.choice([.5, 1, 2]), "start": rng.choice([0.0, rng.uniform(0, 359)]),
               "version": rng.choice([0, 1]),
               "pts": [[rng.uniform(0, 360), rng.uniform(-80, 80), rng.uniform(.2, 3)] for _ in range(3)],
               "which": [rng.random() for _ in range(3)] + [0.0, 1.0], "patch": [rng.random() for _ in range(4)]}


def make(c):
    kw = dict(layout=c["layout"], pixelScale=(3000.0 if c["kind"] != "discrete" else 400.0)/c.get("fine", 1))
    k = c["kind"]
    if k == "rings":
        return rings(c["n"], c["start"], version=c["version"], **kw)
    if k == "discrete":
        return discrete(c["pts"], **kw)
    if k == "healpix":
        return healpix(log2NSide=c["n"] % 2 + 1, nest=bool(c["n"] % 3), **kw)
    if k == "equat":
        return equat(numTracts=3 + c["n"], **kw)
    return dodeca(withTractsOnPoles=bool(c["n"] % 2), **kw)


def vec(p):
    v = p.getVector()
    return (v.x(), v.y(), v.z())


def match(got, want, tol=1e-9):
    """Same sets of directions."""
    d = lambda a, b: max(abs(x - y) for x, y in zip(a, b))
    return all(min(d(a, b) for b in want) < tol for a in got) and all(min(d(a, b) for b in got) < tol for a in want)


def corners(box, wcs):
    import lsst.geom as geom
    return [vec(wcs.pixelToSky(geom.Point2D(x, y))) for x in (box.getMinX() - .5, box.getMaxX() + .5)
            for y in (box.getMinY() - .5, box.getMaxY() + .5)]


def hull(points):
    from lsst.sphgeom import ConvexPolygon, UnitVector3d
    return [tuple(v) for v in ConvexPolygon.convexHull([UnitVector3d(*p) for p in points]).getVertices()]


def polygon(p, box, wcs, what):
    want = corners(box, wcs)
    try:
        want = hull(want)
    except Exception:
        return None
    if not match([tuple(v) for v in p.getVertices()], want):
        return "%s is not that of box %s" % (what, box)


def check(case):
    from lsst.sphgeom import Box, ConvexPolygon
    m = make(case)
    n = len(m)
    other = m[n//2].getWcs()
    for f in case["which"]:
        i = min(n - 1, int(f*n))
        t = m[i]
        try:
            t.getOuterSkyPolygon()
        except Exception as err:
            if "convex" in str(err).lower() or "hemisph" in str(err).lower() or "vertices" in str(err).lower():
                continue
            raise
        w = t.getWcs()
        bad = polygon(t.getOuterSkyPolygon(), t.getBBox(), w, "tract region") \
            or polygon(t.outer_sky_polygon, t.getBBox(), w, "tract region")
        if bad:
            return "tract %d: %s" % (i, bad)
        nx, ny = t.getNumPatches()
        for g in case["patch"]:
            p = t[min(nx*ny - 1, int(g*nx*ny))]
            for c in [p] + ([p.getCellInfo((int(g*p.getNumCells().x), int(g*g*p.getNumCells().y)))]
                            if p.getNumCells().x else []):
                for x, ww in ((None, w), (other, other)):
                    for poly, box in (("getInnerSkyPolygon", c.getInnerBBox()), ("getOuterSkyPolygon", c.getOuterBBox())):
                        try:
                            r = getattr(c, poly)(x) if x is not None else getattr(c, poly)()
                        except RuntimeError:
                            if x is not None:
                                continue
                            raise
                        bad = polygon(r, box, ww, "%s of %s" % (poly, c))
                        if bad:
                            return "tract %d: %s" % (i, bad)
                for r, box in ((c.inner_sky_polygon, c.getInnerBBox()), (c.outer_sky_polygon, c.getOuterBBox())):
                    bad = polygon(r, box, w, "region property of %s" % c)
                    if bad:
                        return "tract %d: %s" % (i, bad)
        r = t.getInnerSkyRegion()
        if case["kind"] == "rings":
            if not isinstance(r, Box):
                return "tract %d has inner region %s" % (i, r)
            ra0, ra1, d0, d1 = [x.asRadians() for x in m.getRaDecRange(i)]
            if not (near(r.getLat().getA().asRadians(), d0) and near(r.getLat().getB().asRadians(), d1)):
                return "tract %d has inner region %s, not Dec %r to %r" % (i, r, d0, d1)
            if i in (0, n - 1):
                if not r.getLon().isFull():
                    return "tract %d (cap) has inner region %s" % (i, r)
            elif abs(turndiff(r.getLon().getA().asRadians(), ra0)) > 1e-9 or \
                    abs(turndiff(r.getLon().getB().asRadians(), ra1)) > 1e-9 or r.getLon().isFull():
                return "tract %d has inner region %s, not RA %r to %r" % (i, r, ra0, ra1)
        else:
            if not isinstance(r, ConvexPolygon):
                return "tract %d has inner region %s" % (i, r)
            try:
                want = hull([vec(v) for v in t.getVertexList()])
            except Exception:
                continue
            if not match([tuple(v) for v in r.getVertices()], want):
                return "tract %d: inner region is not that of its vertices" % i
    return None


def from_model(contract, m):
    import random
    rng = random.Random(11)
    g = cases(rng, "quick")
    for _ in range(12):
        yield next(g)
