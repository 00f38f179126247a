"""C25: sky regions are those of the pixel box or inner range."""
from .regions import *

CONTRACTS, contract = registry()


def _tract(kind):
    @contract("tract outer region (%s)" % kind, covers=("tract",))
    def outer(e):
        t = shaped_tract(e, layout(e, kind))
        e.cover("tract")
        for poly in (t.getOuterSkyPolygon(), t.outer_sky_polygon):
            is_polygon_of(e, poly, t.getBBox(), t.getWcs(), "outer region")

    @contract("explicit tract outer region (%s)" % kind, covers=("tract",))
    def explicit(e):
        t = explicit_tract(e, layout(e, kind))
        e.cover("tract")
        is_polygon_of(e, t.getOuterSkyPolygon(), t.getBBox(), t.getWcs(), "outer region")
        is_hull_of(e, t.getInnerSkyRegion(), t.getVertexList(), "inner region")

    @contract("patch regions (%s)" % kind, covers=("patch", "given"))
    def patch(e):
        t = shaped_tract(e, layout(e, kind))
        p = a_patch(e, t)
        e.cover("patch")
        for poly in (p.getInnerSkyPolygon(), p.inner_sky_polygon):
            is_polygon_of(e, poly, p.getInnerBBox(), t.getWcs(), "inner region of a patch")
        for poly in (p.getOuterSkyPolygon(), p.outer_sky_polygon):
            is_polygon_of(e, poly, p.getOuterBBox(), t.getWcs(), "outer region of a patch")
        w = deps.AbsWcs.arbitrary(e, "given")
        e.cover("given")
        is_polygon_of(e, p.getInnerSkyPolygon(w), p.getInnerBBox(), w, "inner region in the given coordinates")
        is_polygon_of(e, p.getOuterSkyPolygon(tractWcs=w), p.getOuterBBox(), w, "outer region in the given coordinates")


def a_patch(e, t):
    nx, ny = t.getNumPatches()
    i, j = e.input_int("i", 0), e.input_int("j", 0)
    e.assume(conj(i < nx, j < ny))
    return t.getPatchInfo((i, j))


for _k in ("legacy", "cells"):
    _tract(_k)


@contract("cell regions", covers=("cell", "given"))
def cell(e):
    lay = layout(e, "cells")
    t = shaped_tract(e, lay)
    p = a_patch(e, t)
    k = lay.n + 2*lay.m
    u, v = e.input_int("u", 0), e.input_int("v", 0)
    e.assume(conj(u < k, v < k))
    c = p.getCellInfo((u, v))
    e.cover("cell")
    for poly in (c.getInnerSkyPolygon(), c.inner_sky_polygon):
        is_polygon_of(e, poly, c.getInnerBBox(), t.getWcs(), "inner region of a cell")
    for poly in (c.getOuterSkyPolygon(), c.outer_sky_polygon):
        is_polygon_of(e, poly, c.getOuterBBox(), t.getWcs(), "outer region of a cell")
    w = deps.AbsWcs.arbitrary(e, "given")
    e.cover("given")
    is_polygon_of(e, c.getInnerSkyPolygon(w), c.getInnerBBox(), w, "inner region in the given coordinates")
    is_polygon_of(e, c.getOuterSkyPolygon(tractWcs=w), c.getOuterBBox(), w, "outer region in the given coordinates")


@contract("inner region of a tract with vertices", covers=("tract",))
def hull(e):
    t = any_tract(e, layout(e, "legacy"))
    e.cover("tract")
    for r in (t.getInnerSkyRegion(), t.inner_sky_region):
        is_hull_of(e, r, t.getVertexList(), "inner region")


def explicit_tract(e, lay):
    from lsst.skymap.tractInfo import ExplicitTractInfo
    with total(e):
        return ExplicitTractInfo(e.input_int("tractId", 0), builder(e, lay), deps.fresh_coord(e, "ctr"),
                                 G.Angle(e.input_real("radius", 0)), G.Angle(e.input_real("overlap", 0)),
                                 deps.AbsWcs.arbitrary(e, "wcs"))


KINDS = {"discrete": ("discreteSkyMap", discrete), "healpix": ("healpixSkyMap", healpix), "equatorial": ("equatSkyMap", equat)}


def _kind(name, module, make):
    @contract("inner region of %s tracts" % name, covers=("tract",))
    def kind(e):
        recorded(module)
        r = make(e)
        i = e.input_int("tract", 0)
        e.assume(i < r.n)
        t = r.map.generateTract(i) if hasattr(r.map, "generateTract") else rt.getitem(r.map, i)
        e.cover("tract")
        if name == "discrete":
            # its vertices are those of its box, made by the constructor (contract of explicit tracts)
            t._vertexCoordList = lst(deps.fresh_coord(e, "v"), deps.fresh_coord(e, "v"), deps.fresh_coord(e, "v"))
        is_hull_of(e, t.getInnerSkyRegion(), t.getVertexList(), "inner region")


for _n, (_m, _f) in KINDS.items():
    _kind(_n, _m, _f)


@contract("inner region of dodecahedron tracts", covers=("tract",))
def dodecahedron(e):
    recorded("dodecaSkyMap")
    r = dodeca(e, bool(e.choose("poles")))
    for i in range(12):
        t = rt.getitem(r.map, i)
        e.cover("tract")
        got = [tuple(v) for v in t.getInnerSkyRegion().getVertices()]
        want = [tuple(v.getVector()) for v in list(t.getVertexList())]
        e.prove(len(got) == 5 and all(min(near(a, b) for b in want) < 1e-9 for a in got)
                and all(min(near(a, b) for b in got) < 1e-9 for a in want), "the inner region is that of the five vertices")


def near(a, b):
    return max(abs(x - y) for x, y in zip(a, b))


TOL = 1e-9


def around(x, y):
    return disj(*[conj(x - y + k*TWOPI <= TOL, y - x - k*TWOPI <= TOL) for k in (-1, 0, 1)])


def once(e, obj, name, arg):
    """The method is a function: asked the same again it returns what it did."""
    real, memo = getattr(obj, name), []

    def f(x):
        if not (issym(x) and z3.eq(x.z, arg.z)):
            return real(x)
        if not memo:
            memo.append(real(x))
        return memo[0]
    setattr(obj, name, f)


def _rings(version, where):
    @contract("inner region of rings tracts, numbering %d, %s" % (version, where), covers=("tract",))
    def region(e):
        from pyvc.sph import SymBox
        recorded("ringsSkyMap")
        r = rings(e, version)
        i = e.input_int("tract", 0)
        e.assume({"south": i == 0, "north": i == r.size - 1, "ring": conj(i > 0, i < r.size - 1)}[where])
        once(e, r.map, "getRaDecRange", i)
        t = r.map.generateTract(i)
        box = t.getInnerSkyRegion()
        if not isinstance(box, SymBox):
            if hasattr(box, "getLon"):
                p, q = box.getLon(), box.getLat()
                lon = [p.getA().asRadians(), p.getB().asRadians()]
                lat = [q.getA().asRadians(), q.getB().asRadians()]
            else:
                raise core.Unsupported("another inner region")
        else:
            lon = [box.point1.getLon().asRadians(), box.point2.getLon().asRadians()]
            lat = [box.point1.getLat().asRadians(), box.point2.getLat().asRadians()]
        e.cover("tract")
        e.uses("getRaDecRange is the inner range of the tract (contract C10)")
        ra0, ra1, dec0, dec1 = [x.asRadians() for x in list(r.map.getRaDecRange(i))]
        e.prove(conj(lat[0] == dec0, lat[1] == dec1), "declinations of the inner range")
        for v in lon:
            e.prove(conj(v >= 0, v <= TWOPI), "longitudes of the box")
        if where == "ring":
            e.prove(conj(around(lon[0], ra0), around(lon[1], ra1)), "right ascensions of the inner range")
        else:
            e.prove(conj(lon[0] == 0, lon[1] == TWOPI), "full circle for the caps")


for _v in (0, 1):
    for _w in ("south", "ring", "north"):
        _rings(_v, _w)
