"""Sky regions as the points they were made from."""
from .rings import *
from . import find


def direction(e, v):
    """The position a vector is the direction of."""
    t = getattr(v, "of", None)
    if t is None:
        raise core.Unsupported("region of other vectors")
    return t


def points(poly):
    from pyvc.sph import SymPolygon
    if not isinstance(poly, SymPolygon):
        raise core.Unsupported("region of another kind")
    return find.as_list(poly.points)


def pixel_corners(box):
    """Sky positions are wanted at the outer pixel edges of the corners of a box."""
    xs = (box.getMinX() - 0.5, box.getMaxX() + 0.5)
    ys = (box.getMinY() - 0.5, box.getMaxY() + 0.5)
    return [(x, y) for x in xs for y in ys]


def is_polygon_of(e, poly, box, wcs, what):
    """The region is the hull of the positions of the four corners of the box."""
    ps = points(poly)
    if ps.symbolic:
        raise core.Unsupported("region with any number of corners")
    got = [direction(e, v) for v in ps.parts]
    want = [deps.UNPROJ(wcs.base, deps.real(x - wcs.crpix[0]), deps.real(y - wcs.crpix[1])) for x, y in pixel_corners(box)]
    for k, w in enumerate(want):
        e.prove(disj(*[SymBool(g == w) for g in got]), "corner %d of the box is a corner of the %s" % (k, what))
    for g in got:
        e.prove(disj(*[SymBool(g == w) for w in want]), "the %s has no other corners" % what)


def is_hull_of(e, poly, vertices, what):
    ps, vs = points(poly), find.as_list(vertices)
    if ps.symbolic or vs.symbolic:
        n, m = ps._pyvc_len(), vs._pyvc_len()
        e.prove(n == m, "as many corners of the %s as vertices" % what)
        i = e.fresh_int("corner", 0)
        e.assume(conj(i < n, i < m))
        e.prove(SymBool(direction(e, ps._pyvc_get(i)) == deps.cterm(vs._pyvc_get(i))), "the %s is that of the vertices" % what)
        return
    got, want = [direction(e, v) for v in ps.parts], [deps.cterm(v) for v in vs.parts]
    for w in want:
        e.prove(disj(*[SymBool(g == w) for g in got]), "every vertex is a corner of the %s" % what)
    for g in got:
        e.prove(disj(*[SymBool(g == w) for w in want]), "the %s has no other corners" % what)
