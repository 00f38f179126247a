"""C05: the cells of a patch tile its inner box and border of cells."""
from .common import *

CONTRACTS, contract = registry()


def patch(e):
    lay = cells(e)
    t = any_tract(e, lay)
    nx, ny = t.getNumPatches()
    i, j = e.input_int("i", 0), e.input_int("j", 0)
    e.assume(conj(i < nx, j < ny))
    p = t.getPatchInfo((i, j))
    return lay, t, p, i, j


def cell_index(e, lay, a, b):
    u, v = e.input_int(a, 0), e.input_int(b, 0)
    k = lay.n + 2*lay.m
    e.assume(conj(u < k, v < k))
    return u, v


@contract("cells have the configured size and are disjoint", covers=("cells",))
def disjoint(e):
    lay, t, p, i, j = patch(e)
    k = lay.n + 2*lay.m
    nc = p.getNumCells()
    e.prove(conj(nc.x == k, nc.y == k), "cells per patch plus twice the border cells")
    u, v = cell_index(e, lay, "u", "v")
    a = p.getCellInfo((u, v)).getInnerBBox()
    e.prove(conj(a.getWidth() == lay.cw, a.getHeight() == lay.ch), "inner box has the cell size")
    ext = p.getInnerBBox()
    m = lay.m*lay.cw
    e.prove(conj(a.getMinX() >= ext.getMinX() - m, a.getMinY() >= ext.getMinY() - m,
                 a.getMaxX() <= ext.getMaxX() + m, a.getMaxY() <= ext.getMaxY() + m),
            "inner box lies in the patch's inner box extended by the border cells")
    s, r = cell_index(e, lay, "s", "r")
    e.assume(disj(u != s, v != r))
    b = p.getCellInfo((s, r)).getInnerBBox()
    x, y = e.input_int("x"), e.input_int("y")
    e.prove(neg(conj(in_box(a, x, y), in_box(b, x, y))), "no pixel in two cells")
    e.cover("cells")


@contract("cells cover the extended patch", covers=("pixel",))
def covering(e):
    lay, t, p, i, j = patch(e)
    ext = p.getInnerBBox()
    m = lay.m*lay.cw
    x, y = e.input_int("x"), e.input_int("y")
    e.assume(conj(x >= ext.getMinX() - m, x <= ext.getMaxX() + m, y >= ext.getMinY() - m, y <= ext.getMaxY() + m))
    u, v = (x - ext.getMinX() + m)//lay.cw, (y - ext.getMinY() + m)//lay.ch
    nc = p.getNumCells()
    e.prove(conj(u >= 0, u < nc.x, v >= 0, v < nc.y), "the pixel belongs to a cell of the grid")
    a = p.getCellInfo((u, v)).getInnerBBox()
    e.prove(in_box(a, x, y), "that cell's inner box contains the pixel")
    e.cover("pixel")


@contract("outer boxes of the cells", covers=("cell",))
def outer(e):
    lay, t, p, i, j = patch(e)
    u, v = cell_index(e, lay, "u", "v")
    c = p.getCellInfo((u, v))
    a, o, q = c.getInnerBBox(), c.getOuterBBox(), p.getOuterBBox()
    e.prove(conj(p.getCellBorder() == lay.cb, p.getCellInnerDimensions()[0] == lay.cw,
                 p.getCellInnerDimensions()[1] == lay.ch), "the patch reports the configured cells")
    e.prove(conj(o.getMinX() == a.getMinX() - lay.cb, o.getMinY() == a.getMinY() - lay.cb,
                 o.getMaxX() == a.getMaxX() + lay.cb, o.getMaxY() == a.getMaxY() + lay.cb),
            "outer box is the inner box grown by the cell border")
    e.prove(conj(o.getMinX() >= q.getMinX(), o.getMinY() >= q.getMinY(), o.getMaxX() <= q.getMaxX(),
                 o.getMaxY() <= q.getMaxY()), "outer box of the cell lies in the outer box of the patch")
    k = lay.n + 2*lay.m
    e.prove(conj(implies(u == 0, o.getMinX() == q.getMinX()), implies(v == 0, o.getMinY() == q.getMinY()),
                 implies(u == k - 1, o.getMaxX() == q.getMaxX()), implies(v == k - 1, o.getMaxY() == q.getMaxY())),
            "the outermost cells reach the edges of the patch's outer box")
    e.cover("cell")
