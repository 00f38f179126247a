"""C01: patch inner boxes exactly tile the tract."""
from .common import *

CONTRACTS, contract = registry()


def tiling(e, kind):
    lay = layout(e, kind)
    t = any_tract(e, lay)
    box = t.getBBox()
    nx, ny = t.getNumPatches()
    e.prove(conj(box.getMinX() == 0, box.getMinY() == 0), "tract box starts at (0, 0)")
    e.prove(conj(nx >= 1, ny >= 1), "at least one patch in each dimension")
    e.prove(conj(box.getWidth() == nx*lay.w, box.getHeight() == ny*lay.h),
            "tract size is the number of patches times the patch size")
    # any patch
    i, j = e.input_int("i", 0), e.input_int("j", 0)
    e.assume(conj(i < nx, j < ny))
    p = t.getPatchInfo((i, j)).getInnerBBox()
    e.prove(conj(p.getWidth() == lay.w, p.getHeight() == lay.h), "inner box has the configured size")
    e.prove(conj(p.getMinX() >= 0, p.getMinY() >= 0, p.getMaxX() <= box.getMaxX(), p.getMaxY() <= box.getMaxY()),
            "inner box lies in the tract")
    # any other patch
    k, l = e.input_int("k", 0), e.input_int("l", 0)
    e.assume(conj(k < nx, l < ny, disj(i != k, j != l)))
    q = t.getPatchInfo((k, l)).getInnerBBox()
    x, y = e.input_int("x"), e.input_int("y")
    e.prove(neg(conj(in_box(p, x, y), in_box(q, x, y))), "no pixel in two inner boxes")
    e.cover("two patches")


def covering(e, kind):
    lay = layout(e, kind)
    t = any_tract(e, lay)
    box = t.getBBox()
    x, y = e.input_int("x"), e.input_int("y")
    e.assume(in_box(box, x, y))
    # the witness: rows and columns of the grid
    i, j = x // lay.w, y // lay.h
    nx, ny = t.getNumPatches()
    e.prove(conj(i >= 0, i < nx, j >= 0, j < ny), "every pixel belongs to a patch of the grid")
    p = t.getPatchInfo((i, j)).getInnerBBox()
    e.prove(in_box(p, x, y), "that patch's inner box contains the pixel")
    e.cover("pixel")


for _k in ("legacy", "cells"):
    contract("disjoint inner boxes of the configured size (%s)" % _k, covers=("two patches",))(
        lambda e, k=_k: tiling(e, k))
    contract("inner boxes cover the tract (%s)" % _k, covers=("pixel",))(lambda e, k=_k: covering(e, k))
