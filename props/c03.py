"""C03: outer box = inner box plus border, clipped as the layout says."""
from .common import *

CONTRACTS, contract = registry()


def outer(e, kind):
    lay = layout(e, kind)
    t = any_tract(e, lay)
    nx, ny = t.getNumPatches()
    i, j = e.input_int("i", 0), e.input_int("j", 0)
    e.assume(conj(i < nx, j < ny))
    p = t.getPatchInfo((i, j))
    inner, out, box = p.getInnerBBox(), p.getOuterBBox(), t.getBBox()
    # the specification: written out from the statement
    b = lay.border
    e.prove(t.getPatchBorder() == b, "the tract reports the configured border")
    e.prove(conj(inner.getMinX() == i*lay.w, inner.getMinY() == j*lay.h,
                 inner.getMaxX() == i*lay.w + lay.w - 1, inner.getMaxY() == j*lay.h + lay.h - 1),
            "inner box of the patch")
    lo = [inner.getMinX() - b, inner.getMinY() - b]
    hi = [inner.getMaxX() + b, inner.getMaxY() + b]
    if kind == "legacy":
        lo = [ite(v < 0, 0, v) for v in lo]
        hi = [ite(v > m, m, v) for v, m in zip(hi, (box.getMaxX(), box.getMaxY()))]
    e.prove(conj(out.getMinX() == lo[0], out.getMinY() == lo[1]), "minimum corner of the outer box")
    e.prove(conj(out.getMaxX() == hi[0], out.getMaxY() == hi[1]), "maximum corner of the outer box")
    x, y = e.input_int("x"), e.input_int("y")
    e.prove(implies(in_box(inner, x, y), in_box(out, x, y)), "the outer box contains the inner box")
    if kind == "legacy":
        e.prove(implies(in_box(out, x, y), in_box(box, x, y)), "the outer box stays in the tract")
    # the inner box is not affected by computing the outer one
    e.prove(same_box(t.getPatchInfo((i, j)).getOuterBBox(), out), "asking again gives the same outer box")
    e.cover("patch")


for _k in ("legacy", "cells"):
    contract("outer box (%s)" % _k, covers=("patch",))(lambda e, k=_k: outer(e, k))
