"""C07: findPatch is exact and agrees with contains."""
import z3

from .common import *
from pyvc.core import py_floor, toreal, lift

CONTRACTS, contract = registry()


def find(e, kind):
    lay = layout(e, kind)
    t = any_tract(e, lay)
    nx, ny = t.getNumPatches()
    box = t.getBBox()
    c = deps.fresh_coord(e, "coord")
    w = t.getWcs()
    st = deps.STATUS(w.base, c._t)
    # 0: a pixel position; 1, 2: the coordinate system raises; 3: not finite
    e.assume(z3.And(st >= 0, st <= 3))
    pos = [core.SymReal(deps.PX[n](w.base, c._t)) + w.crpix[n] for n in range(2)]
    e.inputs["status"] = core.SymInt(st)
    e.inputs["pixx"], e.inputs["pixy"] = pos
    near = [py_floor(v + 0.5) for v in pos]
    inside = conj(core.SymBool(st == 0), in_box(box, near[0], near[1]))
    p, exc = raises(e, lambda: t.findPatch(c), LookupError)
    held = t.contains(c)
    if exc is not None:
        e.prove(neg(inside), "LookupError only for positions outside the tract's pixel box")
        e.prove(neg(held), "a position without a patch is not contained")
        e.cover("not found")
        return
    e.prove(inside, "a patch is found only inside the tract's pixel box")
    e.prove(held, "a position with a patch is contained")
    e.prove(in_box(p.getInnerBBox(), near[0], near[1]), "the patch's inner box holds the nearest pixel")
    ix = p.getIndex()
    e.prove(conj(ix.x >= 0, ix.x < nx, ix.y >= 0, ix.y < ny), "the patch belongs to the tract")
    q = t.getPatchInfo((ix.x, ix.y))
    e.prove(conj(same_box(p.getInnerBBox(), q.getInnerBBox()), p.getSequentialIndex() == q.getSequentialIndex(),
                 same_box(p.getOuterBBox(), q.getOuterBBox())), "it is the patch of that index")
    e.cover("found")


for _k in ("legacy", "cells"):
    contract("findPatch and contains (%s)" % _k, covers=("found", "not found"))(lambda e, k=_k: find(e, k))
