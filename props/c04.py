"""C04: sequential patch index is a bijection; all index forms agree."""
import z3

from .common import *
from pyvc.core import SymInt
from pyvc.loops import zint

CONTRACTS, contract = registry()


def same_patch(e, t, p, x, y, n, what):
    lay = t._lay
    e.prove(conj(p.getIndex().x == x, p.getIndex().y == y, p.getIndex()[0] == x, p.getIndex()[1] == y,
                 p.index[0] == x), "%s: index asked for" % what)
    e.prove(conj(p.getSequentialIndex() == n, p.sequential_index == n), "%s: number asked for" % what)
    b = p.getInnerBBox()
    e.prove(conj(b.getMinX() == x*lay.w, b.getMinY() == y*lay.h, b.getWidth() == lay.w, b.getHeight() == lay.h),
            "%s: box of that patch" % what)


def make(e, kind):
    lay = layout(e, kind)
    t = any_tract(e, lay)
    t._lay = lay
    return t, lay


def pairs(e, kind):
    """pair -> number -> pair, and the forms of a pair."""
    from lsst.skymap.detail import Index2D
    t, lay = make(e, kind)
    nx, ny = t.getNumPatches()
    x, y = e.input_int("x", 0), e.input_int("y", 0)
    e.assume(conj(x < nx, y < ny))
    n = nx*y + x
    e.prove(conj(n >= 0, n < nx*ny), "numbers of patches lie in [0, number of patches)")
    for form, ix in (("Index2D", Index2D(x=x, y=y)), ("tuple", (x, y)), ("list", lst(x, y))):
        e.prove(t.getSequentialPatchIndexFromPair(ix) == n, "%s: row by row numbering" % form)
        p = t.getPatchInfo(ix)
        same_patch(e, t, p, x, y, n, form)
        e.prove(t.getSequentialPatchIndex(p) == n, "%s: number of the patch" % form)
        q = t[ix]
        same_patch(e, t, q, x, y, n, form + " in brackets")
    ix = t.getPatchIndexPair(n)
    e.prove(conj(ix[0] == x, ix[1] == y, ix.x == x, ix.y == y), "number to pair inverts pair to number")
    same_patch(e, t, t.getPatchInfo(n), x, y, n, "number")
    same_patch(e, t, t[n], x, y, n, "number in brackets")
    e.cover("pair")


def numbers_(e, kind):
    """number -> pair -> number."""
    t, lay = make(e, kind)
    nx, ny = t.getNumPatches()
    n = e.input_int("n", 0)
    e.assume(n < nx*ny)
    ix = t.getPatchIndexPair(n)
    e.prove(conj(ix.x >= 0, ix.x < nx), "column of a number is in the grid")
    e.prove(conj(ix.y >= 0, ix.y < ny), "row of a number is in the grid")
    e.prove(t.getSequentialPatchIndexFromPair(ix) == n, "pair to number inverts number to pair")
    e.prove(conj(len_(t) == nx*ny), "length is the number of patches")
    e.cover("number")


def len_(t):
    return rt.b_len(t)


def outside(e, kind):
    from lsst.skymap.detail import Index2D
    t, lay = make(e, kind)
    nx, ny = t.getNumPatches()
    x, y = e.input_int("x"), e.input_int("y")
    e.assume(disj(x < 0, y < 0, x >= nx, y >= ny))
    for form, ix in (("Index2D", Index2D(x=x, y=y)), ("tuple", (x, y)), ("list", lst(x, y))):
        for how, f in (("getPatchInfo", t.getPatchInfo), ("[]", t.__getitem__)):
            v, exc = raises(e, lambda: f(ix), IndexError)
            e.prove(exc is not None, "%s outside the grid: IndexError from %s" % (form, how))
    n = e.input_int("n")
    e.assume(disj(n < 0, n >= nx*ny))
    for how, f in (("getPatchInfo", t.getPatchInfo), ("[]", t.__getitem__)):
        v, exc = raises(e, lambda: f(n), IndexError)
        e.prove(exc is not None, "number outside the grid: IndexError from %s" % how)
    e.cover("outside")


def iteration(e, kind):
    t, lay = make(e, kind)
    nx, ny = t.getNumPatches()
    it = iter_list(t)
    # any element produced: its place is its number
    p, pos = loops.pick(it, "produced")
    n = p.getSequentialIndex()
    e.prove(conj(n >= 0, n < nx*ny), "iteration gives patches of the tract")
    if pos is None:
        raise core.Unsupported("position of an iterated element")
    e.prove(pos == n, "iteration is in sequential order")
    e.prove(it._pyvc_len() == nx*ny, "iteration gives as many patches as the length says")
    e.prove(rt.b_len(t) == nx*ny, "length is the number of patches")
    e.cover("iterated")


def iter_list(t):
    r = loops.iter_of(t)
    return r.lst if isinstance(r, loops.VIter) else r


for _k in ("legacy", "cells"):
    contract("index pairs (%s)" % _k, covers=("pair",))(lambda e, k=_k: pairs(e, k))
    contract("sequential numbers (%s)" % _k, covers=("number",))(lambda e, k=_k: numbers_(e, k))
    contract("outside the grid (%s)" % _k, covers=("outside",))(lambda e, k=_k: outside(e, k))
    contract("iteration (%s)" % _k, covers=("iterated",))(lambda e, k=_k: iteration(e, k))
