"""C30: patch and cell descriptions compare by value and refuse impossible boxes."""
from .common import *

CONTRACTS, contract = registry()


def a_box(e, name, empty=False):
    """Any non-empty box."""
    x, y = e.input_int(name + "x"), e.input_int(name + "y")
    return G.Box2I(G.Point2I(x, y), G.Extent2I(e.input_int(name + "w", 1), e.input_int(name + "h", 1)))


def inside(a, b):
    """Box a lies in box b."""
    return conj(a.getMinX() >= b.getMinX(), a.getMinY() >= b.getMinY(),
                a.getMaxX() <= b.getMaxX(), a.getMaxY() <= b.getMaxY())


def parts(e, s, celled=False):
    """Arbitrary arguments of a patch or cell description."""
    from lsst.skymap.detail import Index2D
    d = {"index": Index2D(x=e.input_int("ix" + s), y=e.input_int("iy" + s)),
         "innerBBox": a_box(e, "inner" + s), "outerBBox": a_box(e, "outer" + s),
         "sequentialIndex": e.input_int("seq" + s), "tractWcs": deps.AbsWcs.arbitrary(e, "wcs" + s)}
    if celled:
        d.update(cellInnerDimensions=G.Extent2I(e.input_int("cw" + s, 0), e.input_int("ch" + s, 0)),
                 cellBorder=e.input_int("cb" + s, 0), numCellsPerPatchInner=e.input_int("n" + s, 0),
                 numCellsInPatchBorder=e.input_int("m" + s, 0))
    return d


def same(a, b):
    return conj(a["index"].x == b["index"].x, a["index"].y == b["index"].y,
                same_box(a["innerBBox"], b["innerBBox"]), same_box(a["outerBBox"], b["outerBBox"]))


def ncells(d):
    return ite(d["numCellsPerPatchInner"] == 0, 0, d["numCellsPerPatchInner"] + 2*d["numCellsInPatchBorder"])


def equality(e, cls, celled):
    a, b = parts(e, "A", celled), parts(e, "B", celled)
    e.assume(conj(inside(a["innerBBox"], a["outerBBox"]), inside(b["innerBBox"], b["outerBBox"])))
    p, q = cls(**a), cls(**b)
    want = same(a, b)
    if celled:
        want = conj(want, ncells(a) == ncells(b), a["cellBorder"] == b["cellBorder"])
    eq = p == q
    e.prove(eq if core.truth(want) is True else core.SymBool(core.truth(eq) == core.truth(want)),
            "equal exactly when the values are")
    e.cover("equal" if bool(eq) else "unequal")
    e.prove(core.SymBool(core.truth(p != q) == core.truth(neg(eq))), "unequal exactly when not equal")


def construct(e, cls, celled):
    a = parts(e, "A", celled)
    fits = inside(a["innerBBox"], a["outerBBox"])
    p, exc = raises(e, lambda: cls(**a), RuntimeError)
    if exc is not None:
        e.prove(neg(fits), "refused only when the outer box does not contain the inner box")
        e.cover("refused")
        return
    e.prove(fits, "accepted only when the outer box contains the inner box")
    e.cover("accepted")
    for f, v in ((p.getIndex(), a["index"]), (p.index, a["index"])):
        e.prove(conj(f.x == v.x, f.y == v.y), "index as given")
    for f in (p.getSequentialIndex(), p.sequential_index):
        e.prove(f == a["sequentialIndex"], "sequential index as given")
    for f in (p.getInnerBBox(), p.inner_bbox):
        e.prove(same_box(f, a["innerBBox"]), "inner box as given")
    for f in (p.getOuterBBox(), p.outer_bbox):
        e.prove(same_box(f, a["outerBBox"]), "outer box as given")
    for f in (p.getWcs(), p.wcs):
        e.prove(f == a["tractWcs"], "coordinate system as given")
    if celled:
        for f in (p.getNumCells(), p.num_cells):
            e.prove(conj(f.x == ncells(a), f.y == ncells(a)), "number of cells, border cells included")
        for f in (p.getCellBorder(), p.cell_border):
            e.prove(f == a["cellBorder"], "cell border as given")
        for f in (p.getCellInnerDimensions(), p.cell_inner_dimensions):
            e.prove(conj(f[0] == a["cellInnerDimensions"][0], f[1] == a["cellInnerDimensions"][1]),
                    "cell dimensions as given")


def _cls(n):
    import lsst.skymap.patchInfo
    import lsst.skymap.cellInfo
    return lsst.skymap.patchInfo.PatchInfo if n == "PatchInfo" else lsst.skymap.cellInfo.CellInfo


for _n, _c in (("CellInfo", False), ("PatchInfo", True)):
    contract("%s equality" % _n, covers=("equal", "unequal"))(lambda e, n=_n, c=_c: equality(e, _cls(n), c))
    contract("%s construction" % _n, covers=("accepted", "refused"))(lambda e, n=_n, c=_c: construct(e, _cls(n), c))


@contract("cell dimensions are two values", covers=("three", "one", "none", "number"))
def dims_(e):
    a = parts(e, "A")
    e.assume(inside(a["innerBBox"], a["outerBBox"]))
    v = e.input_int("v", 1)
    for what, d in (("three", (v, v, v)), ("one", (v,)), ("none", ()), ("number", v)):
        p, exc = raises(e, lambda: _cls("PatchInfo")(cellInnerDimensions=d, **a), ValueError)
        e.prove(exc is not None, "ValueError for %s" % what)
        e.cover(what)
    p = _cls("PatchInfo")(cellInnerDimensions=lst(v, v), **a)
    e.prove(conj(p.getCellInnerDimensions()[0] == v, p.getCellInnerDimensions()[1] == v), "two values are accepted")
