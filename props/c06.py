"""C06: sequential cell index is a bijection; patches without cells say so."""
from .common import *
from .c05 import patch, cell_index

CONTRACTS, contract = registry()


def same(e, p, lay, q, u, v, n, what):
    e.prove(conj(q.getIndex().x == u, q.getIndex().y == v, q.index[0] == u, q.index[1] == v),
            "%s: index asked for" % what)
    e.prove(conj(q.getSequentialIndex() == n, q.sequential_index == n), "%s: number asked for" % what)
    b, o = q.getInnerBBox(), p.getInnerBBox()
    e.prove(conj(b.getMinX() == o.getMinX() + (u - lay.m)*lay.cw, b.getMinY() == o.getMinY() + (v - lay.m)*lay.ch),
            "%s: box of that cell" % what)


@contract("index pairs", covers=("pair",))
def pairs(e):
    from lsst.skymap.detail import Index2D
    lay, t, p, i, j = patch(e)
    u, v = cell_index(e, lay, "u", "v")
    k = lay.n + 2*lay.m
    n = k*v + u
    e.prove(conj(n >= 0, n < k*k), "numbers of cells lie in [0, number of cells)")
    for form, ix in (("Index2D", Index2D(x=u, y=v)), ("tuple", (u, v)), ("list", lst(u, v))):
        e.prove(p.getSequentialCellIndexFromPair(ix) == n, "%s: row by row numbering" % form)
        q = p.getCellInfo(ix)
        same(e, p, lay, q, u, v, n, form)
        e.prove(p.getSequentialCellIndex(q) == n, "%s: number of the cell" % form)
        same(e, p, lay, p[ix], u, v, n, form + " in brackets")
    ix = p.getCellIndexPair(n)
    e.prove(conj(ix.x == u, ix.y == v, ix[0] == u, ix[1] == v), "number to pair inverts pair to number")
    same(e, p, lay, p.getCellInfo(n), u, v, n, "number")
    same(e, p, lay, p[n], u, v, n, "number in brackets")
    e.cover("pair")


@contract("sequential numbers", covers=("number",))
def numbers_(e):
    lay, t, p, i, j = patch(e)
    k = lay.n + 2*lay.m
    n = e.input_int("n", 0)
    e.assume(n < k*k)
    ix = p.getCellIndexPair(n)
    e.prove(conj(ix.x >= 0, ix.x < k), "column of a number is in the grid")
    e.prove(conj(ix.y >= 0, ix.y < k), "row of a number is in the grid")
    e.prove(p.getSequentialCellIndexFromPair(ix) == n, "pair to number inverts number to pair")
    e.prove(rt.b_len(p) == k*k, "length is the number of cells")
    e.cover("number")


@contract("outside the grid", covers=("outside",))
def outside(e):
    from lsst.skymap.detail import Index2D
    lay, t, p, i, j = patch(e)
    k = lay.n + 2*lay.m
    u, v = e.input_int("u"), e.input_int("v")
    e.assume(disj(u < 0, v < 0, u >= k, v >= k))
    for form, ix in (("Index2D", Index2D(x=u, y=v)), ("tuple", (u, v)), ("list", lst(u, v))):
        for how, f in (("getCellInfo", p.getCellInfo), ("[]", p.__getitem__)):
            _, exc = raises(e, lambda: f(ix), IndexError)
            e.prove(exc is not None, "%s outside the grid: IndexError from %s" % (form, how))
    n = e.input_int("n")
    e.assume(disj(n < 0, n >= k*k))
    for how, f in (("getCellInfo", p.getCellInfo), ("[]", p.__getitem__)):
        _, exc = raises(e, lambda: f(n), IndexError)
        e.prove(exc is not None, "number outside the grid: IndexError from %s" % how)
    e.cover("outside")


def iter_list(t):
    r = loops.iter_of(t)
    return r.lst if isinstance(r, loops.VIter) else r


@contract("iteration", covers=("iterated",))
def iteration(e):
    lay, t, p, i, j = patch(e)
    k = lay.n + 2*lay.m
    it = iter_list(p)
    q, pos = loops.pick(it, "produced")
    n = q.getSequentialIndex()
    e.prove(conj(n >= 0, n < k*k), "iteration gives cells of the patch")
    if pos is None:
        raise core.Unsupported("position of an iterated element")
    e.prove(pos == n, "iteration is in sequential order")
    e.prove(it._pyvc_len() == k*k, "iteration gives as many cells as the length says")
    e.prove(rt.b_len(p) == k*k, "length is the number of cells")
    e.cover("iterated")


@contract("patches without cells", covers=("none",))
def without(e):
    from lsst.skymap.detail import Index2D
    lay = legacy(e)
    t = any_tract(e, lay)
    nx, ny = t.getNumPatches()
    i, j = e.input_int("i", 0), e.input_int("j", 0)
    e.assume(conj(i < nx, j < ny))
    p = t.getPatchInfo((i, j))
    e.prove(rt.b_len(p) == 0, "no cells: length zero")
    it = iter_list(p)
    e.prove(len(loops.parts_of(it)) == 0, "no cells: iterates over nothing")
    u, v, n = e.input_int("u"), e.input_int("v"), e.input_int("n")
    for form, ix in (("Index2D", Index2D(x=u, y=v)), ("tuple", (u, v)), ("number", n)):
        for how, f in (("getCellInfo", p.getCellInfo), ("[]", p.__getitem__)):
            _, exc = raises(e, lambda: f(ix), IndexError)
            e.prove(exc is not None, "no cells: IndexError for a %s from %s" % (form, how))
    _, exc = raises(e, lambda: p.getCellIndexPair(n), IndexError)
    e.prove(exc is not None, "no cells: IndexError from getCellIndexPair")
    e.cover("none")
