"""C08: patch search over a region misses no patch and repeats none."""
import z3

from .common import *
from .find import member, no_repeat
from pyvc import solve
from pyvc.core import py_floor, py_ceil, toreal, lift, SymInt, SymReal, SymBool
from pyvc.loops import zint

CONTRACTS, contract = registry()
EPS = G.Box2D.EPSILON


class Region:
    """A coordinate list of any length, what is known of its pixel positions: [lo, hi] is
    the smallest box holding the computable ones, each side attained; or none is computable."""

    def __init__(self, e, t, some, axis):
        self.e, self.t, self.some, self.axis = e, t, some, axis
        self.w = t.getWcs()
        self.n = e.input_int("numCoords", 0)
        self.f = z3.Function("regionCoord", core.INT, deps.Coord)
        self.list = loops.SymSeq(self.n, lambda i: deps.coord(e, self.f(zint(i))))
        e.memo["pixel_hook"] = self.hook
        if not some:
            return
        self.lo = [e.input_real("regionLo%d" % n, -2**31) for n in range(2)]
        self.hi = [e.input_real("regionHi%d" % n, None, 2**31 - 1) for n in range(2)]
        self.past, self.wit = [], []
        for n in range(2):
            h = self.hi[n]
            e.assume(self.lo[n] <= h)
            v = e.fresh_real("past%d" % n)
            e.assume(v == h + (1 + abs(h))*EPS)
            e.memo.setdefault("bound_defs", []).append((v, (h + (1 + abs(h))*EPS).z))
            e.memo.setdefault("bounds", []).append((self.lo[n], h, v))
            self.past.append(v)
            for side in (self.lo[n], h):
                i = e.fresh_int("attained", 0)
                e.assume(i < self.n)
                c = self.f(i.z)
                e.assume(z3.And(deps.STATUS(self.w.base, c) == 0, self.pix(c, n) == side.z))
                self.wit.append((i, n, side))
                self.within(c, z3.BoolVal(True))

    def pix(self, c, n):
        return deps.PX[n](self.w.base, c) + toreal(lift(self.w.crpix[n]))

    def within(self, c, cond):
        for n in range(2):
            self.e.assume(z3.Implies(cond, z3.And(self.pix(c, n) >= self.lo[n].z, self.pix(c, n) <= self.hi[n].z)))

    def hook(self, w, t, p):
        if not t.decl().eq(self.f) or not z3.eq(w.base, self.w.base):
            return
        i = t.arg(0)
        cond = z3.And(i >= 0, i < zint(self.n))
        if not self.some:
            self.e.assume(z3.Not(cond))
        else:
            self.within(t, cond)

    def template(self, st, e):
        out = []
        for n, v in st.vals.items():
            if type(v).__name__ != "Box2D":
                continue
            if not self.some:
                out.append(("%s empty" % n, v.isEmpty()))
                continue
            if not v.isEmpty():
                for a in range(2):
                    out.append(("%s above %d" % (n, a), v._lo[a] >= self.lo[a]))
                    out.append(("%s below %d" % (n, a), v._hi[a] <= self.past[a]))
            for j, (i, a, side) in enumerate(self.wit):
                out.append(("%s reaches %d" % (n, j), implies(
                    st.k > i, False if v.isEmpty() else (v._lo[a] <= side if j % 2 == 0 else side < v._hi[a]))))
        return out

    def boxes(self, border):
        """Pixel box of the coordinates grown by the border, clipped to the tract (exactly, and
        with the maximum moved by the rounding of Box2D.include)."""
        tb = self.t.getBBox()
        out = []
        for top in (self.hi, self.past):
            lo, hi = [], []
            for n in range(2):
                a = py_floor(self.lo[n] + 0.5) - border
                b = (py_floor(top[n] + 0.5) if top is self.hi else py_ceil(top[n] - 0.5)) + border
                mx = tb.getMax()[n]
                lo.append(ite(a < 0, 0, a))
                hi.append(ite(b > mx, mx, b))
            out.append((lo, hi))
        return out


def meets(lay, i, j, b):
    """The inner box of patch (i, j) meets the box b (which must not be empty)."""
    lo, hi = b
    return conj(lo[0] <= hi[0], lo[1] <= hi[1],
                i*lay.w <= hi[0], i*lay.w + lay.w - 1 >= lo[0], j*lay.h <= hi[1], j*lay.h + lay.h - 1 >= lo[1])


def setup(e, kind, some):
    lay = layout(e, kind)
    t = shaped_tract(e, lay)
    r = Region(e, t, some, None)
    e.templates = [r.template]
    return lay, t, r


def sound(e, kind):
    lay, t, r = setup(e, kind, True)
    nx, ny = t.getNumPatches()
    res = t.findPatchList(r.list)
    p, _ = loops.pick(res, "result")
    i, j = p.getIndex()
    e.prove(conj(i >= 0, j >= 0, i < nx, j < ny), "results are patches of the tract")
    b = p.getInnerBBox()
    e.prove(conj(b.getMinX() == i*lay.w, b.getMinY() == j*lay.h, b.getWidth() == lay.w, b.getHeight() == lay.h,
                 p.getSequentialIndex() == nx*j + i), "each result is the patch of its index")
    exact, rounded = r.boxes(lay.border)
    e.prove(disj(meets(lay, i, j, exact), meets(lay, i, j, rounded)),
            "the inner box of each result meets the grown, clipped box of the coordinates")
    no_repeat(e, res, lambda q: q.getIndex(), "no patch is returned twice")
    e.cover("result")


def complete(e, kind):
    lay, t, r = setup(e, kind, True)
    nx, ny = t.getNumPatches()
    i, j = e.input_int("i", 0), e.input_int("j", 0)
    e.assume(conj(i < nx, j < ny))
    exact, _ = r.boxes(lay.border)
    # a patch whose outer box has a pixel of the coordinates' box in the tract meets it
    x, y = e.fresh_int("x"), e.fresh_int("y")
    o = t.getPatchInfo((i, j)).getOuterBBox()
    raw = [(py_floor(r.lo[n] + 0.5), py_floor(r.hi[n] + 0.5)) for n in range(2)]
    e.prove(implies(conj(in_box(o, x, y), in_box(t.getBBox(), x, y), x >= raw[0][0], x <= raw[0][1],
                         y >= raw[1][0], y <= raw[1][1]), meets(lay, i, j, exact)),
            "a patch whose outer box reaches into the coordinates' box is among those sought")
    e.assume(meets(lay, i, j, exact))
    res = t.findPatchList(r.list)
    member(e, res, lambda p: p.getIndex(), (i, j), "every patch meeting the box is returned")
    e.cover("sought")


def nothing(e, kind):
    """No position computable, or nothing overlaps."""
    lay, t, r = setup(e, kind, False)
    res = t.findPatchList(r.list)
    e.prove(conj(rt.b_len(res) == 0), "empty when no position can be computed")
    e.cover("nothing")


def disjoint(e, kind):
    lay, t, r = setup(e, kind, True)
    _, (lo, hi) = r.boxes(lay.border)
    e.assume(disj(lo[0] > hi[0], lo[1] > hi[1]))
    res = t.findPatchList(r.list)
    e.prove(conj(rt.b_len(res) == 0), "empty when nothing overlaps")
    e.cover("disjoint")


for _k in ("legacy", "cells"):
    contract("results are sought and unrepeated (%s)" % _k, covers=("result",))(lambda e, k=_k: sound(e, k))
    contract("every sought patch is returned (%s)" % _k, covers=("sought",))(lambda e, k=_k: complete(e, k))
    contract("no computable position (%s)" % _k, covers=("nothing",))(lambda e, k=_k: nothing(e, k))
    contract("no overlap (%s)" % _k, covers=("disjoint",))(lambda e, k=_k: disjoint(e, k))
