"""C02: the tract box encloses its required region with less than a patch of excess."""
import math

import z3

from .common import *
from pyvc import solve
from pyvc.core import SymReal, SymInt, lift, toreal, py_floor, py_ceil
from pyvc.loops import zint

CONTRACTS, contract = registry()
EPS = G.Box2D.EPSILON


class Required:
    """The points the tract must cover: named by (vertex index, direction), each with its
    pixel position in the initial coordinate system; M is their smallest box, each side
    of which is attained (the set is finite and not empty)."""

    def __init__(self, e, wcs, points, nd, axis):
        # points(v, d) -> coordinate term for vertex index v and concrete direction d
        self.e, self.wcs, self.points, self.nd, self.axis = e, wcs, points, nd, axis
        self.lo = [e.fresh_real("reqlo%d" % n) for n in range(2)]
        self.hi = [e.fresh_real("reqhi%d" % n) for n in range(2)]
        self.w = []
        for side in ("lo", "hi", "any"):
            v, d = e.input_int("v_" + side, 0), e.input_int("d_" + side, 0, nd - 1)
            p = [e.fresh_real("p_%s%d" % (side, n)) for n in range(2)]
            for i in range(nd):
                t = points(zint(v), i)
                e.assume(z3.Implies(d.z == i, z3.And(*[p[n].z == self.pix(t, n) for n in range(2)])), heavy=True)
            self.w.append((side, v, d, p))
            for n in range(2):
                e.assume(conj(p[n] >= self.lo[n], p[n] <= self.hi[n]))
        for n in range(2):
            # pixel coordinates fit the library's integers
            e.assume(conj(self.lo[n] >= -2**31, self.hi[n] < 2**31))
        # just past the upper side, as Box2D.include puts it
        self.past = []
        for n in range(2):
            h = self.hi[n]
            t = h + (1 + abs(h))*EPS
            v = e.fresh_real("past%d" % n)
            e.assume(v == t)
            e.memo.setdefault("bound_defs", []).append((v, t.z))
            e.memo.setdefault("bounds", []).append((self.lo[n], h, v))
            self.past.append(v)
        e.assume(self.w[0][3][axis] == self.lo[axis])
        e.assume(self.w[1][3][axis] == self.hi[axis])

    def pix(self, t, n):
        return deps.PX[n](self.wcs.base, t) + toreal(lift(self.wcs.crpix[n]))

    def top(self):
        return self.past[self.axis]

    def in_m(self, cond, t, i=None, dirn=0):
        """Every required point lies in M; a witness with this index is this point."""
        for side, v, d, p in self.w:
            if i is not None:
                same = z3.And(cond, v.z == i, d.z == dirn)
                eqs = [p[n].z == self.pix(t, n) for n in range(2)]
                defs = [z3.Implies(d.z == dirn, z3.And(*[p[n].z == self.pix(self.points(v.z, dirn), n)
                                                         for n in range(2)]))]
                st, _ = solve.prove(defs, z3.Implies(same, z3.And(*eqs)), 3.0, want_model=False)
                if st == "proved":
                    self.e.assume(z3.Implies(same, z3.And(*eqs)))
        for n in range(2):
            self.e.assume(z3.Implies(cond, z3.And(self.pix(t, n) >= self.lo[n].z, self.pix(t, n) <= self.hi[n].z)))

    def template(self, st, e):
        out = []
        a = self.axis
        for n, v in st.vals.items():
            if type(v).__name__ != "Box2D":
                continue
            if not v.isEmpty():
                out.append(("%s above M" % n, v._lo[a] >= self.lo[a]))
                out.append(("%s below M" % n, v._hi[a] <= self.top()))
            # the two extreme points are held once their vertex is passed
            out.append(("%s reaches lo" % n, implies(st.k > self.w[0][1],
                                                     False if v.isEmpty() else v._lo[a] <= self.w[0][3][a])))
            out.append(("%s reaches hi" % n, implies(st.k > self.w[1][1],
                                                     False if v.isEmpty() else self.w[1][3][a] < v._hi[a])))
        return out

    def claims(self, t, size):
        e, a = self.e, self.axis
        fin = t.getWcs()
        s = fin.crpix[a] - self.wcs.crpix[a]
        box = t.getBBox()
        W = box.getDimensions()[a]
        lo, hi = self.lo[a] + s, self.hi[a] + s
        e.prove(z3.And(z3.IsInt(lift(s)) if lift(s).sort() == core.REAL else z3.BoolVal(True), fin.base == self.wcs.base),
                "the coordinate system moves by whole pixels and is otherwise unchanged")
        # any required point
        p = self.w[2][3]
        e.prove(conj(p[a] + s >= box.getMin()[a] - 0.5, p[a] + s <= box.getMax()[a] + 0.5),
                "the box encloses every required position")
        left = py_floor(lo + 0.5) - box.getMin()[a]
        ok = False
        for h in (hi, self.top() + s):
            right = box.getMax()[a] - py_ceil(h - 0.5)
            ok = disj(ok, conj(left >= 0, right >= 0, left + right < size, left - right <= 1, right - left <= 1))
        e.prove(ok, "the excess is less than one patch, shared between the sides to within a pixel")
        # no sky position changes
        x, y = e.input_real("px"), e.input_real("py")
        s2 = [fin.crpix[n] - self.wcs.crpix[n] for n in range(2)]
        e.prove(self.wcs.pixelToSky(G.Point2D(x, y)) == fin.pixelToSky(G.Point2D(x + s2[0], y + s2[1])),
                "the final coordinate system maps the box to the same sky")
        e.cover("built")


def vertices(e, kind, zero, axis):
    from lsst.skymap.tractInfo import TractInfo
    lay = layout(e, kind)
    wcs = deps.AbsWcs.arbitrary(e, "wcs")
    e.memo["wcs_total"] = True
    n = e.input_int("numVertices", 1)
    vf = z3.Function("vertex", core.INT, deps.Coord)
    if zero:
        ov = G.Angle(0.0)
        r = Required(e, wcs, lambda v, d: vf(v), 1, axis)
    else:
        o = e.input_real("overlap", 0)
        e.assume(o > 0)
        ov = G.Angle(o)
        half = (o/2).z
        r = Required(e, wcs, lambda v, d: deps.OFFSET(vf(v), deps.real(G.Angle(2*math.pi*d/24)), half), 24, axis)
    for _, v, _, _ in r.w:
        e.assume(v < n)

    def hook(w, t, p):
        """Universal facts about the required points, instantiated at the points computed."""
        u, cond, dirn = t, z3.BoolVal(True), 0
        if not zero:
            if not t.decl().eq(deps.OFFSET):
                return
            b = t.arg(1)
            if not z3.is_rational_value(b):
                return
            d = float(b.as_fraction())/(2*math.pi)*24
            if abs(d - round(d)) > 1e-7:
                return
            dirn = round(d)
            cond = t.arg(2) == half
            u = t.arg(0)
        if u.decl().eq(vf):
            i = u.arg(0)
            r.in_m(z3.And(cond, i >= 0, i < n.z), t, i, dirn)
    e.memo["pixel_hook"] = hook
    e.templates = [r.template]
    verts = loops.SymSeq(n, lambda i: deps.coord(e, vf(zint(i))))
    t = TractInfo(e.input_int("tractId", 0), builder(e, lay), deps.fresh_coord(e, "ctr"), verts, ov, wcs)
    r.claims(t, (lay.w, lay.h)[axis])


def radius(e, kind, axis):
    from lsst.skymap.tractInfo import ExplicitTractInfo
    lay = layout(e, kind)
    wcs = deps.AbsWcs.arbitrary(e, "wcs")
    e.memo["wcs_total"] = True
    ctr = deps.fresh_coord(e, "ctr")
    rad, o = e.input_real("radius", 0), e.input_real("overlap", 0)
    tot = rad.z + o.z

    def pt(v, d):
        return deps.OFFSET(ctr._t, deps.real(G.Angle(math.pi/2*d)), tot)
    r = Required(e, wcs, pt, 4, axis)

    def hook(w, t, p):
        if not t.decl().eq(deps.OFFSET) or not z3.is_rational_value(t.arg(1)):
            return
        d = float(t.arg(1).as_fraction())/(math.pi/2)
        if abs(d - round(d)) < 1e-7:
            r.in_m(z3.And(t.arg(0) == ctr._t, t.arg(2) == tot), t)
    e.memo["pixel_hook"] = hook
    t = ExplicitTractInfo(e.input_int("tractId", 0), builder(e, lay), ctr, G.Angle(rad), G.Angle(o), wcs)
    r.claims(t, (lay.w, lay.h)[axis])


for _k in ("legacy", "cells"):
    for _a in (0, 1):
        _n = "%s, %s" % (_k, "xy"[_a])
        contract("vertices (%s)" % _n, covers=("built",))(lambda e, k=_k, a=_a: vertices(e, k, True, a))
        contract("vertices with overlap (%s)" % _n, covers=("built",))(lambda e, k=_k, a=_a: vertices(e, k, False, a))
        contract("centre and radius (%s)" % _n, covers=("built",))(lambda e, k=_k, a=_a: radius(e, k, a))
