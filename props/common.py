"""Contracts: declaration, and the builders of arbitrary lsst.skymap objects they share."""
from pyvc import core, loops, rt
from pyvc.core import conj, disj, neg, implies, issym, ite
from . import deps
import standin.geom as G


class Contract:
    def __init__(self, name, fn, covers=(), timeout=10.0, budget=300.0, max_paths=6000, templates=()):
        self.name, self.fn, self.covers, self.timeout = name, fn, covers, timeout
        self.budget, self.max_paths, self.templates = budget, max_paths, templates


def registry():
    cs = []

    def contract(name, **kw):
        def deco(fn):
            cs.append(Contract(name, fn, **kw))
            return fn
        return deco
    return cs, contract


def lst(*items):
    return rt.mklist(items)


# ------------------------------------------------------------------ tract builders
class Layout:
    """An arbitrary tract builder configuration, and what it means."""


def legacy(e, cellfree=True):
    from lsst.skymap.tractBuilder import LegacyTractBuilder
    lay = Layout()
    lay.kind = "legacy"
    lay.w, lay.h = e.input_int("patchW", 1), e.input_int("patchH", 1)
    lay.border = e.input_int("patchBorder", 0)
    lay.sub = deps.Cfg(patchInnerDimensions=lst(lay.w, lay.h), patchBorder=lay.border)
    lay.cls = LegacyTractBuilder
    lay.cells = None
    return lay


def cells(e):
    from lsst.skymap.tractBuilder import CellTractBuilder
    lay = Layout()
    lay.kind = "cells"
    lay.cw = e.input_int("cellW", 1)
    # a validated configuration has square cells (C29)
    lay.ch = lay.cw
    lay.cb = e.input_int("cellBorder", 0)
    lay.n = e.input_int("numCellsPerPatchInner", 1)
    lay.m = e.input_int("numCellsInPatchBorder", 0)
    lay.sub = deps.Cfg(cellInnerDimensions=lst(lay.cw, lay.ch), cellBorder=lay.cb,
                       numCellsPerPatchInner=lay.n, numCellsInPatchBorder=lay.m)
    lay.cls = CellTractBuilder
    lay.w = lay.h = lay.n*lay.cw
    lay.border = lay.m*lay.cw + lay.cb
    return lay


def layout(e, kind):
    return legacy(e) if kind == "legacy" else cells(e)


def builder(e, lay):
    return lay.cls(lay.sub)


def any_tract(e, lay, id=None):
    """A tract of any size, built by the real constructor of TractInfo around an
    arbitrary minimum box: the tract's _minimumBoundingBox is not assumed to have any
    particular value (C02 specifies it)."""
    from lsst.skymap.tractInfo import TractInfo
    e.memo["wcs_total"] = True
    wcs = deps.AbsWcs.arbitrary(e, "wcs")
    n = e.input_int("numVertices", 1)
    import z3
    vf = z3.Function("vertex", core.INT, deps.Coord)
    verts = loops.SymSeq(n, lambda i: deps.coord(e, vf(loops.zint(i))))
    overlap = G.Angle(e.input_real("overlap", 0))
    ctr = deps.fresh_coord(e, "ctr")
    tid = e.input_int("tractId", 0) if id is None else id
    t = TractInfo(tid, builder(e, lay), ctr, loops.VList(loops.parts_of(verts)), overlap, wcs)
    e.memo["wcs_total"] = False
    t_ = t
    return t_


def shaped_tract(e, lay, id=None, forget=True):
    """A tract of any size, built by the real constructor from an arbitrary non-empty
    minimum box: what _minimumBoundingBox computes is its own contract (C01, C02)."""
    import z3
    from lsst.skymap.tractInfo import TractInfo

    class AnyTract(TractInfo):
        def _minimumBoundingBox(self, wcs):
            b = G.Box2D()
            b._lo = [e.fresh_real("minLo%d" % i) for i in range(2)]
            b._hi = [e.fresh_real("minHi%d" % i) for i in range(2)]
            for i in range(2):
                e.assume(b._lo[i] < b._hi[i])
            return b
    e.memo["wcs_total"] = True
    wcs = deps.AbsWcs.arbitrary(e, "wcs")
    overlap = G.Angle(e.input_real("overlap", 0))
    tid = e.input_int("tractId", 0) if id is None else id
    verts = lst(deps.fresh_coord(e, "corner"))
    t = AnyTract(tid, builder(e, lay), deps.fresh_coord(e, "ctr"), verts, overlap, wcs)
    e.memo["wcs_total"] = False
    if not forget:
        return t
    # the grid is any number of patches: how it was computed does not matter below
    pairs, facts = [], []
    for n, (num, size) in enumerate(zip(t.getNumPatches(), (lay.w, lay.h))):
        v = e.input_int("numPatches%s" % "xy"[n])
        if not e.check(conj(num >= 1, t.getBBox().getDimensions()[n] == num*size)):
            return t
        if not issym(num):
            return t
        pairs.append((num.z, v.z))
        facts.append(v >= 1)
    t2 = loops.subst(t, pairs)
    e.uses("the constructor gives at least one patch in each dimension and a box of whole patches (contract C01)")
    for f in facts:
        e.assume(f)
    nx, ny = t2.getNumPatches()
    b = t2.getBBox()
    if not (z3.eq(nx.z, pairs[0][1]) and z3.eq(ny.z, pairs[1][1])):
        return t
    for n, (num, size) in enumerate(zip((nx, ny), (lay.w, lay.h))):
        e.assume(b.getDimensions()[n] == num*size)
    return t2


def in_box(box, x, y):
    return conj(x >= box.getMinX(), x <= box.getMaxX(), y >= box.getMinY(), y <= box.getMaxY())


def same_box(a, b):
    return conj(a.getMinX() == b.getMinX(), a.getMinY() == b.getMinY(),
                a.getMaxX() == b.getMaxX(), a.getMaxY() == b.getMaxY())


def raises(e, f, *excs):
    """(value, None) or (None, exception)"""
    try:
        return f(), None
    except excs as x:
        return None, x


class total:
    """While tracts are made: positions near a tract's centre have pixel positions (C02)."""

    def __init__(self, e):
        self.e = e

    def __enter__(self):
        self.was = self.e.memo.get("wcs_total")
        self.e.memo["wcs_total"] = True

    def __exit__(self, *a):
        self.e.memo["wcs_total"] = self.was


def recorded(module, *names):
    """Replaces the tract classes a module constructs by ones that keep the arguments: the
    constructors' own contracts are C01 and C02."""
    import inspect
    mod = __import__("lsst.skymap." + module, fromlist=["x"])
    for name in names or ("ExplicitTractInfo", "TractInfo"):
        real = getattr(mod, name, None)
        if not isinstance(real, type) or getattr(real, "_recorded", False):
            continue
        sig = inspect.signature(real.__init__)

        def make(real=real, sig=sig):
            class Recorded(real):
                _recorded = True

                def __init__(self, *a, **k):
                    b = sig.bind(self, *a, **k)
                    b.apply_defaults()
                    self.made = dict(b.arguments)
                    self.made.pop("self")
                    self._id = self.made["id"]
                    self._ctrCoord = self.made["ctrCoord"]
                    self._tractOverlap = self.made["tractOverlap"]
                    self._wcs = self.made["wcs"]
                    self._innerBoxCorners = self.made["innerBoxCorners"]
                    if "vertexCoordList" in self.made:
                        self._vertexCoordList = self.made["vertexCoordList"]
            Recorded.__name__ = real.__name__
            return Recorded
        new = make()
        setattr(mod, name, new)
        for sub in list(vars(mod).values()):
            # a kind of tract defined by the module itself
            sub = getattr(sub, "__wrapped__", sub)
            if isinstance(sub, type) and sub.__bases__ == (real,) and sub is not new:
                sub.__bases__ = (new,)
    core.ENG.uses("a tract's constructor makes a box around what it is given (contracts C01, C02)")


class named:
    """Inputs made meanwhile have this suffix in their names."""

    def __init__(self, e, suffix):
        self.e, self.suffix = e, suffix

    def __enter__(self):
        self.was, self.e.suffix = self.e.suffix, self.suffix

    def __exit__(self, *a):
        self.e.suffix = self.was


# ------------------------------------------------------------------ maps of every kind
class AnyMap:
    pass


def base_config(e, kind="legacy", **kw):
    """Any validated configuration of a map (the fields every kind of map has)."""
    lay = layout(e, kind)
    c = deps.Cfg(tractOverlap=e.input_real("tractOverlap", 0), pixelScale=e.input_real("pixelScale"),
                 projection=kw.pop("projection", "TAN"), rotation=e.input_real("rotation"),
                 tractBuilder=deps.BuilderField(lay.kind, lay.cls, lay.sub), **kw)
    e.assume(c.pixelScale > 0)
    return c, lay


def real_list(e, name, n, lo=None, hi=None):
    """A list of n arbitrary numbers (symbolic n)."""
    import z3
    f = z3.Function(name + e.suffix, core.INT, core.REAL)

    def elem(i):
        v = core.SymReal(f(loops.zint(i)))
        if lo is not None:
            e.assume(core.conj(v >= lo, v <= hi))
        return v
    return loops.VList([loops.FnSeg(n, elem)])


def discrete(e, kind="legacy", **kw):
    """Any discrete map, by the real constructor."""
    from lsst.skymap.discreteSkyMap import DiscreteSkyMap
    r = AnyMap()
    r.n = e.input_int("tracts", 0)
    r.ra, r.dec = real_list(e, "ras", r.n), real_list(e, "decs", r.n, -90, 90)
    r.radius = real_list(e, "radii", r.n)
    r.config, r.lay = base_config(e, kind, raList=r.ra, decList=r.dec, radiusList=r.radius, **kw)
    r.map = DiscreteSkyMap(r.config)
    return r


def healpix(e, kind="legacy", **kw):
    from lsst.skymap.healpixSkyMap import HealpixSkyMap
    r = AnyMap()
    r.log2 = e.input_int("log2NSide", 0)
    r.nest = e.input_bool("nest")
    r.config, r.lay = base_config(e, kind, log2NSide=r.log2, nest=r.nest, **kw)
    r.map = HealpixSkyMap(r.config)
    r.nside = 1 << r.log2
    r.n = 12*r.nside*r.nside
    return r


def equat(e, kind="legacy", **kw):
    from lsst.skymap.equatSkyMap import EquatSkyMap
    r = AnyMap()
    r.n = e.input_int("tracts", 1)
    r.lo, r.hi = e.input_real("decLo", -90, 90), e.input_real("decHi", -90, 90)
    kw.setdefault("projection", "CEA")
    r.config, r.lay = base_config(e, kind, numTracts=r.n, decRange=lst(r.lo, r.hi), **kw)
    r.map = EquatSkyMap(r.config)
    return r


def dodeca(e, poles, kind="legacy", **kw):
    from lsst.skymap.dodecaSkyMap import DodecaSkyMap
    r = AnyMap()
    r.n = 12
    kw.setdefault("projection", "STG")
    r.config, r.lay = base_config(e, kind, withTractsOnPoles=poles, **kw)
    r.map = DodecaSkyMap(r.config)
    return r
