"""Arbitrary rings maps, by the real constructor, and what their configuration means."""
import math
from fractions import Fraction

import z3

from .common import *
from pyvc.core import SymInt, SymReal, SymBool, toreal, lift, truth
from pyvc.loops import zint

PI = math.pi
TWOPI = 2*math.pi


class Rings:
    pass


def config(e, kind="legacy", **kw):
    """Any validated configuration of a map (the fields every kind of map has)."""
    lay = layout(e, kind)
    c = deps.Cfg(tractOverlap=e.input_real("tractOverlap", 0), pixelScale=e.input_real("pixelScale"),
                 projection=kw.pop("projection", "TAN"), rotation=e.input_real("rotation"),
                 tractBuilder=deps.BuilderField(lay.kind, lay.cls, lay.sub), **kw)
    e.assume(c.pixelScale > 0)
    return c, lay


def rings(e, version=1, least=1, kind="legacy", **kw):
    from lsst.skymap.ringsSkyMap import RingsSkyMap
    r = Rings()
    r.n = e.input_int("numRings", least)
    r.raStart = e.input_real("raStart", 0)
    e.assume(r.raStart < 360)
    r.config, r.lay = config(e, kind, numRings=r.n, raStart=r.raStart, **kw)
    r.map = RingsSkyMap(r.config, version=version)
    r.nums = r.map._ringNums
    r.height = PI/(r.n + 1)
    r.start = r.raStart*G.degrees
    r.size = rt.b_len(r.map)
    return r


def count(r, ring):
    """Tracts in a ring (0 <= ring < numRings)."""
    return rt.getitem(r.nums, ring)


def before(r, ring):
    """Tracts in the rings south of ring."""
    return rt.b_sum(rt.getitem(r.nums, slice(None, ring)))


def any_ring(e, r, name="ring"):
    k = e.input_int(name, 0)
    e.assume(k < r.n)
    return k


def placed(e, r, k, ring, t):
    """Makes the map answer that tract number k is tract t of a ring: the two are decided by
    the contracts of C10 on getRingIndices."""
    cls = type(r.map)
    at = getattr(cls, "_placed", ()) + ((k, ring, t),)

    class Map(cls):
        _placed = at

        def getRingIndices(self, i):
            for a, b, c in at:
                if a is i or issym(a) and issym(i) and z3.eq(z3.simplify(a.z), z3.simplify(i.z)):
                    return b, c
            return cls.getRingIndices(self, i)
    Map.__name__ = cls.__name__
    Map.__module__ = cls.__module__
    r.map.__class__ = Map
    e.uses("getRingIndices answers the position of a number (contract C10)")


def turn(x):
    """An angle in radians reduced to [0, 2 pi)."""
    if isinstance(x, G.Angle):
        x = x.asRadians()
    if not issym(x):
        return x % TWOPI
    return core._Prims.wrap(x, TWOPI)


class TractRef:
    """Tract number i of a map, known by its number only."""
    _pyvc_clone = True

    def __init__(self, i):
        self.i = i

    def getId(self):
        return self.i

    tract_id = property(getId)

    def contains(self, coord):
        return core.ENG.memo["contains"](self.i, coord)

    def findPatchList(self, coords):
        return core.ENG.memo["patches"](self.i, coords)

    def __eq__(self, o):
        return self.i == o.i if isinstance(o, TractRef) else NotImplemented

    def __ne__(self, o):
        return neg(self == o)

    __hash__ = None


def refs(e, r):
    """Makes map[i] a reference to tract i: indexing is decided by C22."""
    cls = type(r.map)

    class Map(cls):
        def __getitem__(self, i):
            e.prove(conj(i >= 0, i < r.size), "only tracts of the map are looked up")
            e.live()
            return TractRef(i)
    Map.__name__ = cls.__name__
    Map.__module__ = cls.__module__
    r.map.__class__ = Map
    e.uses("map[i] is tract number i of the map (contract C22)")


def sky(e, name="coord"):
    """Any sky position, by longitude and latitude."""
    lon, lat = e.input_real("ra"), e.input_real("dec")
    e.assume(conj(lon >= 0, lon < TWOPI, lat >= -PI/2, lat <= PI/2))
    return G.SpherePoint(lon, lat, G.radians)


def reveal(e, r, a):
    """The definition of the number of tracts in ring a, as the constructor computes it."""
    for p in getattr(r.nums, "parts", ()):
        if isinstance(p, loops.SumSeg) and p.scalar:
            e.assume(p.define(a))
