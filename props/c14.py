"""C14: default tract lookup returns a tract with the nearest centre."""
from .rings import *

CONTRACTS, contract = registry()


def _map(name, module, cls):
    @contract(name, covers=("found",))
    def nearest(e):
        import importlib
        real = getattr(importlib.import_module("lsst.skymap." + module), cls)
        centre = z3.Function("centre", core.INT, deps.Coord)
        n = e.input_int("tracts", 1)

        class cfg:
            tractOverlap, pixelScale = e.input_real("tractOverlap", 0), e.input_real("pixelScale", 0)
            rotation = e.input_real("rotation")

        class Tract(TractRef):
            def getCtrCoord(self):
                return deps.coord(e, centre(zint(self.i)))

            ctr_coord = property(getCtrCoord)

        class Map(real):
            # length, indexing and iteration are decided by C22
            def __init__(self):
                self._numTracts, self._version = n, 0
                self.config = cfg

            def __len__(self):
                return n

            def __getitem__(self, i):
                e.prove(conj(i >= 0, i < n), "only tracts of the map are looked up")
                return Tract(i)

            def __iter__(self):
                return loops.SymSeq(n, Tract)
        m = Map()
        c = deps.fresh_coord(e)
        got = m.findTract(c)
        k = got.getId()
        e.prove(conj(k >= 0, k < n), "a tract of the map")
        j = e.input_int("other", 0)
        e.assume(j < n)
        for f in list(e.foralls):
            f.instantiate(j)

        def sep(i):
            return c.separation(deps.coord(e, centre(zint(i)))).asRadians()
        e.prove(sep(k) <= sep(j), "no other tract's centre is nearer")
        e.uses("a map is a sequence of tracts numbered by position (contract C22)")
        e.uses("SpherePoint.separation is some function of its two positions")
        e.cover("found")


_map("discrete", "discreteSkyMap", "DiscreteSkyMap")
_map("equatorial", "equatSkyMap", "EquatSkyMap")
