"""C12: array lookup of tract numbers agrees with one-by-one lookup."""
from pyvc import arr
from .rings import *

CONTRACTS, contract = registry()


def positions(e, degrees):
    """Arrays of any number of positions, seen at an arbitrary entry."""
    n = e.input_int("positions", 1)
    l = e.fresh_int("entry", 0)
    e.assume(l < n)
    s = arr.base(n, l)
    f = [z3.Function(x, core.INT, core.REAL) for x in ("ras", "decs")]
    full, half = (360, 90) if degrees else (TWOPI, PI/2)
    out = []
    for j, name in enumerate(("ra", "dec")):
        v = e.input_real(name)
        e.assume(v == SymReal(f[j](l.z)))
        e.assume(conj(v >= 0, v < full) if j == 0 else conj(v >= -half, v <= half))
        out.append(arr.Lane(s, v, ("in", name), fn=lambda i, j=j: SymReal(f[j](zint(i)))))
    return n, l, s, out


def entry(e, res, n, l, s):
    """The entry of the result, one per position."""
    if isinstance(res, arr.Lane):
        e.prove(res.space is s, "one entry per position")
        return res.val
    e.prove(rt.b_len(res) == n, "one entry per position")
    for p in getattr(res, "lst", res).parts:
        if isinstance(p, loops.SumSeg) and p.scalar:
            e.assume(p.define(l))
    return rt.getitem(res, l)


def _rings(version, degrees):
    @contract("rings version %d in %s" % (version, "degrees" if degrees else "radians"),
              covers=("south cap", "north cap", "ring"))
    def lookup(e):
        r = rings(e, version=version)
        refs(e, r)
        n, l, s, (ra, dec) = positions(e, degrees)
        res = r.map.findTractIdArray(ra, dec, degrees=degrees)
        got = entry(e, res, n, l, s)
        unit = G.degrees if degrees else G.radians
        c = G.SpherePoint(ra.val, dec.val, unit)
        want = r.map.findTract(c).getId()
        e.prove(got == want, "the entry is the number of the tract found for its position alone")
        e.cover("south cap" if not issym(want) and want == 0 else
                ("north cap" if issym(want) and z3.eq(want.z, (r.size - 1).z) else "ring"))


for _v in (1, 0):
    for _d in (False, True):
        _rings(_v, _d)


def _other(name, module, cls):
    for degrees in (False, True):
        @contract("%s in %s" % (name, "degrees" if degrees else "radians"), covers=("found",))
        def lookup(e, degrees=degrees):
            import importlib
            real = getattr(importlib.import_module("lsst.skymap." + module), cls)
            uf = z3.Function("found", core.REAL, core.REAL, core.INT)

            class Map(real):
                def __init__(self):
                    pass

                def findTract(self, coord):
                    return TractRef(SymInt(uf(deps.real(coord.getLongitude()), deps.real(coord.getLatitude()))))
            m = Map()
            n, l, s, (ra, dec) = positions(e, degrees)
            res = m.findTractIdArray(ra, dec, degrees=degrees)
            got = entry(e, res, n, l, s)
            c = G.SpherePoint(ra.val, dec.val, G.degrees if degrees else G.radians)
            e.prove(got == m.findTract(c).getId(), "the entry is the number of the tract found for its position alone")
            e.cover("found")


for _a in (("discrete", "discreteSkyMap", "DiscreteSkyMap"), ("equatorial", "equatSkyMap", "EquatSkyMap"),
           ("dodecahedron", "dodecaSkyMap", "DodecaSkyMap"), ("healpix", "healpixSkyMap", "HealpixSkyMap")):
    _other(*_a)
