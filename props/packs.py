"""Arbitrary data-ID packers, by the real constructor."""
import z3

from .common import *
from pyvc.core import SymInt, SymBool, truth
from pyvc.loops import zint
from . import find

Band = z3.DeclareSort("Band")
NAME = z3.Function("band_name", core.INT, Band)
POS = z3.Function("band_pos", Band, core.INT)
IDX = z3.Function("band_int", core.INT, core.INT)
IPOS = z3.Function("band_int_pos", core.INT, core.INT)


class BandName:
    """The name of a band."""
    _pyvc_key = True
    _pyvc_clone = True

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return SymBool(self.t == o.t) if isinstance(o, BandName) else False

    def __ne__(self, o):
        return neg(self == o)

    def _pyvc_subst(self, pairs, memo):
        return BandName(z3.substitute(self.t, *pairs))

    __hash__ = None

    def __repr__(self):
        return "band"


class Packer:
    pass


class Coordinates:
    """DataCoordinate, as far as packers use it: a data ID with the values given."""

    def __init__(self, values, dimensions):
        self.values, self.dimensions = values, dimensions

    def __getitem__(self, k):
        return self.values[k]

    @staticmethod
    def standardize(mapping=None, *, dimensions=None, universe=None, defaults=None, **kw):
        return Coordinates(dict(mapping or {}, **kw), dimensions)


def universe():
    from lsst.daf.butler import DimensionUniverse
    global _U
    try:
        return _U
    except NameError:
        _U = DimensionUniverse()
        return _U


class Fixed:
    """The data ID of a registered sky map, with its record."""

    def __init__(self, record=None):
        self.universe = universe()
        self.dimensions = self.universe.conform(["skymap"])
        self.records = {"skymap": record} if record is not None else {}

    def __getitem__(self, k):
        return {"skymap": "the map"}[k]

    def subset(self, dims):
        return self


class Record:
    pass


def bands_map(e):
    """Any mapping from band names to distinct integers."""
    n = e.input_int("bands", 0)

    def elem(i):
        i = loops.zint(i)
        e.assume(z3.And(POS(NAME(i)) == i, IPOS(IDX(i)) == i))
        return (BandName(NAME(i)), SymInt(IDX(i)))
    return Bands(loops.VList([loops.FnSeg(n, elem)])), n


class Bands(rt.VDict):
    """Bands are looked up by their position."""

    def find(self, key):
        e = core.ENG
        seg = self.pairs.parts[0]
        if isinstance(key, BandName) and len(self.pairs.parts) == 1:
            j = SymInt(POS(key.t))
            if e.decide(z3.And(j.z >= 0, j.z < zint(seg.n), NAME(j.z) == key.t)):
                return seg.elem(j)[1]
            raise KeyError(key)
        return super().find(key)

    def copy(self):
        return Bands(loops.VList(loops.parts_of(self.pairs)))


def packer(e, dims, default_bands=False, room=None, quarter=None):
    """dims: None, "band" or "none"; room: "none", "some", "zero" (of n_bands)."""
    import lsst.skymap.packers as mod
    mod.DataCoordinate = Coordinates
    p = Packer()
    given = e.choose("where from", 2) if quarter is None else 1
    p.quarter = quarter
    kw = {}
    if default_bands:
        p.bands, p.nmap = None, len(mod.SkyMapDimensionPacker.SUPPORTED_FILTERS)
        if quarter is None and e.choose("said"):
            kw["bands"] = None
    else:
        p.bands, p.nmap = bands_map(e)
        kw["bands"] = p.bands
    rec = Record()
    if given:
        p.tracts, p.patches = e.input_int("n_tracts", 1), e.input_int("n_patches", 1)
        kw.update(n_tracts=p.tracts, n_patches=p.patches)
        fixed = Fixed()
    else:
        rec.tract_max = p.tracts = e.input_int("tract_max", 1)
        rec.patch_nx_max, rec.patch_ny_max = e.input_int("patch_nx_max", 1), e.input_int("patch_ny_max", 1)
        p.patches = e.input_int("patches", 1)
        e.assume(p.patches == rec.patch_nx_max*rec.patch_ny_max)
        if e.choose("said so"):
            kw.update(n_tracts=None, n_patches=None)
        fixed = Fixed(rec)
    p.fixed = fixed
    if dims is not None:
        names = ["tract", "patch"] + (["band"] if dims == "band" else [])
        kw["dimensions"] = universe().conform(names)
    if room == "some":
        kw["n_bands"] = p.room = e.input_int("n_bands", 1)
    elif room == "zero":
        kw["n_bands"] = 0
        p.room = 0
    else:
        p.room = p.nmap
        if dims is None and not default_bands:
            e.assume(p.nmap >= 1)
    if dims == "none":
        p.room = 0
    if not default_bands and dims == "band" and room is None:
        e.assume(p.nmap >= 1)
    p.kw = kw
    p.packer = mod.SkyMapDimensionPacker(fixed, **kw)
    return p


def at_band(e, d):
    """Searches through the bands that found nothing did not find this band either."""
    b = d.get("band")
    if isinstance(b, BandName):
        for f in list(e.foralls):
            f.instantiate(SymInt(POS(b.t)))


def inside(p, d, idx):
    """The data ID is inside the room of the packer."""
    t, q = d["tract"], d["patch"]
    ok = conj(t >= 0, t < p.tracts, q >= 0, q < p.patches)
    if "band" in d:
        ok = conj(ok, False if idx is None else conj(idx >= 0, idx < p.room))
    return ok


def data_id(e, p, n="", known=None):
    """Any data ID with the dimensions of the packer: (data ID, index of its band, band)."""
    d = {"skymap": "the map", "tract": e.input_int("tract" + n), "patch": e.input_int("patch" + n)}
    if issym(p.room) or p.room:
        if p.bands is None:
            import lsst.skymap.packers as mod
            sup = mod.SkyMapDimensionPacker.SUPPORTED_FILTERS
            some = list(range(p.quarter or 0, len(sup) + 1, 1 if p.quarter is None else 4))
            j = some[e.choose("band" + n, len(some))]
            d["band"] = sup[j] if j < len(sup) else "no such band"
            return d, (j if j < len(sup) else None)
        if known is None:
            known = e.choose("known" + n) == 0
        if known:
            j = e.input_int("bandAt" + n, 0)
            e.assume(j < p.nmap)
            name, idx = p.bands.pairs.parts[0].elem(j)
            d["band"] = name
            return d, idx
        b = e._fresh("band", Band)
        e.assume(z3.Or(POS(b) < 0, POS(b) >= zint(p.nmap)))
        d["band"] = BandName(b)
        return d, None
    return d, 0


VARIANTS = {"explicit map, room given": (None, False, "some"), "explicit map, room of its size": (None, False, None),
            "explicit map, band asked for": ("band", False, "some"),
            "explicit map, band asked for, room of its size": ("band", False, None),
            **{"default map, %s, %d of 4" % (w, q + 1): (None if r else "band", True, r, q) for q in range(4)
               for w, r in (("room given", "some"), ("band asked for", None))},
            "no band": ("none", False, None), "no band, room asked for": ("none", False, "some"),
            "no room": (None, False, "zero"), "no band, default map": ("none", True, None)}
