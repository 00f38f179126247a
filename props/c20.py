"""C20: packed integers fit the advertised bits; out-of-range IDs are refused."""
from .packs import *
from .c19 import facts

CONTRACTS, contract = registry()


def room(p):
    """Data IDs the packer has room for."""
    n = p.tracts*p.patches
    return n*p.room if issym(p.room) or p.room else n


def hint(e, c):
    """c, if it is so (it need not be)."""
    if e.check(c):
        e.assume(c)


def pow2(e, n):
    return 1 << n


for _name, _args in VARIANTS.items():
    def _variant(name, dims, default, rm, quarter=None):
        @contract("range: " + name, covers=("accepted", "refused"))
        def rng(e):
            p = packer(e, dims, default, rm, quarter)
            d, idx = data_id(e, p)
            got, exc = raises(e, lambda: p.packer._pack(d), ValueError)
            if exc is not None:
                at_band(e, d)
                e.prove(neg(inside(p, d, idx)), "everything inside is accepted")
                e.cover("refused")
                return
            e.prove(inside(p, d, idx), "everything outside is refused")
            rest = facts(e, p, d, idx, got)
            one = p.tracts*p.patches
            e.prove(got >= 0, "packed integers are not negative")
            n = room(p)
            if "band" in d:
                hint(e, got == idx*one + rest)
                e.prove(idx*one <= (p.room - 1)*one, "the last band has room")
            e.prove(got < n, "packed integers are below the number of data IDs")
            e.prove(got < pow2(e, p.packer.maxBits), "packed integers fit in the bits advertised")
            e.cover("accepted")

        if quarter:
            return

        @contract("bits: " + name, covers=("some",) if default and rm is None and dims != "none" else ("none", "some"))
        def bits(e):
            p = packer(e, dims, default, rm, quarter)
            b = p.packer.maxBits
            n = room(p)
            e.prove(n >= 1, "there is room for one data ID at least")
            e.prove(b >= 0, "the number of bits is not negative")
            e.prove(n <= pow2(e, b), "the bits hold all data IDs")
            if b == 0:
                e.prove(n == 1, "no bits for one data ID only")
                e.cover("none")
            else:
                e.prove(pow2(e, b - 1) < n, "with one bit less they would not")
                e.cover("some")
            names = set(p.packer.dimensions.names)
            e.prove(names >= {"skymap", "tract", "patch"} and names <= {"skymap", "tract", "patch", "band"},
                    "packers are for tracts and patches, with or without bands")
            e.prove(("band" in names) == (True if issym(p.room) else bool(p.room)),
                    "bands are included exactly when there is room for them")
            e.prove(p.packer.fixed is p.fixed, "for the sky map given")
    _variant(_name, *_args)


@contract("other dimensions are refused", covers=("refused",))
def other(e):
    import lsst.skymap.packers as mod
    for names in (["tract", "patch", "visit"], ["tract", "patch", "detector"], ["tract"], ["skymap"], ["tract", "band"],
                  ["tract", "patch", "band", "visit"], ["visit", "band"]):
        for kw in ({}, {"n_bands": 0}, {"n_bands": e.input_int("n_bands", 1)}):
            dims = universe().conform(names)
            got, exc = raises(e, lambda: mod.SkyMapDimensionPacker(
                Fixed(), dims, n_tracts=e.input_int("n_tracts", 1), n_patches=e.input_int("n_patches", 1), **kw), ValueError)
            e.prove(exc is not None, "dimensions other than tract, patch and band are refused: %s" % names)
    e.cover("refused")


@contract("from configuration", covers=("made",))
def config(e):
    import lsst.skymap.packers as mod
    mod.DataCoordinate = Coordinates
    which = {k: e.choose(k) for k in ("n_bands", "bands", "n_tracts", "n_patches")}
    bands, n = bands_map(e)
    c = deps.Cfg(n_bands=e.input_int("n_bands", 0) if which["n_bands"] else None,
                 bands=bands if which["bands"] else None,
                 n_tracts=e.input_int("n_tracts", 1) if which["n_tracts"] else None,
                 n_patches=e.input_int("n_patches", 1) if which["n_patches"] else None)
    rec = Record()
    rec.tract_max = e.input_int("tract_max", 1)
    rec.patch_nx_max, rec.patch_ny_max = e.input_int("patch_nx_max", 1), e.input_int("patch_ny_max", 1)
    p = mod.SkyMapDimensionPacker.from_config(Fixed(rec), c)
    want = c.n_bands if c.n_bands is not None else (n if c.bands is not None else
                                                    len(mod.SkyMapDimensionPacker.SUPPORTED_FILTERS))
    has = "band" in p.dimensions.names
    e.prove(want != 0 if has else want == 0, "bands are included exactly when there is room for them")
    tracts = c.n_tracts if c.n_tracts is not None else rec.tract_max
    patches = c.n_patches if c.n_patches is not None else rec.patch_nx_max*rec.patch_ny_max
    t, q = e.input_int("tract", 0), e.input_int("patch", 0)
    d = {"skymap": "the map", "tract": t, "patch": q}
    idx = 0
    if has:
        if c.bands is not None:
            j = e.input_int("bandAt", 0)
            e.assume(j < n)
            d["band"], idx = bands.pairs.parts[0].elem(j)
        else:
            d["band"], idx = "r", mod.SkyMapDimensionPacker.SUPPORTED_FILTERS.index("r")
    got, exc = raises(e, lambda: p._pack(d), ValueError)
    ok = conj(t < tracts, q < patches, conj(idx >= 0, idx < want) if has else True)
    e.prove(ok if exc is None else neg(ok), "the room is the one configured")
    e.cover("made")


@contract("default configuration", covers=("made",))
def default(e):
    import lsst.skymap.packers as mod
    c = mod.SkyMapDimensionPacker.ConfigClass()
    e.prove(c.n_bands == 0 and c.bands is None and c.n_tracts is None and c.n_patches is None,
            "by default bands are left out and the room is that of the registered map")
    rec = Record()
    rec.tract_max = e.input_int("tract_max", 1)
    rec.patch_nx_max, rec.patch_ny_max = e.input_int("patch_nx_max", 1), e.input_int("patch_ny_max", 1)
    p = mod.SkyMapDimensionPacker.from_config(Fixed(rec), c)
    e.prove("band" not in p.dimensions.names, "bands are left out")
    e.cover("made")
