"""Concrete packers on the real code and the real butler."""
import itertools
import random

BANDS = ["u", "g", "r", "i", "z", "y", "N387", "narrow", "B"]


def universe():
    from lsst.daf.butler import DimensionUniverse
    global _U
    try:
        return _U
    except NameError:
        _U = DimensionUniverse()
        return _U


def make(c):
    """(packer, tracts, patches, room, band map or None)"""
    from lsst.daf.butler import DataCoordinate
    from lsst.skymap.packers import SkyMapDimensionPacker as P
    u = universe()
    fixed = DataCoordinate.from_full_values(u.conform(["skymap"]), values=("m",)).expanded(records={
        "skymap": u["skymap"].RecordClass(name="m", tract_max=c["rec"][0], patch_nx_max=c["rec"][1],
                                          patch_ny_max=c["rec"][2])})
    kw = {}
    if c["bands"] is not None:
        kw["bands"] = dict(c["bands"])
    table = dict(c["bands"]) if c["bands"] is not None else {b: i for i, b in enumerate(P.SUPPORTED_FILTERS)}
    if c["n_bands"] != "unset":
        kw["n_bands"] = c["n_bands"]
    room = len(table) if c["n_bands"] in ("unset", None) else c["n_bands"]
    if c["n_tracts"]:
        kw["n_tracts"] = c["n_tracts"]
    if c["n_patches"]:
        kw["n_patches"] = c["n_patches"]
    if c["dims"] is not None:
        kw["dimensions"] = u.conform(["tract", "patch"] + (["band"] if c["dims"] == "band" else []))
        if c["dims"] == "none":
            room = 0
    tracts = c["n_tracts"] or c["rec"][0]
    patches = c["n_patches"] or c["rec"][1]*c["rec"][2]
    if c["config"]:
        cf = P.ConfigClass()
        cf.bands = kw.get("bands")
        cf.n_bands = None if c["n_bands"] in ("unset", None) else c["n_bands"]
        cf.n_tracts = kw.get("n_tracts")
        cf.n_patches = kw.get("n_patches")
        return P.from_config(fixed, cf), tracts, patches, (len(table) if cf.n_bands is None else cf.n_bands), table
    return P(fixed, **kw), tracts, patches, room, table


def cases(rng, tier):
    n = 0
    while True:
        n += 1
        k = rng.randint(0, len(BANDS))
        names = rng.sample(BANDS, k)
        ints = rng.sample(range(-2, 14), k) if rng.random() < .6 else rng.sample(range(k), k)
        bands = rng.choice([None, [[a, b] for a, b in zip(names, ints)]])
        config = rng.random() < .3
        dims = None if config else rng.choice([None, "band", "none"])
        nb = rng.choice(["unset", None, 0, 1, 2, 5, 16, 40])
        if dims == "band" and (nb == 0 or nb in ("unset", None) and bands == []):
            nb = 3
        yield {"rec": [rng.choice([1, 2, 5, 7, 18938]), rng.randint(1, 9), rng.randint(1, 9)], "bands": bands,
               "n_bands": nb, "n_tracts": rng.choice([None, 1, 3, 8, 16]), "n_patches": rng.choice([None, 1, 4, 9, 49]),
               "dims": dims, "config": config, "pick": rng.randrange(1 << 30)}


def ids(c, tracts, patches, room, table):
    """Data IDs inside, at the edges and outside."""
    rng = random.Random(c["pick"])

    def some(n):
        return sorted({-1, 0, 1, n - 1, n, n//2, rng.randrange(n), n + 3})
    bands = [None] if not room else list(table) + ["nosuch"]
    out = list(itertools.product(some(tracts), some(patches), bands))
    rng.shuffle(out)
    return out[:120]


def data_id(u, t, p, b, room):
    from lsst.daf.butler import DataCoordinate
    kw = {"band": b} if room else {}
    return DataCoordinate.standardize(skymap="m", tract=t, patch=p, universe=u, **kw)


def from_model(contract, m):
    def num(k, d=None):
        v = m.get(k, d)
        return min(max(v, 1), 1000) if isinstance(v, int) else d
    for seed in range(6):
        rng = random.Random(seed)
        for c in itertools.islice(cases(rng, "quick"), 6):
            c.update(n_tracts=num("n_tracts"), n_patches=num("n_patches"),
                     rec=[num("tract_max", 2), num("patch_nx_max", 2), num("patch_ny_max", 3)])
            yield c
