import contextlib

from .maps import *
from .c25 import polygon

RULE = ("maps of all kinds (1 to 12 tracts, discrete ones of different sizes, both layouts) registered in a recording data "
        "repository that has no such map, already has it, or has a conflicting one; every record compared with the map")


def cases(rng, tier):
    n = 0
    while True:
        kind = ["discrete", "rings", "discrete", "equat", "dodeca", "healpix"][n % 6]
        n += 1
        lay = {"kind": "cells", "cell": rng.choice([9, 15]), "cborder": rng.randint(0, 3), "n": rng.randint(1, 3),
               "m": rng.randint(0, 1)} if rng.random() < .4 else \
            {"kind": "legacy", "w": rng.randint(15, 60), "h": rng.randint(15, 60), "border": rng.randint(0, 9)}
        yield {"kind": kind, "n": rng.randint(1, 3), "layout": lay,
               "outcome": ["inserted", "inserted", "present", "inserted", "conflict"][n % 5],
               "pts": [[90.0*i + rng.uniform(0, 50), rng.uniform(-70, 70), rng.uniform(.1, 1.5)]
                       for i in range(rng.randint(1, 4))]}


def make(c):
    kw = dict(layout=c["layout"], pixelScale=4000.0 if c["kind"] != "discrete" else 200.0)
    k = c["kind"]
    if k == "rings":
        return rings(c["n"] + 1, **kw)
    if k == "discrete":
        return discrete(c["pts"], **kw)
    if k == "healpix":
        return healpix(log2NSide=1, nest=bool(c["n"] % 2), **kw)
    if k == "equat":
        return equat(numTracts=5 + c["n"], **kw)
    return dodeca(withTractsOnPoles=bool(c["n"] % 2), **kw)


class Butler:
    def __init__(self, outcome):
        from .packs import universe
        self.outcome, self.log, self.depth, self.opened = outcome, [], 0, 0
        self.dimensions = universe()
        self.registry = self

    @contextlib.contextmanager
    def transaction(self):
        self.depth += 1
        self.opened += 1
        try:
            yield
        finally:
            self.depth -= 1

    def registerRun(self, name, *a):
        self.log.append(("run", name, self.depth))

    def registerDatasetType(self, t):
        self.log.append(("type", t, self.depth))

    def syncDimensionData(self, kind, record):
        from lsst.daf.butler.registry import ConflictingDefinitionError
        self.log.append((kind, dict(record), self.depth))
        if self.outcome == "conflict":
            raise ConflictingDefinitionError("another")
        return self.outcome == "inserted"

    def insertDimensionData(self, kind, *records):
        for r in records:
            self.log.append((kind, dict(r), self.depth))

    def put(self, obj, t, dataId=None, *, run=None, **kw):
        self.log.append(("put", (obj, t, dict(dataId or {}, **kw), run), self.depth))


def check(case):
    from lsst.daf.butler.registry import ConflictingDefinitionError
    m = make(case)
    b = Butler(case["outcome"])
    name = "a map"
    try:
        m.register(name, b)
    except ConflictingDefinitionError:
        if case["outcome"] != "conflict":
            raise
    except (RuntimeError, ValueError) as err:
        if "convex" in str(err).lower() or "vertices" in str(err).lower():
            return None         # coarse pixels: a tract region that no polygon represents
        raise
    else:
        if case["outcome"] == "conflict":
            return "no conflict error"
    kinds = {}
    for k, v, d in b.log:
        kinds.setdefault(k, []).append((v, d))
    recs = kinds.get("skymap", [])
    tracts = list(m)
    want = {"skymap": name, "hash": m.getSha1(), "tract_max": len(tracts),
            "patch_nx_max": max(t.getNumPatches()[0] for t in tracts),
            "patch_ny_max": max(t.getNumPatches()[1] for t in tracts)}
    if len(recs) != 1 or recs[0][0] != want:
        return "map record %s, not %s" % (recs, want)
    if case["outcome"] != "inserted":
        if kinds.get("tract") or kinds.get("patch") or kinds.get("put"):
            return "wrote more although the map was %s" % case["outcome"]
        return None
    if b.opened != 1 or any(d != 1 for k in ("skymap", "tract", "patch", "put") for _, d in kinds.get(k, [])):
        return "not written in one transaction"
    if sorted(r["tract"] for r, _ in kinds.get("tract", [])) != list(range(len(tracts))):
        return "tract records of %s" % [r["tract"] for r, _ in kinds.get("tract", [])]
    for r, _ in kinds["tract"]:
        t = tracts[r["tract"]]
        bad = polygon(r["region"], t.getBBox(), t.getWcs(), "tract record %d" % r["tract"])
        if bad or set(r) != {"skymap", "tract", "region"} or r["skymap"] != name:
            return bad or "tract record %s" % r
    seen = set()
    for r, _ in kinds.get("patch", []):
        t = tracts[r["tract"]]
        x, y = r["cell_x"], r["cell_y"]
        nx, ny = t.getNumPatches()
        if not (0 <= x < nx and 0 <= y < ny) or (r["tract"], x, y) in seen:
            return "patch record %s of a tract of %d by %d patches" % (r, nx, ny)
        seen.add((r["tract"], x, y))
        if r["patch"] != y*nx + x or r["skymap"] != name or \
                set(r) != {"skymap", "tract", "patch", "cell_x", "cell_y", "region"}:
            return "patch record %s of a tract of %d by %d patches" % (r, nx, ny)
        if not r["patch"] < want["patch_nx_max"]*want["patch_ny_max"]:
            return "patch record %s beyond the limit" % r
        bad = polygon(r["region"], t.getPatchInfo((x, y)).getOuterBBox(), t.getWcs(), "patch record %s" % r)
        if bad:
            return bad
    if len(seen) != sum(t.getNumPatches()[0]*t.getNumPatches()[1] for t in tracts):
        return "%d patch records" % len(seen)
    puts = kinds.get("put", [])
    if len(puts) != 1 or puts[0][0][0] is not m or puts[0][0][2] != {"skymap": name} or \
            puts[0][0][3] != m.SKYMAP_RUN_COLLECTION_NAME or puts[0][0][1].name != m.SKYMAP_DATASET_TYPE_NAME:
        return "stored %s" % (puts,)
    return None


def from_model(contract, m):
    import random
    rng = random.Random(21)
    g = cases(rng, "quick")
    for _ in range(12):
        c = next(g)
        c["outcome"] = "present" if "already" in contract else "conflict" if "conflict" in contract else "inserted"
        yield c
