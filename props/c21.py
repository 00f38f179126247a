"""C21: registration writes exactly the tracts and patches of the map."""
import z3

from .regions import *
from . import find

CONTRACTS, contract = registry()

NX, NY = (z3.Function("tractPatches" + c, core.INT, core.INT) for c in "XY")
CX, CY = (z3.Function("tractOrigin" + c, core.INT, core.REAL) for c in "XY")
BASE = z3.Function("tractWcs", core.INT, deps.Wcs)
SIDE = [z3.Function("tract" + c, core.INT, core.INT) for c in ("Width", "Height")]
EDGE = {k: z3.Function("patch" + k, core.INT, core.INT, core.INT, core.INT)
        for k in ("X0", "Y0", "W", "H", "InX", "InY", "InW", "InH")}


class Map:
    """Any map: a sequence of tracts of any sizes (C22), each a grid of patches numbered row
    by row (C04) with any boxes and coordinate system."""

    def __init__(self, e):
        import lsst.skymap.tractInfo as T
        import lsst.skymap.patchInfo as P
        import lsst.skymap.baseSkyMap as B
        import lsst.skymap.detail as D
        self.e = e
        self.n = n = e.input_int("tracts", 1)
        outer = self

        class Tract(T.TractInfo):
            def __init__(self, i):
                self.i = self._id = i
                e.assume(z3.And(NX(zint(i)) >= 1, NY(zint(i)) >= 1))
                self.nx, self.ny = SymInt(NX(zint(i))), SymInt(NY(zint(i)))
                self._numPatches = D.Index2D(self.nx, self.ny)
                self._bbox = G.Box2I(G.Point2I(0, 0), G.Extent2I(SymInt(SIDE[0](zint(i))), SymInt(SIDE[1](zint(i)))))
                e.assume(z3.And(SIDE[0](zint(i)) >= 1, SIDE[1](zint(i)) >= 1))
                self._wcs = deps.AbsWcs((SymReal(CX(zint(i))), SymReal(CY(zint(i)))), None, None, None, base=BASE(zint(i)))

            def getPatchInfo(self, index):
                if not isinstance(index, tuple):
                    index = self.getPatchIndexPair(index)
                return outer.patch(self, *index)

            __getitem__ = getPatchInfo

            def getPatchIndexPair(self, s):
                return D.Index2D(s % self.nx, s // self.nx)

            def getSequentialPatchIndex(self, p):
                return self.getSequentialPatchIndexFromPair(p.getIndex())

            def getSequentialPatchIndexFromPair(self, index):
                x, y = index
                return y*self.nx + x

            def __iter__(self):
                return loops.SymSeq(self.nx*self.ny, self.getPatchInfo)
        self.tract = Tract

        class AMap(B.BaseSkyMap):
            def __init__(self):
                pass

            def __len__(self):
                return n

            def __getitem__(self, i):
                e.prove(conj(i >= 0, i < n), "only tracts of the map are looked up")
                return Tract(i)

            def __iter__(self):
                return loops.SymSeq(n, Tract)

            def getSha1(self):
                return b"the digest of map one"[:20]
        self.map = AMap()
        self.PatchInfo = P.PatchInfo
        self.Index2D = D.Index2D

    def patch(self, t, x, y):
        """Any outer box, any inner box within it."""
        e = self.e
        i, xz, yz = zint(t.i), zint(x), zint(y)
        v = {k: SymInt(f(i, xz, yz)) for k, f in EDGE.items()}
        e.assume(conj(v["InW"] >= 1, v["InH"] >= 1, v["InX"] >= 0, v["InY"] >= 0,
                      v["InX"] + v["InW"] <= v["W"], v["InY"] + v["InH"] <= v["H"]))
        outer = G.Box2I(G.Point2I(v["X0"], v["Y0"]), G.Extent2I(v["W"], v["H"]))
        inner = G.Box2I(G.Point2I(v["X0"] + v["InX"], v["Y0"] + v["InY"]), G.Extent2I(v["InW"], v["InH"]))
        return self.PatchInfo(index=self.Index2D(x, y), innerBBox=inner, outerBBox=outer,
                              sequentialIndex=y*t.nx + x, tractWcs=t._wcs)


class Written:
    """One record, or one stored object, as it reached the repository."""

    def __init__(self, kind, f, inside):
        self.kind, self.f, self.inside = kind, f, inside


class Butler:
    """What register needs of a data repository; everything written is kept."""

    def __init__(self, e, outcome):
        from .packs import universe
        self.e, self.outcome = e, outcome
        self.dimensions = universe()
        self.synced, self.tracts, self.patches, self.puts = (loops.VList() for _ in range(4))
        self.runs, self.types = loops.VList(), loops.VList()
        self.depth, self.opened = 0, 0
        self.registry = Registry(self)

    def transaction(self, *a, **k):
        return Transaction(self)

    def put(self, obj, datasetType, dataId=None, *, run=None, **kw):
        self.puts.append(Written("put", dict(obj=obj, type=datasetType, run=run, id=dict(dataId or {}, **kw)), self.depth))


class Transaction:
    def __init__(self, butler):
        self.butler = butler

    def __enter__(self):
        self.butler.depth += 1
        self.butler.opened += 1
        return self

    def __exit__(self, *a):
        self.butler.depth -= 1


class Registry:
    def __init__(self, butler):
        self.butler = b = butler

        def insert(kind, *records, conform=True, replace=False, skip_existing=False):
            return insert._pyvc_star([kind], loops.VList(list(records)))

        def star(pos, starred, **kw):
            if kw:
                raise core.Unsupported("options of insertDimensionData")
            kind, *first = pos
            log = {"tract": b.tracts, "patch": b.patches}.get(kind)
            b.e.prove(log is not None, "only tract and patch records are written")
            for r in first:
                log.append(Written(kind, dict(r), b.depth))
            rest = find.as_list(starred)
            log.extend(loops.VList([find.mapped(p, lambda r, d=b.depth: Written(kind, dict(r), d)) for p in rest.parts]))
        insert._pyvc_star = star
        self.insertDimensionData = insert

    def registerRun(self, name, *a, **k):
        self.butler.runs.append(name)
        return True

    def registerDatasetType(self, t):
        self.butler.types.append(t)
        return True

    def syncDimensionData(self, kind, record, *a, **k):
        from lsst.daf.butler.registry import ConflictingDefinitionError
        if a or k:
            raise core.Unsupported("options of syncDimensionData")
        b = self.butler
        b.synced.append(Written(kind, dict(record), b.depth))
        if b.outcome == "conflict":
            raise ConflictingDefinitionError("another map")
        return b.outcome == "inserted"


def register(e, outcome):
    m = Map(e)
    b = Butler(e, outcome)
    name = "the name"
    got, exc = raises(e, lambda: m.map.register(name, b), Exception)
    return m, b, name, exc


def only(e, lst, what):
    e.prove(not lst.symbolic and len(lst.parts) == 1, "exactly one " + what)
    return lst.parts[0]


def fields(e, r, names, what):
    e.prove(set(r.f) == set(names), "the %s record has its fields" % what)
    e.prove(r.inside == 1, "the %s record is written in the transaction" % what)


@contract("map record", covers=("written",))
def the_map(e):
    m, b, name, exc = register(e, "inserted")
    e.prove(exc is None, "registration succeeds")
    r = only(e, b.synced, "map record")
    e.prove(r.kind == "skymap", "it is a map record")
    fields(e, r, ("skymap", "hash", "tract_max", "patch_nx_max", "patch_ny_max"), "map")
    e.prove(conj(r.f["skymap"] == name, r.f["hash"] == m.map.getSha1()), "with the name and the digest of the map")
    e.prove(r.f["tract_max"] == m.n, "the tract limit is the number of tracts")
    j = e.input_int("tract", 0)
    e.assume(j < m.n)
    t = m.tract(j)
    where = limits(e, j)
    for f, v, num in (("patch_nx_max", NX, t.nx), ("patch_ny_max", NY, t.ny)):
        e.prove(r.f[f] >= num, "no tract has more patches than " + f)
        e.prove(disj(*[conj(SymBool(z3.And(w >= 0, w < zint(m.n))), SymBool(v(w) == zint(r.f[f]))) for w in where]),
                "some tract has as many patches as " + f)
    e.cover("written")


def limits(e, *tracts):
    """Knowledge of the largest patch counts at these tracts; where the largest are."""
    for f in list(e.foralls):
        if isinstance(f, loops.Dominated):
            for j in tracts:
                f.instantiate(j)
    where = []
    for lst, kf, w, largest in e.memo.get("extrema", []):
        for p in find.as_list(lst).parts:
            if isinstance(p, loops.SumSeg) and p.scalar:
                for j in tracts:
                    e.assume(p.define(j))
        for t in core.lift(w).children() if core.issym(w) else []:
            where.append(t)
            for p in find.as_list(lst).parts:
                if isinstance(p, loops.SumSeg) and p.scalar:
                    e.assume(p.define(SymInt(t)))
    return where


@contract("tract records", covers=("record",))
def tract_records(e):
    m, b, name, exc = register(e, "inserted")
    e.prove(exc is None, "registration succeeds")
    r, path = find.picks(e, b.tracts, "record")
    fields(e, r, ("skymap", "tract", "region"), "tract")
    e.prove(r.f["skymap"] == name, "it is a record of this map")
    i = r.f["tract"]
    e.prove(conj(i >= 0, i < m.n), "its number is below the limit")
    t = m.tract(i)
    is_polygon_of(e, r.f["region"], t._bbox, t._wcs, "outer region of the tract")
    e.cover("record")


def tract_of(r):
    return (r.f["tract"],)


@contract("every tract once", covers=("records",))
def tracts_once(e):
    m, b, name, exc = register(e, "inserted")
    j = e.input_int("tract", 0)
    e.assume(j < m.n)
    m.tract(j).getOuterSkyPolygon()
    find.member(e, b.tracts, tract_of, (j,), "every tract has a record")
    e.cover("records")
    find.no_repeat(e, b.tracts, tract_of, "no tract has two records")


@contract("patch records", covers=("record",))
def patch_records(e):
    m, b, name, exc = register(e, "inserted")
    r, path = find.picks(e, b.patches, "record")
    fields(e, r, ("skymap", "tract", "patch", "cell_x", "cell_y", "region"), "patch")
    e.prove(r.f["skymap"] == name, "it is a record of this map")
    i, x, y = r.f["tract"], r.f["cell_x"], r.f["cell_y"]
    e.prove(conj(i >= 0, i < m.n), "its tract number is below the limit")
    t = m.tract(i)
    e.prove(conj(x >= 0, y >= 0, x < t.nx, y < t.ny), "it is a patch of that tract")
    e.prove(r.f["patch"] == y*t.nx + x, "with its sequential number")
    p = m.patch(t, x, y)
    is_polygon_of(e, r.f["region"], p.getOuterBBox(), t._wcs, "outer region of the patch")
    limits(e, i)
    s = b.synced.parts[0].f
    e.prove(conj(x < s["patch_nx_max"], y < s["patch_ny_max"]), "its indices are below the limits")
    e.prove(r.f["patch"] < s["patch_nx_max"]*s["patch_ny_max"], "its number is below the limit")
    e.cover("record")


def patch_of(r):
    return (r.f["tract"], r.f["cell_x"], r.f["cell_y"])


@contract("every patch once", covers=("records",))
def patches_once(e):
    m, b, name, exc = register(e, "inserted")
    j, x, y = (e.input_int(k, 0) for k in ("tract", "x", "y"))
    e.assume(j < m.n)
    t = m.tract(j)
    e.assume(conj(x < t.nx, y < t.ny))
    s = y*t.nx + x
    for fact in (s < t.nx*t.ny, s//t.nx == y, s % t.nx == x):
        # (lemmas of arithmetic)
        if e.check(fact):
            e.assume(fact)
    # (knowledge of that patch: its boxes and corners)
    t.getPatchInfo(s).getOuterSkyPolygon(t._wcs), t.getOuterSkyPolygon()
    m.patch(t, x, y).getOuterSkyPolygon(t._wcs)
    find.member(e, b.patches, patch_of, (j, x, y), "every patch has a record", path=[[j, s], [j, y, x], [j, x, y]])
    e.cover("records")
    find.no_repeat(e, b.patches, patch_of, "no patch has two records")


@contract("the stored map", covers=("stored",))
def stored(e):
    m, b, name, exc = register(e, "inserted")
    e.prove(exc is None, "registration succeeds")
    p = only(e, b.puts, "object stored")
    e.prove(p.f["obj"] is m.map, "it is the map itself")
    e.prove(p.f["id"] == {"skymap": name}, "under the name of the map")
    e.prove(p.f["run"] == m.map.SKYMAP_RUN_COLLECTION_NAME, "in the collection of sky maps")
    e.prove(p.inside == 1 and b.opened == 1, "in the transaction")
    t = only(e, b.types, "dataset type")
    e.prove(p.f["type"] is t and t.name == m.map.SKYMAP_DATASET_TYPE_NAME, "as the dataset type of sky maps")
    e.prove(set(t.dimensions.required) == {"skymap"} and t.storageClass_name == "SkyMap", "that has one map per name")
    e.prove(not b.runs.symbolic and b.runs.parts == [m.map.SKYMAP_RUN_COLLECTION_NAME], "the collection is registered")
    e.cover("stored")


def nothing(e, b):
    for lst, what in ((b.tracts, "tract record"), (b.patches, "patch record"), (b.puts, "object")):
        e.prove(rt.b_len(lst) == 0, "no %s is written" % what)


@contract("already registered", covers=("done",))
def present(e):
    m, b, name, exc = register(e, "present")
    e.prove(exc is None, "registering again succeeds")
    nothing(e, b)
    e.cover("done")


@contract("conflict", covers=("refused",))
def conflict(e):
    from lsst.daf.butler.registry import ConflictingDefinitionError
    m, b, name, exc = register(e, "conflict")
    e.prove(isinstance(exc, ConflictingDefinitionError), "a conflicting map raises the conflict error")
    nothing(e, b)
    e.cover("refused")
