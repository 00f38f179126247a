"""C15: region search over a map pairs every overlapping tract with its patches."""
from .rings import *
from . import find

CONTRACTS, contract = registry()

NONEMPTY = z3.Function("overlaps", core.INT, core.BOOL)
FOUND = z3.Function("found", deps.Coord, core.INT)
NALL = z3.Function("nall", deps.Coord, core.INT)
ALL = z3.Function("all", deps.Coord, core.INT, core.INT)
COORDS = z3.Function("coords", core.INT, deps.Coord)


class Patches:
    """What tract i's own patch search gives for the list of coordinates."""
    _pyvc_clone = True

    def __init__(self, i):
        self.i = i

    def __bool__(self):
        return core.ENG.decide(NONEMPTY(zint(self.i)))

    def _pyvc_len(self):
        n = core.ENG.fresh_int("npatches", 0)
        core.ENG.assume(SymBool((n.z > 0) == NONEMPTY(zint(self.i))))
        return n

    def __eq__(self, o):
        if not isinstance(o, Patches):
            return NotImplemented
        # lists of patches of different tracts may also be equal
        return True if o is self else implies(False, True) if z3.eq(zint(self.i), zint(o.i)) else \
            core.ENG.fresh_bool("equal lists")

    __hash__ = None


class Ghost:
    """Membership in the list of pairs that the loops are filling, as a function of the
    iteration: IN(iteration, tract)."""

    def __init__(self):
        self.tests = {}

    def enter(self, loop, take):
        pass

    def candidates(self, st, e):
        return []

    def fn(self, depth):
        return z3.Function("in_list%d" % depth, *([core.INT]*(depth + 1) + [core.BOOL]))

    def member(self, lst, x):
        e = core.ENG
        if isinstance(x, TractRef):
            t = x
        elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], TractRef) and isinstance(x[1], Patches):
            # a tract's pairs are all alike: membership of the pair is membership of its tract
            e.prove(x[0].i == x[1].i, "a tract is looked for with its own patches")
            t = x[0]
        else:
            raise core.Unsupported("membership of %s" % type(x).__name__)
        ks = [l.k for l in e.loopstack if l.taking]
        return SymBool(self.fn(len(ks))(*ks, zint(t.i)))


def key(x):
    return (x[0].getId(),)


def setup(e, name, module, cls):
    import importlib
    real = getattr(importlib.import_module("lsst.skymap." + module), cls)
    real = getattr(real, "__wrapped__", real)
    n = e.input_int("tracts", 0)
    m_ = e.input_int("coordinates", 0)
    coords = loops.VList([loops.FnSeg(m_, lambda i: deps.coord(e, COORDS(zint(i))))])

    def patches(i, cs):
        e.prove(cs is coords, "patches are searched with the whole list of coordinates")
        return Patches(i)
    e.memo["patches"] = patches

    def tract(i):
        e.prove(conj(i >= 0, i < n), "only tracts of the map are looked up")
        return TractRef(i)

    class Map(real):
        # length, indexing and iteration are decided by C22, single lookups by C11, C14, C16, C23 and C27
        def __init__(self):
            pass

        def __len__(self):
            return n

        def __getitem__(self, i):
            return tract(i)

        def __iter__(self):
            return loops.SymSeq(n, TractRef)

        def findTract(self, coord):
            t = FOUND(deps.cterm(coord))
            e.assume(z3.And(t >= 0, t < n.z))
            return TractRef(SymInt(t))

        def findAllTracts(self, coord):
            c = deps.cterm(coord)
            e.assume(NALL(c) >= 0)

            def elem(i):
                t = ALL(c, zint(i))
                e.assume(z3.And(t >= 0, t < n.z))
                return TractRef(SymInt(t))
            return loops.VList([loops.FnSeg(SymInt(NALL(c)), elem)])
    Map.__name__ = cls
    e.memo["ghost"] = Ghost()
    e.uses("a map is a sequence of tracts numbered by position (contract C22)")
    e.uses("the tracts at a position are those the map's own lookups give (contracts C11, C14, C16, C23, C27)")
    return Map(), n, m_, coords


def sound(e, res, extra=None):
    x, path = find.picks(e, find.as_list(res), "pair")
    t, p = x
    e.prove(conj(isinstance(t, TractRef), isinstance(p, Patches)), "the result is pairs of a tract and its patches")
    e.prove(t.getId() == p.i, "each tract is paired with the patches its own search gives")
    e.prove(SymBool(NONEMPTY(zint(t.getId()))), "no tract without patches is listed")
    return t, path


def unrepeated(e, res):
    lst = find.as_list(res)
    a, pa = find.picks(e, lst, "first")
    b, pb = find.picks(e, lst, "second")
    ka, kb = [x for x in pa if core.issym(x)], [x for x in pb if core.issym(x)]
    # the second is added later
    later, same = False, True
    for x, y in zip(ka, kb):
        later = disj(later, conj(same, x < y))
        same = conj(same, x == y)
    e.assume(disj(later, same))
    e.live()
    g = e.memo["ghost"]
    # what is in the list stays in it
    if len(ka) == len(kb):
        d = len(kb)
        e.assume(implies(later, SymBool(g.fn(d)(*[zint(k) for k in kb], zint(a[0].getId())))))
    shape = [x for x in pa if not core.issym(x)] == [x for x in pb if not core.issym(x)]
    e.prove(disj(neg(a[0].getId() == b[0].getId()), conj(shape, same)), "no tract is listed twice")
    e.cover("two")


def complete(e, res, t, path, name):
    """Tract t, met by the iteration with this path, is in the result."""
    lst = find.as_list(res)
    g = e.memo["ghost"]
    d = len(path)
    inn = SymBool(g.fn(d)(*[zint(k) for k in path], zint(t)))
    if inn:
        # it was there already, so it still is
        return
    find.member(e, lst, key, (t,), name, path=path)


ALLMAPS = (("rings", "ringsSkyMap", "RingsSkyMap"), ("discrete", "discreteSkyMap", "DiscreteSkyMap"),
           ("equatorial", "equatSkyMap", "EquatSkyMap"), ("dodecahedron", "dodecaSkyMap", "DodecaSkyMap"),
           ("healpix", "healpixSkyMap", "HealpixSkyMap"))


def _region(name, module, cls):
    ringed = name == "rings"

    @contract(name + ": region search", covers=("pair", "found"))
    def region(e):
        m, n, mc, coords = setup(e, name, module, cls)
        res = m.findTractPatchList(coords)
        what = e.choose("what", 2)
        if what == 0:
            t, path = sound(e, res)
            e.prove(conj(t.getId() >= 0, t.getId() < n), "tracts of the map")
            e.cover("pair")
            return
        j = e.input_int("wanted", 0)
        e.assume(j < n)
        e.assume(NONEMPTY(j.z))
        if not ringed:
            for f in list(e.foralls):
                f.instantiate(j)
            find.member(e, res, key, (j,), "every tract with patches of its own is listed", path=[j])
        else:
            i = e.input_int("coordinate", 0)
            e.assume(i < mc)
            c = COORDS(i.z)
            k = e.input_int("which", 0)
            e.assume(SymBool(k.z < NALL(c)))
            e.assume(SymBool(ALL(c, k.z) == j.z))
            complete(e, res, j, [i, k], "no tract found to contain a coordinate is missed")
        e.cover("found")

    @contract(name + ": region search repeats nothing", covers=("two",))
    def region_once(e):
        m, n, mc, coords = setup(e, name, module, cls)
        unrepeated(e, m.findTractPatchList(coords))

    @contract(name + ": closest tracts", covers=("pair", "found"))
    def closest(e):
        m, n, mc, coords = setup(e, name, module, cls)
        e.assume(n >= 1)
        res = m.findClosestTractPatchList(coords)
        if e.choose("what", 2) == 0:
            t, path = sound(e, res)
            k = next(x for x in path if core.issym(x))
            e.prove(conj(k >= 0, k < mc, t.getId() == SymInt(FOUND(COORDS(zint(k))))),
                    "only tracts found for one of the coordinates are listed")
            e.cover("pair")
            return
        i = e.input_int("coordinate", 0)
        e.assume(i < mc)
        t = SymInt(FOUND(COORDS(i.z)))
        e.assume(NONEMPTY(t.z))
        complete(e, res, t, [i], "every tract found for a coordinate that has patches is listed")
        e.cover("found")

    @contract(name + ": closest tracts repeat nothing", covers=("two",))
    def closest_once(e):
        m, n, mc, coords = setup(e, name, module, cls)
        e.assume(n >= 1)
        unrepeated(e, m.findClosestTractPatchList(coords))


for _a in ALLMAPS:
    _region(*_a)
