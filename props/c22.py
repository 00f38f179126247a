"""C22: a map is a consistent sequence of tracts numbered by position."""
from .rings import *
from . import common, find

CONTRACTS, contract = registry()


def a_rings(e):
    r = rings(e)
    r.n = before(r, r.n) + 2
    return r


CACHING = {"rings": a_rings, "discrete": discrete, "healpix": healpix}
LISTED = {"equatorial": ("equatSkyMap", equat),
          "dodecahedron, vertices on poles": ("dodecaSkyMap", lambda e: dodeca(e, False)),
          "dodecahedron, faces on poles": ("dodecaSkyMap", lambda e: dodeca(e, True))}


class Made(TractRef):
    pass


def stub(e, m, calls):
    """Tract generation, by its contract: some tract with the number asked for."""
    cls = type(m)

    class Map(cls):
        def generateTract(self, index):
            calls.append(index)
            return Made(index)
    Map.__name__ = cls.__name__
    m.__class__ = Map


class Held:
    """A dictionary of tracts by position, as any earlier lookups may have left it."""

    def __init__(self, e, n, slot):
        self.e, self.n, self.slot, self.new = e, n, slot, []

    def find(self, i):
        for k, v in reversed(self.new):
            if k == i:
                return v
        return self.slot(i) if conj(i >= 0, i < self.n) else None

    def get(self, i, default=None):
        v = self.find(i)
        return default if v is None else v

    def __getitem__(self, i):
        v = self.find(i)
        if v is None:
            raise KeyError(i)
        return v

    def __contains__(self, i):
        return self.find(i) is not None

    def __setitem__(self, i, v):
        self.e.prove(conj(i >= 0, i < self.n) and isinstance(v, Made) and v.i == i,
                     "a slot only ever holds the tract of its position")
        self.new.append((i, v))

    def setdefault(self, i, v):
        if self.find(i) is None:
            self[i] = v
        return self.find(i)


def _caching(name, make):
    @contract(name + ": length and first state", covers=("made",))
    def start(e):
        r = make(e)
        e.prove(rt.b_len(r.map) == r.n, "as many tracts as the length says")
        c = r.map._tractCache
        if isinstance(c, (dict, rt.VDict)):
            e.prove(rt.b_len(c) == 0, "nothing is generated before it is asked for")
            e.cover("made")
            return
        e.prove(rt.b_len(c) == r.n, "room for every tract")
        e.cover("made")
        x, _ = loops.pick(c, "slot")
        e.prove(x is None, "nothing is generated before it is asked for")

    @contract(name + ": lookup after any history", covers=("outside", "cached", "generated"))
    def lookup(e):
        r = make(e)
        m, n = r.map, r.n
        calls, slots = [], {}
        stub(e, m, calls)

        def slot(i):
            # what any earlier lookups may have left: nothing, or the tract of that position
            k = z3.simplify(zint(i))
            if k.get_id() not in slots:
                slots[k.get_id()] = (Made(i) if e.choose("cached") == 0 else None, k)
            return slots[k.get_id()][0]
        if isinstance(m._tractCache, (dict, rt.VDict)):
            m._tractCache = Held(e, n, slot)
        else:
            m._tractCache.parts = [loops.HavocSeg(n, slot)]
            m._tractCache.writes = []
        e.memo["elem_inv"] = lambda lst, i, v: e.prove(
            v is None or isinstance(v, Made) and v.i == i, "a slot only ever holds the tract of its position")
        i = e.input_int("position")
        got, exc = raises(e, lambda: m[i], IndexError)
        if exc is not None:
            e.prove(disj(i < 0, i >= n), "IndexError only outside the map")
            e.prove(not calls, "nothing is generated outside the map")
            e.cover("outside")
            return
        e.prove(conj(i >= 0, i < n), "positions outside the map raise IndexError")
        e.prove(got.getId() == i, "the tract at a position has its number")
        had = any(v is got for v, _ in slots.values())
        e.prove(len(calls) == (0 if had else 1), "generated only when not there already")
        again = m[i]
        e.prove(again is got, "asking again gives the same object")
        e.prove(len(calls) <= 1, "each tract is generated once")
        e.cover("cached" if had else "generated")

    @contract(name + ": iteration", covers=("element",))
    def iterate(e):
        r = make(e)
        m, n = r.map, r.n
        cls = type(m)

        class Map(cls):
            def __getitem__(self, i):
                e.prove(conj(i >= 0, i < n), "only tracts of the map are looked up")
                return Made(i)
        m.__class__ = Map
        got = find.as_list(loops.iter_of(m))
        e.prove(rt.b_len(got) == n, "iteration gives as many tracts")
        x, pos = loops.pick(got, "element")
        e.prove(x.getId() == pos, "iteration gives positions in order")
        e.cover("element")

    @contract(name + ": generation", covers=("tract",))
    def generate(e):
        r = make(e)
        recorded({"rings": "ringsSkyMap", "discrete": "discreteSkyMap", "healpix": "healpixSkyMap"}[name])
        i = e.input_int("position", 0)
        e.assume(i < r.n)
        t = r.map.generateTract(i)
        e.prove(t.getId() == i, "the tract generated has the number asked for")
        e.cover("tract")


for _n, _m in CACHING.items():
    _caching(_n, _m)


def _listed(name, module, make):
    @contract(name, covers=("outside", "element"))
    def listed(e):
        recorded(module)
        r = make(e)
        m, n = r.map, r.n
        e.prove(rt.b_len(m) == n, "as many tracts as the length says")
        i = e.input_int("position", 0)
        got, exc = raises(e, lambda: rt.getitem(m, i), IndexError)
        if exc is not None:
            e.prove(i >= n, "IndexError only outside the map")
            e.cover("outside")
            return
        e.prove(i < n, "positions outside the map raise IndexError")
        e.prove(got.getId() == i, "the tract at a position has its number")
        every = find.as_list(loops.iter_of(m))
        e.prove(rt.b_len(every) == n, "iteration gives as many tracts")
        x, pos = loops.pick(every, "element")
        e.prove(x.getId() == pos, "iteration gives positions in order")
        e.cover("element")


for _n, (_mod, _m) in LISTED.items():
    _listed(_n, _mod, _m)
