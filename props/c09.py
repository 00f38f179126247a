"""C09: what a tract answers never depends on history or on other tracts."""
from .rings import *
from . import common
from .same import same
from .c28 import MAKERS

CONTRACTS, contract = registry()


def boxes(e, only=None):
    """The minimum box of a tract is what its own contracts say (C01, C02): here, any
    non-empty box, determined by the tract's number (and the same for all but one, if only)."""
    import lsst.skymap.tractInfo as ti
    fs = [[z3.Function("min%s%d" % (s, n), core.INT, core.REAL) for s in ("Lo", "Size")] for n in range(2)]

    def _minimumBoundingBox(self, wcs):
        k = zint(self.getId() if only is None or self.getId() == only[0] else -1)
        b = G.Box2D()
        lo, size = [[core.SymReal(f[s](k)) for f in fs] for s in range(2)]
        for n in range(2):
            e.assume(size[n] > 0)
        b._lo = lo
        b._hi = [x + y for x, y in zip(lo, size)]
        return b
    for c in (ti.TractInfo, ti.ExplicitTractInfo):
        setattr(c, "_minimumBoundingBox", _minimumBoundingBox)
    e.uses("a tract's minimum box is determined by the tract's own values (contract 'minimum box' and C01, C02)")


def grids(e, lay, t, *others):
    """t and others, the number of patches of t being any: how it was computed does not
    matter to what is asked (contract 'itself' and C01)."""
    pairs, facts = [], []
    for n, (num, size) in enumerate(zip(t.getNumPatches(), (lay.w, lay.h))):
        dim = t.getBBox().getDimensions()[n]
        if not issym(num) or not issym(dim) or not e.check(conj(num >= 1, dim == num*size)):
            return (t,) + others
        v = core.SymInt(z3.Function("numPatches%d" % n, core.INT, core.INT)(zint(t.getId())))
        old = e.memo.setdefault(("grid", n), {}).setdefault(v.z.get_id(), num)
        if old is not num and not e.check(old == num):
            return (t,) + others
        pairs.append((num.z, v.z))
        facts.append(v >= 1)
        if not z3.eq(dim.z, (num*size).z):
            pairs.append((dim.z, (v*size).z))
    e.uses("the constructor gives at least one patch in each dimension and a box of whole patches (contract C01)")
    for f in facts:
        e.assume(f)
    return loops.subst((t,) + others, pairs)


def box(b):
    return [b.getMinX(), b.getMinY(), b.getMaxX(), b.getMaxY()]


def patch(p):
    d = {"index": [p.getIndex().x, p.getIndex().y], "sequence": p.getSequentialIndex(),
         "inner": box(p.getInnerBBox()), "outer": box(p.getOuterBBox()), "wcs": wcs(p.getWcs()),
         "cells": [p.getNumCells().x, p.getNumCells().y], "cellBorder": p.getCellBorder()}
    return d


def wcs(w):
    return {"base": w.base, "origin": [w.crpix[0], w.crpix[1]]}


def outcome(e, f):
    got, exc = raises(e, f, Exception)
    if exc is not None:
        if isinstance(exc, (core.Unsupported, AssertionError)):
            raise exc
        return {"raised": type(exc).__name__}
    return {"got": got}


def arithmetic(e, v, n, size):
    """v is the number of one of n intervals of this size or not: facts of arithmetic."""
    for f in (implies(conj(v >= 0, v < n), conj(v*size >= 0, v*size + size <= n*size)),
              implies(v >= n, v*size >= n*size), implies(v < 0, v*size + size <= 0)):
        if issym(f) and e.check(f):
            e.assume(f)


class Ask:
    """One question, with arbitrary arguments, asked of any tract at any time."""

    def __init__(self, e, what, lay):
        self.e, self.what, self.lay, self.known = e, what, lay, set()
        if what in ("patch", "outside", "sequence"):
            self.a, self.b = e.input_int("i"), e.input_int("j")
        if what == "pair":
            self.s = e.input_int("sequence")
        if what == "position":
            self.c = deps.fresh_coord(e, "position")

    def facts(self, t):
        """What helps the solver, for each grid once."""
        nx, ny = t.getNumPatches()
        if not issym(nx) or nx.z.get_id() in self.known:
            return
        self.known.add(nx.z.get_id())
        w, h = self.lay.w, self.lay.h
        if self.what in ("patch", "outside"):
            at = self.a, self.b
            if self.what == "outside" and not self.known - {nx.z.get_id()}:
                # no patch of the first tract, perhaps one of the other
                self.e.assume(disj(at[0] < 0, at[0] >= nx))
        elif self.what == "position":
            p, exc = raises(self.e, lambda: G.Point2I(t.getWcs().skyToPixel(self.c)), Exception)
            if exc is not None:
                self.e.assume(False)
            at = p[0]//w, p[1]//h
        else:
            return
        arithmetic(self.e, at[0], nx, w)
        arithmetic(self.e, at[1], ny, h)
        if self.what == "outside":
            self.e.assume(conj(at[1] >= 0, at[1] < ny))
        if self.what in ("patch", "position"):
            # a patch of both tracts
            self.e.assume(conj(at[0] >= 0, at[0] < nx, at[1] >= 0, at[1] < ny))

    def __call__(self, t):
        e = self.e
        self.facts(t)
        if self.what in ("patch", "outside"):
            return outcome(e, lambda: patch(t.getPatchInfo((self.a, self.b))))
        if self.what == "pair":
            return {"pair": outcome(e, lambda: list(t.getPatchIndexPair(self.s)))}
        if self.what == "sequence":
            return {"sequence": outcome(e, lambda: t.getSequentialPatchIndexFromPair((self.a, self.b)))}
        if self.what == "position":
            found = outcome(e, lambda: t.findPatch(self.c))
            if "got" in found:
                p = found["got"]
                found = [p.getIndex().x, p.getIndex().y] + box(p.getInnerBBox())
            return {"found": found}
        d = {"number": t.getId(), "patches": [t.getNumPatches().x, t.getNumPatches().y], "box": box(t.getBBox()),
             "wcs": wcs(t.getWcs()), "centre": t.getCtrCoord(), "overlap": t.getTractOverlap().asRadians(),
             "border": t.getPatchBorder(), "inner": list(t.getPatchInnerDimensions())}
        v = t.getVertexList()
        d["vertices"] = v if not isinstance(v, (list, tuple)) else list(v)
        return d


QUESTIONS = ("itself", "patch", "outside", "pair", "sequence", "position")


def agree(e, a, b, what):
    same(e, a, b, what)


def meddle(t):
    """What a caller may do to the boxes it is given."""
    for b in (t.getBBox(), t.bbox):
        b.grow(3)
    p = outcome(core.ENG, lambda: t.getPatchInfo((0, 0)))
    if "got" in p:
        for b in (p["got"].getInnerBBox(), p["got"].getOuterBBox()):
            b.grow(2)


def state(x, skip, seen=None, depth=0):
    """Everything reachable from x that code could have changed."""
    seen = {} if seen is None else seen
    if id(x) in seen:
        return ("same", seen[id(x)])
    if x is None or isinstance(x, (bool, int, float, str, bytes, type, core.Sym)) or callable(x) and not hasattr(x, "__dict__"):
        return x
    if isinstance(x, z3.ExprRef):
        return x
    seen[id(x)] = len(seen)
    if isinstance(x, loops.VList):
        return ("vlist", [id(p) for p in x.parts], [(k, id(v)) for k, v in getattr(x, "writes", ())])
    if isinstance(x, (list, tuple)):
        return [state(v, skip, seen) for v in x]
    if isinstance(x, dict):
        return {k: state(v, skip, seen) for k, v in x.items()}
    if isinstance(x, (deps.AbsCoord, deps.Cfg, deps.BuilderField)) or not hasattr(x, "__dict__") or isinstance(x, deps.AbsWcs):
        return ("object", id(x))
    return {k: state(v, skip, seen) for k, v in x.__dict__.items() if k not in skip}


def unchanged(e, a, b):
    """Whether two states are the same, decided without an obligation."""
    if isinstance(a, core.Sym) or isinstance(b, core.Sym) or isinstance(a, z3.ExprRef):
        if isinstance(a, core.Sym) and isinstance(b, core.Sym) and z3.eq(a.z, b.z):
            return True
        try:
            return bool(e.check(core.SymBool(a == b) if isinstance(a, z3.ExprRef) else a == b))
        except Exception:
            return False
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(unchanged(e, x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(unchanged(e, a[k], b[k]) for k in a)
    return a is b or a == b


class Frame:
    """Every operation leaves the map and its tracts as they were: then what holds after
    one operation holds after any history of them."""

    def __init__(self, e):
        self.e, self.held = e, []

    def watch(self, name, x):
        self.held.append((name, x, state(x, ("_sha1", "_tractCache"))))

    def close(self):
        for name, x, s in self.held:
            if not unchanged(self.e, s, state(x, ("_sha1", "_tractCache"))):
                self.e.uses("bounded: %s keeps state between operations; histories of generation, queries and "
                            "generation again are covered, not longer ones" % name)
                return False
        return True


def a_rings(e, **kw):
    """Rings maps, the position of a tract in the rings being by contract (C10 and the
    contract below) some function of its number."""
    r = rings(e, 1, **kw)
    cls = type(r.map)
    fs = {n: z3.Function(n, core.INT, core.INT) for n in ("ringOf", "placeOf")}
    gs = {n: z3.Function(n, core.INT, core.REAL) for n in ("raLo", "raHi", "decLo", "decHi")}
    cap = e.memo["cap"] = {}

    class Map(cls):
        def getRingIndices(self, i):
            k = z3.simplify(zint(i)).get_id()
            if k not in cap:
                cap[k] = 2 if e.memo.get("inner") or cap else e.choose("position", 3)
            if cap[k] < 2:
                return (-1, 0) if cap[k] == 0 else (self.config.numRings, 0)
            a, t = [core.SymInt(f(zint(i))) for f in fs.values()]
            e.assume(conj(a >= 0, a < r.n, t >= 0))
            e.assume(t < count(r, a))
            return a, t

        def getRaDecRange(self, i):
            v = [core.SymReal(f(zint(i))) for f in gs.values()]
            for x in v[:2]:
                e.assume(conj(x >= 0, x < TWOPI))
            return [G.Angle(x) for x in v]
    Map.__name__ = cls.__name__
    Map.__module__ = cls.__module__
    r.map.__class__ = Map
    e.uses("tract numbers stand for one position in the rings each (contract C10)")
    return r


@contract("rings: position of a number, after another", covers=("caps", "ring"))
def positions(e):
    """The position of a number is the same whatever was asked before."""
    r = rings(e)
    n = r.size
    i, k = e.input_int("tract", 0), e.input_int("other", 0)
    e.assume(conj(i < n, k < n))
    fr = Frame(e)
    fr.watch("the map", r.map)
    r.map.getRingIndices(i)
    fr.close()
    ring, t = r.map.getRingIndices(k)
    if k == 0:
        e.prove(conj(ring == -1, t == 0), "tract 0 is the southern cap")
        e.cover("caps")
    elif k == n - 1:
        e.prove(conj(ring == r.n, t == 0), "the last tract is the northern cap")
    else:
        e.prove(conj(ring >= 0, ring < r.n, t >= 0, t < count(r, ring)), "other numbers are positions in rings")
        e.prove(k == 1 + before(r, ring) + t, "the one position with this number")
        e.cover("ring")


KINDS = {"rings": ("ringsSkyMap", a_rings), "discrete": MAKERS["discrete"], "healpix": MAKERS["healpix"]}


def _generated(name, module, make, what):
    @contract("%s: %s" % (name, what), covers=("answers",) + (("framed",) if what == "itself" else ()),
              max_paths=20000, budget=400)
    def generated(e):
        e.memo["inner"] = what != "itself"
        r = make(e)
        boxes(e)
        m, n = r.map, r.size if name == "rings" else r.n
        i, j = e.input_int("tract", 0), e.input_int("other", 0)
        e.assume(conj(i < n, j < n))
        ask = Ask(e, what, r.lay)
        fr = Frame(e)

        def make_(m, i, *others):
            with total(e):
                t = m.generateTract(i)
            return grids(e, r.lay, t, m, *others) if what != "itself" else (t, m) + others
        fr.watch("the map", m)
        t, m = make_(m, i)
        fr.watch("a tract", t)
        a = ask(t)
        u, m, t = make_(m, j, t)
        fr.watch("a tract", u)
        b = ask(u)
        if what in ("itself", "patch"):
            meddle(t)
            meddle(u)
        agree(e, a, ask(t), "the same answer after another tract is generated and asked")
        agree(e, b, ask(u), "the same answer when asked again")
        v, m, t, u = make_(m, i, t, u)
        agree(e, a, ask(v), "the same answer when the tract is generated again")
        agree(e, b, ask(u), "the same answer after the first tract is generated again")
        if what == "itself":
            fr.close()  # state kept is no violation: the claim is then bounded
            e.cover("framed")
        if name != "rings":
            fresh = type(m)(r.config)
            w, fresh = make_(fresh, j)
            agree(e, b, ask(w), "the same answer as from a map that made no other tract")
        e.cover("answers")


for _n, (_mod, _m) in KINDS.items():
    for _q in QUESTIONS if _n != "rings" else ("itself", "patch", "pair"):
        _generated(_n, _mod, _m, _q)


def recording():
    """The real constructor of tracts, its arguments kept."""
    import inspect
    import lsst.skymap.tractInfo as ti
    real = getattr(ti.TractInfo.__init__, "real", ti.TractInfo.__init__)
    sig = inspect.signature(real)

    def __init__(self, *a, **k):
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        self.made = dict(b.arguments)
        self.made.pop("self")
        real(self, *a, **k)
    __init__.real = real
    ti.TractInfo.__init__ = __init__


def alone(e, t, r):
    """The same tract, made with a tract builder of its own."""
    d = dict(t.made, tractBuilder=r.config.tractBuilder.apply())
    with total(e):
        return type(t)(**d)


LISTED = {n: MAKERS[n] for n in MAKERS if n not in KINDS}


def _listed(name, module, make, what):
    @contract("%s: %s" % (name, what), covers=("answers",), max_paths=20000, budget=200)
    def listed(e):
        recording()
        i = e.choose("tract", 12) if name[0] == "d" else e.input_int("tract", 0)
        boxes(e, [i] if name[0] == "d" else None)
        with total(e):
            r = make(e)
        m, n = r.map, r.n
        e.assume(i < n)
        t = rt.getitem(m, i)
        ask = Ask(e, what, r.lay)
        u = alone(e, t, r)
        if what != "itself":
            t, u = grids(e, r.lay, t, u)
        a = ask(t)
        if what in ("itself", "patch"):
            meddle(t)
        agree(e, a, ask(u), "the same answer as of the tract alone")
        agree(e, a, ask(t), "the same answer after another is made and asked")
        e.cover("answers")


for _n, (_mod, _m) in LISTED.items():
    for _q in ("itself", "patch", "pair") if _n[0] == "e" else ("itself", "pair")[:1 + ("vert" in _n)]:
        _listed(_n, _mod, _m, _q)


class Known(Exception):
    """The box is known: the rest of the constructor does not matter."""


def _minimum(name):
    @contract("minimum box of a tract (%s)" % name, covers=("answers",))
    def minimum(e):
        """The box a tract has is that of its own values, whatever was made before."""
        import lsst.skymap.tractInfo as ti
        lay = layout(e, "legacy")
        b = builder(e, lay)

        def args(s):
            d = dict(id=e.input_int("id" + s, 0), ctrCoord=deps.fresh_coord(e, "ctr" + s),
                     tractOverlap=G.Angle(e.input_real("overlap" + s, 0)), wcs=deps.AbsWcs.arbitrary(e, "wcs" + s))
            if name == "vertices":
                d["vertexCoordList"] = lst(deps.fresh_coord(e, "corner" + s))
            else:
                d["radius"] = G.Angle(e.input_real("radius" + s, 0))
            return d
        cls = ti.TractInfo if name == "vertices" else ti.ExplicitTractInfo
        boxes_ = []
        for c in (ti.TractInfo, ti.ExplicitTractInfo):
            if "_minimumBoundingBox" in c.__dict__:
                real = c.__dict__["_minimumBoundingBox"]

                def kept(self, wcs, real=getattr(real, "real", real)):
                    box = real(self, wcs)
                    boxes_.append(list(box._lo) + list(box._hi))
                    raise Known()
                kept.real = getattr(real, "real", real)
                c._minimumBoundingBox = kept
        a, c = args("A"), args("B")
        for x in (a, c):
            if e.choose("overlap") == 0:
                x["tractOverlap"] = G.Angle(0)
            else:
                e.assume(x["tractOverlap"].asRadians() > 0)
        with total(e):
            for x in (a, c, a):
                raises(e, lambda: cls(**dict(x, tractBuilder=b)), Known)
        e.prove(len(boxes_) == 3, "each tract has its box")
        for n in range(4):
            e.prove(boxes_[0][n] == boxes_[2][n], "the same box from the same values, after another's")
        e.cover("answers")


for _n in ("vertices", "radius"):
    _minimum(_n)
