"""C17: maps are equal exactly when kind and geometry configuration are."""
import z3

from .rings import *
from pyvc import packing
from pyvc.packing import Text

CONTRACTS, contract = registry()
LAYOUTS = ("legacy", "cells")


def text(e, name="projection"):
    """Any projection code of three characters."""
    return Text(e._fresh(name + e.suffix, core.INT), 3)


def _dodeca(e, kind, **kw):
    return dodeca(e, bool(e.choose("withTractsOnPoles" + e.suffix)), kind=kind, **kw)


def _rings(e, kind, **kw):
    if "version" not in e.memo:
        e.memo["version"] = e.choose("version")
    return rings(e, e.memo["version"], kind=kind, **kw)


KINDS = {"rings": ("ringsSkyMap", _rings, ("numRings", "raStart")),
         "discrete": ("discreteSkyMap", lambda e, kind, **kw: discrete(e, kind, **kw), ("raList", "decList", "radiusList")),
         "healpix": ("healpixSkyMap", lambda e, kind, **kw: healpix(e, kind, **kw), ("log2NSide", "nest")),
         "equatorial": ("equatSkyMap", lambda e, kind, **kw: equat(e, kind, **kw), ("numTracts", "decRange")),
         "dodecahedron": ("dodecaSkyMap", _dodeca, ("withTractsOnPoles",))}
COMMON = ("tractOverlap", "pixelScale", "projection", "rotation")
OWN = {"legacy": ("patchInnerDimensions", "patchBorder"),
       "cells": ("cellInnerDimensions", "cellBorder", "numCellsPerPatchInner", "numCellsInPatchBorder")}


def int32(e, v):
    """Configured integers are below 2^31 (they are patch sizes, counts of rings...)."""
    if issym(v):
        e.assume(conj(v >= -2**31, v < 2**31))


def a_map(e, kind, lay, suffix=""):
    module, make, own = KINDS[kind]
    recorded(module)
    with named(e, suffix):
        with total(e):
            r = make(e, lay, projection=text(e))
    for f in own:
        v = getattr(r.config, f)
        if isinstance(v, core.SymInt):
            int32(e, v)
    for f in OWN[lay]:
        v = getattr(r.lay.sub, f)
        for x in (list(v) if isinstance(v, loops.VList) else [v]):
            int32(e, x)
    return r


def values(r, kind, lay):
    """(name, value) of every configuration value that determines tracts and patches."""
    for f in COMMON + KINDS[kind][2]:
        yield f, getattr(r.config, f)
    for f in OWN[lay]:
        yield f, getattr(r.lay.sub, f)


def agree(e, name, x, y):
    if isinstance(x, loops.VList):
        n, m = rt.b_len(x), rt.b_len(y)
        e.prove(n == m, "equal maps have as many values in %s" % name)
        if not issym(n):
            for k in range(n):
                e.prove(rt.getitem(x, k) == rt.getitem(y, k), "equal maps agree in %s[%d]" % (name, k))
            return
        k = e.input_int("k_" + name, 0)
        e.assume(k < n)
        packing.at(e, k)
        e.prove(rt.getitem(x, k) == rt.getitem(y, k), "equal maps agree in %s" % name)
        return
    e.prove(x == y, "equal maps agree in %s" % name)


def _necessary(kind, lay):
    @contract("equal %s maps (%s layout) have equal configurations" % (kind, lay), covers=("equal",))
    def nec(e):
        a, b = a_map(e, kind, lay), a_map(e, kind, lay, "2")
        how = e.choose("how", 3)
        if how == 0:
            c = a.map == b.map
        elif how == 1:
            c = neg(a.map != b.map)
        else:
            c = a.map.getSha1() == b.map.getSha1()
        if not e.decide(truth(c)):
            return
        e.cover("equal")
        for (f, x), (_, y) in zip(values(a, kind, lay), values(b, kind, lay)):
            agree(e, f, x, y)


def again(e, r, kind, version):
    """The same map built again."""
    c = deps.Cfg(**{f: copied(v) for f, v in vars(r.config).items() if f != "tractBuilder"})
    sub = deps.Cfg(**{f: copied(v) for f, v in vars(r.lay.sub).items()})
    c.tractBuilder = deps.BuilderField(r.lay.kind, r.lay.cls, sub)
    with total(e):
        if kind == "rings":
            return type(r.map)(c, version=version)
        return type(r.map)(c)


def copied(v):
    return loops.VList(list(v.parts)) if isinstance(v, loops.VList) else v


def _sufficient(kind, lay):
    @contract("%s maps (%s layout) built from equal configurations are equal" % (kind, lay), covers=("again",))
    def suf(e):
        a = a_map(e, kind, lay)
        if e.choose("queried before"):
            a.map.getSha1()
        b = again(e, a, kind, e.memo.get("version"))
        e.cover("again")
        e.prove(a.map == b, "maps built alike are equal")
        e.prove(b == a.map, "maps built alike are equal, the other way round")
        e.prove(neg(a.map != b), "maps built alike are not unequal")
        e.prove(rt.b_hash(a.map) == rt.b_hash(b), "maps built alike have equal hashes")
        e.prove(a.map.getSha1() == b.getSha1(), "maps built alike have equal digests")
        e.prove(a.map == a.map, "a map equals itself")
        d = a.map.getSha1()
        e.prove(d == a.map.getSha1(), "the digest stays the same")


for _k in KINDS:
    for _l in LAYOUTS:
        _necessary(_k, _l)
        _sufficient(_k, _l)


def _cross(kind):
    @contract("%s maps differ from maps of other kinds" % kind, covers=("other kind",))
    def cross(e):
        other = [k for k in KINDS if k != kind]
        o = other[e.choose("other", len(other))]
        a = a_map(e, kind, LAYOUTS[e.choose("layout")])
        b = a_map(e, o, LAYOUTS[e.choose("layout2")], "2")
        e.cover("other kind")
        differ(e, a, b, "of different kinds")

    @contract("%s maps of different layouts differ" % kind, covers=("other layout",))
    def lay(e):
        a, b = a_map(e, kind, "legacy"), a_map(e, kind, "cells", "2")
        e.cover("other layout")
        differ(e, a, b, "of different layouts")

    @contract("%s maps are unequal to anything else" % kind, covers=("other",))
    def other(e):
        a = a_map(e, kind, LAYOUTS[e.choose("layout")])
        e.cover("other")
        for x in (None, 5, 2.5, "map", b"", (), object(), a.config, NotImplemented.__class__):
            r = a.map == x
            e.prove(neg(r), "comparing with something else is unequal")
            e.prove(a.map != x, "comparing with something else is unequal (!=)")
            e.prove(neg(x == a.map), "comparing something else with a map is unequal")


def differ(e, a, b, what):
    e.prove(neg(a.map == b.map), "maps %s are unequal" % what)
    e.prove(a.map != b.map, "maps %s are unequal (!=)" % what)
    e.prove(neg(a.map.getSha1() == b.map.getSha1()), "maps %s have different digests" % what)


for _k in KINDS:
    _cross(_k)
