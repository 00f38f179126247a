"""C29: configurations are validated, and old patch settings reach the legacy layout."""
from .common import *

CONTRACTS, contract = registry()


def configured(cls, **values):
    """A configuration of the class with any values in these fields; the others have valid ones."""
    sub = type(cls)("Any" + cls.__name__, (cls,), {"__module__": cls.__module__})
    c = sub()
    for k, f in sub._fields.items():
        if k in values and getattr(f, "default", 0) is None and not f.optional:
            # what lsst.pex.config sees of a field that must be given
            setattr(c, k, 1)
    for k, v in values.items():
        type.__setattr__(sub, k, property(lambda self, v=v: v))
    return c


def fields_ok(e, cls, values):
    """The checks lsst.pex.config makes of single fields, with the field's own functions."""
    e.uses("lsst.pex.config refuses a value of a field exactly when its type, its length or its check does not allow it")
    for name, f in cls._fields.items():
        if name not in values:
            continue
        v = values[name]
        for k, test in (("length", lambda n, m: n == m), ("minLength", lambda n, m: n >= m), ("maxLength", lambda n, m: n <= m)):
            m = getattr(f, k, None)
            if m is not None and not core.ENG.decide(core.truth(test(rt.b_len(v), m))):
                return False
        if getattr(f, "itemCheck", None) is not None:
            x, _ = loops.pick(v, "item")
            e.prove(f.itemCheck(x), "every item is allowed")
        for k in ("check", "listCheck"):
            if getattr(f, k, None) is not None and not f.__dict__[k](v):
                return False
    return True


def accepted(e, cls, **values):
    if not fields_ok(e, cls, values):
        return False
    c = configured(cls, **values)
    # the checks of single fields are made above: here they see their defaults
    _, exc = raises(e, c.validate, ValueError)
    return exc is None


@contract("discrete: lists of equal length", covers=("accepted", "rejected"))
def discrete_lists(e):
    from lsst.skymap.discreteSkyMap import DiscreteSkyMapConfig
    n = [e.input_int(k, 0) for k in ("numRA", "numDec", "numRadius")]
    ok = accepted(e, DiscreteSkyMapConfig, raList=real_list(e, "ra", n[0]), decList=real_list(e, "dec", n[1]),
                  radiusList=real_list(e, "radius", n[2]))
    same = conj(n[0] == n[1], n[1] == n[2])
    if ok:
        e.prove(same, "accepted only with lists of equal length")
        e.cover("accepted")
    else:
        e.prove(neg(same), "rejected only with lists of different lengths")
        e.cover("rejected")


@contract("cells: two equal dimensions", covers=("accepted", "rejected"))
def cell_dims(e):
    from lsst.skymap.tractBuilder import CellTractBuilderConfig
    two = e.choose("two") == 0
    n = 2 if two else e.input_int("numDims", 0)
    if two:
        w, h = e.input_int("cellW"), e.input_int("cellH")
        dims, want = lst(w, h), w == h
    else:
        f = z3.Function("dims", core.INT, core.INT)
        e.assume(n != 2)
        dims, want = loops.VList([loops.FnSeg(n, lambda i: core.SymInt(f(loops.zint(i))))]), False
    # of a list of another length the class itself decides, also when its field does not
    ok = accepted(e, CellTractBuilderConfig, cellInnerDimensions=dims)
    if ok:
        e.prove(want, "accepted only with two equal dimensions")
        e.cover("accepted")
    else:
        e.prove(neg(want), "rejected only without two equal dimensions")
        e.cover("rejected")


@contract("cells: validated with the map's configuration", covers=("validated",))
def cell_validated(e):
    """What makes lsst.pex.config apply that validation: the class and its registration."""
    from lsst.skymap import tractBuilder as T, baseSkyMap as B
    e.prove(T.tractBuilderRegistry["cells"] is T.CellTractBuilder and
            T.tractBuilderRegistry["legacy"] is T.LegacyTractBuilder, "layouts are registered under their names")
    e.prove(T.CellTractBuilder.ConfigClass is T.CellTractBuilderConfig and
            T.LegacyTractBuilder.ConfigClass is T.LegacyTractBuilderConfig, "with their configurations")
    e.prove(B.BaseSkyMapConfig._fields["tractBuilder"].typemap is not None, "a map's configuration has a layout")
    e.cover("validated")


@contract("rings: number of rings and starting RA", covers=("accepted", "rejected"))
def rings_fields(e):
    from lsst.skymap.ringsSkyMap import RingsSkyMapConfig
    n, ra = e.input_int("numRings"), e.input_real("raStart")
    ok = accepted(e, RingsSkyMapConfig, numRings=n, raStart=ra)
    want = conj(n >= 1, ra >= 0, ra < 360)
    if ok:
        e.prove(want, "accepted only with a ring and a starting RA in [0, 360)")
        e.cover("accepted")
    else:
        e.prove(neg(want), "rejected only without a ring or with a starting RA outside [0, 360)")
        e.cover("rejected")


class Builders:
    """config.tractBuilder: the configuration of each layout, whichever is selected."""

    def __init__(self, name, **subs):
        self.name, self.subs = name, subs

    def __getitem__(self, k):
        return self.subs[k]

    @property
    def active(self):
        return self.subs[self.name]

    def apply(self):
        from lsst.skymap.tractBuilder import tractBuilderRegistry
        return tractBuilderRegistry[self.name](self.active)


KINDS = {"base": ("baseSkyMap", "BaseSkyMapConfig"), "rings": ("ringsSkyMap", "RingsSkyMapConfig"),
         "discrete": ("discreteSkyMap", "DiscreteSkyMapConfig"), "healpix": ("healpixSkyMap", "HealpixSkyMapConfig"),
         "equatorial": ("equatSkyMap", "EquatSkyMapConfig"), "dodecahedron": ("dodecaSkyMap", "DodecaSkyMapConfig")}


def _legacy(kind, module, cls):
    @contract("%s: old patch settings" % kind, covers=("legacy", "cells"))
    def settings(e):
        mod = __import__("lsst.skymap." + module, fromlist=["x"])
        lay, other = legacy(e), cells(e)
        name = ("legacy", "cells")[e.choose("layout", 2)]
        subs = Builders(name, legacy=lay.sub, cells=other.sub)
        before = dict(other.sub.__dict__)
        c = configured(getattr(mod, cls), tractBuilder=subs)
        e.cover(name)
        for got in (c.patchInnerDimensions, c.getPatchInnerDimensions()):
            e.prove(conj(rt.b_len(got) == 2, got[0] == lay.w, got[1] == lay.h), "the patch size is that of the legacy layout")
        for got in (c.patchBorder, c.getPatchBorder()):
            e.prove(got == lay.border, "the patch border is that of the legacy layout")
        w, h, b = e.input_int("newW", 1), e.input_int("newH", 1), e.input_int("newBorder")
        how = e.choose("how", 2)
        if how == 0:
            c.patchInnerDimensions = lst(w, h)
        else:
            c.setPatchInnerDimensions(lst(w, h))
        e.prove(conj(lay.sub.patchBorder == lay.border), "setting the size leaves the border")
        if how == 0:
            c.patchBorder = b
        else:
            c.setPatchBorder(b)
        got = lay.sub.patchInnerDimensions
        e.prove(conj(rt.b_len(got) == 2, got[0] == w, got[1] == h), "setting the patch size sets that of the legacy layout")
        e.prove(lay.sub.patchBorder == b, "setting the patch border sets that of the legacy layout")
        e.prove(conj(c.patchBorder == b, c.patchInnerDimensions[0] == w, c.patchInnerDimensions[1] == h),
                "reading gives what was set")
        e.prove(all(other.sub.__dict__[k] is v for k, v in before.items()) and len(before) == len(other.sub.__dict__),
                "the other layout is left alone")
        e.prove(subs.name == name, "the selected layout is left alone")
        if name == "legacy":
            t = any_tract(e, Fixed(subs), id=0)
            d = t.getPatchInnerDimensions()
            e.prove(conj(t.getPatchBorder() == b, d[0] == w, d[1] == h), "tracts built with the layout use it")


class Fixed:
    """A layout by its selection."""
    kind = "legacy"

    def __init__(self, subs):
        self.sub = subs
        self.cls = lambda s: s.apply()


import z3  # noqa: E402

for _k, (_m, _c) in KINDS.items():
    _legacy(_k, _m, _c)
