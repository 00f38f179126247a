import math

from .common import *
from .maps import *

RULE = ("real lsst.pex.config configurations: discrete lists of 0 to 5 entries of equal and different lengths; 0 to 4 cell "
        "dimensions, alone and within maps of all kinds; ring counts -2 to 5 and starting RAs around 0 and 360; patch sizes and "
        "borders set through the old names on maps of all kinds, with tracts built")

KINDS = ["rings", "discrete", "equat", "dodeca", "healpix"]


def cases(rng, tier):
    n = 0
    while True:
        n += 1
        k = n % 4
        if k == 0:
            a = rng.randint(0, 5)
            yield {"what": "discrete", "n": [a, rng.choice([a, a, rng.randint(0, 5)]), rng.choice([a, a, rng.randint(0, 5)])]}
        elif k == 1:
            w = rng.randint(-1, 9) if rng.random() < .2 else rng.randint(1, 300)
            yield {"what": "cells", "dims": [rng.choice([w, w, rng.randint(1, 300)]) for _ in range(rng.choice([0, 1, 2, 2, 2, 2, 3, 4]))],
                   "kind": rng.choice([None] + KINDS)}
        elif k == 2:
            yield {"what": "rings", "n": rng.choice([-2, -1, 0, 1, 2, 5, rng.randint(1, 300)]),
                   "ra": rng.choice([0.0, -0.0, 360.0, 359.999, -1e-9, -90.0, math.nextafter(360, 0), rng.uniform(0, 360),
                                     rng.uniform(-360, 720)])}
        else:
            yield {"what": "legacy", "kind": rng.choice(KINDS), "dims": [rng.randint(20, 90), rng.randint(20, 90)],
                   "border": rng.randint(-9, 15), "layout": rng.choice(["legacy", "legacy", "cells"]),
                   "how": rng.choice(["property", "method"])}


def config(kind):
    import importlib
    mod, cls = {"rings": ("ringsSkyMap", "RingsSkyMapConfig"), "discrete": ("discreteSkyMap", "DiscreteSkyMapConfig"),
                "equat": ("equatSkyMap", "EquatSkyMapConfig"), "dodeca": ("dodecaSkyMap", "DodecaSkyMapConfig"),
                "healpix": ("healpixSkyMap", "HealpixSkyMapConfig")}[kind]
    c = getattr(importlib.import_module("lsst.skymap." + mod), cls)()
    if kind == "rings":
        c.numRings = 2
    if kind == "healpix":
        c.log2NSide = 0
        c.nest = True
    if kind == "discrete":
        c.raList, c.decList, c.radiusList = [10.0], [20.0], [.5]
    c.pixelScale = 3000.0 if kind != "discrete" else 60.0
    return c


def accepted(make):
    """Assigning the values and validating the configuration is allowed."""
    try:
        make().validate()
    except ValueError:
        return False
    return True


def check(case):
    if case["what"] == "discrete":
        def make():
            from lsst.skymap.discreteSkyMap import DiscreteSkyMapConfig
            c = DiscreteSkyMapConfig()
            c.raList, c.decList, c.radiusList = [[1.0 + i for i in range(n)] for n in case["n"]]
            return c
        want = len(set(case["n"])) == 1
    elif case["what"] == "cells":
        def make():
            from lsst.skymap.tractBuilder import CellTractBuilderConfig
            if case["kind"] is None:
                c = CellTractBuilderConfig()
                c.cellInnerDimensions = case["dims"]
                return c
            c = config(case["kind"])
            c.tractBuilder.name = "cells"
            c.tractBuilder["cells"].cellInnerDimensions = case["dims"]
            return c
        want = len(case["dims"]) == 2 and case["dims"][0] == case["dims"][1]
    elif case["what"] == "rings":
        def make():
            from lsst.skymap.ringsSkyMap import RingsSkyMapConfig
            c = RingsSkyMapConfig()
            c.numRings, c.raStart = case["n"], case["ra"]
            return c
        want = case["n"] >= 1 and 0 <= case["ra"] < 360
    else:
        return legacy(case)
    got = accepted(make)
    if got != want:
        return "%s is %s" % (case, "accepted" if got else "rejected")
    return None


def legacy(case):
    c = config(case["kind"])
    c.tractBuilder.name = case["layout"]
    cells = c.tractBuilder["cells"].toDict()
    if case["how"] == "property":
        c.patchInnerDimensions = case["dims"]
        c.patchBorder = case["border"]
    else:
        c.setPatchBorder(case["border"])
        c.setPatchInnerDimensions(case["dims"])
    sub = c.tractBuilder["legacy"]
    if list(sub.patchInnerDimensions) != case["dims"] or sub.patchBorder != case["border"]:
        return "legacy layout has patches of %s and border %s" % (sub.patchInnerDimensions, sub.patchBorder)
    if list(c.patchInnerDimensions) != case["dims"] or list(c.getPatchInnerDimensions()) != case["dims"] or \
            c.patchBorder != case["border"] or c.getPatchBorder() != case["border"]:
        return "the configuration reads patches of %s and border %s" % (c.patchInnerDimensions, c.patchBorder)
    if c.tractBuilder["cells"].toDict() != cells or c.tractBuilder.name != case["layout"]:
        return "the other layout changed"
    sub.patchInnerDimensions, sub.patchBorder = [case["dims"][1] + 1, case["dims"][0]], case["border"] + 1
    if list(c.patchInnerDimensions) != [case["dims"][1] + 1, case["dims"][0]] or c.patchBorder != case["border"] + 1:
        return "the configuration reads patches of %s and border %s" % (c.patchInnerDimensions, c.patchBorder)
    if case["layout"] == "legacy" and case["border"] >= 0:
        from lsst.skymap import BaseSkyMap
        for cls in BaseSkyMap.__subclasses__() + [x for y in BaseSkyMap.__subclasses__() for x in y.__subclasses__()]:
            if cls.ConfigClass is type(c) and cls.__name__ != "CachingSkyMap":
                m = cls(c)
                t = m[len(m) // 2]
                d = t.getPatchInnerDimensions()
                if [d[0], d[1]] != list(c.patchInnerDimensions) or t.getPatchBorder() != c.patchBorder:
                    return "a tract has patches of %s and border %s" % (d, t.getPatchBorder())
                p = t.getPatchInfo((0, 0)).getInnerBBox()
                if [p.getWidth(), p.getHeight()] != list(c.patchInnerDimensions):
                    return "a patch is %s" % p
    return None


def from_model(contract, m):
    import random
    rng = random.Random(29)
    if "discrete: lists" in contract:
        yield {"what": "discrete", "n": [int(m.get(k, 0)) % 50 for k in ("numRA", "numDec", "numRadius")]}
    if "rings: number" in contract:
        yield {"what": "rings", "n": int(m.get("numRings", 1)), "ra": float(m.get("raStart", 0))}
    g = cases(rng, "quick")
    for _ in range(80):
        yield next(g)
