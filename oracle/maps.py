"""Concrete sky maps of every kind on the real code, with coarse pixels so that tracts are cheap."""
import math


def cfg(cls, **kw):
    c = cls()
    c.pixelScale = kw.pop("pixelScale", 2000.0)
    lay = kw.pop("layout", None)
    if lay is not None:
        if lay["kind"] == "legacy":
            c.tractBuilder.name = "legacy"
            c.tractBuilder["legacy"].patchInnerDimensions = [lay["w"], lay["h"]]
            c.tractBuilder["legacy"].patchBorder = lay["border"]
        else:
            c.tractBuilder.name = "cells"
            b = c.tractBuilder["cells"]
            b.cellInnerDimensions = [lay["cell"], lay["cell"]]
            b.cellBorder = lay["cborder"]
            b.numCellsPerPatchInner = lay["n"]
            b.numCellsInPatchBorder = lay["m"]
    else:
        c.tractBuilder["legacy"].patchInnerDimensions = [50, 40]
        c.tractBuilder["legacy"].patchBorder = 5
    for k, v in kw.items():
        setattr(c, k, v)
    return c


def rings(numRings, raStart=0.0, version=1, **kw):
    from lsst.skymap.ringsSkyMap import RingsSkyMap, RingsSkyMapConfig
    return RingsSkyMap(cfg(RingsSkyMapConfig, numRings=numRings, raStart=raStart, **kw), version=version)


def dodeca(**kw):
    from lsst.skymap.dodecaSkyMap import DodecaSkyMap, DodecaSkyMapConfig
    return DodecaSkyMap(cfg(DodecaSkyMapConfig, **kw))


def equat(**kw):
    from lsst.skymap.equatSkyMap import EquatSkyMap, EquatSkyMapConfig
    return EquatSkyMap(cfg(EquatSkyMapConfig, **kw))


def discrete(points, **kw):
    from lsst.skymap.discreteSkyMap import DiscreteSkyMap, DiscreteSkyMapConfig
    return DiscreteSkyMap(cfg(DiscreteSkyMapConfig, raList=[p[0] for p in points], decList=[p[1] for p in points],
                              radiusList=[p[2] for p in points], **kw))


def healpix(**kw):
    from lsst.skymap.healpixSkyMap import HealpixSkyMap, HealpixSkyMapConfig
    return HealpixSkyMap(cfg(HealpixSkyMapConfig, **kw))


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol


def turndiff(a, b):
    """Difference of two angles in radians, in (-pi, pi]."""
    return math.remainder(a - b, 2*math.pi)


def sep(a, b):
    """Angular distance of two (lon, lat) in radians."""
    x = [math.cos(a[1])*math.cos(a[0]), math.cos(a[1])*math.sin(a[0]), math.sin(a[1])]
    y = [math.cos(b[1])*math.cos(b[0]), math.cos(b[1])*math.sin(b[0]), math.sin(b[1])]
    c = [x[1]*y[2] - x[2]*y[1], x[2]*y[0] - x[0]*y[2], x[0]*y[1] - x[1]*y[0]]
    return math.atan2(math.sqrt(sum(v*v for v in c)), sum(u*v for u, v in zip(x, y)))
