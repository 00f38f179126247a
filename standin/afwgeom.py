"""Stand-in for the part of lsst.afw.geom that sky maps use: SkyWcs with the
TAN, STG and CEA projections (FITS WCS paper II, zero-indexed pixels)."""
import math

import numpy as np

from . import geom
from . import prims as P
from .geom import Angle, Point2D, Extent2D, SpherePoint

_D2R = math.pi/180.0


def makeCdMatrix(scale, orientation=0*geom.degrees, flipX=False):
    r = P.hook("makeCdMatrix", scale, orientation, flipX)
    if r is not None:
        return r
    o = orientation.asRadians()
    s = scale.asDegrees()
    xm = 1.0 if flipX else -1.0
    return np.array([[math.cos(o)*s*xm, math.sin(o)*s],
                     [-math.sin(o)*s*xm, math.cos(o)*s]])


def makeSkyWcs(crpix, crval, cdMatrix, projection="TAN"):
    r = P.hook("makeSkyWcs", crpix, crval, cdMatrix, projection)
    if r is not None:
        return r
    return SkyWcs(crpix, crval, cdMatrix, projection)


class SkyWcs:
    def __init__(self, crpix, crval, cdMatrix, projection="TAN"):
        if projection not in ("TAN", "STG", "CEA"):
            raise NotImplementedError("stand-in WCS: projection %r" % (projection,))
        if projection == "CEA" and crval.getLatitude().asRadians() != 0:
            raise NotImplementedError("stand-in WCS: CEA only about the equator")
        self._crpix = (float(crpix[0]), float(crpix[1]))
        self._crval = crval
        self._cd = np.array(cdMatrix, dtype=float)
        self._inv = np.linalg.inv(self._cd)
        self._proj = projection
        lon, lat = crval.getLongitude().asRadians(), crval.getLatitude().asRadians()
        sl, cl, sa, ca = math.sin(lon), math.cos(lon), math.sin(lat), math.cos(lat)
        self._p = np.array((ca*cl, ca*sl, sa))
        self._e = np.array((-sl, cl, 0.0))
        self._n = np.array((-sa*cl, -sa*sl, ca))

    # intermediate world coordinates (degrees) <-> sky
    def _fwd(self, coord):
        lon, lat = coord.getLongitude().asRadians(), coord.getLatitude().asRadians()
        if not (math.isfinite(lon) and math.isfinite(lat)):
            return math.nan, math.nan
        if self._proj == "CEA":
            d = lon - self._crval.getLongitude().asRadians()
            d = math.remainder(d, 2*math.pi)
            return d/_D2R, math.sin(lat)/_D2R
        v = np.array((math.cos(lat)*math.cos(lon), math.cos(lat)*math.sin(lon), math.sin(lat)))
        z, x, y = float(v @ self._p), float(v @ self._e), float(v @ self._n)
        if self._proj == "TAN":
            if z <= 1e-10:
                return math.nan, math.nan
            return x/z/_D2R, y/z/_D2R
        if 1 + z <= 1e-12:
            return math.nan, math.nan
        return 2*x/(1 + z)/_D2R, 2*y/(1 + z)/_D2R

    def _bwd(self, x, y):
        x, y = x*_D2R, y*_D2R
        if self._proj == "CEA":
            if abs(y) > 1:
                return SpherePoint(Angle(math.nan), Angle(math.nan))
            return SpherePoint(Angle(self._crval.getLongitude().asRadians() + x), Angle(math.asin(y)))
        if self._proj == "TAN":
            v = self._p + x*self._e + y*self._n
        else:
            r2 = (x*x + y*y)/4
            v = (1 - r2)*self._p + x*self._e + y*self._n
        return SpherePoint(geom.sphgeom.Vector3d(*[float(a) for a in v]))

    def skyToPixel(self, coord):
        r = P.hook("skyToPixel", self, coord)
        if r is not None:
            return r
        if isinstance(coord, (list, tuple)):
            return [self.skyToPixel(c) for c in coord]
        x, y = self._fwd(coord)
        i = self._inv
        return Point2D(float(i[0, 0]*x + i[0, 1]*y) + self._crpix[0],
                       float(i[1, 0]*x + i[1, 1]*y) + self._crpix[1])

    def pixelToSky(self, *args):
        if len(args) == 2:
            return self.pixelToSky(Point2D(*args))
        p = args[0]
        if isinstance(p, (list, tuple)):
            return [self.pixelToSky(q) for q in p]
        u, v = p[0] - self._crpix[0], p[1] - self._crpix[1]
        c = self._cd
        return self._bwd(float(c[0, 0]*u + c[0, 1]*v), float(c[1, 0]*u + c[1, 1]*v))

    def pixelToSkyArray(self, x, y, degrees=False):
        pts = [self.pixelToSky(Point2D(float(a), float(b))) for a, b in zip(x, y)]
        ra = np.array([p.getLongitude().asRadians() for p in pts])
        dec = np.array([p.getLatitude().asRadians() for p in pts])
        return (np.rad2deg(ra), np.rad2deg(dec)) if degrees else (ra, dec)

    def skyToPixelArray(self, ra, dec, degrees=False):
        u = geom.degrees if degrees else geom.radians
        pts = [self.skyToPixel(SpherePoint(float(a), float(b), u)) for a, b in zip(ra, dec)]
        return np.array([p[0] for p in pts]), np.array([p[1] for p in pts])

    def copyAtShiftedPixelOrigin(self, shift):
        return SkyWcs((self._crpix[0] + shift[0], self._crpix[1] + shift[1]),
                      self._crval, self._cd, self._proj)

    def getPixelOrigin(self):
        return Point2D(*self._crpix)

    def getSkyOrigin(self):
        return self._crval

    def getCdMatrix(self):
        return self._cd.copy()

    def getPixelScale(self, *args):
        return Angle(math.sqrt(abs(np.linalg.det(self._cd)))*_D2R)

    def _key(self):
        return (self._crpix, self._crval, tuple(map(float, self._cd.ravel())), self._proj)

    def __eq__(self, o):
        return isinstance(o, SkyWcs) and self._key() == o._key()

    def __hash__(self):
        return hash(self._key())

    def __repr__(self):
        return "SkyWcs%r" % (self._key(),)
