"""Assumed contracts of the libraries lsst.skymap calls, for symbolic runs.

SkyWcs and SpherePoint are uninterpreted: a coordinate is a term of sort Coord, a
coordinate system a term of sort Wcs; results are functions of their arguments, so
equal questions get equal answers.  Everything else of lsst.geom is the stand-in
itself, executed symbolically.
"""
import math
from fractions import Fraction

import numpy as np
import z3

from pyvc import core, loops
from pyvc.core import SymInt, SymReal, SymBool, issym, lift, truth, toreal, INT, REAL, BOOL, Unsupported
import standin.geom as G

Coord = z3.DeclareSort("Coord")
Wcs = z3.DeclareSort("Wcs")
COORD = z3.Function("coord", REAL, REAL, Coord)                 # lon, lat (radians)
LON = z3.Function("lon", Coord, REAL)
LAT = z3.Function("lat", Coord, REAL)
OFFSET = z3.Function("offset", Coord, REAL, REAL, Coord)        # bearing, amount
SEP = z3.Function("sep", Coord, Coord, REAL)
VEC = [z3.Function("vec%d" % i, Coord, REAL) for i in range(3)]
FROMVEC = z3.Function("fromvec", REAL, REAL, REAL, Coord)
STATUS = z3.Function("status", Wcs, Coord, INT)
PX = [z3.Function("pix%d" % i, Wcs, Coord, REAL) for i in range(2)]
UNPROJ = z3.Function("unproj", Wcs, REAL, REAL, Coord)
WCSMK = z3.Function("mkwcs", Coord, REAL, REAL, BOOL, INT, Wcs)  # crval, scale, orientation, flip, projection

_intern = {}


def intern(key):
    return _intern.setdefault(key, len(_intern))


def real(x):
    """z3 real of an Angle or a number"""
    if isinstance(x, G.Angle):
        x = x.asRadians()
        if not issym(x):
            x = round(x, 10)    # concrete angles: rounding differences are ignored
    return toreal(lift(x))


def anysym(*xs):
    for x in xs:
        if isinstance(x, G.Angle):
            x = x.asRadians()
        if isinstance(x, AbsCoord):
            return True
        if isinstance(x, G.SpherePoint):
            if issym(x._lon) or issym(x._lat):
                return True
            continue
        if issym(x):
            return True
    return False


# ------------------------------------------------------------------- coordinates
class AbsCoord(G.SpherePoint):
    __slots__ = ("_t",)
    _pyvc_clone = True

    def __init__(self, t):
        self._t = t
        self._lon = SymReal(LON(t))
        self._lat = SymReal(LAT(t))

    def __eq__(self, o):
        if not isinstance(o, G.SpherePoint):
            return NotImplemented
        return SymBool(self._t == cterm(o))

    def __ne__(self, o):
        return core.neg(self.__eq__(o))

    __hash__ = None

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _pyvc_subst(self, pairs, memo):
        t = z3.substitute(self._t, *pairs)
        return self if z3.eq(t, self._t) else AbsCoord(t)

    def __repr__(self):
        return "AbsCoord(%s)" % self._t

    __str__ = __repr__


def coord(e, t):
    """Coordinate with its range facts assumed."""
    c = AbsCoord(t)
    e.assume(z3.And(LON(t) >= 0, LON(t) < core.rv(G.TWOPI), LAT(t) >= -core.rv(G.HALFPI),
                    LAT(t) <= core.rv(G.HALFPI)))
    return c


def fresh_coord(e, base="coord"):
    return coord(e, e._fresh(base, Coord))


def cterm(c):
    if isinstance(c, AbsCoord):
        return c._t
    return COORD(real(c._lon), real(c._lat))


def _finite(c):
    return issym(c._lon) or math.isfinite(c._lon)


def h_separation(a, b):
    if not anysym(a, b):
        return None
    t = SEP(cterm(a), cterm(b))
    core.ENG.assume(z3.And(t >= 0, t <= core.rv(math.pi), t == SEP(cterm(b), cterm(a))))
    return G.Angle(SymReal(t))


def h_offset(c, bearing, amount):
    if not anysym(c, bearing, amount):
        return None
    return coord(core.ENG, OFFSET(cterm(c), real(bearing), real(amount)))


def h_getVector(c):
    if not anysym(c):
        return None
    t = cterm(c)
    v = SymVec(*[SymReal(f(t)) for f in VEC])
    v.of = t
    return v


def h_fromVector(sp, v):
    """SpherePoint(vector): the position in the direction of the vector."""
    from pyvc.sph import SymVector3d
    e = core.ENG
    if isinstance(v, SymVec) and getattr(v, "of", None) is not None:
        t = v.of
    elif isinstance(v, (SymVec, SymVector3d)):
        c = [real(x) for x in v.c]
        t = FROMVEC(*c)
        # its unit vector, times a positive length, is the vector
        r = e._fresh("length", REAL)
        e.assume(z3.Implies(z3.Or(*[x != 0 for x in c]), z3.And(r > 0, *[x == r*f(t) for x, f in zip(c, VEC)])))
        e.uses("SpherePoint(vector) is the position in the direction of the vector")
    else:
        return None
    p = coord(e, t)
    e.assume(COORD(LON(t), LAT(t)) == t)
    sp._lon, sp._lat = p._lon, p._lat
    return True


class SymVec:
    """UnitVector3d of an abstract coordinate."""
    _pyvc_clone = True

    def __init__(self, x, y, z):
        self.c = (x, y, z)

    def __getitem__(self, i):
        return self.c[i]

    def __len__(self):
        return 3

    def __iter__(self):
        return iter(self.c)

    def x(self):
        return self.c[0]

    def y(self):
        return self.c[1]

    def z(self):
        return self.c[2]


# --------------------------------------------------------------------------- wcs
class AbsCd:
    """The matrix made from a scale and an orientation."""
    _pyvc_clone = True

    def __init__(self, scale, orientation, flip):
        self.scale, self.orientation, self.flip = scale, orientation, flip


def h_makeCdMatrix(scale, orientation, flipX):
    if anysym(scale, orientation, flipX) or core.ENG.memo.get("abstract_wcs"):
        return AbsCd(scale, orientation, flipX)
    return None


def h_makeSkyWcs(crpix, crval, cd, projection):
    if isinstance(cd, AbsCd) or anysym(crval, crpix[0], crpix[1]):
        return AbsWcs(crpix, crval, cd, projection)
    return None


class AbsWcs:
    _pyvc_clone = True

    def __init__(self, crpix, crval, cd, projection, base=None):
        self.crpix = (crpix[0], crpix[1])
        self.crval, self.cd, self.projection = crval, cd, projection
        if base is None:
            pr = z3.IntVal(intern(("proj", projection)))
            if isinstance(cd, AbsCd):
                flip = truth(cd.flip)
                base = WCSMK(cterm(crval), real(cd.scale), real(cd.orientation), flip, pr)
            else:
                n = intern(("cd", np.asarray(cd).tobytes()))
                base = WCSMK(cterm(crval), z3.RealVal(-1), z3.RealVal(n), z3.BoolVal(False), pr)
        self.base = base

    @classmethod
    def arbitrary(cls, e, name="wcs"):
        """Any coordinate system whatever."""
        b = e._fresh(name, Wcs)
        return cls((e.fresh_real(name + "_cx"), e.fresh_real(name + "_cy")), None, None, None, base=b)

    def _shifted(self, t, i):
        return SymReal(PX[i](self.base, t)) + self.crpix[i]

    def skyToPixel(self, c):
        if isinstance(c, (loops.VList, loops.SymSeq, list, tuple)):
            from pyvc import rt
            v = loops.VList(loops.parts_of(c))
            if v.symbolic:
                raise Unsupported("skyToPixel of a symbolic list")
            return loops.VList([self.skyToPixel(x) for x in v.parts])
        e = core.ENG
        if not _finite(c):
            return G.Point2D(math.nan, math.nan)
        t = cterm(c)
        st = STATUS(self.base, t)
        if not e.memo.get("wcs_total"):
            if not e.decide(st == 0):
                import lsst.pex.exceptions as X
                if e.decide(st == 1):
                    raise X.DomainError("no pixel position")
                if e.decide(st == 2):
                    raise X.RuntimeError("no pixel position")
                e.assume(st == 3)
                return G.Point2D(math.nan, math.nan)
        p = G.Point2D(self._shifted(t, 0), self._shifted(t, 1))
        hk = e.memo.get("pixel_hook")
        if hk is not None:
            hk(self, t, p)
        return p

    def pixelToSky(self, *args):
        if len(args) == 2:
            return self.pixelToSky(G.Point2D(*args))
        p = args[0]
        if isinstance(p, (list, tuple, loops.VList)):
            return loops.VList([self.pixelToSky(q) for q in p])
        x, y = p[0] - self.crpix[0], p[1] - self.crpix[1]
        return coord(core.ENG, UNPROJ(self.base, real(x), real(y)))

    def copyAtShiftedPixelOrigin(self, shift):
        return AbsWcs((self.crpix[0] + shift[0], self.crpix[1] + shift[1]), self.crval, self.cd, self.projection,
                      base=self.base)

    def getPixelOrigin(self):
        return G.Point2D(*self.crpix)

    def getSkyOrigin(self):
        return self.crval

    def getCdMatrix(self):
        return self.cd

    def __eq__(self, o):
        if not isinstance(o, AbsWcs):
            return NotImplemented
        return core.conj(SymBool(self.base == o.base), self.crpix[0] == o.crpix[0], self.crpix[1] == o.crpix[1])

    __hash__ = None


def h_skyToPixel(wcs, c):
    """Concrete coordinate system, symbolic position."""
    if isinstance(c, G.SpherePoint) and anysym(c):
        raise Unsupported("concrete coordinate system applied to a symbolic position")
    return None


# ------------------------------------------------------------------------ config
class Cfg:
    """A configuration object with arbitrary field values: reading a field gives the
    value; tractBuilder.apply() constructs the selected builder (lsst.pex.config)."""
    _pyvc_clone = True

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def freeze(self):
        pass

    def validate(self):
        pass


class BuilderField:
    """config.tractBuilder"""
    _pyvc_clone = True

    def __init__(self, name, cls, sub):
        self.name, self.cls, self.sub = name, cls, sub

    def apply(self):
        return self.cls(self.sub)

    def __getitem__(self, n):
        if n != self.name:
            raise Unsupported("configuration of another tract builder")
        return self.sub

    @property
    def active(self):
        return self.sub


def install():
    core.install_prims()
    core._Prims.hooks.update({
        "separation": h_separation, "offset": h_offset, "getVector": h_getVector, "fromVector": h_fromVector,
        "makeCdMatrix": h_makeCdMatrix, "makeSkyWcs": h_makeSkyWcs, "skyToPixel": h_skyToPixel,
    })
