"""lsst.sphgeom for instrumented code: the real classes on ordinary values, recording
ones on symbolic values (an angle is its value, a region what it was made from)."""
import math

from . import core, loops
from .core import issym, Unsupported

TWOPI = 2*math.pi


class SymAngle:
    _pyvc_clone = True

    def __init__(self, v):
        self.v = v

    def asRadians(self):
        return self.v

    def asDegrees(self):
        return self.v*(180.0/math.pi)

    def _pyvc_scalar(self):
        return self.v

    def __float__(self):
        raise Unsupported("float() of a symbolic angle")

    def __eq__(self, o):
        if not hasattr(o, "asRadians"):
            return NotImplemented
        return self.v == o.asRadians()

    def __ne__(self, o):
        return core.neg(self == o)

    __hash__ = None

    def __neg__(self):
        return SymAngle(-self.v)

    def __add__(self, o):
        return SymAngle(self.v + o.asRadians())

    def __sub__(self, o):
        return SymAngle(self.v - o.asRadians())

    def __mul__(self, k):
        return SymAngle(self.v*k)

    __rmul__ = __mul__

    def __truediv__(self, k):
        return SymAngle(self.v/k)

    def __lt__(self, o):
        return self.v < o.asRadians()

    def __le__(self, o):
        return self.v <= o.asRadians()

    def __gt__(self, o):
        return self.v > o.asRadians()

    def __ge__(self, o):
        return self.v >= o.asRadians()


class SymNormalizedAngle(SymAngle):
    def __init__(self, v):
        # as the library: values of [0, 2 pi] are kept
        if issym(v) and not core.eng().decide(core.truth(core.conj(v >= 0, v <= TWOPI))):
            v = core._Prims.wrap(v, TWOPI)
        super().__init__(v)


class SymLonLat:
    _pyvc_clone = True

    def __init__(self, lon, lat):
        self.lon, self.lat = lon, lat

    def getLon(self):
        return self.lon

    def getLat(self):
        return self.lat

    def __getitem__(self, i):
        return (self.lon, self.lat)[i]

    def __eq__(self, o):
        if not isinstance(o, SymLonLat):
            return NotImplemented
        return core.conj(self.lon == o.lon, self.lat == o.lat)

    def __ne__(self, o):
        return core.neg(self == o)

    __hash__ = None


class SymVector3d:
    _pyvc_clone = True

    def __init__(self, x, y, z):
        self.c = (x, y, z)

    def x(self):
        return self.c[0]

    def y(self):
        return self.c[1]

    def z(self):
        return self.c[2]

    def __getitem__(self, i):
        return self.c[i]

    def __len__(self):
        return 3

    def __iter__(self):
        return iter(self.c)


class SymBox:
    """A longitude, latitude box: what it was made from."""
    _pyvc_clone = True

    def __init__(self, point1, point2):
        self.point1, self.point2 = point1, point2


class SymPolygon:
    """The convex hull of points: what it was made from."""
    _pyvc_clone = True

    def __init__(self, points):
        self.points = points


def scalar(x):
    if hasattr(x, "_pyvc_scalar"):
        x = x._pyvc_scalar()
    elif hasattr(x, "asRadians"):
        x = x.asRadians()
    return x


def hassym(x):
    if issym(x) or isinstance(x, (SymAngle, SymLonLat, SymVector3d)):
        return True
    if hasattr(x, "asRadians"):
        return issym(x.asRadians())
    return type(x).__name__ in ("SymVec", "SymVector", "AbsCoord")


class Meta(type):
    def __call__(cls, *a, **k):
        a = tuple(_plain(x) for x in a)
        k = {n: _plain(x) for n, x in k.items()}
        if cls.sym(a, k):
            return cls.make(*a, **k)
        return cls.real(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, (cls.real, cls.symclass))

    def __getattr__(cls, n):
        return getattr(cls.real, n)


def _plain(x):
    if isinstance(x, (loops.VList, loops.VIter, loops.SymSeq, loops.VSlice)):
        p = loops.parts_of(x)
        return p
    return x


def anysym(a, k):
    for x in list(a) + list(k.values()):
        if hassym(x) or isinstance(x, (list, tuple)) and any(hassym(y) or isinstance(y, loops.Seg) for y in x):
            return True
    return False


def build(sphgeom):
    class Angle(metaclass=Meta):
        real, symclass = sphgeom.Angle, SymAngle
        sym = staticmethod(anysym)

        @staticmethod
        def make(a):
            return SymAngle(scalar(a))

        @staticmethod
        def fromRadians(a):
            return Angle(a)

        @staticmethod
        def fromDegrees(a):
            return Angle(a*(math.pi/180.0))

    class NormalizedAngle(metaclass=Meta):
        real, symclass = sphgeom.NormalizedAngle, SymNormalizedAngle
        sym = staticmethod(anysym)

        @staticmethod
        def make(a):
            return SymNormalizedAngle(scalar(a))

        @staticmethod
        def fromRadians(a):
            return NormalizedAngle(a)

        @staticmethod
        def fromDegrees(a):
            return NormalizedAngle(a*(math.pi/180.0))

    class LonLat(metaclass=Meta):
        real, symclass = sphgeom.LonLat, SymLonLat
        sym = staticmethod(anysym)

        @staticmethod
        def make(lon, lat):
            return SymLonLat(lon, lat)

        @staticmethod
        def fromRadians(lon, lat):
            return LonLat(NormalizedAngle(lon), Angle(lat))

        @staticmethod
        def fromDegrees(lon, lat):
            return LonLat(NormalizedAngle.fromDegrees(lon), Angle.fromDegrees(lat))

    class Vector3d(metaclass=Meta):
        real, symclass = sphgeom.Vector3d, SymVector3d
        sym = staticmethod(anysym)

        @staticmethod
        def make(*a):
            if len(a) == 1:
                a = tuple(a[0][i] for i in range(3))
            return SymVector3d(*a)

    class Box(metaclass=Meta):
        real, symclass = sphgeom.Box, SymBox
        sym = staticmethod(anysym)

        @staticmethod
        def make(point1=None, point2=None, **k):
            if point1 is None or point2 is None or k:
                raise Unsupported("sphgeom.Box of other arguments")
            return SymBox(point1, point2)

    class ConvexPolygon(metaclass=Meta):
        real, symclass = sphgeom.ConvexPolygon, SymPolygon
        sym = staticmethod(anysym)

        @staticmethod
        def make(points):
            if isinstance(points, (list, tuple)):
                return SymPolygon(loops.VList(list(points)))
            raise Unsupported("polygon")

        @staticmethod
        def convexHull(points):
            return ConvexPolygon(points)

    return dict(Angle=Angle, NormalizedAngle=NormalizedAngle, LonLat=LonLat, Vector3d=Vector3d, Box=Box,
                ConvexPolygon=ConvexPolygon)


def install(shims, Shim):
    import lsst
    import lsst.sphgeom
    shim = Shim(lsst.sphgeom, **build(lsst.sphgeom))
    shims["lsst.sphgeom"] = shim
    shims["lsst"] = Shim(lsst, sphgeom=shim)
