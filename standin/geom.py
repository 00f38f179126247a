"""Stand-in for lsst.geom (the C++ package is not available here).

Written from the documented behaviour of the C++ classes: Angle, Point, Extent,
Box2I, Box2D, SpherePoint.  Machine integers are mathematical integers here.
"""
import math
import numbers

import lsst.sphgeom as sphgeom
from . import prims as P

PI = math.pi
TWOPI = 2.0*math.pi
HALFPI = 0.5*math.pi


class InvalidParameterError(Exception):
    pass


# --------------------------------------------------------------------- Angle
class AngleUnit:
    __slots__ = ("_val", "_name")

    def __init__(self, val, name):
        self._val = val
        self._name = name

    def __rmul__(self, other):
        if isinstance(other, (numbers.Real,)) or P.issym(other):
            return Angle(other, self)
        try:
            return Angle(float(other), self)
        except TypeError:
            return NotImplemented

    __mul__ = __rmul__

    def __eq__(self, other):
        return isinstance(other, AngleUnit) and self._val == other._val

    def __hash__(self):
        return hash(self._val)

    def __repr__(self):
        return self._name


radians = AngleUnit(1.0, "radians")
degrees = AngleUnit(PI/180.0, "degrees")
hours = AngleUnit(PI*15.0/180.0, "hours")
arcminutes = AngleUnit(PI/60/180.0, "arcminutes")
arcseconds = AngleUnit(PI/180.0/3600, "arcseconds")
milliarcseconds = AngleUnit(PI/(180.0*3600*1000.0), "milliarcseconds")


def _rad(x):
    if isinstance(x, Angle):
        return x._rad
    if P.issym(x):
        return x
    if isinstance(x, numbers.Real):
        return x
    if isinstance(x, (sphgeom.Angle, sphgeom.NormalizedAngle)):
        return x.asRadians()
    return NotImplemented


def _cmp(op):
    def f(self, other):
        o = _rad(other)
        if o is NotImplemented:
            return NotImplemented
        return op(self._rad, o)
    return f


class Angle:
    __slots__ = ("_rad",)
    __array_ufunc__ = None  # numpy scalars on the left defer to us

    def __init__(self, val=0.0, units=radians):
        if isinstance(val, Angle):
            self._rad = val._rad
        else:
            val = P.as_float(val)
            self._rad = val if units._val == 1.0 else val*units._val

    def asAngularUnits(self, units):
        return self._rad/units._val

    def asRadians(self):
        return self._rad

    def asDegrees(self):
        return self.asAngularUnits(degrees)

    def asHours(self):
        return self.asAngularUnits(hours)

    def asArcminutes(self):
        return self.asAngularUnits(arcminutes)

    def asArcseconds(self):
        return self.asAngularUnits(arcseconds)

    def asMilliarcseconds(self):
        return self.asAngularUnits(milliarcseconds)

    def wrap(self):
        return Angle(P.wrap(self._rad, TWOPI))

    def wrapCtr(self):
        r = P.wrap(self._rad, TWOPI)
        return Angle(P.select(r >= PI, r - TWOPI, r))

    def wrapNear(self, ref):
        return (self - ref).wrapCtr() + ref

    def separation(self, other):
        return (self - other).wrapCtr()

    def isFinite(self):
        return P.isfinite(self._rad)

    def __float__(self):
        return self._rad if P.issym(self._rad) else float(self._rad)

    def __abs__(self):
        return Angle(P.select(self._rad >= 0, self._rad, -self._rad))

    def __neg__(self):
        return Angle(-self._rad)

    def __pos__(self):
        return self

    def __add__(self, o):
        o = _rad(o)
        return o if o is NotImplemented else Angle(self._rad + o)

    __radd__ = __add__

    def __sub__(self, o):
        o = _rad(o)
        return o if o is NotImplemented else Angle(self._rad - o)

    def __rsub__(self, o):
        o = _rad(o)
        return o if o is NotImplemented else Angle(o - self._rad)

    def __mul__(self, o):
        if isinstance(o, AngleUnit):
            return NotImplemented
        o = _rad(o)
        return o if o is NotImplemented else Angle(self._rad*o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _rad(o)
        return o if o is NotImplemented else Angle(self._rad/o)

    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)
    __eq__ = _cmp(lambda a, b: a == b)
    __ne__ = _cmp(lambda a, b: a != b)

    def __hash__(self):
        return hash(self._rad)

    def __reduce__(self):
        return (Angle, (self._rad,))

    def __repr__(self):
        return "Angle(%r, degrees)" % (self._rad*180/PI if not P.issym(self._rad) else self._rad,)


def degToRad(x):
    return x*PI/180.0


def radToDeg(x):
    return x*180.0/PI


def isAngle(x):
    return isinstance(x, Angle)


# -------------------------------------------------------------- coordinates
class _CoordBase:
    __slots__ = ("_v",)
    __array_ufunc__ = None
    _kind = None  # "I" or "D"
    _dim = 2

    def __init__(self, *args):
        n = self._dim
        if len(args) == 0:
            vals = [0]*n
        elif len(args) == 1:
            a = args[0]
            if isinstance(a, _CoordBase):
                vals = self._convert(a)
            elif isinstance(a, numbers.Number) or P.issym(a):
                vals = [a]*n
            else:
                vals = list(a)
        else:
            vals = list(args)
        if len(vals) != n:
            raise TypeError("expected %d coordinates, got %d" % (n, len(vals)))
        conv = P.as_int if self._kind == "I" else P.as_float
        self._v = [conv(v) for v in vals]

    def _convert(self, a):
        if self._kind == "I" and a._kind == "D":
            if not isinstance(a, _PointMixin):
                raise TypeError("cannot convert a real extent to an integer one")
            return [P.ifloor(v + 0.5) for v in a._v]
        return list(a._v)

    def __getitem__(self, i):
        if not isinstance(i, int):
            i = i.__index__()
        if i < -self._dim or i >= self._dim:
            raise IndexError("index %d out of range" % i)
        return self._v[i]

    def __setitem__(self, i, val):
        if i < -self._dim or i >= self._dim:
            raise IndexError("index %d out of range" % i)
        P.mutate(self)
        self._v[i] = (P.as_int if self._kind == "I" else P.as_float)(val)

    def __len__(self):
        return self._dim

    def getX(self):
        return self._v[0]

    def getY(self):
        return self._v[1]

    def setX(self, val):
        self[0] = val

    def setY(self, val):
        self[1] = val

    x = property(getX, setX)
    y = property(getY, setY)

    def __eq__(self, o):
        if isinstance(o, _CoordBase):
            if isinstance(o, _PointMixin) != isinstance(self, _PointMixin):
                return False
            return P.conj(*[a == b for a, b in zip(self._v, o._v)])
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else P.neg(r)

    def __hash__(self):
        return hash(tuple(self._v))

    def clone(self):
        return type(self)(*self._v)

    def __copy__(self):
        return self.clone()

    def __deepcopy__(self, memo):
        return self.clone()

    def __reduce__(self):
        return (type(self), tuple(self._v))

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join(repr(v) for v in self._v))

    def __str__(self):
        return "(%s)" % ", ".join(str(v) for v in self._v)

    # componentwise comparisons, as the C++ classes offer
    def lt(self, o):
        return [a < b for a, b in zip(self._v, _vals(o))]

    def le(self, o):
        return [a <= b for a, b in zip(self._v, _vals(o))]

    def gt(self, o):
        return [a > b for a, b in zip(self._v, _vals(o))]

    def ge(self, o):
        return [a >= b for a, b in zip(self._v, _vals(o))]


def _vals(o):
    if isinstance(o, _CoordBase):
        return o._v
    return [o, o]


class _PointMixin:
    __slots__ = ()

    def __add__(self, o):
        if isinstance(o, _ExtentMixin):
            return _mk("P", self, o, lambda a, b: a + b)
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, _ExtentMixin):
            return _mk("P", self, o, lambda a, b: a - b)
        if isinstance(o, _PointMixin):
            return _mk("E", self, o, lambda a, b: a - b)
        return NotImplemented

    def __iadd__(self, o):
        if not isinstance(o, _ExtentMixin):
            return NotImplemented
        for i in range(self._dim):
            self[i] = self._v[i] + o._v[i]
        return self

    def __isub__(self, o):
        if not isinstance(o, _ExtentMixin):
            return NotImplemented
        for i in range(self._dim):
            self[i] = self._v[i] - o._v[i]
        return self

    shift = __iadd__

    def distanceSquared(self, o):
        return sum((a - b)*(a - b) for a, b in zip(self._v, o._v))


class _ExtentMixin:
    __slots__ = ()

    def __add__(self, o):
        if isinstance(o, _ExtentMixin):
            return _mk("E", self, o, lambda a, b: a + b)
        if isinstance(o, _PointMixin):
            return _mk("P", self, o, lambda a, b: a + b)
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, _ExtentMixin):
            return _mk("E", self, o, lambda a, b: a - b)
        return NotImplemented

    def __neg__(self):
        return type(self)(*[-v for v in self._v])

    def __iadd__(self, o):
        if not isinstance(o, _ExtentMixin):
            return NotImplemented
        for i in range(self._dim):
            self[i] = self._v[i] + o._v[i]
        return self

    def __isub__(self, o):
        if not isinstance(o, _ExtentMixin):
            return NotImplemented
        for i in range(self._dim):
            self[i] = self._v[i] - o._v[i]
        return self

    def __mul__(self, s):
        return _scale(self, s, lambda a, b: a*b)

    __rmul__ = __mul__

    def __truediv__(self, s):
        return Extent2D(*[a/s for a in self._v])

    def __floordiv__(self, s):
        # C++ integer division truncates
        if self._kind != "I":
            return NotImplemented
        return type(self)(*[P.select(a >= 0, a//s, -((-a)//s)) for a in self._v])

    def computeSquaredNorm(self):
        return sum(a*a for a in self._v)

    def computeNorm(self):
        return math.sqrt(self.computeSquaredNorm())


def _scale(e, s, op):
    if not (isinstance(s, numbers.Real) or P.issym(s)):
        return NotImplemented
    isint = (P.issym(s) and P.SYM.isint(s)) or isinstance(s, numbers.Integral)
    cls = type(e) if (e._kind == "D" or isint) else Extent2D
    return cls(*[op(a, s) for a in e._v])


def _mk(what, a, b, op):
    kind = "D" if "D" in (a._kind, b._kind) else "I"
    cls = {("P", "I"): Point2I, ("P", "D"): Point2D,
           ("E", "I"): Extent2I, ("E", "D"): Extent2D}[what, kind]
    return cls(*[op(x, y) for x, y in zip(a._v, b._v)])


class Point2I(_PointMixin, _CoordBase):
    __slots__ = ()
    _kind = "I"


class Point2D(_PointMixin, _CoordBase):
    __slots__ = ()
    _kind = "D"


class Extent2I(_ExtentMixin, _CoordBase):
    __slots__ = ()
    _kind = "I"


class Extent2D(_ExtentMixin, _CoordBase):
    __slots__ = ()
    _kind = "D"


PointI, PointD, ExtentI, ExtentD = Point2I, Point2D, Extent2I, Extent2D


# -------------------------------------------------------------------- boxes
def _point_arg(cls, args):
    if len(args) == 2:
        return cls(*args)
    return args[0]


class Box2I:
    __slots__ = ("_min", "_dim")
    EXPAND, SHRINK = 0, 1

    def __init__(self, *args, invert=True, edgeHandling=0, **kw):
        self._clear()
        if kw:
            lo = kw.pop("minimum", kw.pop("corner", None))
            hi = kw.pop("maximum", kw.pop("dimensions", None))
            if kw or args or lo is None or hi is None:
                raise TypeError("Box2I: incompatible constructor arguments")
            args = (lo, hi)
        if len(args) == 0:
            return
        if len(args) == 1 and isinstance(args[0], Box2I):
            self._min = list(args[0]._min)
            self._dim = list(args[0]._dim)
            return
        if isinstance(args[0], Box2D):
            if len(args) > 1:
                edgeHandling = args[1]
            self._fromBox2D(args[0], edgeHandling)
            return
        if len(args) == 3:
            invert = args[2]
            args = args[:2]
        if len(args) != 2 or not isinstance(args[0], Point2I) \
                or not isinstance(args[1], (Point2I, Extent2I)):
            raise TypeError("Box2I: incompatible constructor arguments %r" % (args,))
        lo = list(args[0]._v)
        if isinstance(args[1], Point2I):
            dim = []
            for n in range(2):
                d = args[1]._v[n] - lo[n] + 1
                if d < 1:
                    if not invert:
                        return
                    lo[n], d = args[1]._v[n], lo[n] - args[1]._v[n] + 1
                dim.append(d)
            self._min, self._dim = lo, dim
            return
        dim = list(args[1]._v)
        for n in range(2):
            if dim[n] == 0:
                return
            if dim[n] < 0:
                if not invert:
                    return
                lo[n] = lo[n] + dim[n] + 1
                dim[n] = -dim[n]
        self._min, self._dim = lo, dim

    def _clear(self):
        self._min = [0, 0]
        self._dim = [0, 0]

    def _fromBox2D(self, other, edge):
        if other.isEmpty():
            return
        vals = other._lo + other._hi
        if not all(P.isfinite(v) for v in vals):
            raise InvalidParameterError("Cannot convert non-finite Box2D to Box2I")
        lo, dim = [], []
        for n in range(2):
            fmin, fmax = other._lo[n] + 0.5, other._hi[n] - 0.5
            if edge == Box2I.EXPAND:
                a, b = P.ifloor(fmin), P.iceil(fmax)
            else:
                a, b = P.iceil(fmin), P.ifloor(fmax)
            lo.append(a)
            dim.append(b + 1 - a)
        for n in range(2):
            if dim[n] <= 0:
                return
        self._min, self._dim = lo, dim

    @classmethod
    def makeCenteredBox(cls, center, size):
        corner = [P.ifloor(center._v[n] - 0.5*size._v[n] + 0.5) for n in range(2)]
        return cls(Point2I(*corner), Extent2I(*size._v))

    def isEmpty(self):
        return P.conj(self._dim[0] == 0, self._dim[1] == 0)

    def getMin(self):
        return Point2I(*self._min)

    def getMax(self):
        return Point2I(*[self._min[n] + self._dim[n] - 1 for n in range(2)])

    def getBegin(self):
        return self.getMin()

    def getEnd(self):
        return Point2I(*[self._min[n] + self._dim[n] for n in range(2)])

    def getDimensions(self):
        return Extent2I(*self._dim)

    def getMinX(self):
        return self._min[0]

    def getMinY(self):
        return self._min[1]

    def getMaxX(self):
        return self._min[0] + self._dim[0] - 1

    def getMaxY(self):
        return self._min[1] + self._dim[1] - 1

    getBeginX, getBeginY = getMinX, getMinY

    def getEndX(self):
        return self._min[0] + self._dim[0]

    def getEndY(self):
        return self._min[1] + self._dim[1]

    def getWidth(self):
        return self._dim[0]

    def getHeight(self):
        return self._dim[1]

    def getArea(self):
        return self._dim[0]*self._dim[1]

    def getCenter(self):
        return Box2D(self).getCenter()

    def getCenterX(self):
        return self.getCenter()[0]

    def getCenterY(self):
        return self.getCenter()[1]

    def getCorners(self):
        x0, y0, x1, y1 = self.getMinX(), self.getMinY(), self.getMaxX(), self.getMaxY()
        return [Point2I(x0, y0), Point2I(x1, y0), Point2I(x1, y1), Point2I(x0, y1)]

    def getSlices(self):
        return (slice(self.getBeginY(), self.getEndY()), slice(self.getBeginX(), self.getEndX()))

    min = property(getMin)
    max = property(getMax)
    begin = property(getBegin)
    end = property(getEnd)
    dimensions = property(getDimensions)
    width = property(getWidth)
    height = property(getHeight)
    area = property(getArea)
    minX = property(getMinX)
    minY = property(getMinY)
    maxX = property(getMaxX)
    maxY = property(getMaxY)
    beginX = property(getBeginX)
    beginY = property(getBeginY)
    endX = property(getEndX)
    endY = property(getEndY)
    centerX = property(getCenterX)
    centerY = property(getCenterY)
    center = property(getCenter)

    def contains(self, *args):
        if len(args) == 2:
            other = Point2I(*args)
        else:
            other = args[0]
        if isinstance(other, Point2I):
            return P.conj(*[c for n in range(2) for c in
                            (other._v[n] >= self._min[n],
                             other._v[n] <= self._min[n] + self._dim[n] - 1)])
        if not isinstance(other, Box2I):
            raise TypeError("Box2I.contains: incompatible argument %r" % (other,))
        if other.isEmpty():
            return True
        return P.conj(*[c for n in range(2) for c in
                        (other._min[n] >= self._min[n],
                         other._min[n] + other._dim[n] <= self._min[n] + self._dim[n])])

    __contains__ = contains

    def overlaps(self, other):
        return P.neg(self.isDisjointFrom(other))

    intersects = overlaps

    def isDisjointFrom(self, other):
        if self.isEmpty() or other.isEmpty():
            return True
        return P.neg(P.conj(*[c for n in range(2) for c in
                              (self._min[n] < other._min[n] + other._dim[n],
                               other._min[n] < self._min[n] + self._dim[n])]))

    def grow(self, buf):
        P.mutate(self)
        if isinstance(buf, Extent2I):
            b = buf._v
        else:
            b = [P.as_int(buf)]*2
        if self.isEmpty():
            return
        lo = [self._min[n] - b[n] for n in range(2)]
        dim = [self._dim[n] + 2*b[n] for n in range(2)]
        for n in range(2):
            if dim[n] <= 0:
                self._clear()
                return
        self._min, self._dim = lo, dim

    def shift(self, offset):
        P.mutate(self)
        if self.isEmpty():
            return
        self._min = [self._min[n] + P.as_int(offset._v[n]) for n in range(2)]

    def clip(self, other):
        P.mutate(self)
        if self.isEmpty():
            return
        if other.isEmpty():
            self._clear()
            return
        lo, dim = [], []
        for n in range(2):
            a = P.maximum(self._min[n], other._min[n])
            b = P.minimum(self._min[n] + self._dim[n], other._min[n] + other._dim[n])
            lo.append(a)
            dim.append(b - a)
        for n in range(2):
            if dim[n] <= 0:
                self._clear()
                return
        self._min, self._dim = lo, dim

    def include(self, other):
        P.mutate(self)
        if isinstance(other, Point2I):
            other = Box2I(other, Extent2I(1, 1))
        if other.isEmpty():
            return
        if self.isEmpty():
            self._min, self._dim = list(other._min), list(other._dim)
            return
        lo, dim = [], []
        for n in range(2):
            a = P.minimum(self._min[n], other._min[n])
            b = P.maximum(self._min[n] + self._dim[n], other._min[n] + other._dim[n])
            lo.append(a)
            dim.append(b - a)
        self._min, self._dim = lo, dim

    def flipLR(self, xExtent):
        P.mutate(self)
        self._min[0] = xExtent - self.getMaxX() - 1

    def flipTB(self, yExtent):
        P.mutate(self)
        self._min[1] = yExtent - self.getMaxY() - 1

    def _copy(self):
        return Box2I(self)

    def dilatedBy(self, buf):
        b = self._copy()
        b.grow(buf)
        return b

    def erodedBy(self, buf):
        b = self._copy()
        b.grow(-buf)
        return b

    def shiftedBy(self, offset):
        b = self._copy()
        b.shift(offset)
        return b

    def clippedTo(self, other):
        b = self._copy()
        b.clip(other)
        return b

    def expandedTo(self, other):
        b = self._copy()
        b.include(other)
        return b

    def __eq__(self, o):
        if not isinstance(o, Box2I):
            return NotImplemented
        return P.conj(*([a == b for a, b in zip(self._min, o._min)]
                        + [a == b for a, b in zip(self._dim, o._dim)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else P.neg(r)

    def __hash__(self):
        return hash((tuple(self._min), tuple(self._dim)))

    def __copy__(self):
        return self._copy()

    def __deepcopy__(self, memo):
        return self._copy()

    def __reduce__(self):
        return (Box2I, (Point2I(*self._min), Extent2I(*self._dim)))

    def __repr__(self):
        return "Box2I(corner=Point2I(%s, %s), dimensions=Extent2I(%s, %s))" % tuple(self._min + self._dim)

    def __str__(self):
        return "(minimum=(%s, %s), maximum=(%s, %s))" % (self.getMinX(), self.getMinY(),
                                                         self.getMaxX(), self.getMaxY())


_NAN = float("nan")
_EPS = 2*2.220446049250313e-16


class Box2D:
    """Half-open box; `include` moves the maximum just past the point."""
    __slots__ = ("_lo", "_hi")
    EPSILON = _EPS

    def __init__(self, *args, invert=True):
        self._clear()
        if len(args) == 0:
            return
        a = args[0]
        if len(args) == 1 and isinstance(a, Box2D):
            self._lo, self._hi = list(a._lo), list(a._hi)
            return
        if len(args) == 1 and isinstance(a, Box2I):
            if a.isEmpty():
                return
            self._lo = [a._min[n] - 0.5 for n in range(2)]
            self._hi = [a._min[n] + a._dim[n] - 0.5 for n in range(2)]
            return
        if len(args) == 3:
            invert = args[2]
        if not isinstance(a, Point2D) or not isinstance(args[1], (Point2D, Extent2D)):
            raise TypeError("Box2D: incompatible constructor arguments %r" % (args,))
        lo = list(a._v)
        if isinstance(args[1], Extent2D):
            hi = [lo[n] + args[1]._v[n] for n in range(2)]
        else:
            hi = list(args[1]._v)
        for n in range(2):
            if lo[n] == hi[n]:
                return
            if lo[n] > hi[n]:
                if not invert:
                    return
                lo[n], hi[n] = hi[n], lo[n]
        self._lo, self._hi = lo, hi

    def _clear(self):
        self._lo = [_NAN, _NAN]
        self._hi = [_NAN, _NAN]

    def isEmpty(self):
        return P.isnan(self._lo[0])

    def getMin(self):
        return Point2D(*self._lo)

    def getMax(self):
        return Point2D(*self._hi)

    def getMinX(self):
        return self._lo[0]

    def getMinY(self):
        return self._lo[1]

    def getMaxX(self):
        return self._hi[0]

    def getMaxY(self):
        return self._hi[1]

    def getDimensions(self):
        if self.isEmpty():
            return Extent2D(0.0, 0.0)
        return Extent2D(*[self._hi[n] - self._lo[n] for n in range(2)])

    def getWidth(self):
        return self.getDimensions()[0]

    def getHeight(self):
        return self.getDimensions()[1]

    def getArea(self):
        d = self.getDimensions()
        return d[0]*d[1]

    def getCenter(self):
        return Point2D(*[(self._lo[n] + self._hi[n])*0.5 for n in range(2)])

    def getCenterX(self):
        return self.getCenter()[0]

    def getCenterY(self):
        return self.getCenter()[1]

    def getCorners(self):
        (x0, y0), (x1, y1) = self._lo, self._hi
        return [Point2D(x0, y0), Point2D(x1, y0), Point2D(x1, y1), Point2D(x0, y1)]

    min = property(getMin)
    max = property(getMax)
    minX = property(getMinX)
    minY = property(getMinY)
    maxX = property(getMaxX)
    maxY = property(getMaxY)
    width = property(getWidth)
    height = property(getHeight)
    area = property(getArea)
    dimensions = property(getDimensions)
    center = property(getCenter)
    centerX = property(getCenterX)
    centerY = property(getCenterY)

    def contains(self, *args):
        other = Point2D(*args) if len(args) == 2 else args[0]
        if isinstance(other, Point2D):
            if self.isEmpty():
                return False
            return P.conj(*[c for n in range(2) for c in
                            (other._v[n] >= self._lo[n], other._v[n] < self._hi[n])])
        if other.isEmpty():
            return True
        if self.isEmpty():
            return False
        return P.conj(*[c for n in range(2) for c in
                        (other._lo[n] >= self._lo[n], other._hi[n] <= self._hi[n])])

    __contains__ = contains

    def overlaps(self, other):
        if self.isEmpty() or other.isEmpty():
            return False
        return P.conj(*[c for n in range(2) for c in
                        (other._hi[n] > self._lo[n], other._lo[n] < self._hi[n])])

    intersects = overlaps

    def isDisjointFrom(self, other):
        return P.neg(self.overlaps(other))

    def grow(self, buf):
        P.mutate(self)
        b = buf._v if isinstance(buf, _CoordBase) else [buf]*2
        if self.isEmpty():
            return
        self._lo = [self._lo[n] - b[n] for n in range(2)]
        self._hi = [self._hi[n] + b[n] for n in range(2)]
        for n in range(2):
            if self._lo[n] >= self._hi[n]:
                self._clear()
                return

    def shift(self, offset):
        P.mutate(self)
        if self.isEmpty():
            return
        self._lo = [self._lo[n] + offset._v[n] for n in range(2)]
        self._hi = [self._hi[n] + offset._v[n] for n in range(2)]

    def clip(self, other):
        P.mutate(self)
        if self.isEmpty():
            return
        if other.isEmpty():
            self._clear()
            return
        lo = [P.maximum(self._lo[n], other._lo[n]) for n in range(2)]
        hi = [P.minimum(self._hi[n], other._hi[n]) for n in range(2)]
        for n in range(2):
            if lo[n] >= hi[n]:
                self._clear()
                return
        self._lo, self._hi = lo, hi

    def _tweaked(self, v):
        if P.issym(v):
            return P.named("past", P.select(v < 0, v*(1 - _EPS), P.select(v > 0, v*(1 + _EPS), _EPS)),
                           lambda w: ([], [w > v]), v)
        if v < 0:
            return v*(1.0 - _EPS)
        if v > 0:
            return v*(1.0 + _EPS)
        return _EPS

    def include(self, other):
        P.mutate(self)
        if isinstance(other, Box2D):
            if other.isEmpty():
                return
            if self.isEmpty():
                self._lo, self._hi = list(other._lo), list(other._hi)
                return
            self._lo = [P.minimum(self._lo[n], other._lo[n]) for n in range(2)]
            self._hi = [P.maximum(self._hi[n], other._hi[n]) for n in range(2)]
            return
        p = other._v
        if self.isEmpty():
            self._lo = list(p)
            self._hi = [self._tweaked(v) for v in p]
            return
        lo, hi = list(self._lo), list(self._hi)
        for n in range(2):
            below, above = p[n] < lo[n], p[n] >= hi[n]
            nlo = P.select(below, p[n], lo[n])
            past = self._tweaked(p[n])
            nhi = P.select(below, hi[n], P.select(above, past, hi[n]))
            # named for the solver; the facts follow from the definitions
            nlo = P.named("boxlo", nlo, lambda v: ([], [v <= lo[n], v <= p[n]]), lo[n], p[n])
            nhi = P.named("boxhi", nhi, lambda v: ([lo[n] < hi[n], past > p[n]], [v >= hi[n], v > p[n]]), hi[n], past)
            lo[n], hi[n] = nlo, nhi
        self._lo, self._hi = lo, hi

    def _copy(self):
        return Box2D(self)

    def dilatedBy(self, buf):
        b = self._copy()
        b.grow(buf)
        return b

    def erodedBy(self, buf):
        b = self._copy()
        b.grow(-buf)
        return b

    def shiftedBy(self, offset):
        b = self._copy()
        b.shift(offset)
        return b

    def clippedTo(self, other):
        b = self._copy()
        b.clip(other)
        return b

    def expandedTo(self, other):
        b = self._copy()
        b.include(other)
        return b

    def __eq__(self, o):
        if not isinstance(o, Box2D):
            return NotImplemented
        if self.isEmpty() or o.isEmpty():
            return bool(self.isEmpty() and o.isEmpty())
        return P.conj(*([a == b for a, b in zip(self._lo, o._lo)]
                        + [a == b for a, b in zip(self._hi, o._hi)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else P.neg(r)

    def __hash__(self):
        return hash((tuple(self._lo), tuple(self._hi)))

    def __copy__(self):
        return self._copy()

    def __deepcopy__(self, memo):
        return self._copy()

    def __reduce__(self):
        return (Box2D, (Point2D(*self._lo), Point2D(*self._hi)))

    def __repr__(self):
        return "Box2D(minimum=Point2D(%r, %r), maximum=Point2D(%r, %r))" % tuple(self._lo + self._hi)


BoxI, BoxD = Box2I, Box2D


# --------------------------------------------------------------- SpherePoint
class SpherePoint:
    __slots__ = ("_lon", "_lat")

    def __init__(self, *args, longitude=None, latitude=None, units=None, vector=None):
        if vector is not None:
            args = (vector,)
        elif longitude is not None:
            args = (longitude, latitude) + args + (() if units is None else (units,))
            units = None
        elif latitude is not None:
            args = args + (latitude,)
        if units is not None:
            args = args + (units,)
        if len(args) == 0:
            lon = lat = _NAN
        elif len(args) == 1:
            a = args[0]
            if isinstance(a, SpherePoint):
                self._lon, self._lat = a._lon, a._lat
                return
            r = P.hook("fromVector", self, a)
            if r is not None:
                return
            if isinstance(a, sphgeom.LonLat):
                lon, lat = a.getLon().asRadians(), a.getLat().asRadians()
            elif isinstance(a, (sphgeom.Vector3d, sphgeom.UnitVector3d)):
                self._setVector(a.x(), a.y(), a.z())
                return
            else:
                raise TypeError("SpherePoint: incompatible constructor argument %r" % (a,))
        elif len(args) == 2:
            if not (isinstance(args[0], Angle) and isinstance(args[1], Angle)):
                raise TypeError("SpherePoint: two Angles expected")
            lon, lat = args[0].asRadians(), args[1].asRadians()
        else:
            lon = (args[0]*args[2]).asRadians()
            lat = (args[1]*args[2]).asRadians()
        self._set(lon, lat)

    def _set(self, lon, lat):
        if P.issym(lon) or P.issym(lat):
            self._lon = P.wrap(lon, TWOPI)
            self._lat = lat
            return
        if not math.isfinite(lon):
            lon = _NAN
        else:
            lon = P.wrap(lon, TWOPI)
        if math.fabs(lat) > HALFPI:
            raise InvalidParameterError("Angle %r is not a valid latitude." % (lat,))
        self._lon, self._lat = lon, lat

    def _setVector(self, x, y, z):
        norm = math.sqrt(x*x + y*y + z*z)
        if norm <= 0.0:
            raise InvalidParameterError("Vector has zero norm and cannot be normalized.")
        if norm != norm:
            self._lon = self._lat = _NAN
            return
        self._lat = math.atan2(z/norm, math.sqrt((x/norm)**2 + (y/norm)**2))
        self._lon = P.wrap(math.atan2(y, x), TWOPI) if (x != 0 or y != 0) else 0.0

    def getLongitude(self):
        return Angle(self._lon)

    getRa = getLongitude

    def getLatitude(self):
        return Angle(self._lat)

    getDec = getLatitude

    def getVector(self):
        r = P.hook("getVector", self)
        if r is not None:
            return r
        lon, lat = self._lon, self._lat
        cl = P.cos(lat)
        x, y, z = cl*P.cos(lon), cl*P.sin(lon), P.sin(lat)
        if P.issym(x) or P.issym(y) or P.issym(z):
            return P.SYM.vector(x, y, z)
        return sphgeom.UnitVector3d(sphgeom.Vector3d(x, y, z))

    def getPosition(self, units=radians):
        return Point2D(self.getLongitude().asAngularUnits(units),
                       self.getLatitude().asAngularUnits(units))

    def atPole(self):
        return abs(self._lat) >= HALFPI

    def isFinite(self):
        return math.isfinite(self._lon) and math.isfinite(self._lat)

    def separation(self, other):
        r = P.hook("separation", self, other)
        if r is not None:
            return r
        dlat2 = 0.5*(other._lat - self._lat)
        dlon2 = 0.5*(other._lon - self._lon)
        h = math.sin(dlat2)**2 + math.cos(self._lat)*math.cos(other._lat)*math.sin(dlon2)**2
        if h != h:
            return Angle(_NAN)
        return Angle(2.0*math.asin(min(1.0, math.sqrt(h))))

    def bearingTo(self, other):
        d = other._lon - self._lon
        x = math.sin(d)*math.cos(other._lat)
        y = math.cos(self._lat)*math.sin(other._lat) \
            - math.sin(self._lat)*math.cos(other._lat)*math.cos(d)
        return Angle(P.wrap(math.atan2(y, x), TWOPI))

    def rotated(self, axis, amount):
        ax = axis.getVector()
        k = (ax.x(), ax.y(), ax.z())
        v = self.getVector()
        v = (v.x(), v.y(), v.z())
        c, s = math.cos(amount.asRadians()), math.sin(amount.asRadians())
        dot = sum(a*b for a, b in zip(k, v))
        cr = (k[1]*v[2] - k[2]*v[1], k[2]*v[0] - k[0]*v[2], k[0]*v[1] - k[1]*v[0])
        return SpherePoint(sphgeom.Vector3d(*[v[i]*c + cr[i]*s + k[i]*dot*(1 - c) for i in range(3)]))

    def offset(self, bearing, amount):
        r = P.hook("offset", self, bearing, amount)
        if r is not None:
            return r
        b, d = bearing.asRadians(), amount.asRadians()
        lat, lon = self._lat, self._lon
        # unit vectors at this point: p outwards, e east, n north
        sl, cl, sa, ca = math.sin(lon), math.cos(lon), math.sin(lat), math.cos(lat)
        p = (ca*cl, ca*sl, sa)
        e = (-sl, cl, 0.0)
        n = (-sa*cl, -sa*sl, ca)
        cb, sb, cd, sd = math.cos(b), math.sin(b), math.cos(d), math.sin(d)
        v = [p[i]*cd + (e[i]*cb + n[i]*sb)*sd for i in range(3)]
        return SpherePoint(sphgeom.Vector3d(*v))

    def getTangentPlaneOffset(self, other):
        d = other._lon - self._lon
        cosc = math.sin(self._lat)*math.sin(other._lat) \
            + math.cos(self._lat)*math.cos(other._lat)*math.cos(d)
        x = math.cos(other._lat)*math.sin(d)/cosc
        y = (math.cos(self._lat)*math.sin(other._lat)
             - math.sin(self._lat)*math.cos(other._lat)*math.cos(d))/cosc
        return Angle(x), Angle(y)

    def __getitem__(self, i):
        if i in (0, -2):
            return self.getLongitude()
        if i in (1, -1):
            return self.getLatitude()
        raise IndexError("Invalid index %r" % (i,))

    def __len__(self):
        return 2

    def __iter__(self):
        yield self.getLongitude()
        yield self.getLatitude()

    def __eq__(self, o):
        if not isinstance(o, SpherePoint):
            return NotImplemented
        return P.conj(self._lon == o._lon, self._lat == o._lat)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else P.neg(r)

    def __hash__(self):
        return hash((self._lon, self._lat))

    def __copy__(self):
        return SpherePoint(self)

    def __deepcopy__(self, memo):
        return SpherePoint(self)

    def __reduce__(self):
        return (SpherePoint, (Angle(self._lon), Angle(self._lat)))

    def __str__(self):
        return "(%r, %r)" % (self._lon, self._lat)

    def __repr__(self):
        return "SpherePoint(%r*radians, %r*radians)" % (self._lon, self._lat)


def averageSpherePoint(coords):
    x = y = z = 0.0
    for c in coords:
        v = c.getVector()
        x, y, z = x + v.x(), y + v.y(), z + v.z()
    return SpherePoint(sphgeom.Vector3d(x, y, z))
