"""hpgeom for instrumented code: on symbolic values its functions are uninterpreted, with
the facts the library documents (ranges, and that pixel_to_angle gives an angle of the pixel)."""
import math

import hpgeom as _hp
import z3

from . import core
from .core import issym, lift, truth, toreal, SymInt, SymReal, conj, INT, REAL, BOOL

PIX = z3.Function("hp_pixel", INT, REAL, REAL, BOOL, INT)
THETA = z3.Function("hp_theta", INT, INT, BOOL, REAL)
PHI = z3.Function("hp_phi", INT, INT, BOOL, REAL)
BTHETA = z3.Function("hp_btheta", INT, INT, BOOL, INT, INT, REAL)
BPHI = z3.Function("hp_bphi", INT, INT, BOOL, INT, INT, REAL)
DEG = math.pi/180.0


def _any(*xs):
    return any(issym(x) or hasattr(x, "_pyvc_scalar") for x in xs)


def _s(x):
    return x._pyvc_scalar() if hasattr(x, "_pyvc_scalar") else x


def npix(nside):
    return 12*nside*nside


def nside_to_npixel(nside):
    return npix(nside) if _any(nside) else _hp.nside_to_npixel(nside)


nside2npix = nside_to_npixel


def _r(x):
    return toreal(lift(x))


def angle_to_pixel(nside, a, b, nest=True, lonlat=True, degrees=True):
    a, b = _s(a), _s(b)
    if not _any(nside, a, b, nest, lonlat):
        return _hp.angle_to_pixel(nside, a, b, nest=nest, lonlat=lonlat, degrees=degrees)
    e = core.eng()
    if bool(lonlat):
        lon, lat = (a*DEG, b*DEG) if degrees else (a, b)
        theta, phi = math.pi/2 - lat, lon
    else:
        theta, phi = a, b
    if not e.decide(truth(conj(theta >= 0, theta <= math.pi))):
        raise ValueError("co-latitude out of range")
    t = PIX(lift(nside), _r(theta), _r(phi), truth(nest))
    e.assume(z3.And(t >= 0, t < lift(npix(nside))))
    return SymInt(t)


def _angles(theta, phi, lonlat, degrees):
    if bool(lonlat):
        lon, lat = phi, math.pi/2 - theta
        return (lon*(1/DEG), lat*(1/DEG)) if degrees else (lon, lat)
    return theta, phi


def _range(e, th, ph):
    e.assume(z3.And(th >= 0, th <= core.rv(math.pi), ph >= 0, ph < core.rv(2*math.pi)))


def pixel_to_angle(nside, pix, nest=True, lonlat=True, degrees=True):
    pix = _s(pix)
    if not _any(nside, pix, nest, lonlat):
        return _hp.pixel_to_angle(nside, pix, nest=nest, lonlat=lonlat, degrees=degrees)
    e = core.eng()
    if not e.decide(truth(conj(pix >= 0, pix < npix(nside)))):
        raise ValueError("Pixel value out of range")
    n, p, q = lift(nside), lift(pix), truth(nest)
    th, ph = THETA(n, p, q), PHI(n, p, q)
    _range(e, th, ph)
    e.assume(PIX(n, th, ph, q) == p)
    return _angles(SymReal(th), SymReal(ph), lonlat, degrees)


def boundaries(nside, pix, step=1, nest=True, lonlat=True, degrees=True):
    pix = _s(pix)
    if not _any(nside, pix, nest, lonlat):
        return _hp.boundaries(nside, pix, step=step, nest=nest, lonlat=lonlat, degrees=degrees)
    from .loops import VList
    e = core.eng()
    if not e.decide(truth(conj(pix >= 0, pix < npix(nside)))):
        raise ValueError("Pixel value out of range")
    n, p, q = lift(nside), lift(pix), truth(nest)
    out = []
    for j in range(4*step):
        th, ph = BTHETA(n, p, q, step, j), BPHI(n, p, q, step, j)
        _range(e, th, ph)
        out.append(_angles(SymReal(th), SymReal(ph), lonlat, degrees))
    return VList([v[0] for v in out]), VList([v[1] for v in out])


def install(shims, Shim):
    shims["hpgeom"] = Shim(_hp, nside_to_npixel=nside_to_npixel, angle_to_pixel=angle_to_pixel,
                           pixel_to_angle=pixel_to_angle, boundaries=boundaries)
