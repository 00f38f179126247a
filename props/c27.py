"""C27: HEALPix maps use one consistent correspondence of angles, pixels and tracts."""
from .rings import *
from . import find
from pyvc import hp

CONTRACTS, contract = registry()


def functions():
    from lsst.skymap import healpixSkyMap as H
    return H.angToCoord, H.coordToAng


def real(x):
    return core.toreal(core.lift(x))


@contract("angles to coordinates and back", covers=("angles",))
def there(e):
    to, back = functions()
    theta, phi = e.input_real("theta"), e.input_real("phi")
    e.assume(conj(theta >= 0, theta <= math.pi, phi >= 0, phi < 2*math.pi))
    c = to((theta, phi))
    e.prove(c.getLongitude().asRadians() == phi, "the longitude is the azimuth")
    d = c.getLatitude().asRadians()
    th, ph = back(c)
    e.prove(conj(th == theta, ph == phi), "the angles of the coordinate are the angles it was made from")
    theta2, phi2 = e.input_real("theta2"), e.input_real("phi2")
    e.assume(conj(theta2 > theta, theta2 <= math.pi, phi2 >= 0, phi2 < 2*math.pi))
    e.prove(to((theta2, phi2)).getLatitude().asRadians() > d, "declination increases with the polar angle")
    e.cover("angles")


@contract("coordinates to angles and back", covers=("coordinate",))
def back(e):
    to, frm = functions()
    c = sky(e)
    th, ph = frm(c)
    e.prove(conj(th >= 0, th <= math.pi, ph >= 0, ph < 2*math.pi), "angles have the ranges of the library")
    d = to((th, ph))
    e.prove(conj(d.getLongitude().asRadians() == c.getLongitude().asRadians(),
                 d.getLatitude().asRadians() == c.getLatitude().asRadians()),
            "the coordinate of the angles is the coordinate they were made from")
    e.cover("coordinate")


def pixel(r, c):
    """The pixel the library assigns to a position."""
    th, ph = functions()[1](c)
    return SymInt(hp.PIX(core.lift(r.nside), real(th), real(ph), core.truth(r.nest)))


@contract("lookup", covers=("found",))
def lookup(e):
    r = healpix(e)
    r.size = r.n
    refs(e, r)
    c = sky(e)
    got = r.map.findTract(c)
    e.prove(got.getId() == pixel(r, c), "a position is found in the tract of its pixel")
    e.cover("found")


@contract("one tract per pixel", covers=("map",))
def number(e):
    r = healpix(e)
    e.prove(rt.b_len(r.map) == 12*r.nside*r.nside, "as many tracts as pixels")
    e.cover("map")


@contract("tracts", covers=("tract", "found"))
def tract(e):
    recorded("healpixSkyMap", "TractInfo")
    r = healpix(e)
    r.size = r.n
    i = e.input_int("tract", 0)
    e.assume(i < r.n)
    t = r.map.generateTract(i)
    e.cover("tract")
    n, nest = core.lift(r.nside), core.truth(r.nest)
    to = functions()[0]

    def same(a, b):
        return conj(a.getLongitude().asRadians() == b.getLongitude().asRadians(),
                    a.getLatitude().asRadians() == b.getLatitude().asRadians())
    ctr = to((core.SymReal(hp.THETA(n, i.z, nest)), core.SymReal(hp.PHI(n, i.z, nest))))
    e.prove(same(t.getCtrCoord(), ctr), "the centre is that of the pixel")
    vs = find.as_list(t.getVertexList())
    e.prove(not vs.symbolic and len(vs.parts) == 4, "as many vertices as a pixel has corners")
    want = [to((core.SymReal(hp.BTHETA(n, i.z, nest, 1, j)), core.SymReal(hp.BPHI(n, i.z, nest, 1, j)))) for j in range(4)]
    for j, w in enumerate(want):
        e.prove(disj(*[same(v, w) for v in vs.parts]), "corner %d of the pixel is a vertex" % j)
    for v in vs.parts:
        e.prove(disj(*[same(v, w) for w in want]), "no other vertices")
    refs(e, r)
    e.prove(r.map.findTract(t.getCtrCoord()).getId() == i, "the centre is found in the tract")
    e.cover("found")


e_uses = "hpgeom gives each pixel a centre within the pixel and four corners; its angles have the documented ranges"
for _c in CONTRACTS:
    def _with(fn=_c.fn):
        def run(e):
            e.uses(e_uses)
            fn(e)
        return run
    _c.fn = _with()
